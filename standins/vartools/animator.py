"""Headless stand-in of the animator: the simulator owns the clock and the loop."""


class Animator:
    def __init__(
        self,
        it_max=100,
        dt_simulation=0.1,
        dt_sleep=0.0,
        animation_name=None,
        file_type=".mp4",
        **kwargs,
    ):
        self.it_max = it_max
        self.dt_simulation = dt_simulation
        self.dt_sleep = dt_sleep
        self.it_count = 0
        self.period_length = 1
        self.fig = None

    def setup(self, *args, **kwargs):
        raise NotImplementedError()

    def update_step(self, ii):
        raise NotImplementedError()

    def has_converged(self, ii):
        return False

    def run(self, save_animation=False):
        for ii in range(self.it_max):
            self.it_count = ii
            self.update_step(ii)
            if self.has_converged(ii):
                break
