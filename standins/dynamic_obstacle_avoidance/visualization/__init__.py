def _no_plot(*args, **kwargs):
    return None


plot_obstacles = _no_plot
plot_obstacle_dynamics = _no_plot
Simulation_vectorFields = _no_plot


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _no_plot
