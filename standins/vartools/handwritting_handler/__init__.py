import numpy as np


class MotionDataHandler:
    """Container of demonstration samples (rows)."""

    def __init__(self, position=None, velocity=None, attractor=None):
        self.position = None if position is None else np.array(position, dtype=float)
        self.velocity = velocity
        self.attractor = attractor
        self.sequence_value = None

    @property
    def attractor_position(self):
        return self.attractor

    @property
    def dimension(self):
        return self.position.shape[1]

    @property
    def n_samples(self):
        return self.position.shape[0]

    @property
    def direction(self):
        norm = np.linalg.norm(self.velocity, axis=1)
        norm[norm == 0] = 1
        return self.velocity / norm[:, np.newaxis]

    @property
    def X(self):
        return np.hstack(
            (self.position, self.direction, self.sequence_value.reshape(-1, 1))
        )

    def get_normalized_data(self):
        X = self.X
        std = np.std(X, axis=0)
        std[std == 0] = 1
        return (X - np.mean(X, axis=0)) / std


class HandwrittingHandler(MotionDataHandler):
    def __init__(self, file_name=None, directory_name=None, **kwargs):
        super().__init__(**kwargs)


HandwrittingDataHandler = HandwrittingHandler
