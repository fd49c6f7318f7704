"""Constant-gain filters which estimate a state (and its rate) from samples."""
import numpy as np
from scipy.spatial.transform import Rotation, Slerp


class PositionFilter:
    def __init__(self, update_frequency, initial_position, gain=0.5):
        self.update_frequency = update_frequency
        self.gain = gain
        self._position = np.array(initial_position, dtype=float)
        self._velocity = np.zeros_like(self._position)
        self.n_updates = 0

    @property
    def position(self):
        return self._position

    @property
    def velocity(self):
        return self._velocity

    def run_once(self, position):
        position = np.asarray(position, dtype=float)
        new_position = (1 - self.gain) * self._position + self.gain * position
        self._velocity = (new_position - self._position) * self.update_frequency
        self._position = new_position
        self.n_updates += 1


class SimpleOrientationFilter:
    def __init__(self, update_frequency, initial_orientation, gain=0.5):
        self.update_frequency = update_frequency
        self.gain = gain
        self._rotation = initial_orientation
        self.n_updates = 0

    @property
    def rotation(self):
        return self._rotation

    @property
    def orientation(self):
        return self._rotation

    def run_once(self, rotation):
        delta = (self._rotation.inv() * rotation).as_rotvec()
        self._rotation = self._rotation * Rotation.from_rotvec(self.gain * delta)
        self.n_updates += 1
