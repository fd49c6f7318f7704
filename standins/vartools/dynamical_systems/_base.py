from abc import ABC, abstractmethod

import numpy as np
from numpy import linalg as LA

from vartools.states import ObjectPose


class DynamicalSystem(ABC):
    def __init__(
        self, pose=None, maximum_velocity=None, dimension=None, attractor_position=None
    ):
        self.maximum_velocity = maximum_velocity
        if pose is not None:
            self.pose = pose
        elif attractor_position is not None:
            self.pose = ObjectPose(position=np.zeros(len(attractor_position)))
        else:
            self.pose = ObjectPose(position=np.zeros(dimension or 2))
        self._attractor_position = (
            None if attractor_position is None else np.array(attractor_position)
        )

    @property
    def dimension(self):
        if self.__dict__.get("_attractor_position") is not None:
            return self._attractor_position.shape[0]
        return self.pose.dimension

    @dimension.setter
    def dimension(self, value):
        pass

    @property
    def attractor_position(self):
        if (value := self.__dict__.get("_attractor_position")) is None:
            # As for 'non-stable' systems upstream: hasattr(..) is False
            raise AttributeError("This dynamical system has no attractor.")
        return value

    @attractor_position.setter
    def attractor_position(self, value):
        self._attractor_position = value

    def limit_velocity(self, velocity, maximum_velocity=None):
        if maximum_velocity is None:
            maximum_velocity = self.maximum_velocity
        if maximum_velocity is None:
            return velocity
        magnitude = LA.norm(velocity)
        if magnitude > maximum_velocity:
            velocity = velocity / magnitude * maximum_velocity
        return velocity

    @abstractmethod
    def evaluate(self, position):
        pass

    def evaluate_array(self, positions):
        return np.array([self.evaluate(pp) for pp in positions.T]).T

    def check_convergence(self, *args, **kwargs):
        raise NotImplementedError()

    def motion_integration(self, start_position, dt, delta_velocity=1e-6, it_max=1000):
        raise NotImplementedError()


Dynamics = DynamicalSystem
