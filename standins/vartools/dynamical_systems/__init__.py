from ._base import DynamicalSystem, Dynamics
from .linear import *
from .linear import (
    ConstantValue,
    LinearSystem,
    LocallyRotated,
    QuadraticAxisConvergence,
    AxesFollowingDynamics,
    CircularStable,
    SpiralStable,
    BifurcationSpiral,
    CircularLinear,
    SinusAttractorSystem,
    WavyRotatedDynamics,
)


def _no_plot(*args, **kwargs):
    return None, None


plot_dynamical_system = _no_plot
plot_dynamical_system_quiver = _no_plot
plot_dynamical_system_streamplot = _no_plot
plot_vectorfield = _no_plot
