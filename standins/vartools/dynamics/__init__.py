from vartools.dynamical_systems import *
from vartools.dynamical_systems import DynamicalSystem, Dynamics
