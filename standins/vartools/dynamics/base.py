from vartools.dynamical_systems import DynamicalSystem, Dynamics
