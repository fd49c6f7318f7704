"""Deterministic simulation with fault injection for nonlinear_obstacle_avoidance."""
