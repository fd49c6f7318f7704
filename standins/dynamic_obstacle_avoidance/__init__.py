"""Stand-in for the un-vendored third-party package ``dynamic_obstacle_avoidance``
(hubernikus), which is not installed in this sandbox.

Geometry (gamma, normals, surface points), containers and importance weights,
written from the package's public interface as /repo uses it.  It is part of the
simulated environment, never of the code under test."""
