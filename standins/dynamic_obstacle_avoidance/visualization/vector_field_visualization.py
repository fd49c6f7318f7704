def _no_plot(*args, **kwargs):
    return None


Simulation_vectorFields = _no_plot


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _no_plot
