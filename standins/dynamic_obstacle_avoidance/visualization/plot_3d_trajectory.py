def _no_plot(*args, **kwargs):
    return None


plot_3d_trajectory = _no_plot


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _no_plot
