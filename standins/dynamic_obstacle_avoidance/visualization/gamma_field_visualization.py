def _no_plot(*args, **kwargs):
    return None


gamma_field_multihull = _no_plot


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    return _no_plot
