def circular_space_setup(*args, **kwargs):
    return None
