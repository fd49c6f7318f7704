def hex_to_rgba(h, alpha=255):
    h = h.lstrip("#")
    return tuple(int(h[i : i + 2], 16) for i in (0, 2, 4)) + (alpha,)


def hex_to_rgba_float(h, alpha=1.0):
    return tuple(v / 255.0 for v in hex_to_rgba(h)[:3]) + (alpha,)
