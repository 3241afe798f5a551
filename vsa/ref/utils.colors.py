"""Reviewed reference definitions of vectorbt.utils.colors (functions as name__ref, methods as name__of__Class)."""
import numpy as np
from vectorbt import _typing as tp
from vectorbt.utils.colors import rgb_from_cmap, adjust_opacity, adjust_lightness


def rgb_from_cmap__ref(cmap_name, value, value_range):
    import matplotlib.pyplot as plt
    if value_range[0] == value_range[1]:
        norm_value = 0.5
    else:
        norm_value = (value - value_range[0]) / (value_range[1] - value_range[0])
    cmap = plt.get_cmap(cmap_name)
    return 'rgb(%d,%d,%d)' % tuple(np.round(np.asarray(cmap(norm_value))[:3] * 255))


def adjust_opacity__ref(color, opacity):
    import matplotlib.colors as mc
    rgb = mc.to_rgb(color)
    return 'rgba(%d,%d,%d,%.4f)' % (int(rgb[0] * 255), int(rgb[1] * 255), int(rgb[2] * 255), opacity)


def adjust_lightness__ref(color, amount=0.7):
    import matplotlib.colors as mc
    import colorsys
    try:
        c = mc.cnames[color]
    except:
        c = color
    c = colorsys.rgb_to_hls(*mc.to_rgb(c))
    rgb = colorsys.hls_to_rgb(c[0], max(0, min(1, amount * c[1])), c[2])
    return 'rgb(%d,%d,%d)' % (int(rgb[0] * 255), int(rgb[1] * 255), int(rgb[2] * 255))
