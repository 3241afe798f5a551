"""Reviewed reference definitions of vectorbt.utils.image_ (functions as name__ref, methods as name__of__Class)."""
import imageio
import numpy as np
import plotly.graph_objects as go
from tqdm.auto import tqdm
from vectorbt import _typing as tp
from vectorbt.utils.image_ import hstack_image_arrays, vstack_image_arrays, save_animation


def hstack_image_arrays__ref(a, b):
    h1, w1, d = a.shape
    h2, w2, _ = b.shape
    c = np.full((max(h1, h2), w1 + w2, d), 255, np.uint8)
    c[:h1, :w1, :] = a
    c[:h2, w1:w1 + w2, :] = b
    return c


def vstack_image_arrays__ref(a, b):
    h1, w1, d = a.shape
    h2, w2, _ = b.shape
    c = np.full((h1 + h2, max(w1, w2), d), 255, np.uint8)
    c[:h1, :w1, :] = a
    c[h1:h1 + h2, :w2, :] = b
    return c


def save_animation__ref(fname, index, plot_func, *args, delta=None, step=1, fps=3, writer_kwargs=None, show_progress=True, tqdm_kwargs=None, to_image_kwargs=None, **kwargs):
    if writer_kwargs is None:
        writer_kwargs = {}
    else:
        writer_kwargs = dict(writer_kwargs)
    if 'duration' not in writer_kwargs:
        writer_kwargs['duration'] = 1000 / fps
    if tqdm_kwargs is None:
        tqdm_kwargs = {}
    if to_image_kwargs is None:
        to_image_kwargs = {}
    if delta is None:
        delta = len(index) // 2
    with imageio.get_writer(fname, **writer_kwargs) as writer:
        for i in tqdm(range(0, len(index) - delta, step), disable=not show_progress, **tqdm_kwargs):
            fig = plot_func(index[i:i + delta], *args, **kwargs)
            if isinstance(fig, (go.Figure, go.FigureWidget)):
                fig = fig.to_image(format='png', **to_image_kwargs)
            if not isinstance(fig, np.ndarray):
                fig = imageio.imread(fig)
            writer.append_data(fig)
