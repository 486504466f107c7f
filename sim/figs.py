"""What a matplotlib figure shows, as a comparable value (from its artists, without rendering)."""
import numpy as np
import matplotlib.pyplot as plt
from matplotlib import colors as mcolors
from matplotlib.collections import Collection
from matplotlib.image import AxesImage
from matplotlib.lines import Line2D
from matplotlib.patches import Patch
from matplotlib.spines import Spine
from matplotlib.axis import Axis
from matplotlib.text import Text

from . import data


def _num(x):
    a = np.asarray(x)
    if np.ma.isMaskedArray(x):
        a = np.ma.filled(x.astype(float), np.nan)
    if a.dtype.kind == "c":
        return ("nd", np.array(a, dtype=complex))
    if a.dtype.kind in "fiub":
        return ("nd", np.array(a, dtype=float))
    return ("lit", str(a.tolist())[:400])


def _col(c):
    try:
        return _num(mcolors.to_rgba_array(c))
    except Exception:
        return ("lit", str(c)[:60])


def _cmap(a):
    """Name and colours of a map (under, over and undefined values included)."""
    m = a.get_cmap()
    return ("seq", [_lit(m.name), _num(m(np.ma.masked_invalid([-0.1, 0.0, 0.1, 0.25, 0.5, 0.75, 0.9, 1.0, 1.1, np.nan])))])


def _label(a):
    s = str(a.get_label())
    return "" if s.startswith("_child") else s       # matplotlib's own numbering


def _clim(a):
    return _num([np.nan if v is None else v for v in a.get_clim()])


def _text(a):
    return ("seq", [_lit(a.get_text()), _num([a.get_fontsize(), a.get_rotation()]), _col(a.get_color()),
                    _lit(str(a.get_fontweight())), _lit(str(a.get_ha()) + str(a.get_va())), _lit(bool(a.get_visible()))])


def _ticks(axis):
    """Tick positions (and texts where they are fixed)."""
    f = axis.get_major_formatter()
    out = [_lit(str(list(getattr(f, "seq", ()))))]
    if type(axis.get_major_locator()).__name__ == "FixedLocator":
        out.append(_num(axis.get_major_locator().locs))
    kw = axis._major_tick_kw
    out.append(_lit(str(sorted((k, str(v)) for k, v in kw.items() if k != "gridOn"))))
    return ("seq", out)


def _lit(x):
    return ("lit", x)


def _artist(a):
    t = type(a).__name__
    out = [_lit(t), _lit(bool(a.get_visible())), _lit(str(a.get_alpha())), _num([a.get_zorder()]),
           _lit(_label(a)), _lit(bool(a.get_clip_on()))]
    if isinstance(a, Line2D):
        out += [_num(a.get_xdata(orig=False)), _num(a.get_ydata(orig=False)), _lit(str(a.get_linestyle())),
                _lit(str(a.get_marker())), _num([a.get_linewidth(), a.get_markersize()]), _col(a.get_color()),
                _lit(str(a.get_drawstyle()))]
    elif isinstance(a, AxesImage):
        out += [_num(a.get_array()), _num(a.get_extent()), _num(a.get_clim()), _cmap(a),
                _lit(a.origin), _lit(str(a.get_interpolation()))]
    elif isinstance(a, Collection):
        if hasattr(a, "_vec"):
            out.append(_num(a._vec))
        if hasattr(a, "_segments3d"):
            segs = a._segments3d
            out.append(_num(np.concatenate([np.asarray(s, float).ravel() for s in segs]) if len(segs) else []))
        ps = a.get_paths()
        vs = [np.asarray(p.vertices, float).ravel() for p in ps]
        out.append(_num([v.size for v in vs]))
        if not hasattr(a, "_vec") and not hasattr(a, "_segments3d"):
            out.append(_num(np.concatenate(vs) if vs else []))
        if hasattr(a, "levels"):
            out.append(_num(a.levels))
        arr = a.get_array()
        out += [_num(np.ravel(a.get_linewidth())), _lit(str(a.get_linestyle())[:200])]
        if arr is not None:
            out += [_num(arr), _cmap(a), _clim(a)]
        elif not hasattr(a, "_vec") and not hasattr(a, "_segments3d"):
            out += [_col(a.get_edgecolor()), _col(a.get_facecolor())]
    elif isinstance(a, Text):
        out += [_text(a), _num(a.get_position())]
    elif isinstance(a, Patch):
        out += [_num(a.get_path().vertices), _col(a.get_facecolor()), _col(a.get_edgecolor()), _num([a.get_linewidth()])]
    return ("seq", out)


def axes(ax):
    out = [_lit(type(ax).__name__), _text(ax.title), _text(ax.xaxis.label), _text(ax.yaxis.label),
           _col(ax.get_facecolor()), _lit(bool(ax.axison)), _lit(bool(getattr(ax, "_frameon", True))), _num([ax.get_zorder()]),
           _num(ax.get_position(original=True).bounds), _lit(bool(ax.get_visible())), _lit(ax.get_aspect() if isinstance(ax.get_aspect(), str)
                                                                     else "n")]
    out += [_num(ax.get_xlim()), _num(ax.get_ylim()), _lit(ax.get_xscale()), _lit(ax.get_yscale())]
    if hasattr(ax, "get_zlabel"):
        out += [_lit(ax.get_zlabel()), _num(ax.get_zlim())]
    for axis in (ax.xaxis, ax.yaxis):
        out += [_lit(bool(axis._major_tick_kw.get("gridOn"))), _lit(type(axis.get_major_formatter()).__name__),
                _lit(type(axis.get_major_locator()).__name__), _lit(axis.get_label_position()), _ticks(axis)]
    kids = []
    skip = (ax.patch, ax.title, ax._left_title, ax._right_title)
    for a in ax.get_children():
        if isinstance(a, (Spine, Axis)) or any(a is s for s in skip):
            continue
        kids.append(_artist(a))
    out.append(("seq", kids))
    lg = ax.get_legend()
    out.append(_lit(None if lg is None else [t.get_text() for t in lg.get_texts()]))
    return ("seq", out)


def figure(fig):
    """The contents of one figure."""
    out = [_num(fig.get_size_inches()), _num([fig.get_dpi()]), _lit(fig._suptitle.get_text() if fig._suptitle else "")]
    out.append(("seq", [axes(a) for a in fig.get_axes()]))
    out.append(_num([len(fig.texts), len(fig.lines), len(fig.images), len(fig.patches), len(fig.artists),
                     len(fig.legends)]))
    return ("seq", out)


def snapshot():
    """Contents of every open figure, by number (without changing the current figure)."""
    from matplotlib import _pylab_helpers
    g = _pylab_helpers.Gcf
    return {n: figure(g.figs[n].canvas.figure) for n in sorted(g.figs)}


def numbers():
    return tuple(plt.get_fignums())


def same(a, b):
    return data.same(a, b)
