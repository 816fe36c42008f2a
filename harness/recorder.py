"""
Stand-ins for the plot windows: the rendering is replaced by a record of what is drawn, shown, saved, and closed.

A saved picture is a small file containing the record of the plot (JSON), under the name given by the implementation.
"""

import json
import math
import os

from common import dec

STATE = {"open": [], "shown": [], "opened": [], "visible": []}


def reset():
    STATE["open"] = []
    STATE["shown"] = []
    STATE["opened"] = []
    STATE["visible"] = []


def get_mesh(mesh, arg):
    """
    Positions and values of a drawn object.
    """

    import numpy as np

    out = {"cls": type(mesh).__name__, "cells": int(mesh.n_cells), "points": int(mesh.n_points), "style": str(arg.get("style", "")),
           "scalars": "", "color": str(arg.get("color", "")), "where": "", "pos": [], "size": [], "val": [], "vec": [],
           "clim": [], "log": bool(arg.get("log_scale", False)), "clip": []}
    if arg.get("clim") is not None:
        out["clim"] = [dec(x) for x in arg["clim"]]
    if "normal" in arg:
        out["clip"] = [str(arg["normal"]), str(bool(arg.get("invert", False))), dec(arg.get("value", 0.0))]
    name = arg.get("scalars")
    if name is not None and not isinstance(name, str):
        raise ValueError("unexpected scalars")
    pts = np.asarray(mesh.points, dtype=float)
    glyph = "GlyphVector" in mesh.point_data
    poly = out["cls"] == "PolyData" and not glyph
    if name is not None:
        out["scalars"] = name
    if glyph:
        # arrows: position and vector of each arrow (affine map of the arrow along the x-axis)
        import vtk
        src = vtk.vtkArrowSource()
        src.Update()
        ref = np.array([src.GetOutput().GetPoint(k) for k in range(src.GetOutput().GetNumberOfPoints())])
        n = len(ref)
        out["where"] = "arrow"
        data = np.asarray(mesh.point_data[name]) if name else np.zeros(len(pts))
        mat = np.hstack((ref, np.ones((n, 1))))
        for k in range(len(pts)//n):
            (sol, _, _, _) = np.linalg.lstsq(mat, pts[k*n:(k+1)*n], rcond=None)
            out["pos"].append([dec(x) for x in sol[3]])
            out["vec"].append([dec(x) for x in sol[0]])
            out["val"].append(dec(data[k*n]))
    elif poly:
        out["where"] = "point"
        out["pos"] = [[dec(x) for x in p] for p in pts]
        if name:
            out["val"] = [dec(x) for x in np.asarray(mesh.point_data[name])]
    else:
        if name and name in mesh.point_data and name not in mesh.cell_data:
            # values at the points of an unstructured grid (extracted points)
            out["where"] = "point"
            out["pos"] = [[dec(x) for x in p] for p in pts]
            out["val"] = [dec(x) for x in np.asarray(mesh.point_data[name])]
        else:
            out["where"] = "cell"
            for k in range(mesh.n_cells):
                b = np.array(mesh.get_cell(k).bounds).reshape(3, 2)
                out["pos"].append([dec(x) for x in b.mean(axis=1)])
                out["size"].append([dec(x) for x in b[:, 1]-b[:, 0]])
            if name:
                out["val"] = [dec(x) for x in np.asarray(mesh.cell_data[name])]
    if "cmap" in arg and isinstance(arg["cmap"], (list, tuple)):
        out["cmap"] = [str(x) for x in arg["cmap"]]
        clim = [float(x) for x in arg["clim"]]
        # index of the color of each value
        out["index"] = [min(len(arg["cmap"])-1, max(0, math.floor((float(v)-clim[0])/(clim[1]-clim[0])*len(arg["cmap"]))))
                        for v in out["val"]]
    return out


class Window:
    def __init__(self, owner):
        self.owner = owner

    def show(self, *_, **__):
        self.owner.show()

    def close(self, *_, **__):
        self.owner.close()

    def __getattr__(self, name):
        return lambda *_, **__: None


class Plotter:
    """
    Stand-in for pyvista.Plotter and pyvistaqt.BackgroundPlotter.
    """

    def __init__(self, *_, **kwargs):
        self.rec_drawn = []
        self.rec_text = []
        self.rec_title = str(kwargs.get("title", ""))
        self.camera = type("Camera", (), {})()
        self.app_window = Window(self)
        STATE["open"].append(self)
        STATE["opened"].append(self)

    def add_mesh(self, mesh, **kwargs):
        self.rec_drawn.append(get_mesh(mesh, kwargs))

    def add_mesh_clip_plane(self, mesh, **kwargs):
        self.rec_drawn.append(get_mesh(mesh, kwargs))

    def add_text(self, text, *_, **__):
        self.rec_text.append(str(text))

    def record(self):
        return {"framework": "pyvista", "text": self.rec_text, "title": self.rec_title, "drawn": self.rec_drawn, "lines": [], "bars": []}

    def show(self, *_, **kwargs):
        if self in STATE["open"] and self not in STATE["visible"]:
            STATE["visible"].append(self)
            STATE["shown"].append(self.record())

    def screenshot(self, filename=None, *_, **__):
        with open(filename, "w") as fid:
            json.dump(self.record(), fid)

    def close(self, *_, **__):
        if self in STATE["open"]:
            STATE["open"].remove(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *_, **__: None


def figure_record(fig):
    """
    Content of a figure.
    """

    import numpy as np

    out = {"framework": "matplotlib", "text": [], "title": "", "drawn": [], "lines": [], "bars": []}
    try:
        out["title"] = fig.canvas.manager.window.windowTitle()
    except Exception:  # noqa: BLE001
        pass
    for ax in fig.axes:
        out["text"].append(ax.get_title())
        for line in sorted(ax.lines, key=lambda x: x.get_label()):
            out["lines"].append([dec(x) for x in np.asarray(line.get_ydata())])
        for bar in ax.patches:
            out["bars"].append([dec(bar.get_x()), dec(bar.get_x()+bar.get_width()), dec(bar.get_height())])
    return out


def savefig(fig, filename, *_, **__):
    with open(filename, "w") as fid:
        json.dump(figure_record(fig), fid)


def install():
    """
    Replace the windows (before the implementation is imported).
    """

    import matplotlib.figure
    import pyvista

    pyvista.Plotter = Plotter
    pyvista.set_jupyter_backend = lambda *_, **__: None
    matplotlib.figure.Figure.savefig = savefig


def install_qt():
    """
    Replace the event loop and the windows of the Qt framework.
    """

    import PyQt5.QtWidgets
    import pyvistaqt

    pyvistaqt.BackgroundPlotter = Plotter
    PyQt5.QtWidgets.QApplication.exec = lambda *_, **__: 0
    PyQt5.QtWidgets.QApplication.exec_ = lambda *_, **__: 0


def collect(folder):
    """
    Files in a folder (recursively), with the records.
    """

    out = []
    for (root, _, names) in os.walk(folder):
        for name in sorted(names):
            path = os.path.join(root, name)
            try:
                with open(path) as fid:
                    rec = json.load(fid)
            except Exception:  # noqa: BLE001
                rec = None
            out.append({"name": os.path.relpath(path, folder), "rec": rec})
    return out
