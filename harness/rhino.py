"""
Stand-ins for what Rhino and Grasshopper provide, so that the Grasshopper side of
compas_cem runs here together with the real compas_rhino and compas_ghpython packages.

Geometry types carry coordinates; everything else is an empty class made on demand.
"""
import importlib.abc
import importlib.machinery
import sys
import types
from unittest import mock

ROOTS = ("Rhino", "System", "rhinoscriptsyntax", "scriptcontext", "ghpythonlib", "Grasshopper", "clr", "Eto", "compas_bootstrapper")


class Point3d(object):
    def __init__(self, x=0.0, y=0.0, z=0.0):
        self.X, self.Y, self.Z = float(x), float(y), float(z)

    def __iter__(self):
        return iter((self.X, self.Y, self.Z))

    def __repr__(self):
        return "{}({}, {}, {})".format(type(self).__name__, self.X, self.Y, self.Z)


class Vector3d(Point3d):
    pass


class Line(object):
    def __init__(self, a, b):
        self.From, self.To = a, b


class Plane(object):
    def __init__(self, origin, *axes):
        self.Origin = origin
        self.Normal = axes[-1]


class Polyline(list):
    pass


class PolylineCurve(list):
    pass


GEOMETRY = {c.__name__: c for c in (Point3d, Vector3d, Line, Plane, Polyline, PolylineCurve)}


class Stub(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in GEOMETRY and self.__name__ == "Rhino.Geometry":
            return GEOMETRY[name]
        made = type(name, (object,), {"__init__": lambda self, *a, **k: None})
        setattr(self, name, made)
        return made


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] in ROOTS:
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)

    def create_module(self, spec):
        return Stub(spec.name)

    def exec_module(self, module):
        module.__path__ = []


def install():
    """Idempotent; to be called in a worker process only."""
    if any(isinstance(f, Finder) for f in sys.meta_path):
        return
    sys.meta_path.insert(0, Finder())
    import compas
    compas.RHINO = True
    compas.GH = True
    compas.is_grasshopper = lambda: True
    compas.is_rhino = lambda: True
    import scriptcontext
    scriptcontext.sticky = {}
    scriptcontext.doc = mock.MagicMock()
    scriptcontext.doc.ModelAbsoluteTolerance = 1e-3
    import rhinoscriptsyntax as rs
    rs.AddPoint = lambda x, y, z: Point3d(x, y, z)
    rs.CreateColor = lambda *c: ("color",) + tuple(c[0] if len(c) == 1 else c)
    import ghpythonlib.componentbase as cb
    cb.executingcomponent = type("executingcomponent", (object,), {})
    import compas_bootstrapper
    compas_bootstrapper.ENVIRONMENT_NAME = "here"
