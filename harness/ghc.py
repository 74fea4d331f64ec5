"""
Grasshopper components of the working tree, run as Grasshopper does: inputs by position, outputs by
the names that the metadata of the component declares.
"""
import json
import os

import core
import rhino

ROOT = os.path.join(core.SRC, "compas_cem", "ghpython", "components")
_loaded = {}


def setup():
    """Make compas_cem importable first, as CPython sees it, and Rhino's stand-ins then."""
    import compas_cem.diagrams  # noqa: F401
    import compas_cem.equilibrium  # noqa: F401
    import compas_cem.optimization  # noqa: F401
    rhino.install()


def names():
    return sorted(d[len("CompasCem_"):] for d in os.listdir(ROOT) if d.startswith("CompasCem_"))


def load(name):
    """(component class, input names, output names)"""
    if name not in _loaded:
        folder = os.path.join(ROOT, "CompasCem_" + name)
        path = os.path.join(folder, "code.py")
        with open(path) as f:
            code = compile(f.read(), path, "exec")
        scope = {"__name__": "gh_" + name, "__file__": path}
        exec(code, scope)
        import ghpythonlib.componentbase as cb
        base = cb.executingcomponent
        found = [v for v in scope.values() if isinstance(v, type) and issubclass(v, base) and v is not base]
        found = [v for v in found if v.__module__ == "gh_" + name] or found
        with open(os.path.join(folder, "metadata.json")) as f:
            meta = json.load(f)["ghpython"]
        _loaded[name] = (found[0], [i["name"] for i in meta.get("inputParameters", [])],
                         [i["name"] for i in meta.get("outputParameters", [])])
    return _loaded[name]


def raw(name, *inputs):
    return load(name)[0]().RunScript(*inputs)


def run(ctx, name, *inputs):
    """The single output, or a dictionary of outputs by their declared name; None when nothing came out."""
    cls, ins, outs = load(name)
    if len(inputs) != len(ins):
        ctx.fail("component {} declares the inputs {} and was to be given {} values".format(name, ins, len(inputs)))
    out = cls().RunScript(*inputs)
    ctx.event("component_runs")
    ctx.event("ran_" + name)
    if out is None:
        return None
    if len(outs) == 1:
        return out
    if len(out) != len(outs):
        ctx.fail("component {} declares the outputs {} and returned {} values".format(name, outs, len(out)))
    return dict(zip(outs, out))


def point(p):
    return rhino.Point3d(*p)


def vector(p):
    return rhino.Vector3d(*p)


def line(a, b):
    return rhino.Line(point(a), point(b))


def plane(o, n):
    return rhino.Plane(point(o), vector(n))


def polyline(pts):
    return rhino.Polyline([point(p) for p in pts])


def xyz(p):
    return [p.X, p.Y, p.Z]
