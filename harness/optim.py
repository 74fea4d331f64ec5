"""
Optimization problems: generator, independent objective and the monitored solver boundary.

The numerical solver (nlopt, a compiled library) is the boundary: MonitoredOpt is an nlopt.opt that
records every evaluation that crosses it -- parameters, objective value, gradient -- together with
bounds, limits and outcome, and can inject the failures nlopt is documented to raise.
"""
import copy

import numpy as np
import nlopt

import gen
import oracle

# ----------------------------------------------------------------------------
# the solver boundary
# ----------------------------------------------------------------------------

_Real = nlopt.opt
LOG = []
FAULT = {"after": None, "exc": None, "end": None}


class MonitoredOpt(_Real):
    def __init__(self, *args):
        _Real.__init__(self, *args)
        self.record = {"low": None, "up": None, "maxeval": None, "evals": [], "x0": None, "x": None, "exc": None,
                       "dims": args[1] if len(args) > 1 else None, "algorithm": args[0] if args else None,
                       "stopval": None, "raised": False, "callback_exc": None, "ftol": None, "result": None}

    def set_lower_bounds(self, x):
        self.record["low"] = np.array(x, dtype=float)
        return _Real.set_lower_bounds(self, x)

    def set_upper_bounds(self, x):
        self.record["up"] = np.array(x, dtype=float)
        return _Real.set_upper_bounds(self, x)

    def set_maxeval(self, n):
        self.record["maxeval"] = n
        return _Real.set_maxeval(self, n)

    def set_stopval(self, v):
        self.record["stopval"] = v
        return _Real.set_stopval(self, v)

    def set_ftol_abs(self, v):
        self.record["ftol"] = v
        return _Real.set_ftol_abs(self, v)

    def set_min_objective(self, f, *args):
        record = self.record

        def watched(x, grad):
            if record["raised"]:
                return 0.0  # nlopt is unwinding
            if FAULT["after"] is not None and len(record["evals"]) >= FAULT["after"]:
                record["raised"] = True
                raise type(FAULT["exc"])(*FAULT["exc"].args)
            try:
                fx = f(x, grad)
            except Exception as e:
                record["callback_exc"] = e
                raise
            record["evals"].append((np.array(x, dtype=float), float(fx), np.array(grad, dtype=float) if grad.size else None))
            return fx
        return _Real.set_min_objective(self, watched, *args)

    def optimize(self, x):
        self.record["x0"] = np.array(x, dtype=float)
        self.record["effective"] = {"maxeval": _Real.get_maxeval(self), "stopval": _Real.get_stopval(self),
                                    "ftol_abs": _Real.get_ftol_abs(self), "ftol_rel": _Real.get_ftol_rel(self),
                                    "maxtime": _Real.get_maxtime(self), "xtol_rel": _Real.get_xtol_rel(self),
                                    "xtol_abs": float(np.max(_Real.get_xtol_abs(self)))}
        LOG.append(self.record)
        try:
            out = _Real.optimize(self, x)
        except Exception as e:
            self.record["exc"] = e
            self.record["result"] = _outcome(e)
            raise
        if FAULT["end"] is not None:
            self.record["exc"] = type(FAULT["end"])(*FAULT["end"].args)
            self.record["result"] = _outcome(self.record["exc"])
            raise self.record["exc"]
        self.record["x"] = np.array(out, dtype=float)
        self.record["result"] = _Real.last_optimize_result(self)
        self.record["numevals"] = _Real.get_numevals(self)
        return out

    def last_optimize_result(self):
        if self.record["result"] is None:
            return _Real.last_optimize_result(self)
        return self.record["result"]


def _outcome(err):
    """The result code nlopt leaves behind when it raises this error."""
    if isinstance(err, nlopt.RoundoffLimited):
        return -4
    if isinstance(err, nlopt.ForcedStop):
        return -5
    return -1


nlopt.opt = MonitoredOpt

ALGORITHMS = ["SLSQP", "LBFGS", "MMA", "TNEWTON", "AUGLAG", "VAR"]


def monitored(f, *args, **kwargs):
    """Run f and return (result, exception, records of the solvers it ran)."""
    del LOG[:]
    out, exc = None, None
    try:
        out = f(*args, **kwargs)
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        exc = e
    return out, exc, list(LOG)


def unsteady(a, b, again):
    """The traces a and b of the same problem differ, and so do those of running it again: the solver itself (the order in
    which gradients are summed depends on where things are in memory) decides differently from run to run."""
    def trace(r):
        return len(r["evals"]), repr(r["exc"]), None if r["x"] is None else [round(float(v), 9) for v in r["x"]]
    if trace(a) == trace(b):
        return False
    if a["evals"] and b["evals"] and -4 in (a["result"], b["result"]):
        # one of them stopped because rounding is all that is left: where exactly is a matter of the last digits
        best = [min(e[1] for e in r["evals"]) for r in (a, b)]
        if abs(best[0] - best[1]) <= 1e-8 * max(map(abs, best)):
            return True
    keep = []
    for i in range(6):
        keep.append(np.zeros(1000 + 37 * i))
        out, err, rec = again()
        if not rec or trace(rec[-1]) != trace(a):
            return True
    return False


def diverged(err, rec):
    """Form-finding did not converge at a point the solver tried. NLopt may call the objective again after it
    raised, and then reports a forced stop instead of the error."""
    return isinstance(err, ValueError) or (isinstance(err, nlopt.ForcedStop) and
                                           any(isinstance(r["callback_exc"], ValueError) for r in rec))


class fault(object):
    """Make the solver fail after so many evaluations."""

    def __init__(self, after, exc):
        self.after, self.exc = after, exc

    def __enter__(self):
        FAULT.update(after=self.after, exc=self.exc)

    def __exit__(self, *a):
        FAULT.update(after=None, exc=None)


class fault_at_end(object):
    """Make the solver fail when it is done."""

    def __init__(self, exc):
        self.exc = exc

    def __enter__(self):
        FAULT.update(end=self.exc)

    def __exit__(self, *a):
        FAULT.update(end=None)


# ----------------------------------------------------------------------------
# independent geometry
# ----------------------------------------------------------------------------

def closest_on_line(p, a, b):
    d = b - a
    return a + d * ((p - a) @ d) / (d @ d)


def closest_on_segment(p, a, b):
    d = b - a
    t = ((p - a) @ d) / (d @ d)
    return a + d * min(1.0, max(0.0, t))


def penalty_of(con, st):
    """weight * squared distance to the target. st: xyz, trail_force (unordered edges), reaction."""
    kind, key, target, weight = con
    if kind in ("point", "line", "plane", "polyline"):
        p = np.array(st["xyz"][key], dtype=float)
        if kind == "point":
            d = p - np.array(target)
        elif kind == "line":
            d = p - closest_on_line(p, np.array(target[0]), np.array(target[1]))
        elif kind == "plane":
            n = np.array(target[1]) / np.linalg.norm(target[1])
            d = n * ((p - np.array(target[0])) @ n)
        else:
            pts = [np.array(x) for x in target]
            best = [p - closest_on_segment(p, a, b) for a, b in zip(pts[:-1], pts[1:])]
            d = min(best, key=lambda v: v @ v)
        return weight * float(d @ d)
    if kind == "reaction":
        d = np.array(st["reaction"][key], dtype=float) - np.array(target)
        return weight * float(d @ d)
    if kind == "trail_force":
        return weight * (float(st["trail_force"][frozenset(key)]) - target) ** 2
    if kind == "length":
        d = np.array(st["xyz"][key[0]], dtype=float) - np.array(st["xyz"][key[1]], dtype=float)
        return weight * (float(np.linalg.norm(d)) - target) ** 2
    if kind == "direction":
        d = np.array(st["xyz"][key[1]], dtype=float) - np.array(st["xyz"][key[0]], dtype=float)
        d = d / np.linalg.norm(d)
        t = np.array(target) / np.linalg.norm(target)
        return weight * float(min((d - t) @ (d - t), (d + t) @ (d + t)))
    raise ValueError(kind)


def kink_margin(con, st, g):
    """How close the penalty is to a point where it is not differentiable (relative to the geometry scale)."""
    kind, key, target, weight = con
    if kind == "polyline":
        p = np.array(st["xyz"][key], dtype=float)
        pts = [np.array(x) for x in target]
        ds = sorted(float(np.linalg.norm(p - closest_on_segment(p, a, b))) for a, b in zip(pts[:-1], pts[1:]))
        # two segments meet at a vertex: equal distances are fine when the closest point is the shared vertex
        m = np.inf
        for a, b in zip(pts[:-1], pts[1:]):
            d = b - a
            t = ((p - a) @ d) / (d @ d)
            m = min(m, abs(t), abs(1 - t))
        if len(ds) > 1 and ds[1] - ds[0] > 1e-9 * g:
            m = min(m, (ds[1] - ds[0]) / g)
        elif len(ds) > 1:
            m = 0.0
        return m
    if kind == "direction":
        d = np.array(st["xyz"][key[1]], dtype=float) - np.array(st["xyz"][key[0]], dtype=float)
        return abs(float(d / np.linalg.norm(d) @ (np.array(target) / np.linalg.norm(target))))
    if kind == "length":
        d = np.array(st["xyz"][key[0]], dtype=float) - np.array(st["xyz"][key[1]], dtype=float)
        return float(np.linalg.norm(d)) / g
    return np.inf


# ----------------------------------------------------------------------------
# problems
# ----------------------------------------------------------------------------

PARAMS = ["origin_x", "origin_y", "origin_z", "load_x", "load_y", "load_z", "deviation", "trail"]
CONSTRAINTS = ["point", "line", "plane", "polyline", "reaction", "trail_force", "length", "direction"]


def ref_state(ref):
    return {"xyz": ref["xyz"], "trail_force": ref["trail_force"], "reaction": ref["reaction"]}


def make_params(rng, spec, count=None, bounds=True, span=0.15):
    """[kind, key, low, up]: relative spans of the scale of what they move."""
    g, f = spec["gscale"], spec["fscale"]
    pool = []
    for t in spec["trails"]:
        for ax in "xyz":
            pool.append(("origin_" + ax, t[0]))
    for k, _ in spec["nodes"]:
        for ax in "xyz":
            pool.append(("load_" + ax, k))
    for e in spec["edges"]:
        if e[2] == "deviation":
            pool += [("deviation", (e[0], e[1]))] * 2
        elif e[4] is None:
            pool += [("trail", (e[0], e[1]))] * 4
        else:
            # the plane decides: the length is free to move, and moves nothing
            pool += [("trail", (e[0], e[1]))]
    kinds = sorted({p[0] for p in pool})
    count = count or int(rng.integers(1, 9))
    out, used = [], set()
    for _ in range(4 * count):
        k = gen.pick(rng, kinds)
        p = gen.pick(rng, [x for x in pool if x[0] == k])
        if p in used:
            continue
        used.add(p)
        sc = span * (g if p[0].startswith("origin") or p[0] == "trail" else f)
        low = float(sc * rng.uniform(0.1, 1.0))
        up = float(sc * rng.uniform(0.1, 1.0))
        if bounds and rng.random() < 0.1:
            low = 0.0
        if bounds and rng.random() < 0.15:
            low = -low
        if bounds and rng.random() < 0.15:
            up = -up
        if bounds == "open" and rng.random() < 0.3:
            low = None
        if bounds == "open" and rng.random() < 0.3:
            up = None
        out.append([p[0], p[1], low, up])
        if len(out) == count:
            break
    return out


def make_constraints(rng, spec, ref, count=None, kinds=None, spread=0.2):
    g, f = spec["gscale"], max(spec["fscale"], 0.3 * ref["max_residual"])
    out = []
    nodes = [k for k, _ in spec["nodes"]]
    dev = [(e[0], e[1]) for e in spec["edges"] if e[2] == "deviation"]
    trail = [(e[0], e[1]) for e in spec["edges"] if e[2] == "trail"]
    for _ in range(count or int(rng.integers(1, 6))):
        kind = gen.pick(rng, kinds or CONSTRAINTS)
        if kind == "length" and not dev:
            kind = "point"
        w = 1.0 if rng.random() < 0.5 else float(rng.uniform(0.1, 5.0))
        if kind in ("point", "line", "plane", "polyline"):
            k = gen.pick(rng, nodes)
            p = ref["xyz"][k] + spread * g * rng.normal(size=3)
            if kind == "point":
                target = gen.flist(p)
            elif kind == "line":
                d = gen.unit(rng) * g * rng.uniform(0.2, 3.0)
                target = [gen.flist(p + 2.0 * rng.normal() * d), None]
                target[1] = gen.flist(np.array(target[0]) + d)
            elif kind == "plane":
                target = [gen.flist(p), gen.flist(gen.unit(rng) * float(gen.pick(rng, [1.0, 1.0, 0.3, 4.0])))]
            else:
                m = int(rng.integers(2, 6))
                pts = p + g * 0.8 * np.cumsum(rng.normal(size=(m, 3)), axis=0)
                target = [gen.flist(x) for x in pts]
            out.append([kind, k, target, w])
        elif kind == "reaction":
            k = gen.pick(rng, spec["supports"])
            out.append([kind, k, gen.flist(ref["reaction"][k] + spread * f * rng.normal(size=3)), w])
        elif kind == "trail_force":
            e = gen.pick(rng, trail)
            out.append([kind, e, float(ref["trail_force"][frozenset(e)] + spread * f * rng.normal()), w])
        elif kind == "length":
            e = gen.pick(rng, dev)
            d = float(np.linalg.norm(ref["xyz"][e[0]] - ref["xyz"][e[1]]))
            out.append([kind, e, float(d * rng.uniform(0.6, 1.5)), w])
        else:
            e = gen.pick(rng, dev + trail)
            if rng.random() < 0.4:
                e = (e[1], e[0])
            d = ref["xyz"][e[1]] - ref["xyz"][e[0]]
            d = d / np.linalg.norm(d) + 0.6 * rng.normal(size=3)
            d = d * rng.uniform(0.2, 4.0) * gen.pick(rng, [-1.0, 1.0])
            out.append([kind, e, gen.flist(d), w])
    return out


def start_values(spec, params):
    xyz = dict((k, p) for k, p in spec["nodes"])
    load = dict((k, q) for k, q in spec["loads"])
    edge = {(e[0], e[1]): e[3] for e in spec["edges"]}
    out = []
    for kind, key, _, _ in params:
        if kind.startswith("origin"):
            out.append(xyz[key]["xyz".index(kind[-1])])
        elif kind.startswith("load"):
            out.append(load.get(key, [0.0, 0.0, 0.0])["xyz".index(kind[-1])])
        else:
            out.append(edge[key])
    return np.array(out, dtype=float)


def apply_values(spec, params, x):
    s = copy.deepcopy(spec)
    xyz = {k: p for k, p in s["nodes"]}
    for (kind, key, _, _), v in zip(params, x):
        v = float(v)
        if kind.startswith("origin"):
            xyz[key]["xyz".index(kind[-1])] = v
        elif kind.startswith("load"):
            for q in s["loads"]:
                if q[0] == key:
                    q[1]["xyz".index(kind[-1])] = v
                    break
            else:
                q = [0.0, 0.0, 0.0]
                q["xyz".index(kind[-1])] = v
                s["loads"].append([key, q])
        else:
            for e in s["edges"]:
                if (e[0], e[1]) == tuple(key):
                    e[3] = v
    return s


def objective(spec, params, cons, x, tol=1e-13):
    s = apply_values(spec, params, x)
    ref = oracle.solve(s, max_iter=400, tol=tol)
    st = ref_state(ref)
    return sum(penalty_of(c, st) for c in cons), s, ref


def numeric_gradient(spec, params, cons, x, h=None):
    """Central differences at two steps; returns (gradient, error estimate)."""
    x = np.array(x, dtype=float)
    grads = []
    for fac in (1e-5, 2e-5):
        gr = np.zeros(len(x))
        for i in range(len(x)):
            kind = params[i][0]
            sc = spec["gscale"] if kind.startswith("origin") or kind == "trail" else spec["fscale"]
            step = fac * sc
            a, b = x.copy(), x.copy()
            a[i] += step
            b[i] -= step
            fa, _, _ = objective(spec, params, cons, a)
            fb, _, _ = objective(spec, params, cons, b)
            gr[i] = (fa - fb) / (2 * step)
        grads.append(gr)
    return grads[0], np.abs(grads[0] - grads[1])


# ----------------------------------------------------------------------------
# through the public API
# ----------------------------------------------------------------------------

def param_object(p):
    from compas_cem.optimization import (DeviationEdgeParameter, NodeLoadXParameter, NodeLoadYParameter, NodeLoadZParameter,
                                         OriginNodeXParameter, OriginNodeYParameter, OriginNodeZParameter,
                                         TrailEdgeParameter)
    cls = {"origin_x": OriginNodeXParameter, "origin_y": OriginNodeYParameter, "origin_z": OriginNodeZParameter,
           "load_x": NodeLoadXParameter, "load_y": NodeLoadYParameter, "load_z": NodeLoadZParameter,
           "deviation": DeviationEdgeParameter, "trail": TrailEdgeParameter}[p[0]]
    key = p[1] if not isinstance(p[1], list) else tuple(p[1])
    # no bounds unless given
    bounds = {k: v for k, v in (("bound_low", p[2]), ("bound_up", p[3])) if v is not None}
    if len(bounds) == 2:
        return cls(key, p[2], p[3])
    return cls(key, **bounds)


def constraint_object(c, geo="compas"):
    from compas.geometry import Line, Plane, Point, Polyline, Vector
    from compas_cem.optimization import (DeviationEdgeLengthConstraint, EdgeDirectionConstraint, LineConstraint,
                                         PlaneConstraint, PointConstraint, PolylineConstraint, ReactionForceConstraint,
                                         TrailEdgeForceConstraint)
    kind, key, target, w = c
    # the weight is one unless given
    w = (w,) if w != 1.0 else ()
    cp = geo == "compas"
    if kind == "point":
        return PointConstraint(key, Point(*target) if cp else list(target), *w)
    if kind == "line":
        return LineConstraint(key, Line(*target) if cp else tuple(map(list, target)), *w)
    if kind == "plane":
        return PlaneConstraint(key, Plane(*target) if cp else tuple(map(list, target)), *w)
    if kind == "polyline":
        return PolylineConstraint(key, Polyline(target) if cp else [list(x) for x in target], *w)
    if kind == "reaction":
        return ReactionForceConstraint(key, Vector(*target) if cp else list(target), *w)
    if kind == "trail_force":
        return TrailEdgeForceConstraint(tuple(key), target, *w)
    if kind == "length":
        return DeviationEdgeLengthConstraint(tuple(key), target, *w)
    return EdgeDirectionConstraint(tuple(key), Vector(*target) if cp else list(target), *w)


def optimizer(params, cons, geo="compas"):
    from compas_cem.optimization import Optimizer
    opt = Optimizer()
    for c in cons:
        opt.add_constraint(constraint_object(c, geo))
    for p in params:
        opt.add_parameter(param_object(p))
    return opt


def topo_values(topo, params):
    """The parameter values that a topology holds now."""
    out = []
    for kind, key, _, _ in params:
        if kind.startswith("origin"):
            out.append(topo.node_coordinates(key)["xyz".index(kind[-1])])
        elif kind.startswith("load"):
            out.append(topo.node_load(key)["xyz".index(kind[-1])])
        elif kind == "deviation":
            out.append(topo.edge_force(tuple(key)))
        else:
            out.append(topo.edge_length_2(tuple(key)))
    return np.array([float(v) for v in out])


def bounds_of(spec, params):
    x0 = start_values(spec, params)
    low = np.array([x - abs(p[2]) if p[2] is not None else -np.inf for x, p in zip(x0, params)])
    up = np.array([x + abs(p[3]) if p[3] is not None else np.inf for x, p in zip(x0, params)])
    return x0, low, up


def good_problem(rng, bounds=True, span=0.15, tries=60, units=None, **kw):
    """A well conditioned problem, also at random points within its bounds."""
    large = rng.random() < 0.06
    for i in range(tries):
        spec, ref = gen.good_spec(rng, max_trails=4, max_len=4)
        if units:
            spec = gen.scaled(spec, *units)
            ref = oracle.solve(spec, max_iter=200)
        size, most = {}, span
        if large and i < 20:
            # many parameters with short spans, many constraints
            size, most = {"count": int(rng.integers(14, 31))}, 0.3 * span
        params = make_params(rng, spec, bounds=bounds, span=most, **size)
        cons = make_constraints(rng, spec, ref, **dict(size, **kw))
        x0, low, up = bounds_of(spec, params)
        ok = True
        for _ in range(3):
            lo = np.where(np.isfinite(low), low, x0 - span)
            hi = np.where(np.isfinite(up), up, x0 + span)
            x = lo + (hi - lo) * rng.random(len(x0))
            s = apply_values(spec, params, x)
            r = oracle.solve(s, max_iter=120)
            if not gen.spec_ok(s, r, max_rate_iters=100) or r["flips"]:
                ok = False
                break
        if ok:
            return spec, ref, params, cons
    raise RuntimeError("no well conditioned optimization problem")


def problem_signature(spec, params, cons):
    import common
    return (tuple(sorted(p[0] for p in params)), tuple(sorted(c[0] for c in cons)), common.spec_signature(spec))
