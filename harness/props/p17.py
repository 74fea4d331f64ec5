"""P17  Constraints and parameters survive being saved, sent and copied."""
import copy
import json
import os
import pickle
import shutil
import tempfile

import numpy as np

import common
import gen
import optim
from core import Skip
from props.p18 import state_dict

ID = "P17"
QUICK = 2500
THOROUGH = 40000
RULE = ("Random constraints (8 types, compas or plain geometry, any weight) and parameters (8 types, any bounds or none) go "
        "through chains of 1-3 transports: JSON file, JSON string, data dictionary, copy, deepcopy, pickle, compas JSON "
        "encoder in a list. What comes out must have the same type, key and weight, the same penalty on random states, the "
        "same start value and bounds on the topology, act on the same attribute, and share nothing with the original. "
        "Distinct = type x geometry x chain.")
MUST_OBSERVE = ["constraints", "parameters", "penalties_equal", "bounds_equal", "json_list", "unusual_weights", "unusual_bounds"] + optim.CONSTRAINTS + optim.PARAMS

HOWS = ["json_file", "json_string", "data", "copy", "deepcopy", "pickle", "json_list"]


def transport(rng, obj, how, folder):
    cls = type(obj)
    if how == "json_file":
        path = os.path.join(folder, "o{}.json".format(int(rng.integers(1 << 30))))
        obj.to_json(path)
        return cls.from_json(path)
    if how == "json_string":
        return cls.from_jsonstring(obj.to_jsonstring())
    if how == "data":
        return cls.from_data(obj.to_data())
    if how == "copy":
        return obj.copy()
    if how == "deepcopy":
        return copy.deepcopy(obj)
    if how == "json_list":
        # the way objects travel to a remote optimizer
        from compas.data import DataDecoder, DataEncoder
        text = json.dumps({"args": [[obj]]}, cls=DataEncoder)
        return json.loads(text, cls=DataDecoder)["args"][0][0]
    return pickle.loads(pickle.dumps(obj))


def number(constraint):
    try:
        return constraint.target(0.0)
    except TypeError:
        return constraint.target()


def case(ctx):
    folder = tempfile.mkdtemp(prefix="verif_p17_")
    try:
        _case(ctx, folder)
    finally:
        shutil.rmtree(folder)


def _case(ctx, folder):
    rng = ctx.rng
    spec, ref = gen.good_spec(rng, max_trails=4, max_len=4)
    topo = gen.build(spec)
    edges = [tuple(e) for e in topo.edges()]
    for con in optim.make_constraints(rng, spec, ref, count=3, kinds=[optim.CONSTRAINTS[(ctx.index + i) % 8] for i in range(3)]):
        geo = gen.pick(rng, ["compas", "plain"])
        if rng.random() < 0.3:
            # any weight
            con[3] = float(gen.pick(rng, [0.0, 1e-12, 1e-6, 1e6, 1e12, 2, 1.0 / 3.0, 0.1 + 0.2]))
            ctx.event("unusual_weights")
        if con[0] in ("length", "trail_force") or isinstance(con[2], float):
            # a number with all its digits
            con[2] = float(con[2] * gen.pick(rng, [1.0, 1.0 + 2.0 ** -52, 1.0 / 3.0, np.pi, 1e-7 / 3.0, 1e9 / 7.0]))
            ctx.event("full_digits")
        obj = optim.constraint_object(con, geo)
        chain = [gen.pick(rng, HOWS) for _ in range(int(rng.integers(1, 4)))]
        out = obj
        for how in chain:
            out = transport(rng, out, how, folder)
            ctx.event(how)
        ctx.event("constraints")
        ctx.event(con[0])
        if type(out) is not type(obj):
            ctx.fail("{} through {} became a {}".format(con[0], chain, type(out).__name__), constraint=con)
        if out.key() != con[1] or type(out.key()) is not type(con[1]):
            ctx.fail("{} through {}: key {!r} became {!r}".format(con[0], chain, con[1], out.key()), constraint=con)
        if out.weight != con[3]:
            ctx.fail("{} through {}: weight {!r} became {!r}".format(con[0], chain, con[3], out.weight), constraint=con)
        if isinstance(con[2], float):
            values = [float(number(o)) for o in (obj, out)]
            if values[0] != con[2] or values[1] != con[2]:
                ctx.fail("{} through {}: target {!r} became {!r}".format(con[0], chain, con[2], values[1]), constraint=con)
        for _ in range(3):
            syn = {"xyz": {k: p + spec["gscale"] * rng.normal(size=3) for k, p in ref["xyz"].items()},
                   "reaction": {k: spec["fscale"] * rng.normal(size=3) for k in ref["reaction"]},
                   "trail_force": {k: float(spec["fscale"] * rng.normal()) for k in ref["trail_force"]}}
            d = state_dict(syn, edges, array=bool(rng.random() < 0.5))
            a, b = float(obj.penalty(d)), float(out.penalty(d))
            ctx.event("penalties_equal")
            want = optim.penalty_of(con, syn)
            if not abs(a - b) <= 1e-11 * (abs(a) + con[3] * 1e-6) or not abs(b - want) <= 1e-8 * (want + con[3] * 1e-6):
                ctx.fail("{} ({}) through {}: penalty {} became {} (should be {})".format(con[0], geo, chain, a, b, want), constraint=con)
        # the original is not tied to what came out
        if chain[-1] != "data" and "data" not in chain and geo == "compas" and con[0] in ("point", "reaction"):
            try:
                out.target(np.array([1.0, 0.3, 0.2]))[0] = 1e9
            except Exception:
                pass
            if not abs(float(obj.penalty(d)) - a) <= 1e-12 * (1 + abs(a)):
                ctx.fail("{} through {} still shares its target".format(con[0], chain), constraint=con)
        ctx.seen(con[0], geo, tuple(chain), con[3] == 1.0)

    params = []
    for i in range(3):
        params += [p for p in optim.make_params(rng, spec, count=12, bounds="open") if p[0] == optim.PARAMS[(ctx.index + i) % 8]][:1]
    for p in params:
        if rng.random() < 0.3:
            # any span
            p[2] = gen.pick(rng, [p[2], 0.0, -0.0, 1e-9, 1e7, 1e15, 3, -2e6, float("inf")])
            p[3] = gen.pick(rng, [p[3], 0.0, 1e-9, 1e7, 1e15, 3, -2e6, float("inf")])
            ctx.event("unusual_bounds")
        obj = optim.param_object(p)
        chain = [gen.pick(rng, HOWS) for _ in range(int(rng.integers(1, 4)))]
        out = obj
        for how in chain:
            out = transport(rng, out, how, folder)
            ctx.event(how)
        ctx.event("parameters")
        ctx.event(p[0])
        if type(out) is not type(obj) or out.key() != p[1] or type(out.key()) is not type(p[1]):
            ctx.fail("{} through {} became {!r}".format(p, chain, out))
        x0, low, up = optim.bounds_of(spec, [p])
        got = (float(out.start_value(topo)), float(out.bound_low(topo)), float(out.bound_up(topo)))
        ctx.event("bounds_equal")
        for g, w, what in zip(got, (x0[0], low[0], up[0]), ("start value", "lower bound", "upper bound")):
            if not (g == w or abs(g - w) <= 1e-12 * (1 + abs(w))):
                ctx.fail("{} through {}: {} is {} and should be {}".format(p, chain, what, g, w), spec=spec)
        if out.attr_name() != obj.attr_name():
            ctx.fail("{} through {} acts on {} instead of {}".format(p, chain, out.attr_name(), obj.attr_name()))
        ctx.seen(p[0], p[2] is None, p[3] is None, tuple(chain))
    ctx.sample = {"parameters": params[:2]}
