"""P12  Equilibrium does not depend on the frame, the units or the sign convention."""
import copy
import math

import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P12"
QUICK = 1500
THOROUGH = 25000
RULE = ("Well conditioned topologies are form-found, then again after a random transformation of the input: rigid motion "
        "(far translations included), reflection, change of length unit (1e-9 to 1e7), change of force unit (1e-12 to 1e9), "
        "reversal of all loads, deviation forces and length signs, axis permutation, or several of them composed. The form "
        "must transform accordingly: positions, forces, reactions, lengths. Distinct = transformation x engine x signature.")
MUST_OBSERVE = ["rigid", "mirror", "length_unit", "force_unit", "reversal", "forms_compared"]


def rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def case(ctx):
    rng = ctx.rng
    spec, ref = gen.good_spec(rng)
    kinds = ["rigid", "mirror", "length_unit", "force_unit", "reversal", "axes"]
    chosen = [gen.pick(rng, kinds)] if rng.random() < 0.6 else [k for k in kinds if rng.random() < 0.5]
    if not chosen:
        raise Skip()
    R, shift, s, c, sign = np.eye(3), np.zeros(3), 1.0, 1.0, 1.0
    for k in chosen:
        ctx.event(k)
        if k == "rigid":
            R = rotation(rng) @ R
            shift = float(gen.pick(rng, [0.0, 1.0, 100.0])) * spec["gscale"] * rng.normal(size=3)
        elif k == "mirror":
            n = gen.unit(rng)
            R = (np.eye(3) - 2 * np.outer(n, n)) @ R
        elif k == "axes":
            R = np.eye(3)[rng.permutation(3)] @ R
        elif k == "length_unit":
            s = float(gen.pick(rng, [1e-9, 1e-6, 1e-5, 1e-3, 1e-2, 0.3, 25.4, 1e3, 1e5, 1e7]))
        elif k == "force_unit":
            c = float(gen.pick(rng, [1e-12, 1e-9, 1e-7, 1e-4, 1e-2, 7.0, 1e4, 1e7, 1e9]))
        elif k == "reversal":
            sign = -1.0

    new = copy.deepcopy(spec)
    shift = shift * s

    def tp(p):
        return gen.flist(s * (R @ np.array(p, dtype=float)) + shift)

    new["nodes"] = [[k, tp(p)] for k, p in spec["nodes"]]
    new["loads"] = [[k, gen.flist(sign * c * (R @ np.array(q)))] for k, q in spec["loads"]]
    for e in new["edges"]:
        e[3] = float(e[3] * sign * (s if e[2] == "trail" else c))
        if e[4] is not None:
            e[4] = [tp(e[4][0]), gen.flist(R @ np.array(e[4][1]))]
    # the library looks nodes up by coordinates: keep the keys, so nothing depends on tolerance
    a_topo, b_topo = gen.build(spec), gen.build(new)
    for name, eng in common.engines():
        a = common.State(eng(a_topo, tmax=300, eta=1e-10 * spec["gscale"]))
        b = common.State(eng(b_topo, tmax=300, eta=max(1e-10 * spec["gscale"] * s, 1e-13 * np.max(np.abs(shift)) * len(a.nodes))))
        ctx.event("forms_compared")
        tx, tf = common.tolerances(spec, ref)
        # rounding of the far translation
        extra = 1e-12 * float(np.max(np.abs(shift))) / s / max(0.05, 1.0) * 1e3
        tx, tf = tx + extra, tf + extra / spec["gscale"] * max(spec["fscale"], ref["max_residual"])
        for n in a.nodes:
            back = R.T @ ((b.xyz[n] - shift) / s)
            if not np.max(np.abs(back - a.xyz[n])) <= tx:
                ctx.fail("{} under {}: node {} should be at {} and is at {} (transformed back)".format(
                    name, chosen, n, a.xyz[n], back), spec=spec, transformed=new)
            r = R.T @ (b.reaction[n] / (sign * c))
            if not np.max(np.abs(r - a.reaction[n])) <= tf:
                ctx.fail("{} under {}: reaction of node {} should be {} and is {} (transformed back)".format(
                    name, chosen, n, a.reaction[n], r), spec=spec, transformed=new)
        for e in a.edges:
            if not abs(b.force[e] / (sign * c) - a.force[e]) <= tf:
                ctx.fail("{} under {}: force of edge {} should be {} and is {} (transformed back)".format(
                    name, chosen, e, a.force[e], b.force[e] / (sign * c)), spec=spec, transformed=new)
            la, lb = a.length[e], b.length[e] / s
            if abs(a.force[e]) > 10 * tf:
                lb = lb * sign
            else:
                la, lb = abs(la), abs(lb)
            if not abs(la - lb) <= 2 * tx:
                ctx.fail("{} under {}: length of edge {} should be {} and is {} (transformed back)".format(
                    name, chosen, e, la, lb), spec=spec, transformed=new)
        ctx.seen(name, tuple(chosen), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, transformation=chosen)
