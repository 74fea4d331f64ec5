"""P11  Shifting trails changes how equilibrium is computed, not what it is."""
import copy

import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P11"
QUICK = 1200
THOROUGH = 20000
RULE = ("Well conditioned topologies in which deviation edges are moderate whatever the sequences are; the same topology is "
        "form-found under 2-5 random assignments of starting sequences (direct edges become indirect and back, gaps, all "
        "trails delayed). Every form must equal the reference equilibrium, hence each other: positions, forces, "
        "reactions, lengths. Delaying all trails by the same amount must change nothing, not even whether and when the iteration settles. Distinct = shift assignment x engine x structure signature.")
MUST_OBSERVE = ["forms_compared", "reclassified_edges", "delays_compared", "both_unsettled"]


def attempt(eng, topo, **kw):
    try:
        return common.State(eng(topo, **kw)), None
    except ValueError as e:
        return None, e


def delay_case(ctx):
    """Delaying all trails by the same amount changes nothing at all, settled or not."""
    rng = ctx.rng
    spec = gen.raw_spec(rng) if rng.random() < 0.5 else gen.good_spec(rng)[0]
    topo = gen.build(spec)
    seq = oracle.sequences(spec)
    d = int(rng.integers(1, 9))
    kw = dict(tmax=int(gen.pick(rng, [1, 2, 3, 5, 9, 40])), eta=float(gen.pick(rng, [1e-12, 1e-6, 1e-2, 1.0])) * spec["gscale"])
    late = gen.build(spec)
    for t in spec["trails"]:
        late.shift_trail(t[0], seq[t[0]] + d)
    for name, eng in common.engines():
        a, ea = attempt(eng, topo, **kw)
        b, eb = attempt(eng, late, **kw)
        ctx.event("delays_compared")
        if (a is None) != (b is None):
            ctx.fail("{} {}: {!r}, but {!r} when all trails start {} sequences later".format(name, kw, ea or "a form", eb or "a form", d), spec=spec)
        if a is None:
            ctx.event("both_unsettled")
            continue
        if not (a.finite() and b.finite()):
            continue
        big = max(max(float(np.max(np.abs(p))) for p in a.xyz.values()), spec["gscale"])
        frc = max([abs(f) for f in a.force.values()] + [spec["fscale"]])
        if big > 1e4 * spec["gscale"]:
            continue
        diff = common.same_state(a, b, 1e-7 * big, 1e-7 * frc)
        if diff:
            ctx.fail("{} {}: the form changes when all trails start {} sequences later: {}".format(name, kw, d, diff), spec=spec)
        ctx.seen("delay", name, d, common.spec_signature(spec))


def case(ctx):
    rng = ctx.rng
    if rng.random() < 0.25:
        return delay_case(ctx)
    spec, _ = gen.good_spec(rng, family=gen.pick(rng, ["random", "tower", "arch", "bridge"]), shifts=False,
                            deviation_scale=float(gen.pick(rng, [0.3, 0.6, 1.0])))
    spec = copy.deepcopy(spec)
    topo = gen.build(spec)
    base = None
    dev = [e for e in spec["edges"] if e[2] == "deviation"]
    top = int(gen.pick(rng, [3, 5, 12]))
    for i in range(int(rng.integers(2, 6))):
        s = copy.deepcopy(spec)
        if i:
            s["shifts"] = [[t[0], int(rng.integers(0, top))] for t in spec["trails"] if rng.random() < 0.7]
            if rng.random() < 0.15:
                k = int(rng.integers(1, top))
                s["shifts"] = [[t[0], k] for t in spec["trails"]]
        ref = oracle.solve(s, max_iter=250)
        if not gen.spec_ok(s, ref, max_rate_iters=150):
            continue
        for o, k in s["shifts"]:
            topo.shift_trail(o, k)
        for t in spec["trails"]:
            if t[0] not in [o for o, _ in s["shifts"]]:
                topo.shift_trail(t[0], 0)
        tx, tf = common.tolerances(s, ref)
        seq = oracle.sequences(s)
        for name, eng in common.engines():
            st = common.State(eng(topo, tmax=400, eta=1e-10 * spec["gscale"]))
            ctx.event("forms_compared")
            if base is None:
                base = (s["shifts"], name, st, seq, s, ref)
                continue
            moved = sum(1 for e in dev if (seq[e[0]] == seq[e[1]]) != (base[3][e[0]] == base[3][e[1]]))
            ctx.event("reclassified_edges", moved)
            diff = common.same_state(base[2], st, 2 * tx, 2 * tf)
            if diff:
                # two fixed points are possible in principle: judge against the reference of the same assignment
                if common.compare_ref(st, ref, s, tx, tf) is None and common.compare_ref(
                        base[2], base[5], base[4], tx, tf) is None:
                    ctx.event("two_equilibria")
                    raise Skip()
                ctx.fail("{} with shifts {} vs {} with shifts {}: {}".format(name, s["shifts"], base[1], base[0], diff), spec=s)
            ctx.seen(name, tuple(map(tuple, s["shifts"])), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec)
