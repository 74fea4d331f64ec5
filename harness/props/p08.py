"""P08  Rebuilding the trails after edits equals building them from scratch."""
import numpy as np

import common
import edits
import gen
import oracle
from core import Skip
from props.p07 import check_trails

ID = "P08"
QUICK = 2000
THOROUGH = 30000
RULE = ("Histories of 2-14 edits of one topology (extend, trim, drop, add and split trails, add, rewire and remove "
        "deviation edges, flip and recast edges, loads, lengths, forces, moves, shifts, JSON and copy round trips) with "
        "trails rebuilt and forms found at random points. After every rebuild the trail queries must match the model of "
        "the edits, and the form must equal the one of a topology built from scratch. Distinct = edit history x structure.")
MUST_OBSERVE = ["trails_checked", "rebuilds", "forms_vs_fresh", "edits_extend_origin", "edits_split", "edits_drop_trail",
                "edits_recast", "refused_builds", "first_build_refused"]


def refused_build(ctx, topo, spec):
    """Take a trail edge away: the trails cannot be built.  Put it back: they can."""
    from compas_cem.elements import TrailEdge
    t = gen.pick(ctx.rng, spec["trails"])
    j = 0 if ctx.rng.random() < 0.6 else int(ctx.rng.integers(len(t) - 1))
    e = next(e for e in spec["edges"] if set(e[:2]) == {t[j], t[j + 1]})
    topo.delete_edge(e[0], e[1])
    try:
        topo.build_trails()
    except AssertionError:
        ctx.event("refused_builds")
    else:
        ctx.fail("node {} was cut from its support and the trails were built all the same".format(t[j]), spec=spec)
    topo.add_edge(TrailEdge(e[0], e[1], length=e[3], plane=gen.spec_plane(e[4])))


def case(ctx):
    rng = ctx.rng
    spec = gen.raw_spec(rng, planes=bool(rng.random() < 0.3), max_trails=4, max_len=4)
    if not gen.coords_distinct(spec):
        raise Skip()
    history = []
    if rng.random() < 0.2:
        # the very first attempt is refused
        spec["shifts"] = []
        topo = gen.build(spec, trails=False)
        refused_build(ctx, topo, spec)
        history.append("first refused")
        if topo.has_trails():
            ctx.fail("trails are on record although building them was refused", spec=spec)
        topo.build_trails()
        check_trails(ctx, topo, spec, "after a refused first build: ")
        ctx.event("first_build_refused")
    else:
        topo = gen.build(spec)
    steps = int(rng.integers(2, 15))
    rebuild = float(gen.pick(rng, [0.2, 0.5, 1.0]))
    for step in range(steps):
        # shifts are forgotten by the next rebuild, and so are the trails after a structural edit
        out = edits.structural_edit(rng, spec, topo)
        if out is None:
            continue
        kind, spec = out
        history.append(kind)
        ctx.event("edits_" + kind)
        if not gen.coords_distinct(spec):
            raise Skip()
        if rng.random() > rebuild and step < steps - 1:
            continue
        if rng.random() < 0.25:
            refused_build(ctx, topo, spec)
            history.append("refused")
        try:
            topo.build_trails()
        except AssertionError as e:
            ctx.fail("after {}: a well formed topology was refused: {}".format(history, e), spec=spec)
        spec["shifts"] = []
        ctx.event("rebuilds")
        check_trails(ctx, topo, spec, "after {}: ".format(history))
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                o = gen.pick(rng, spec["trails"])[0]
                k = int(rng.integers(0, 4))
                topo.shift_trail(o, k)
                spec["shifts"] = [[o, k]]
            ref = oracle.solve(spec, max_iter=120)
            if not gen.spec_ok(spec, ref):
                continue
            fresh = gen.build(spec)
            name, eng = gen.pick(rng, common.engines())
            a = common.State(eng(topo, eta=1e-10 * spec["gscale"], tmax=300))
            b = common.State(eng(fresh, eta=1e-10 * spec["gscale"], tmax=300))
            tx, tf = common.tolerances(spec, ref)
            ctx.event("forms_vs_fresh")
            diff = common.same_state(a, b, tx, tf) or common.compare_ref(a, ref, spec, tx, tf)
            if diff:
                ctx.fail("{} after {}: {}".format(name, history, diff), spec=spec)
        if rng.random() < 0.1:
            cls = type(topo)
            topo = topo.copy() if rng.random() < 0.5 else cls.from_data(topo.to_data())
            history.append("copy")
            check_trails(ctx, topo, spec, "after {}: ".format(history))
        ctx.seen(tuple(history), common.spec_signature(spec))
    ctx.sample = {"history": history, "trails": spec["trails"]}
