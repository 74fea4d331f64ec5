"""P06  Partial form-finding up to a sequence."""
import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P06"
QUICK = 1500
THOROUGH = 20000
RULE = ("Random topologies, each form-found up to every sequence from 0 to beyond the last one. The processed nodes are "
        "compared to an independent partial solution and balanced node by node with the cut force as reaction; the nodes "
        "after the cut must stay where they were. Distinct = cut x structure signature.")
MUST_OBSERVE = ["cuts", "nodes_beyond_cut", "cut_reactions", "full_cuts", "rejected", "lengths_of_partial_forms", "single_iteration_cuts", "long_trails"]


def case(ctx):
    rng = ctx.rng
    from compas_cem.equilibrium import static_equilibrium
    if ctx.index % 20 == 13:
        _, spec, ref = gen.exotic(rng, ["long"])
        ctx.event("long_trails")
    else:
        spec, ref = gen.good_spec(rng, family=gen.pick(rng, gen.FAMILIES))
    topo = gen.build(spec)
    seq = ref["seq"]
    klast = max(seq.values())
    pos = {n: np.array(p) for n, p in spec["nodes"]}
    kinds = {frozenset(e[:2]): e[2] for e in spec["edges"]}
    full = common.State(static_equilibrium(topo, eta=1e-10, tmax=400))
    cuts = list(range(klast + 3)) if rng.random() < 0.3 and klast < 30 else [int(rng.integers(0, klast + 2)) for _ in range(3)]
    for k in cuts:
        part = oracle.solve(spec, kmax=k, max_iter=90)
        if not part["converged"] or part["plane_bad"] or part["min_residual"] < 0.05 * spec["fscale"]:
            ctx.event("ill_conditioned_cut")
            continue
        if any(np.linalg.norm(part["xyz"][e[0]] - part["xyz"][e[1]]) < 0.02 * spec["gscale"]
               for e in spec["edges"] if e[2] == "deviation"):
            ctx.event("ill_conditioned_cut")
            continue
        st = common.State(static_equilibrium(topo, kmax=k, eta=1e-10, tmax=400))
        tx, tf = common.tolerances(spec, ref)
        tf = max(tf, 1e-7 * part["max_residual"])
        ctx.event("cuts")
        if not st.finite():
            ctx.fail("cut at {}: non finite numbers".format(k), spec=spec)
        diff = common.compare_ref(st, part, spec, tx, tf)
        if diff:
            ctx.fail("cut at sequence {}: {}".format(k, diff), spec=spec, state=st.dump())
        ctx.event("cut_reactions", len(part["reaction"]))
        for n in st.nodes:
            if seq[n] > k:
                # not reached: it stays where the topology has it (the node right after the cut included)
                ctx.event("nodes_beyond_cut")
                if not np.array_equal(st.xyz[n], pos[n]):
                    ctx.fail("cut at sequence {}: node {} in sequence {} moved to {}".format(k, n, seq[n], st.xyz[n]), spec=spec)
                if np.any(st.reaction[n] != 0.0):
                    ctx.fail("cut at sequence {}: node {} beyond it has a reaction".format(k, n), spec=spec)
        # the parts of the form that were not computed carry nothing, and lengths are those of the drawing
        for (u, v), length in st.length.items():
            d = float(np.linalg.norm(st.xyz[u] - st.xyz[v]))
            ctx.event("lengths_of_partial_forms")
            if not abs(abs(length) - d) <= tx:
                ctx.fail("cut at sequence {}: the length of edge {} is {} and its ends are {} apart".format(k, (u, v), length, d), spec=spec)
            if kinds[frozenset((u, v))] == "trail" and frozenset((u, v)) not in part["trail_force"] and st.force[(u, v)] != 0.0:
                ctx.fail("cut at sequence {}: trail edge {} was not computed and carries {}".format(k, (u, v), st.force[(u, v)]), spec=spec)
        # a single iteration, too, goes as far as the cut
        once = oracle.solve(spec, kmax=k, max_iter=1)
        if once["min_residual"] > 0.05 * spec["fscale"] and not once["plane_bad"] and once["min_plane_cos"] > 0.1 and \
                once["min_dev_length"] > 0.02 * spec["gscale"]:
            st1 = common.State(static_equilibrium(topo, kmax=k, tmax=1))
            ctx.event("single_iteration_cuts")
            diff = common.compare_ref(st1, once, spec, tx, max(tf, 1e-7 * once["max_residual"]))
            if diff:
                ctx.fail("cut at sequence {}, one iteration: {}".format(k, diff), spec=spec, state=st1.dump())
        if k >= klast:
            ctx.event("full_cuts")
            diff = common.same_state(st, full, tx, tf)
            if diff:
                ctx.fail("a cut at or after the last sequence changes the form: " + diff, spec=spec)
        ctx.seen(k, common.spec_signature(spec))
    if rng.random() < 0.2:
        try:
            static_equilibrium(topo, kmax=-1)
        except Exception:
            ctx.event("rejected")
        else:
            ctx.fail("a negative last sequence was accepted", spec=spec)
    ctx.sample = common.spec_sample(spec, cuts=cuts)
