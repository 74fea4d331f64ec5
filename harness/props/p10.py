"""P10  Sequences and the direct/indirect classification follow the trails and their shifts."""
import common
import gen
import oracle
from core import Skip, Violation
from props import p01

ID = "P10"
QUICK = 2500
THOROUGH = 40000
RULE = ("Random topologies and histories of 0-10 shift_trail calls (and trail rebuilds) with random starting sequences, "
        "gaps included. After each call every sequence query (node_sequence, edge_sequence, sequences, "
        "number_of_sequences, sequence_last, trail_sequences, trails_sequences) and every direct/indirect query (predicates, "
        "iterators, counters) is compared with a model computed from the construction; shifting what is not an origin must "
        "be refused and change nothing. Distinct = shift history x structure signature.")
MUST_OBSERVE = ["states_checked", "shifts", "bad_shifts_refused", "negative_shifts_tried", "gaps_seen", "direct_seen", "indirect_seen", "auxiliary", "late_trails"]


def check(ctx, topo, spec, label):
    seq = oracle.sequences(spec)
    last = max(seq.values())

    def eq(got, want, what):
        ctx.event("queries_compared")
        if got != want:
            ctx.fail("{}{} is {} and should be {}".format(label, what, got, want), spec=spec)

    for n, k in seq.items():
        eq(topo.node_sequence(n), k, "node_sequence({})".format(n))
    eq(topo.sequence_last(), last, "sequence_last()")
    eq(topo.number_of_sequences(), last + 1, "number_of_sequences()")
    groups = [set() for _ in range(last + 1)]
    for n, k in seq.items():
        groups[k].add(n)
    if any(not g for g in groups):
        ctx.event("gaps_seen")
    got = [tuple(s) for s in topo.sequences()]
    eq([set(s) for s in got], groups, "sequences()")
    eq(sum(len(s) for s in got), len(seq), "the number of nodes in sequences()")
    eq([(k, set(s)) for k, s in topo.sequences(keys=True)], list(enumerate(groups)), "sequences(keys=True)")
    want = {t[0]: {seq[n]: n for n in t} for t in spec["trails"]}
    eq({k: dict(v) for k, v in topo.trails_sequences().items()}, want, "trails_sequences()")
    for k, v in want.items():
        eq(dict(topo.trail_sequences(k)), v, "trail_sequences({})".format(k))
    eq({k: tuple(t) for k, t in topo.trails(keys=True)}, {t[0]: tuple(t) for t in spec["trails"]}, "trails(keys=True)")

    kind = {}
    for u, v, k, _, _ in spec["edges"]:
        e = (u, v) if topo.has_edge(u, v) else (v, u)
        kind[e] = k
        eq(tuple(topo.edge_sequence(e)), (seq[e[0]], seq[e[1]]), "edge_sequence({})".format(e))
    aux = {frozenset(e) for e in spec.get("auxiliary", ())}
    eq({frozenset(e) for e in topo.auxiliary_trail_edges()}, aux, "auxiliary_trail_edges()")
    eq(topo.number_of_auxiliary_trails(), len(aux), "number_of_auxiliary_trails()")
    for e in kind:
        eq(bool(topo.is_auxiliary_trail_edge(e)), frozenset(e) in aux, "is_auxiliary_trail_edge({})".format(e))
    direct = {e for e, k in kind.items() if k == "deviation" and seq[e[0]] == seq[e[1]]}
    indirect = {e for e, k in kind.items() if k == "deviation" and seq[e[0]] != seq[e[1]]}
    trail = {e for e, k in kind.items() if k == "trail"}
    if direct:
        ctx.event("direct_seen")
    if indirect:
        ctx.event("indirect_seen")
    for what, members, it, num, pred in (
            ("trail", trail, topo.trail_edges, topo.number_of_trail_edges, topo.is_trail_edge),
            ("deviation", direct | indirect, topo.deviation_edges, topo.number_of_deviation_edges, topo.is_deviation_edge),
            ("direct deviation", direct, topo.direct_deviation_edges, topo.number_of_direct_deviation_edges,
             topo.is_direct_deviation_edge),
            ("indirect deviation", indirect, topo.indirect_deviation_edges, topo.number_of_indirect_deviation_edges,
             topo.is_indirect_deviation_edge)):
        listed = [tuple(e) for e in it()]
        eq(sorted(listed), sorted(members), "the list of {} edges".format(what))
        eq(num(), len(members), "the number of {} edges".format(what))
        for e in kind:
            eq(bool(pred(e)), e in members, "is {} edge {}".format(what, e))
        withdata = {tuple(e): dict(a) for e, a in it(data=True)}
        eq(set(withdata), members, "the list of {} edges with data".format(what))
        for e, a in withdata.items():
            eq(a.get("type"), kind[e], "type in the data of edge {}".format(e))
    eq(topo.number_of_edges(), len(kind), "number_of_edges()")
    ctx.event("states_checked")


def case(ctx):
    rng = ctx.rng
    spec = gen.raw_spec(rng, planes=False, shifts=False, max_trails=7, max_len=6,
                        family=gen.pick(rng, ["random", "random", "tower", "arch", "bridge"]))
    spec = dict(spec)
    spec["shifts"] = []
    topo = gen.build(spec, trails=False)
    n0 = gen.pick(rng, spec["nodes"])[0]
    if rng.random() < 0.2:
        for what, call in (("node_sequence", lambda: topo.node_sequence(n0)), ("shift_trail", lambda: topo.shift_trail(n0, 1))):
            try:
                call()
            except Exception:
                ctx.event("refused_without_trails")
            else:
                ctx.fail("{} answered although there are no trails".format(what), spec=spec)
    if ctx.index % 6 == 4:
        # nodes that hang on deviation edges only get trails of their own
        spec = p01.aux_spec(rng)
        spec["shifts"] = []
        topo = gen.build(spec, trails=False)
        topo.build_trails(auxiliary_trails=True)
        known = {n for n, _ in spec["nodes"]}
        spec = p01.extend_with_aux(spec, topo)
        spec["auxiliary"] = [list(t) for t in spec["trails"] if t[-1] not in known]
        ctx.event("auxiliary")
    else:
        topo.build_trails()
    check(ctx, topo, spec, "")
    ctx.seen((), common.spec_signature(spec))
    history = []
    top = int(gen.pick(rng, [3, 6, 15, 3, 6, 15, 700]))
    ctx.event("late_trails", int(top > 256))
    for _ in range(int(rng.integers(0, 11))):
        r = rng.random()
        if r < 0.12:
            topo.build_trails()
            spec["shifts"] = []
            history.append("rebuild")
        elif r < 0.3:
            bad = [n for t in spec["trails"] for n in t[1:]]
            n, k = gen.pick(rng, bad), int(rng.integers(0, top))
            if rng.random() < 0.4:
                # an origin, but a sequence that form-finding would never reach
                n, k = gen.pick(rng, spec["trails"])[0], -int(gen.pick(rng, [1, 2, 3, 4, 5, 100, 257, 10 ** 6]))
                ctx.event("negative_shifts_tried")
            before = common.topo_text(topo)
            try:
                topo.shift_trail(n, k)
            except Violation:
                raise
            except Exception:
                ctx.event("bad_shifts_refused")
            else:
                ctx.fail("shift_trail accepted node {} and sequence {}".format(n, k), spec=spec)
            if common.topo_text(topo) != before:
                ctx.fail("a refused shift changed the topology", spec=spec)
            history.append("bad")
        else:
            o = gen.pick(rng, spec["trails"])[0]
            k = int(rng.integers(0, top))
            topo.shift_trail(o, k)
            spec["shifts"] = [s for s in spec["shifts"] if s[0] != o] + [[o, k]]
            history.append(("shift", spec["trails"].index([t for t in spec["trails"] if t[0] == o][0]), k))
            ctx.event("shifts")
        check(ctx, topo, spec, "after {}: ".format(history))
        ctx.seen(tuple(history), common.spec_signature(spec))
    ctx.sample = common.spec_sample(spec, history=history)
