"""P05  Form-finding returns a converged form or says that it could not."""
import copy
import itertools

import numpy as np

import common
import gen
import oracle
from core import Skip

ID = "P05"
QUICK = 2400
THOROUGH = 30000
RULE = ("Random topologies with indirect deviation edges of any strength (contracting, slow, oscillating), solved under "
        "varied iteration limits and thresholds. Monitors: whatever is returned must be a fixed point of the method to "
        "within the threshold (one more independent step must not move a node); the engine must return when an "
        "independent solver settles long before the limit; and the travel of every iteration is measured from outside and "
        "the stopping rule probed just above and just below it. Distinct = outcome x engine x limit x threshold x "
        "structure signature.")
MUST_OBSERVE = ["returned", "raised", "fixed_points_checked", "must_raise", "must_return", "thresholds_probed", "early_stops", "exact_single_pass", "slow", "late_thresholds", "defaults", "refused_without_trails"]


def residual_motion(spec, st, eta):
    """
    Apply the method once more to the reported positions, all deviation edges on.

    Yields (node, displacement, bound): the bound is what the method's own threshold
    allows, i.e. every position an indirect edge was read from may be off by eta.
    """
    seq = oracle.sequences(spec)
    load = {n: np.zeros(3) for n in st.nodes}
    for n, q in spec["loads"]:
        load[n] = np.array(q)
    dev = {n: [] for n in st.nodes}
    tr = {}
    for u, v, kind, value, plane in spec["edges"]:
        if kind == "trail":
            tr[frozenset((u, v))] = (value, plane)
        else:
            dev[u].append((v, value))
            dev[v].append((u, value))
    cmax = max(float(np.max(np.abs(p))) for p in st.xyz.values())
    for t in spec["trails"]:
        r = np.zeros(3)
        err = 0.0
        for a, b in zip(t[:-1], t[1:]):
            r = r - load[a]
            for other, f in dev[a]:
                d = st.xyz[other] - st.xyz[a]
                n = float(np.linalg.norm(d))
                if n > 0.0:
                    r = r - f * d / n
                    e = 1e-13 * cmax / n
                    if seq[other] != seq[a]:
                        e += 2.5 * eta / n
                    err += abs(f) * min(2.0, e)
            mag = float(np.linalg.norm(r))
            tilt = (err + 1e-12 * mag) / mag if mag > 0.0 else np.inf
            if tilt > 0.1:
                # the threshold is too loose to say anything about this trail
                break
            d = r / mag
            length, plane = tr[frozenset((a, b))]
            bound = 2.0 * abs(length) * tilt
            if plane is not None:
                o, nrm = np.array(plane[0]), np.array(plane[1])
                c = float(nrm @ d)
                cu = abs(c) / float(np.linalg.norm(nrm))
                if cu < 20.0 * tilt or cu < 1e-3:
                    break
                length = float(nrm @ (o - st.xyz[a])) / c
                if abs(length) < 1e-3 + 10 * eta:
                    break
                bound = 2.0 * abs(length) * tilt * (1.0 + 2.0 / cu)
            moved = float(np.linalg.norm(st.xyz[a] + length * d - st.xyz[b]))
            yield b, moved, bound + 1e-11 * (1.0 + cmax)


def travel(a, b):
    return float(sum(np.linalg.norm(a.xyz[n] - b.xyz[n]) for n in a.nodes))


def attempt(eng, topo, tmax, eta):
    try:
        return common.State(eng(topo, tmax=tmax, eta=eta))
    except ValueError:
        return None


def follow_threshold(ctx, name, eng, topo, spec, steps=5):
    """
    Watch the iterations one by one, and the stopping rule at each of them.

    The form after one iteration is what a limit of one iteration returns.  A threshold just
    under the last observed travel makes the engine take the next step, so the travel of every
    iteration can be measured from the outside and compared to what the threshold decides.
    """
    prev = attempt(eng, topo, 1, 1e-6)
    if prev is None:
        ctx.fail("{} raised although only one iteration was asked for".format(name), spec=spec)
    eta = 1e300
    for t in range(1, steps):
        cur = attempt(eng, topo, t + 1, eta)
        if cur is None:
            # the travel grew: it was not below the threshold
            ctx.event("travel_grew")
            return
        d = travel(prev, cur)
        if not np.isfinite(d) or d < 1e-12 * spec["gscale"]:
            return
        if not d <= eta * (1.0 + 1e-9):
            ctx.fail("{} returned after {} iterations although the nodes travelled {:.6e} in the last one and the "
                     "threshold is {:.6e}".format(name, t + 1, d, eta), spec=spec)
        for factor, wanted in ((1.01, True), (0.99, False)):
            st = attempt(eng, topo, t + 1, d * factor)
            ctx.event("thresholds_probed")
            if (st is not None) != wanted:
                ctx.fail("{}: the nodes travel {:.6e} in iteration {}, threshold {:.6e}, limit {}: the engine {}".format(
                    name, d, t + 1, d * factor, t + 1, "returned" if st else "raised"), spec=spec)
            if not wanted:
                ctx.event("must_raise")
        # a larger limit does not make it go on
        st = attempt(eng, topo, t + 1 + int(ctx.rng.integers(1, 60)), d * 1.01)
        ctx.event("early_stops")
        if st is None:
            ctx.fail("{} raised although the threshold was met in iteration {}".format(name, t + 1), spec=spec)
        diff = common.same_state(st, cur, 1e-9 * (1.0 + spec["gscale"]), 1e-9 * max(1.0, spec["fscale"]))
        if diff:
            ctx.fail("{} did not stop once the threshold was met in iteration {}: {}".format(name, t + 1, diff), spec=spec)
        ctx.seen("threshold", name, t, common.spec_signature(spec))
        prev, eta = cur, 0.97 * d


def late_threshold(ctx, name, eng, topo, spec):
    """The stopping rule after many iterations: the smallest accepted threshold is the travel of the last iteration."""
    t = int(ctx.rng.integers(60, 320))
    # while the travel shrinks, a limit of t iterations returns just when the threshold is above the last travel
    lo, hi = 1e-14, 1e3
    for _ in range(40):
        mid = (lo * hi) ** 0.5
        lo, hi = (lo, mid) if attempt(eng, topo, t, mid) is not None else (mid, hi)
        if hi / lo < 1.002:
            break
    if hi > 1e2 or hi < 1e-9 * (1.0 + spec["gscale"]):
        return
    cur = attempt(eng, topo, t, hi)
    # the iteration before the last: the travel is a bit larger there
    prev = None
    eta = hi
    for _ in range(200):
        prev = attempt(eng, topo, t - 1, eta)
        if prev is not None:
            break
        eta *= 1.002
    if cur is None or prev is None:
        return
    d = travel(prev, cur)
    ctx.event("late_thresholds")
    if not 0.99 * hi <= d <= 1.01 * hi:
        ctx.fail("{}: the nodes travel {:.6e} in iteration {}, and the smallest accepted threshold is {:.6e}".format(
            name, d, t, hi), spec=spec)
    ctx.seen("late", name, t // 20, common.spec_signature(spec))


def steady(distances):
    d = distances[8:]
    return all(b < a for a, b in zip(d[:-40], d[1:-40]))


def slow_spec(rng):
    """A structure that settles, but only after hundreds of iterations: the indirect forces are scaled up to the brink."""
    for _ in range(4):
        base = gen.raw_spec(rng, family=gen.pick(rng, ["random", "tower", "arch"]), max_trails=3, max_len=3, planes=False)
        seq = oracle.sequences(base)
        indirect = [j for j, e in enumerate(base["edges"]) if e[2] == "deviation" and seq[e[0]] != seq[e[1]] and e[3]]
        if not indirect:
            continue
        lo, hi = 1.0, 60.0
        for _ in range(12):
            mid = (lo * hi) ** 0.5
            spec = copy.deepcopy(base)
            for j in indirect:
                spec["edges"][j][3] = base["edges"][j][3] * mid
            ref = oracle.solve(spec, max_iter=1500)
            ok = ref["min_residual"] > 1e-3 * spec["fscale"] and ref["min_dev_length"] > 1e-3 and ref["max_coord"] < 1e4
            # steadily, that is: a wild start would make the count depend on rounding
            # and whatever the order in which the trails are walked
            if ok and ref["converged"] and ref["iters"] > 450 and steady(ref["distances"]):
                orders = [oracle.solve(dict(spec, trails=list(t)), max_iter=1500) for t in itertools.permutations(spec["trails"])]
                if all(r["converged"] and steady(r["distances"]) and r["iters"] < 1.3 * ref["iters"] for r in orders):
                    return spec, ref
            lo, hi = (mid, hi) if ref["converged"] else (lo, mid)
    return None, None


def case(ctx):
    rng = ctx.rng
    i = ctx.index % 8
    scale = float([0.5, 1.0, 1.0, 2.0, 4.0, 8.0, 15.0, 1.0][i])
    slow = ctx.index % 16 == 10
    if slow:
        spec, ref = slow_spec(rng)
        if spec is None:
            raise Skip()
        ctx.event("slow")
    elif i == 7:
        spec, ref = gen.good_spec(rng, indirect=False)
    else:
        for _ in range(50):
            spec = gen.raw_spec(rng, family=gen.pick(rng, ["random", "tower", "arch", "random"]), deviation_scale=scale,
                                planes=bool(rng.random() < 0.3))
            if len(spec["trails"]) < 2:
                continue
            seq = oracle.sequences(spec)
            if any(seq[e[0]] != seq[e[1]] for e in spec["edges"] if e[2] == "deviation"):
                break
        ref = oracle.solve(spec, max_iter=300)
        if ref["min_residual"] < 1e-3 * spec["fscale"] or ref["min_dev_length"] < 1e-3 or ref["plane_bad"]:
            raise Skip()
        if ref["min_plane_cos"] < 0.05 or ref["max_coord"] > 1e4:
            raise Skip()

    if rng.random() < 0.1:
        bare = gen.build(spec, trails=False)
        for name, eng in common.engines():
            try:
                eng(bare)
            except Exception:
                ctx.event("refused_without_trails")
            else:
                ctx.fail("{} returned a form although no trails were built".format(name), spec=spec)

    topo = gen.build(spec)
    # the number of iterations depends on the order in which the trails are walked
    orders = [list(map(list, topo.trails()))]
    orders += [orders[0][::-1]] + [[orders[0][j] for j in rng.permutation(len(orders[0]))] for _ in range(2)]
    refs = [ref] + [oracle.solve(dict(spec, trails=t), max_iter=1500 if slow else 300) for t in orders if t != spec["trails"]]
    settles = all(r["converged"] for r in refs)
    etas = [1e-6, 1e-6, 1e-3, 1e-9, 1e-1, 10.0] if not slow else [1e-6, 1e-9]
    for name, eng in common.engines():
        eta = float(gen.pick(rng, etas))
        # when does the reference settle?
        first = [next((t for t, d in enumerate(r["distances"]) if t > 0 and d < 0.1 * eta), None) for r in refs]
        first = None if None in first else max(first)
        options = [2, 3, 5, 10, 40, 100, 150]
        if first:
            options += [first + 2, 2 * first + 4, first + 1]
        if slow and first and first > 100:
            options = [2 * first + 4]
        tmax = max(2, int(gen.pick(rng, options)))
        must_return = bool(settles and first is not None and tmax >= 2 * first + 4)
        kw = {}
        if rng.random() < 0.3:
            kw["verbose"] = True
        calls = [0]
        if rng.random() < 0.5:
            def cb():
                calls[0] += 1
            kw["callback"] = cb
        ntrail = sum(1 for e in spec["edges"] if e[2] == "trail")

        def limit_kept():
            if "callback" in kw:
                ctx.event("callbacks_counted")
                if calls[0] == 0 or calls[0] > ntrail * tmax:
                    ctx.fail("{} called the callback {} times in at most {} iterations".format(name, calls[0], tmax), spec=spec)

        try:
            form = eng(topo, tmax=tmax, eta=eta, **kw)
        except ValueError as e:
            ctx.event("raised")
            limit_kept()
            if must_return:
                ctx.fail("{} raised although the nodes settle in {} iterations: tmax={} eta={} ({})".format(
                    name, first, tmax, eta, e), spec=spec, distances=ref["distances"][:60])
            ctx.seen("raised", name, tmax, eta, common.spec_signature(spec))
            continue
        ctx.event("returned")
        if must_return:
            ctx.event("must_return")
        limit_kept()
        st = common.State(form)
        if not st.finite():
            ctx.fail("{} returned non finite numbers".format(name), spec=spec)
        for n, moved, bound in residual_motion(spec, st, eta):
            ctx.event("fixed_points_checked")
            if not moved <= 2.0 * bound:
                ctx.fail("{} returned a form that is not settled: one more step moves node {} by {:.3e}, the threshold "
                         "{:.0e} allows {:.1e}".format(name, n, moved, eta, bound), spec=spec, tmax=tmax)
        ctx.seen("returned", name, tmax, eta, common.spec_signature(spec))

    if i != 7 and not slow and rng.random() < 0.5:
        for name, eng in common.engines():
            follow_threshold(ctx, name, eng, topo, spec, steps=5 if rng.random() < 0.8 else 40)

    if slow:
        for name, eng in common.engines():
            late_threshold(ctx, name, eng, topo, spec)

    # the documented defaults
    for again in range(6 if slow else 1):
        if not slow and rng.random() < 0.7:
            break
        other = topo
        if again:
            # in a unit in which the nodes come to rest shortly before or after the default limit
            other = gen.build(gen.scaled(spec, 1e-6 / ref["distances"][int(rng.integers(80, 125))], 1.0))
            ctx.event("close_to_default_limit")
        for name, eng in common.engines():
            pair = []
            for kw in ({}, {"tmax": 100, "eta": 1e-6}):
                try:
                    pair.append(common.State(eng(other, **kw)))
                except ValueError:
                    pair.append(None)
            ctx.event("defaults")
            if (pair[0] is None) != (pair[1] is None) or pair[0] is not None and common.same_state(*pair, 1e-12 * (1 + ref["max_coord"]), 1e-12 * (1 + ref["max_residual"])):
                ctx.fail("{} without settings does not do what it does with tmax=100 and eta=1e-6".format(name), spec=spec)

    # a single iteration is allowed, verbose or not, and is exact without indirect edges
    if i == 7 and not slow:
        for name, eng in common.engines():
            st = common.State(eng(topo, tmax=1, eta=1e-6, verbose=bool(rng.random() < 0.5)))
            tx, tf = common.tolerances(spec, ref)
            diff = common.compare_ref(st, ref, spec, tx, tf)
            ctx.event("exact_single_pass")
            if diff:
                ctx.fail("{}, single iteration: {}".format(name, diff), spec=spec)
            # without indirect edges the second iteration repeats the first one: it settles, whatever the threshold
            st = common.State(eng(topo, tmax=int(gen.pick(rng, [2, 3, 100])), eta=1e-12 * spec["gscale"]))
            diff = common.compare_ref(st, ref, spec, tx, tf)
            if diff:
                ctx.fail("{}, no indirect edges: {}".format(name, diff), spec=spec)
    ctx.sample = common.spec_sample(spec, settles_in=ref["iters"], converged=ref["converged"])
