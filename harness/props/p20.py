"""P20  What the optimizer returns and reports describes one and the same result."""
import contextlib
import io

import numpy as np

import common
import gen
import optim
import oracle
from core import Skip

ID = "P20"
QUICK = 700
THOROUGH = 12000
CHUNK = 2
RULE = ("Random problems solved by all six algorithms, AD and FD, with random iteration limits, thresholds, form-finding "
        "tmax/eta, verbose on and off, on topologies that were solved before, edited, or copied. Afterwards the optimal "
        "parameters, the topology, the returned form, the penalty, the gradient norm and the evaluation count must agree with "
        "each other, with the solver's own record and with an independent equilibrium and penalty computation. Solver failures "
        "(roundoff, runtime error) are injected after 0-12 evaluations or at the end. Distinct = algorithm x gradient x "
        "outcome x problem signature.")
MUST_OBSERVE = ["solved", "forms_checked", "penalties_checked", "gradients_checked", "roundoff_injected", "runtime_injected",
                "verbose", "repeat_solves", "loose_eta", "last_trial_not_best"] + optim.ALGORITHMS


def agrees(ctx, spec, params, cons, topo, form, opt, x, tmax, eta, label, info):
    """topology, form, penalty all describe x."""
    have = optim.topo_values(topo, params)
    if not np.array_equal(have, np.array(x, dtype=float)):
        ctx.fail("{}the topology holds {} but the optimal parameters are {}".format(label, have.tolist(), list(map(float, x))), **info)
    s = optim.apply_values(spec, params, x)
    ref = oracle.solve(s, max_iter=400, tol=1e-13)
    ok = gen.spec_ok(s, ref, max_rate_iters=120) and not ref["flips"]
    g = spec["gscale"]
    st = common.State(form)
    # the form is the form of the topology, for the tmax and eta that were asked for
    again = common.State(common.engine("python")(topo.copy(), tmax=tmax, eta=eta))
    diff = common.same_state(st, again, 1e-9 * g, 1e-9 * max(spec["fscale"], ref["max_residual"]), label)
    ctx.event("forms_checked")
    if diff and ok:
        ctx.fail("the returned form is not the form of the topology for tmax={} eta={}: {}".format(tmax, eta, diff), **info)
    if ok and eta <= 1e-8 * g:
        tol_x, tol_f = common.tolerances(s, ref, 2e-6)
        diff = common.compare_ref(st, ref, s, tol_x, tol_f)
        if diff:
            ctx.fail("{}the returned form is not the equilibrium of the optimal parameters: {}".format(label, diff), **info)
        for n in st.nodes:
            want = dict(map(tuple, [(k, tuple(q)) for k, q in s["loads"]])).get(n, (0.0, 0.0, 0.0))
            if not np.max(np.abs(st.load[n] - np.array(want))) <= 1e-12 * max(1.0, np.max(np.abs(want))):
                ctx.fail("{}node {} of the form carries the load {} instead of {}".format(label, n, st.load[n], want), **info)
    return s, ref, st, ok


def case(ctx):
    rng = ctx.rng
    bounds = gen.pick(rng, [True, "open"])
    spec, ref, params, cons = optim.good_problem(rng, bounds=bounds)
    g = spec["gscale"]
    algorithm = optim.ALGORITHMS[ctx.index % 6]
    grad = "FD" if rng.random() < 0.25 else "AD"
    iters = int(gen.pick(rng, [1, 2, 3, 4, 6, 10, 30]))
    tmax, eta = 300, 1e-11 * g
    if rng.random() < 0.2:
        tmax, eta = gen.pick(rng, [(1, 1e-6), (150, 1e-3 * g), (150, 1e-2 * g)])
        ctx.event("loose_eta")
    verbose = bool(rng.random() < 0.3)
    kw = dict(algorithm=algorithm, grad=grad, iters=iters, eps=gen.pick(rng, [None, 1e-6]), kappa=gen.pick(rng, [None, 1e-8]),
              tmax=tmax, eta=eta, verbose=verbose)
    info = dict(spec=spec, params=params, cons=cons, kw=kw)
    geo = gen.pick(rng, ["compas", "plain"])
    opt = optim.optimizer(params, cons, geo)
    topo = gen.build(spec)
    mode = gen.pick(rng, ["plain"] * 6 + ["roundoff", "runtime", "roundoff_end", "runtime_end"])
    start = spec
    fresh = True
    if rng.random() < 0.3:
        # the optimizer has a past
        optim.monitored(opt.solve, topo, iters=int(rng.integers(1, 6)), algorithm=gen.pick(rng, optim.ALGORITHMS))
        start = optim.apply_values(spec, params, optim.topo_values(topo, params))
        ctx.event("repeat_solves")
        fresh = False
    if rng.random() < 0.2:
        topo = topo.copy()
        fresh = False

    import nlopt
    exc = {"roundoff": nlopt.RoundoffLimited("injected"), "runtime": RuntimeError("injected")}.get(mode.split("_")[0])
    if mode == "plain":
        out, err, rec = optim.monitored(opt.solve, topo, **kw)
    elif mode.endswith("_end"):
        with optim.fault_at_end(exc):
            out, err, rec = optim.monitored(opt.solve, topo, **kw)
    else:
        with optim.fault(int(rng.integers(0, 13)), exc):
            out, err, rec = optim.monitored(opt.solve, topo, **kw)
    if optim.diverged(err, rec) and bounds == "open":
        # nothing keeps the solver from parameters for which form-finding does not converge
        ctx.event("diverged")
        raise Skip()
    if err is not None:
        ctx.fail("{} raised {!r}".format(algorithm, err), **info)
    ctx.event(algorithm)
    ctx.event("verbose", int(verbose))
    r = rec[-1]
    failed = r["exc"]

    if isinstance(failed, RuntimeError) and not isinstance(failed, nlopt.RoundoffLimited):
        ctx.event("runtime_injected", int(mode.startswith("runtime")))
        for name in ("x_opt", "penalty", "gradient_norm", "evals", "status", "time_opt"):
            if getattr(opt, name) is not None:
                ctx.fail("the optimization failed but {} is {!r}".format(name, getattr(opt, name)), **info)
        # the caller still gets a form of the topology it passed
        agrees(ctx, start, params, cons, topo, out, opt, optim.topo_values(topo, params), tmax, eta, "after a failure ", info)
        ctx.seen(algorithm, grad, "runtime", mode, optim.problem_signature(spec, params, cons))
        return

    x = np.array(opt.x_opt, dtype=float)
    if failed is None:
        ctx.event("solved")
        if not np.array_equal(x, r["x"]):
            ctx.fail("the solver found {} but x_opt is {}".format(r["x"].tolist(), x.tolist()), **info)
        if opt.evals != len(r["evals"]):
            ctx.fail("{} evaluations are reported, {} took place".format(opt.evals, len(r["evals"])), **info)
        if r["evals"] and not np.array_equal(r["evals"][-1][0], x):
            ctx.event("last_trial_not_best")
    else:
        ctx.event("roundoff_injected", int(mode.startswith("roundoff")))
        ctx.event("roundoff_natural", int(mode == "plain"))
        if "ROUNDOFF" not in str(opt.status).upper():
            ctx.fail("roundoff halted the solver but the status is {}".format(opt.status), **info)
        if not any(np.array_equal(x, e[0]) for e in r["evals"]) and not np.array_equal(x, r["x0"]):
            ctx.fail("after roundoff x_opt {} is a point that was never tried".format(x.tolist()), **info)
    s, ref2, st, ok = agrees(ctx, start, params, cons, topo, out, opt, x, tmax, eta, "", info)

    # the penalty is that of the returned form
    fx = float(opt.penalty)
    mine = sum(optim.penalty_of(c, {"xyz": st.xyz, "trail_force": st.uforce(), "reaction": st.reaction}) for c in cons)
    f_ = max(spec["fscale"], ref2["max_residual"])
    noise = max(c[3] for c in cons) * max(g, f_) ** 2
    if ok:
        ctx.event("penalties_checked")
        # the two engines differ by rounding only
        if not abs(fx - mine) <= 1e-6 * abs(mine) + 1e-10 * noise:
            ctx.fail("the penalty is reported as {} but the returned form costs {}".format(fx, mine), **info)
        tried = [e[1] for e in r["evals"] if np.array_equal(e[0], x)]
        if tried and not abs(tried[-1] - fx) <= 1e-6 * abs(fx) + 1e-10 * noise:
            ctx.fail("the penalty is reported as {} but the solver saw {} at the optimum".format(fx, tried[-1]), **info)
    gr = np.array(opt.gradient, dtype=float)
    if gr.shape != x.shape:
        ctx.fail("the gradient has shape {}".format(gr.shape), **info)
    if not abs(float(opt.gradient_norm) - np.linalg.norm(gr)) <= 1e-12 * np.linalg.norm(gr):
        ctx.fail("the gradient norm is reported as {} but the gradient has norm {}".format(opt.gradient_norm, np.linalg.norm(gr)), **info)
    at = [e[2] for e in r["evals"] if np.array_equal(e[0], x) and e[2] is not None]
    if at:
        ctx.event("gradients_checked")
        unit = np.array([g if p[0].startswith("origin") or p[0] == "trail" else spec["fscale"] for p in params])
        d = np.abs(at[-1] - gr) * unit
        if not np.max(d) <= 1e-5 * np.max(np.abs(gr) * unit) + 1e-9 * noise + (1e-2 * np.max(np.abs(gr) * unit) if grad == "FD" else 0):
            ctx.fail("the gradient is reported as {} but the solver saw {} at the optimum".format(gr.tolist(), at[-1].tolist()), **info)
    if not float(opt.time_opt) >= 0.0 or not float(opt.time_opt) < 600:
        ctx.fail("the optimization is reported to have taken {} s".format(opt.time_opt), **info)
    if str(opt.status) not in repr(opt) or str(len(params)) not in repr(opt):
        ctx.fail("repr of the optimizer is {!r}".format(repr(opt)), **info)

    # the origin nodes are found where they are now
    for kind, key, _, _ in params:
        if kind.startswith("origin"):
            p = [float(c) for c in topo.node_coordinates(key)]
            if topo.node_key(p) != key:
                others = [n for n in topo.nodes() if n != key and np.max(np.abs(np.array(topo.node_coordinates(n), dtype=float) - np.array(p))) < 1e-2]
                if not others:
                    ctx.fail("the origin node {} is not found at {}".format(key, p), **info)
            ctx.event("origin_lookups")

    # the same question has the same answer, with or without talking
    if rng.random() < 0.3 and mode == "plain" and fresh:
        kw2 = dict(kw, verbose=not verbose)
        opt2 = optim.optimizer(params, cons, geo)
        topo2 = gen.build(start)
        out2, err2, rec2 = optim.monitored(opt2.solve, topo2, **kw2)
        if err2 is not None:
            ctx.fail("verbose={} raised {!r}".format(not verbose, err2), **info)
        if failed is None and rec2[-1]["exc"] is None:
            if not np.allclose(np.array(opt2.x_opt), x, rtol=1e-6, atol=1e-9) or opt2.evals != opt.evals or opt2.status != opt.status or \
                    not abs(float(opt2.penalty) - fx) <= 1e-6 * abs(fx) + 1e-10 * noise:
                ctx.fail("solving again gave {} {} instead of {} {}".format(opt2.x_opt, opt2.penalty, x.tolist(), fx), **info)
            ctx.event("solved_twice")
    ctx.seen(algorithm, grad, mode, opt.status, optim.problem_signature(spec, params, cons))
    ctx.sample = {"algorithm": algorithm, "grad": grad, "mode": mode, "evals": opt.evals, "status": str(opt.status),
                  "start": r["evals"][0][1] if r["evals"] else None, "end": fx, "params": [p[0] for p in params],
                  "constraints": [c[0] for c in cons]}
