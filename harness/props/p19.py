"""P19  The solver is told the right objective value and the right gradient at every point it tries."""
import numpy as np

import common
import gen
import optim
import oracle
from core import Skip

ID = "P19"
QUICK = 800
THOROUGH = 5000
CHUNK = 2
RULE = ("Random constrained form-finding problems (1-8 parameters of 8 kinds, 1-5 constraints of 8 kinds, direct and indirect "
        "deviation edges, planes, shifted trails) solved with AD and FD gradients by all six algorithms; a monitor at the "
        "solver boundary records every (x, f(x), gradient). Objective values are compared with an independent equilibrium "
        "solver and penalty; gradients with central (AD) or forward (FD, same step) differences of that independent "
        "objective; runs stopped short of convergence (tmax=1, coarse eta) are compared with differences of the objective the solver itself was "
        "given. Points at a kink of the objective are left out. Distinct = parameter kinds x constraint kinds x structure x "
        "gradient method.")
MUST_OBSERVE = ["values_compared", "AD", "FD", "truncated", "truncated_fd", "indirect", "tiny_steps"] + \
    ["grad_" + p for p in optim.PARAMS] + ["wrt_" + c for c in optim.CONSTRAINTS]


def units(spec, params):
    g, f = spec["gscale"], spec["fscale"]
    return np.array([g if p[0].startswith("origin") or p[0] == "trail" else f for p in params])


def is_indirect(spec):
    seq = oracle.sequences(spec)
    return any(e[2] == "deviation" and seq[e[0]] != seq[e[1]] for e in spec["edges"])


def smooth(spec, params, cons, x):
    f, s, ref = optim.objective(spec, params, cons, x)
    if not gen.spec_ok(s, ref, max_rate_iters=120) or ref["flips"]:
        return None
    st = optim.ref_state(ref)
    for c in cons:
        if optim.kink_margin(c, st, spec["gscale"]) < 2e-3:
            return None
    return f, s, ref


def boundary_objective(spec, params, cons, x, tmax, eta):
    """The objective that the optimizer itself gives to the solver at x."""
    topo = gen.build(optim.apply_values(spec, params, x))
    opt = optim.optimizer(params, cons)
    _, exc, rec = optim.monitored(opt.solve, topo, iters=1, eps=None, kappa=None, tmax=tmax, eta=eta)
    return rec[0]["evals"][0][1]


def curvature(spec, params, cons, x, f0, u):
    out = np.zeros(len(x))
    for i in range(len(x)):
        h = 1e-4 * u[i]
        a, b = x.copy(), x.copy()
        a[i] += h
        b[i] -= h
        out[i] = (optim.objective(spec, params, cons, a)[0] - 2 * f0 + optim.objective(spec, params, cons, b)[0]) / h ** 2
    return out


def settles_early(spec, params, x, u):
    """Does a small step in some parameter make the iteration take many more rounds?"""
    rounds = lambda y: oracle.solve(optim.apply_values(spec, params, y), max_iter=400, tol=1e-12)["iters"]
    most = rounds(x) + 3
    return any(rounds(x + 1e-5 * u * e) > most for e in np.eye(len(x)))


def case(ctx):
    rng = ctx.rng
    spec, ref, params, cons = optim.good_problem(rng, bounds=True)
    grad = "FD" if ctx.index % 4 == 3 else "AD"
    tiny = ctx.index % 8 == 7
    if tiny:
        # no iteration, no noise of its truncation: steps can be very small
        for _ in range(20):
            if not is_indirect(spec):
                break
            spec, ref, params, cons = optim.good_problem(rng, bounds=True)
        else:
            tiny = False
    truncated = ctx.index % 6 == 4
    geo = gen.pick(rng, ["compas", "plain"])
    algorithm = gen.pick(rng, optim.ALGORITHMS)
    g = spec["gscale"]
    tmax, eta = 300, 1e-11 * g
    if truncated:
        grad = "FD" if ctx.index % 12 == 10 else "AD"
        tiny = False
        params = params[:3]
        tmax, eta = gen.pick(rng, [(1, 1e-6), (200, 1e-2 * g), (200, 1e-3 * g)])
    step = float(gen.pick(rng, [1e-8, 1e-9, 1e-10]) if tiny else gen.pick(rng, [1e-6, 1e-5, 1e-4]))
    if truncated and grad == "FD":
        step = 1e-4 * g
    if rng.random() < 0.1:
        w = float(gen.pick(rng, [1e4, 1e-4, 1e10]))
        cons = [[c[0], c[1], c[2], w * c[3]] for c in cons]
        ctx.event("unusual_weights")
    opt = optim.optimizer(params, cons, geo)
    topo = gen.build(spec)
    out, exc, rec = optim.monitored(opt.solve, topo, algorithm=algorithm, grad=grad, step_size=step, iters=6, eps=None,
                                    kappa=None, tmax=tmax, eta=eta)
    if exc is not None:
        ctx.fail("{} failed with {!r}".format(algorithm, exc), spec=spec, params=params, cons=cons)
    evals = [e for e in rec[0]["evals"] if e[2] is not None]
    if not evals:
        raise Skip()
    indirect = is_indirect(spec)
    picks = [evals[0]]
    if len(evals) > 1:
        picks.append(evals[int(rng.integers(1, len(evals)))])
    # the gradient that the optimizer reports at its result (none when nlopt gave up)
    if rec[0]["exc"] is None:
        picks.append((np.array(opt.x_opt, dtype=float), float(opt.penalty), np.array(opt.gradient, dtype=float)))
    u = units(spec, params)
    compared = False
    for x, fx, gx in picks:
        if truncated:
            if smooth(spec, params, cons, x) is None:
                continue
            want = np.zeros(len(x))
            alt = np.zeros(len(x))
            for i in range(len(x)):
                if grad == "FD":
                    # the very difference: the same step, the same limits of form-finding
                    a = x.copy()
                    a[i] += step
                    want[i] = alt[i] = (boundary_objective(spec, params, cons, a, tmax, eta) - fx) / step
                    continue
                for fac, dest in ((1e-5, want), (2e-5, alt)):
                    a, b = x.copy(), x.copy()
                    a[i] += fac * u[i]
                    b[i] -= fac * u[i]
                    dest[i] = (boundary_objective(spec, params, cons, a, tmax, eta) -
                               boundary_objective(spec, params, cons, b, tmax, eta)) / (2 * fac * u[i])
            err = np.abs(want - alt)
            floor = 1e-10 * abs(fx) / 1e-5
            if grad == "FD":
                floor = 1e-9 * abs(fx) * np.max(u) / step
                ctx.event("truncated_fd")
            ctx.event("truncated")
        else:
            base = smooth(spec, params, cons, x)
            if base is None:
                ctx.event("kinks_left_out")
                continue
            f0 = base[0]
            scale = max(c[3] for c in cons) * max(g, spec["fscale"], base[2]["max_residual"]) ** 2
            ctx.event("values_compared")
            if not abs(fx - f0) <= 1e-7 * f0 + 1e-10 * scale:
                ctx.fail("the solver was told that the objective at {} is {} but it is {}".format(x.tolist(), fx, f0),
                         spec=spec, params=params, cons=cons)
            if grad == "FD" and tiny:
                want, err = optim.numeric_gradient(spec, params, cons, x)
                # what a forward step adds
                bend = 0.5 * step * curvature(spec, params, cons, x, f0, u)
                want = want + bend
                err = err + 0.02 * np.abs(bend)
                floor = 2e-13 * scale / step
                ctx.event("tiny_steps")
            elif grad == "FD":
                want = np.zeros(len(x))
                alt = np.zeros(len(x))
                for i in range(len(x)):
                    a = x.copy()
                    a[i] += step
                    want[i] = (optim.objective(spec, params, cons, a)[0] - f0) / step
                    a[i] = x[i] + 2 * step
                    alt[i] = (optim.objective(spec, params, cons, a)[0] - f0) / (2 * step)
                err = np.abs(want - alt) * 0.05
                # near a kink of the penalty the two steps disagree
                floor = 4e-11 * scale / step
            else:
                if indirect and settles_early(spec, params, x, u):
                    # symmetric structures: the places of the nodes settle before their derivatives do
                    ctx.event("settled_early")
                    continue
                want, err = optim.numeric_gradient(spec, params, cons, x)
                floor = 1e-10 * scale / 1e-5
        size = np.max(np.abs(want) * u)
        if size == 0.0:
            size = 1e-300
        floor_u = floor if grad == "FD" and not truncated else floor / u
        tol = 2e-4 * np.abs(want) + 1e-5 * size / u + 20 * err + floor_u
        if np.any(err * u > 2e-3 * size + 1e-9):
            ctx.event("kinks_left_out")
            continue
        for i, p in enumerate(params):
            ctx.event("components_compared")
            ctx.event("grad_" + p[0])
            if not abs(gx[i] - want[i]) <= tol[i]:
                ctx.fail("{} gradient w.r.t. {} at {} is {} and should be {} (tolerance {:.1e})".format(
                    grad, p[:2], x.tolist(), gx[i], want[i], tol[i]), spec=spec, params=params, cons=cons, tmax=tmax, eta=eta,
                    gradient=gx, wanted=want, geometry=geo, step=step)
        if abs(want[np.argmax(np.abs(want) * u)]) > 10 * tol[np.argmax(np.abs(want) * u)]:
            ctx.event("informative_gradients")
        compared = True
    if not compared:
        raise Skip()
    ctx.event(grad)
    ctx.event("indirect", int(indirect))
    for c in cons:
        ctx.event("wrt_" + c[0])
    if rec[0]["exc"] is None:
        nrm = float(opt.gradient_norm)
        if not abs(nrm - np.linalg.norm(np.array(opt.gradient, dtype=float))) <= 1e-12 * nrm:
            ctx.fail("gradient_norm is {} but the gradient has norm {}".format(nrm, np.linalg.norm(opt.gradient)))
    ctx.seen(grad, truncated, geo, optim.problem_signature(spec, params, cons))
    ctx.sample = {"params": params, "constraints": [c[0] for c in cons], "grad": grad, "algorithm": algorithm}
