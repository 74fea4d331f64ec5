"""P22  The optimizer improves, stops when told, says truthfully how it ended, and refuses ill-posed problems."""
import copy

import numpy as np

import common
import gen
import optim
import oracle
from core import Skip
from props import p05

ID = "P22"
QUICK = 900
THOROUGH = 15000
CHUNK = 2
RULE = ("Random problems for all six algorithms with iteration limits 1-60 and thresholds eps and kappa that are absent, tight, "
        "loose, or met from the start. The solver-boundary log decides: the result is never worse than the start nor than any "
        "trial; the run ends within the iteration limit and soon after eps or kappa is met; the status names how nlopt ended and "
        "is consistent with the log; reachable targets are reached; the algorithm that runs is the one named. Ill-posed calls "
        "(no parameters, no constraints, unknown gradient or algorithm names) are refused and leave topology and results alone. "
        "Distinct = algorithm x status x thresholds x problem signature.")
MUST_OBSERVE = ["improved", "met_from_start", "EPSVAL", "ITERSMAX", "FTOL", "refused_no_parameters", "refused_no_constraints",
                "refused_gradient", "refused_algorithm", "refused_after_solve", "reachable_reached", "kappa_stops", "eps_stops", "defaults",
                "limits_in_force", "documented_defaults", "documented_defaults_raise"] + optim.ALGORITHMS

NAMES = {1: "SUCCESS", 2: "EPSVAL", 3: "FTOL", 4: "XTOL", 5: "ITERSMAX", 6: "MAXTIME", -1: "FAILURE", -2: "INVALID",
         -3: "MEMORY", -4: "ROUNDOFF", -5: "FORCED"}


def refuse(ctx, spec, params, cons):
    """Ill-posed calls."""
    rng = ctx.rng
    topo = gen.build(spec)
    before = common.topo_text(topo)
    what = gen.pick(rng, ["no_parameters", "no_constraints", "gradient", "algorithm"])
    kw = {}
    names = ("x_opt", "penalty", "status", "evals", "gradient_norm", "time_opt")
    earlier = bool(rng.random() < 0.5)
    if earlier:
        # an optimizer that has results of its own already
        opt = optim.optimizer(params, cons)
        _, err, _ = optim.monitored(opt.solve, gen.build(spec), iters=3, tmax=300, eta=1e-10 * spec["gscale"])
        if err is not None or opt.penalty is None:
            raise Skip()
        for k in list(opt.parameters) if what == "no_parameters" else []:
            opt.remove_parameter(k)
        for k in list(opt.constraints) if what == "no_constraints" else []:
            opt.remove_constraint(k)
        ctx.event("refused_after_solve")
    else:
        opt = optim.optimizer([] if what == "no_parameters" else params, [] if what == "no_constraints" else cons)
    had = {n: copy.deepcopy(getattr(opt, n)) for n in names}
    if what == "gradient":
        kw["grad"] = gen.pick(rng, ["ad", "fd", "CD", "", "finite", None])
    if what == "algorithm":
        kw["algorithm"] = gen.pick(rng, ["slsqp", "COBYLA", "", "NELDERMEAD", "BFGS", None])
    removed = not earlier and what in ("no_parameters", "no_constraints") and rng.random() < 0.5
    if removed:
        # a problem that lost everything it had
        if what == "no_parameters":
            for p in params:
                opt.add_parameter(optim.param_object(p))
            for k in list(opt.parameters):
                opt.remove_parameter(k)
        else:
            for c in cons:
                opt.add_constraint(optim.constraint_object(c))
            for k in list(opt.constraints):
                opt.remove_constraint(k)
    out, err, rec = optim.monitored(opt.solve, topo, **kw)
    if err is None:
        ctx.fail("solve() accepted a problem with {} {}".format(what.replace("_", " "), kw), spec=spec, params=params, cons=cons)
    if any(r["evals"] for r in rec):
        ctx.fail("solve() ran a solver before it refused {} {}".format(what, kw))
    if common.topo_text(topo) != before:
        ctx.fail("a refused problem ({}) changed the topology".format(what), spec=spec)
    for name in names:
        if common.canonical(getattr(opt, name)) != common.canonical(had[name]):
            ctx.fail("a refused problem ({}) reports {} = {!r}, it was {!r}".format(what, name, getattr(opt, name), had[name]))
    ctx.event("refused_" + what)
    ctx.seen("refused", what, removed, str(kw))


def as_documented(ctx, spec, params, cons, out, err, opt, info, geo="compas"):
    """A call without settings does what the same call with the documented settings does."""
    documented = dict(algorithm="SLSQP", grad="AD", iters=100, eps=1e-6, kappa=1e-8, tmax=100, eta=1e-6)

    def run(**kw):
        o = optim.optimizer(params, cons, geo)
        f, e, _ = optim.monitored(o.solve, gen.build(spec), **kw)
        return f, e, o

    def differ(r, q):
        if type(r[1]) is not type(q[1]):
            return "without settings: {!r}; with the documented ones: {!r}".format(r[1], q[1])
        if r[1] is not None:
            return None
        for name in ("penalty", "evals", "status", "gradient_norm"):
            a, b = getattr(r[2], name), getattr(q[2], name)
            if a != b and not (isinstance(a, float) and abs(a - b) <= 1e-10 * (abs(a) + abs(b))):
                return "without settings {} is {!r}, with the documented ones {!r}".format(name, a, b)
        diff = common.same_state(common.State(r[0]), common.State(q[0]), 1e-12 * max(spec["gscale"], 1.0), 1e-12 * max(spec["fscale"], 1.0), "")
        return diff and "without settings the form is another one than with the documented ones: " + diff
    ctx.event("documented_defaults")
    left, right = [(out, err, opt)], [run(**documented)]
    diff = differ(left[0], right[0])
    if diff:
        # the order in which gradients are summed changes from run to run: does that decide here?
        keep = []
        for i in range(4):
            keep.append(np.zeros(1000 + 37 * i))
            left.append(run())
            right.append(run(**documented))
        if any(not differ(a, b) for a in left for b in right) or any(differ(side[0], r) for side in (left, right) for r in side[1:]):
            ctx.event("unsteady_search")
            return
        ctx.fail(diff, **info)
    if err is not None:
        ctx.event("documented_defaults_raise")


def slow_defaults(ctx):
    """Form-finding needs more iterations than the default allows: the search says so."""
    rng = ctx.rng
    spec, ref = p05.slow_spec(rng)
    if spec is None:
        raise Skip()
    if rng.random() < 0.7:
        # in a unit in which the nodes come to rest shortly before or after the default limit
        at = int(rng.integers(75, 115))
        spec = gen.scaled(spec, 1e-6 / ref["distances"][at], 1.0)
        ref = oracle.solve(spec, max_iter=1500)
        ctx.event("close_to_default_limit")
    node = gen.pick(rng, spec["trails"])[-1]
    params = [["load_z", gen.pick(rng, spec["trails"])[0], 1e-4 * spec["fscale"], 1e-4 * spec["fscale"]]]
    cons = [["point", node, gen.flist(ref["xyz"][node] + 0.1 * spec["gscale"]), 1.0]]
    opt = optim.optimizer(params, cons)
    out, err, _ = optim.monitored(opt.solve, gen.build(spec))
    as_documented(ctx, spec, params, cons, out, err, opt, dict(spec=spec, params=params, cons=cons))
    ctx.seen("slow", type(err).__name__, common.spec_signature(spec))


def case(ctx):
    rng = ctx.rng
    if ctx.index % 40 == 17:
        slow_defaults(ctx)
        return
    spec, ref, params, cons = optim.good_problem(rng)
    if rng.random() < 0.15:
        refuse(ctx, spec, params, cons)
        return
    g = spec["gscale"]
    algorithm = optim.ALGORITHMS[ctx.index % 6]
    regime = gen.pick(rng, ["free", "free", "met", "reachable", "kappa", "short", "eps", "defaults"])
    x0, low, up = optim.bounds_of(spec, params)
    iters, eps, kappa = int(gen.pick(rng, [5, 12, 40])), gen.pick(rng, [None, 1e-6, 0.0]), gen.pick(rng, [None, 1e-8, 0.0])
    f0 = sum(optim.penalty_of(c, optim.ref_state(ref)) for c in cons)
    if regime == "met":
        eps = 1.01 * f0 + 1e-9
    elif regime == "eps":
        eps, iters = float(rng.uniform(0.3, 0.95)) * f0 + 1e-12, 60
    elif regime == "kappa":
        kappa, eps, iters = 1e3 * (f0 + 1.0), None, 200
        if rng.random() < 0.5:
            # small everything
            for c in cons:
                c[3] *= 1e-7
            kappa = 1e-6 * f0 + 1e-12
    elif regime == "short":
        eps, kappa, iters = None, None, int(gen.pick(rng, [1, 2, 3]))
    elif regime == "reachable":
        # one parameter, one target that a known interior value of it meets
        params = [params[0]]
        x0, low, up = optim.bounds_of(spec, params)
        if up[0] - low[0] < 1e-6:
            raise Skip()
        params[0][2], params[0][3] = max(abs(params[0][2]), 1e-3), max(abs(params[0][3]), 1e-3)
        x0, low, up = optim.bounds_of(spec, params)
        xt = low + (up - low) * rng.uniform(0.55, 0.75)
        s = optim.apply_values(spec, params, xt)
        r = oracle.solve(s, max_iter=300, tol=1e-13)
        moved = max(spec["nodes"], key=lambda k: np.linalg.norm(r["xyz"][k[0]] - ref["xyz"][k[0]]))[0]
        if np.linalg.norm(r["xyz"][moved] - ref["xyz"][moved]) < 1e-2 * g:
            raise Skip()
        cons = [["point", moved, gen.flist(r["xyz"][moved]), 1.0]]
        f0 = sum(optim.penalty_of(c, optim.ref_state(ref)) for c in cons)
        eps, kappa, iters = 1e-4 * f0, None, 100
    elif regime == "defaults":
        # as documented
        algorithm, iters, eps, kappa = "SLSQP", 100, 1e-6, 1e-8
    geo = gen.pick(rng, ["compas", "plain"])
    opt = optim.optimizer(params, cons, geo)
    topo = gen.build(spec)
    kw = dict(algorithm=algorithm, iters=iters, eps=eps, kappa=kappa, tmax=300, eta=1e-10 * g)
    info = dict(spec=spec, params=params, cons=cons, kw=kw, regime=regime)
    out, err, rec = optim.monitored(opt.solve, topo, **({} if regime == "defaults" else kw))
    if regime == "defaults":
        as_documented(ctx, spec, params, cons, out, err, opt, info, geo)
        ctx.event("defaults")
        if optim.diverged(err, rec):
            raise Skip()  # the absolute default eta is below the rounding of a large structure
    if err is not None:
        ctx.fail("{} raised {!r}".format(algorithm, err), **info)
    ctx.event(algorithm)
    r = rec[-1]
    if len(rec) != 1:
        ctx.fail("{} optimizations ran instead of one".format(len(rec)), **info)
    fs = [e[1] for e in r["evals"]]
    noise = 1e-9 * max(c[3] for c in cons) * max(g, spec["fscale"], ref["max_residual"]) ** 2

    # the algorithm that was asked for
    import nlopt
    want = {"SLSQP": [nlopt.LD_SLSQP], "LBFGS": [nlopt.LD_LBFGS], "MMA": [nlopt.LD_MMA], "AUGLAG": [nlopt.LD_AUGLAG],
            "TNEWTON": [nlopt.LD_TNEWTON, nlopt.LD_TNEWTON_PRECOND, nlopt.LD_TNEWTON_RESTART, nlopt.LD_TNEWTON_PRECOND_RESTART],
            "VAR": [nlopt.LD_VAR1, nlopt.LD_VAR2]}[algorithm]
    if r["algorithm"] not in want:
        ctx.fail("{} was asked for and nlopt algorithm {} ran".format(algorithm, r["algorithm"]), **info)

    # the limits the solver runs with are the ones that were set
    for name, have, asked in (("iters", r["maxeval"], iters), ("eps", r["stopval"], eps), ("kappa", r["ftol"], kappa)):
        if have is not None and have != asked:
            ctx.fail("{}={} was asked for and the solver runs with {}".format(name, asked, have), **info)
    eff = r["effective"]
    for name, have, asked, off in (("iters", eff["maxeval"], iters, None), ("eps", eff["stopval"], eps, -np.inf),
                                   ("kappa", eff["ftol_abs"], kappa, 0.0), ("no relative change", eff["ftol_rel"], 0.0, 0.0),
                                   ("no relative step", eff["xtol_rel"], 0.0, 0.0), ("no least step", eff["xtol_abs"], 0.0, 0.0),
                                   ("no time limit", eff["maxtime"], 0.0, 0.0)):
        ctx.event("limits_in_force")
        if not (have == asked or (asked is None and have == off) or (asked == 0.0 and have <= 0.0 and name != "eps")):
            ctx.fail("{}={} was asked for and the solver runs with {}".format(name, asked, have), **info)

    # limits: nlopt finishes the line search it is in (which can take dozens of trials)
    if len(fs) > iters + 60:
        ctx.fail("{} evaluations took place, the limit is {}".format(len(fs), iters), **info)
    if eps is not None:
        hit = [i for i, f in enumerate(fs) if f <= eps]
        if hit and len(fs) - 1 - hit[0] > 60:
            ctx.fail("the search went on for {} evaluations after eps was met".format(len(fs) - 1 - hit[0]), **info)
        ctx.event("eps_stops", int(bool(hit)))
    if regime == "met":
        ctx.event("met_from_start")
        if len(fs) > 3:
            ctx.fail("the start meets eps but {} evaluations took place".format(len(fs)), **info)

    if isinstance(r["exc"], RuntimeError) and not isinstance(r["exc"], nlopt.RoundoffLimited):
        ctx.event("nlopt_gave_up")
        return
    fx = float(opt.penalty)
    if not fx <= fs[0] * (1 + 1e-6) + noise:
        ctx.fail("{} ended at {}, worse than the start {}".format(algorithm, fx, fs[0]), **info)
    if not fx <= min(fs) * (1 + 1e-6) + noise:
        ctx.fail("{} ended at {}, but a trial had {}".format(algorithm, fx, min(fs)), **info)
    ctx.event("improved", int(fx < fs[0] * (1 - 1e-6)))
    if regime == "kappa" and r["exc"] is None:
        ctx.event("kappa_stops")
        if len(fs) > 150:
            ctx.fail("no step can matter (kappa {}) but {} evaluations took place".format(kappa, len(fs)), **info)
    if r["exc"] is None:
        name = NAMES[r["result"]]
        ctx.event(name)
        if name not in str(opt.status):
            ctx.fail("nlopt ended with {} but the status is {}".format(name, opt.status), **info)
        if name == "EPSVAL" and not (eps is not None and fx <= eps * (1 + 1e-6) + noise):
            ctx.fail("the status is {} but the penalty {} is not below {}".format(opt.status, fx, eps), **info)
        if name == "ITERSMAX" and len(fs) < iters:
            ctx.fail("the status is {} after {} of {} evaluations".format(opt.status, len(fs), iters), **info)
        if name == "MAXTIME":
            ctx.fail("the status is {} but no time limit was set".format(opt.status), **info)
        if eps is not None and fx <= eps * (1 - 1e-6) - noise and name not in ("EPSVAL", "ITERSMAX", "SUCCESS", "FTOL", "XTOL"):
            ctx.fail("the target was met but the status is {}".format(opt.status), **info)
    elif "ROUNDOFF" not in str(opt.status).upper():
        ctx.fail("roundoff halted the solver but the status is {}".format(opt.status), **info)
    if regime == "reachable":
        if fx <= eps * (1 + 1e-6) + noise:
            ctx.event("reachable_reached")
        else:
            ctx.event("reachable_missed")
            # a bounded one parameter problem: is there really something better next to the result?
            x = np.array(opt.x_opt, dtype=float)
            best = fx
            for t in np.linspace(-0.02, 0.02, 9):
                xs = np.clip(x + t * (up - low), low, up)
                best = min(best, optim.objective(spec, params, cons, xs)[0])
            ctx.event("reachable_local_optimum", int(best >= 0.9 * fx))
            if best < 0.5 * fx and r["exc"] is None:
                ctx.fail("{} stopped at {} with {} evaluations left, and {} is within reach".format(
                    algorithm, fx, iters - len(fs), best), **info)
    ctx.seen(algorithm, regime, str(opt.status), optim.problem_signature(spec, params, cons))
    ctx.sample = {"algorithm": algorithm, "regime": regime, "iters": iters, "eps": eps, "kappa": kappa, "evals": len(fs),
                  "start": fs[0], "end": fx, "status": str(opt.status)}
