"""P24  Solving a problem remotely gives what solving it here gives."""
import json

import numpy as np

import common
import gen
import optim
from core import Skip

ID = "P24"
QUICK = 500
THOROUGH = 8000
CHUNK = 2
RULE = ("Random problems are solved by Optimizer.solve on a copy and by solve_proxy, called directly and through the JSON "
        "dispatcher that the RPC proxy uses (arguments and results as text), with all six algorithms and random limits, "
        "thresholds, tmax and eta; also with solver failures injected and with ill-posed input. The seven results (topology, "
        "form, objective, gradient norm, evaluations, duration, status) must be those of the local solve, the returned topology "
        "must hold the optimal parameters and form-find to the returned form, and the caller's own topology must not move when "
        "the call is remote. The solver boundary shows that the limits asked for reached the solver. Distinct = route x "
        "algorithm x problem signature.")
MUST_OBSERVE = ["direct", "remote", "forms_compared", "topologies_compared", "defaults", "remote_errors", "failures",
                "caller_untouched", "trails_kept", "auxiliary"] + optim.ALGORITHMS


def remote(name, *args, **kwargs):
    """compas.rpc without the socket: the same encoder, dispatcher and decoder."""
    from compas.data import DataDecoder, DataEncoder
    from compas.rpc import Dispatcher
    text = json.dumps({"args": args, "kwargs": kwargs}, cls=DataEncoder)
    answer = Dispatcher()._dispatch("compas_cem.optimization." + name, (text,))
    out = json.loads(answer, cls=DataDecoder)
    if out["error"]:
        raise RuntimeError("remote: " + out["error"])
    return out["data"]


def case(ctx):
    rng = ctx.rng
    spec, ref, params, cons = optim.good_problem(rng)
    g = spec["gscale"]
    geo = gen.pick(rng, ["compas", "plain"])
    algorithm = optim.ALGORITHMS[ctx.index % 6]
    route = gen.pick(rng, ["direct", "remote", "remote"])
    kw = dict(algorithm=algorithm, iters=int(gen.pick(rng, [1, 3, 8, 25])))
    full = dict(kw, eps=gen.pick(rng, [1e-6, 1e-3, 1e-1, None]), kappa=gen.pick(rng, [1e-8, 1e-3, 1.0, None, 0.0]), tmax=int(gen.pick(rng, [1, 200, 250])),
                eta=float(gen.pick(rng, [1e-9, 1e-7, 1e-3])) * g)
    defaults = rng.random() < 0.2
    if defaults:
        ctx.event("defaults")
    else:
        kw = full
    extra = None
    if rng.random() < 0.2:
        # a loaded node on an auxiliary trail of its own, which starts late
        extra = (max(k for k, _ in spec["nodes"]) + 3, [40.0 * g, 3.0 * g, 1.0 * g], [0.0, 0.1 * spec["fscale"], -spec["fscale"]], int(rng.integers(0, 4)))
        ctx.event("auxiliary")
        kw["iters"] = min(kw["iters"], 3)
        full["iters"] = kw["iters"]

    def build():
        topo = gen.build(spec)
        if extra is not None:
            from compas_cem.elements import Node
            from compas_cem.loads import NodeLoad
            topo.add_node(Node(extra[0], list(extra[1])))
            topo.add_load(NodeLoad(extra[0], list(extra[2])))
            topo.build_trails(auxiliary_trails=True)
            for k, n in spec["shifts"] + [[extra[0], extra[3]]]:
                topo.shift_trail(k, n)
        return topo
    make = lambda: (build(), [optim.constraint_object(c, geo) for c in cons], [optim.param_object(p) for p in params])
    info = dict(spec=spec, params=params, cons=cons, kw=kw, route=route)

    if rng.random() < 0.08:
        # ill-posed input is an error on either side
        topo, cs, ps = make()
        if rng.random() < 0.5:
            cs = []
        else:
            ps = []
        f = (lambda *a, **k: remote("solve_proxy", *a, **k)) if route == "remote" else solve_proxy()
        out, err, rec = optim.monitored(f, topo, cs, ps, **kw)
        if err is None:
            ctx.fail("solve_proxy accepted a problem without parameters or constraints", **info)
        ctx.event("remote_errors")
        ctx.seen("ill-posed", route)
        return

    import nlopt
    exc = None
    if rng.random() < 0.15:
        exc = gen.pick(rng, [RuntimeError("injected"), nlopt.RoundoffLimited("injected")])
    after = int(rng.integers(0, 5))
    opt = optim.optimizer(params, cons, geo)
    mine = build()
    topo, cs, ps = make()
    before = common.topo_text(topo)
    f = (lambda *a, **k: remote("solve_proxy", *a, **k)) if route == "remote" else solve_proxy()

    def both():
        a = optim.monitored(opt.solve, mine, **kw)
        if gen.pick(rng, [True, False]):
            b = optim.monitored(f, topo, cs, ps, **kw)
        else:
            b = optim.monitored(f, topology=topo, constraints=cs, parameters=ps, **kw)
        return a, b
    if exc is not None:
        ctx.event("failures")
        with optim.fault(after, exc):
            (form, err, rec), (res, err2, rec2) = both()
    else:
        (form, err, rec), (res, err2, rec2) = both()
    if optim.diverged(err, rec) and defaults:
        raise Skip()  # absolute default eta on a structure whose rounding is above it
    if err is not None:
        ctx.fail("the local solve raised {!r}".format(err), **info)
    if err2 is not None:
        ctx.fail("solve_proxy raised {!r}".format(err2), **info)
    ctx.event(route)
    ctx.event(algorithm)
    if len(res) != 7:
        ctx.fail("solve_proxy returned {} results instead of seven".format(len(res)), **info)
    topo2, form2, objective, norm, evals, duration, status = res
    a, b = rec[-1], rec2[-1]
    if exc is None and optim.unsteady(a, b, lambda: optim.monitored(optim.optimizer(params, cons, geo).solve, build(), **kw)):
        raise Skip()
    for name in ("algorithm", "maxeval", "stopval", "ftol", "effective"):
        if a[name] != b[name]:
            ctx.fail("{} is {} for the local solver and {} for the remote one".format(name, a[name], b[name]), **info)
    if type(topo2).__name__ != "TopologyDiagram" or type(form2).__name__ != "FormDiagram":
        ctx.fail("solve_proxy returned a {} and a {}".format(type(topo2).__name__, type(form2).__name__), **info)
    unit = np.array([g if p[0].startswith("origin") or p[0] == "trail" else spec["fscale"] for p in params])
    x, y = optim.topo_values(mine, params), optim.topo_values(topo2, params)
    ctx.event("topologies_compared")
    if not np.all(np.abs(x - y) <= 1e-4 * unit):
        ctx.fail("the local optimum is {} and the remote one {}".format(x.tolist(), y.tolist()), **info)
    if {k: tuple(t) for k, t in topo2.trails(keys=True)} != {k: tuple(t) for k, t in mine.trails(keys=True)}:
        ctx.fail("the returned topology has other trails", **info)
    if {k: tuple(t) for k, t in topo2.auxiliary_trails(keys=True)} != {k: tuple(t) for k, t in mine.auxiliary_trails(keys=True)}:
        ctx.fail("the returned topology has other auxiliary trails", **info)
    for n in mine.nodes():
        if topo2.node_sequence(n) != mine.node_sequence(n) or bool(topo2.is_node_origin(n)) != bool(mine.is_node_origin(n)):
            ctx.fail("node {} of the returned topology sits elsewhere on its trail".format(n), **info)
    ctx.event("trails_kept")
    gave_up = opt.x_opt is None
    got = dict(objective=objective, grad_norm=norm, evals=evals, duration=duration, status=status)
    want = dict(objective=opt.penalty, grad_norm=opt.gradient_norm, evals=opt.evals, duration=opt.time_opt, status=opt.status)
    if gave_up:
        if any(v is not None for v in got.values()):
            ctx.fail("the solver gave up but solve_proxy reports {}".format(got), **info)
    else:
        noise = max(c[3] for c in cons) * max(g, spec["fscale"], ref["max_residual"]) ** 2
        if status != want["status"] or evals != want["evals"]:
            ctx.fail("solve_proxy reports {} and the local solve {}".format(got, want), **info)
        if not abs(objective - want["objective"]) <= 1e-4 * abs(want["objective"]) + 1e-9 * noise:
            ctx.fail("solve_proxy reports {} and the local solve {}".format(got, want), **info)
        if not abs(norm - want["grad_norm"]) <= 1e-3 * abs(want["grad_norm"]) + 1e-7 * noise:
            ctx.fail("solve_proxy reports {} and the local solve {}".format(got, want), **info)
        if not 0.0 <= duration < 600.0:
            ctx.fail("solve_proxy reports a duration of {}".format(duration), **info)
    # the returned form belongs to the returned topology
    tmax, eta = full["tmax"], full["eta"]
    if defaults:
        tmax, eta = 100, 1e-6
    st = common.State(form2)
    again = common.State(common.engine("python")(topo2.copy(), tmax=tmax, eta=eta))
    f_ = max(spec["fscale"], ref["max_residual"])
    diff = common.same_state(st, again, 1e-8 * g, 1e-8 * f_, "")
    ctx.event("forms_compared")
    if diff:
        ctx.fail("the returned form is not that of the returned topology: {}".format(diff), **info)
    diff = common.same_state(st, common.State(form), 1e-3 * g, 1e-2 * f_, "")
    if diff:
        ctx.fail("the remote form is not the local one: {}".format(diff), **info)
    if route == "remote":
        ctx.event("caller_untouched")
        if common.topo_text(topo) != before:
            ctx.fail("a remote solve moved the caller's topology", **info)
    ctx.seen(route, algorithm, geo, str(status), optim.problem_signature(spec, params, cons))
    ctx.sample = {"route": route, "algorithm": algorithm, "status": str(status), "evals": evals, "objective": objective}


def solve_proxy():
    from compas_cem.optimization import solve_proxy as f
    return f
