"""P23  The optimizer works on the parameters and constraints it holds now, whatever was added and removed before."""
import numpy as np

import common
import gen
import optim
from core import Skip

ID = "P23"
QUICK = 700
THOROUGH = 12000
CHUNK = 2
RULE = ("Histories of 3-25 additions and removals of parameters and constraints (valid, repeated and unknown keys, several "
        "optimizers side by side, solves in between) mirrored by a plain model: counters, keys and contents must follow, bad "
        "removals must raise KeyError and change nothing, keys are never reused. Then solve(): the solver boundary must see one "
        "variable per held parameter, in the order they were added, and an objective that is the sum of the penalties of the "
        "held constraints. Distinct = operation history x problem signature.")
MUST_OBSERVE = ["added_parameters", "added_constraints", "removed_parameters", "removed_constraints", "bad_removals",
                "solved_after_removal", "solved_between", "objectives_compared", "side_by_side", "same_object_again"]


class Model(object):
    def __init__(self):
        self.p, self.c = {}, {}
        self.np = self.nc = 0


def compare(ctx, opt, m, label):
    ctx.event("states_compared")
    if opt.number_of_parameters() != len(m.p) or opt.number_of_constraints() != len(m.c):
        ctx.fail("{}: the optimizer counts {} parameters and {} constraints, it holds {} and {}".format(
            label, opt.number_of_parameters(), opt.number_of_constraints(), len(m.p), len(m.c)))
    if list(opt.parameters) != list(m.p) or list(opt.constraints) != list(m.c):
        ctx.fail("{}: the optimizer holds keys {} {} instead of {} {}".format(
            label, list(opt.parameters), list(opt.constraints), list(m.p), list(m.c)))
    for k, (obj, _) in m.p.items():
        if opt.parameters[k] is not obj:
            ctx.fail("{}: parameter {} is another object".format(label, k))
    for k, (obj, _) in m.c.items():
        if opt.constraints[k] is not obj:
            ctx.fail("{}: constraint {} is another object".format(label, k))


def case(ctx):
    rng = ctx.rng
    spec, ref, params, cons = optim.good_problem(rng, count=6)
    if rng.random() < 0.15:
        w = float(gen.pick(rng, [1e4, 1e-4]))
        cons = [[c[0], c[1], c[2], w * c[3]] for c in cons]
        ctx.event("unusual_weights")
    extra = optim.make_params(rng, spec, count=6)
    have = {(p[0], p[1]) for p in params}
    params = params + [p for p in extra if (p[0], p[1]) not in have]
    from compas_cem.optimization import Optimizer
    pair = [(Optimizer(), Model()), (Optimizer(), Model())]
    geo = gen.pick(rng, ["compas", "plain"])
    history = []
    topo = gen.build(spec)
    start = spec
    removed = False
    first = []
    if rng.random() < 0.06:
        first = ["+c"] * int(rng.integers(13, 40)) + ["+p"]
        ctx.event("many_held")
    for i in range(len(first) + int(rng.integers(3, 26))):
        which = 0 if rng.random() < 0.8 or i < len(first) else 1
        opt, m = pair[which]
        op = gen.pick(rng, ["+p", "+p", "+c", "+c", "-p", "-c", "bad", "solve", "again"]) if i >= len(first) else first[i]
        if op == "+p":
            used = {(s[0], s[1]) for _, s in m.p.values()}
            free = [p for p in params if (p[0], p[1]) not in used]
            if not free:
                continue
            p = gen.pick(rng, free)
            obj = optim.param_object(p)
            opt.add_parameter(obj)
            m.p[m.np] = (obj, p)
            m.np += 1
            ctx.event("added_parameters")
        elif op == "+c":
            c = gen.pick(rng, cons)
            obj = optim.constraint_object(c, geo)
            opt.add_constraint(obj)
            m.c[m.nc] = (obj, c)
            m.nc += 1
            ctx.event("added_constraints")
        elif op == "again":
            # the same object once more: a constraint counts twice, a parameter is a second variable
            if m.c and rng.random() < 0.7:
                obj, c = gen.pick(rng, list(m.c.values()))
                opt.add_constraint(obj)
                m.c[m.nc] = (obj, c)
                m.nc += 1
            elif m.p:
                # ... which makes sense only for as long as one of them goes again
                obj, p = gen.pick(rng, list(m.p.values()))
                opt.add_parameter(obj)
                k = m.np
                m.np += 1
                m.p[k] = (obj, p)
                compare(ctx, opt, m, str(history[-3:]) + " and the same parameter again")
                k = gen.pick(rng, [k for k, v in m.p.items() if v[0] is obj])
                opt.remove_parameter(k)
                del m.p[k]
                removed = True
            else:
                continue
            ctx.event("same_object_again")
        elif op == "-p" and m.p:
            k = gen.pick(rng, list(m.p))
            opt.remove_parameter(k)
            del m.p[k]
            removed = True
            ctx.event("removed_parameters")
        elif op == "-c" and m.c:
            k = gen.pick(rng, list(m.c))
            opt.remove_constraint(k)
            del m.c[k]
            removed = True
            ctx.event("removed_constraints")
        elif op == "bad":
            f = gen.pick(rng, [(opt.remove_parameter, m.p, m.np), (opt.remove_constraint, m.c, m.nc)])
            k = gen.pick(rng, [k for k in range(-2, f[2] + 3) if k not in f[1]] + [None, "0", 10 ** 6])
            try:
                f[0](k)
            except KeyError:
                ctx.event("bad_removals")
            else:
                ctx.fail("removing {!r}, which is not there, passed".format(k), history=history)
        elif op == "solve" and m.p and m.c and which == 0 and len(history) < 20 + len(first):
            start = solve(ctx, opt, m, start, topo, history)
            ctx.event("solved_between")
        else:
            continue
        history.append((op, which))
        for o, mm in pair:
            compare(ctx, o, mm, str(history[-4:]))
        ctx.event("side_by_side", int(which == 1))
    opt, m = pair[0]
    if not m.p:
        obj = optim.param_object(params[0])
        opt.add_parameter(obj)
        m.p[m.np] = (obj, params[0])
    if not m.c:
        obj = optim.constraint_object(cons[0], geo)
        opt.add_constraint(obj)
        m.c[m.nc] = (obj, cons[0])
    solve(ctx, opt, m, start, topo, history)
    compare(ctx, opt, m, "after solve")
    ctx.event("solved_after_removal", int(removed))
    ctx.seen(tuple(history), optim.problem_signature(spec, [p for _, p in m.p.values()], [c for _, c in m.c.values()]))
    ctx.sample = {"history": [h[0] for h in history], "held_parameters": len(m.p), "held_constraints": len(m.c)}


def solve(ctx, opt, m, spec, topo, history):
    rng = ctx.rng
    params = [p for _, p in m.p.values()]
    cons = [c for _, c in m.c.values()]
    g = spec["gscale"]
    info = dict(spec=spec, params=params, cons=cons, history=history)
    out, err, rec = optim.monitored(opt.solve, topo, algorithm=gen.pick(rng, optim.ALGORITHMS), grad=gen.pick(rng, ["AD", "AD", "FD"]),
                                    iters=3, eps=None, kappa=None, tmax=300, eta=1e-10 * g)
    if optim.diverged(err, rec) and rec and rec[-1]["evals"]:
        raise Skip()  # a chain of solves left the domain where form-finding converges
    if err is not None:
        ctx.fail("solve() raised {!r}".format(err), **info)
    r = rec[-1]
    x0 = optim.start_values(spec, params)
    if len(r["x0"]) != len(params) or not np.all(np.abs(r["x0"] - x0) <= 1e-12 * (1 + np.abs(x0))):
        ctx.fail("the search starts at {}, the held parameters start at {}".format(r["x0"].tolist(), x0.tolist()), **info)
    for x, fx, gx in (r["evals"][0], r["evals"][-1]):
        f, s, ref = optim.objective(spec, params, cons, x)
        if not gen.spec_ok(s, ref, max_rate_iters=120) or ref["flips"]:
            continue
        noise = max(c[3] for c in cons) * max(g, spec["fscale"], ref["max_residual"]) ** 2
        ctx.event("objectives_compared")
        if not abs(f - fx) <= 1e-6 * abs(f) + 1e-9 * noise:
            ctx.fail("the objective is {}, the held constraints cost {}".format(fx, f), **info)
        if gx is not None and gx.shape != (len(params),):
            ctx.fail("the gradient has shape {}".format(gx.shape), **info)
    end = optim.topo_values(topo, params)
    if opt.x_opt is not None and not np.array_equal(end, np.array(opt.x_opt, dtype=float)):
        ctx.fail("the optimum {} did not reach the parameters it belongs to: {}".format(opt.x_opt, end.tolist()), **info)
    return optim.apply_values(spec, params, end)
