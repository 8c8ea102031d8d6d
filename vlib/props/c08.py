"""C08: the simulator's reward is minus energy loss minus constraint penalty."""
import math

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check


def body(ctx, case):
    run = sk.Run(case)
    net = run.net
    for k, inp in enumerate(case["steps"]):
        state, r, e_loss, pen, conv = run.step(inp)
        if not conv:
            continue
        P = state["dev_p"]["pu"]
        want = sum(P[i] for i, d in net.dev.items() if d.type != 3)
        curt = sum(max(0.0, state["gen_p_max"]["pu"][i] - P[i]) for i in net.rer)
        want = run.dt * (want + curt)
        sc = max(1.0, max(abs(v) for v in P.values())) * len(P) * max(1, run.dt)
        check(abs(e_loss - want) <= 1e-9 * sc, "step %d: energy loss %r, expected %r (injections %r, curtailment %r, dt %r)", k, e_loss, want, P, curt, run.dt)
        over = 0.0
        for b, bus in net.bus.items():
            v = state["bus_v_magn"]["pu"][b]
            over += max(0.0, v - bus.vmax, bus.vmin - v)
        vover = over
        for e in net.branches:
            over += max(0.0, abs(state["branch_s"]["pu"][(e.f, e.t)]) - e.rate)
        want_p = run.dt * run.lamb * over
        tol = 1e-9 * max(1.0, run.lamb * run.dt * (1 + over))
        check(abs(pen - want_p) <= tol, "step %d: penalty %r, expected %r (total excess %r, dt %r, factor %r)", k, pen, want_p, over, run.dt, run.lamb)
        check(abs(r + (e_loss + pen)) <= 1e-9 * max(1, abs(e_loss) + abs(pen)), "step %d: reward %r is not -(energy loss %r + penalty %r)", k, r, e_loss, pen)
        if over == 0:
            check(pen == 0, "step %d: no limit is violated but the penalty is %r", k, pen)
        ctx.event("voltage_violation" if vover > 1e-9 else "no_voltage_violation")
        ctx.event("overload" if over > vover else "no_overload")
        if curt > 1e-4:
            ctx.event("curtailment")
        if any(abs(P[i]) > 1e-4 for i in net.des):
            ctx.event("storage_active")
        if over > 1e-9 or curt > 1e-4:
            ctx.nontrivial()


RULE = "a converged transition with a violated limit or curtailed generation"
PARTS = [
    Part("mixed", ng.sim_case(kinds=(-1, 1, 2, 3), min_dev=2, max_dev=5, max_bus=5, steps=(1, 2)), body, 1760, 40000, RULE),
    Part("loads", ng.sim_case(kinds=(-1,), min_dev=1, max_dev=5, max_bus=6, steps=(1, 3), over=2.0), body, 2560, 60000, RULE),
]
