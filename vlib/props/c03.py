"""C03: branch flows follow the pi-model, energy is conserved."""
import cmath
import math

import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check


def check_flows(ctx, net, state, what):
    V = sk.voltages(state, net)
    ref = oc.branch_quantities(net, V)
    ymax = max([float(np.max(np.abs(e.M))) for e in net.branches] or [1.0]) * max(1.0, float(np.max(np.abs(V)))) ** 2
    tol = 1e-9 * (1 + ymax)
    draw = {b: 0j for b in net.bus_ids}
    cur = {b: 0j for b in net.bus_ids}
    losses = 0.0
    for e in net.branches:
        key = (e.f, e.t)
        i_f, i_t, s_f, s_t = ref[key]
        p, q = state["branch_p"]["pu"][key], state["branch_q"]["pu"][key]
        check(abs(p - s_f.real) <= tol, "%s: branch %s P flow %r, pi-model gives %r", what, key, p, s_f.real)
        check(abs(q - s_f.imag) <= tol, "%s: branch %s Q flow %r, pi-model gives %r", what, key, q, s_f.imag)
        s = state["branch_s"]["pu"][key]
        m = max(abs(s_f), abs(s_t))
        check(abs(abs(s) - m) <= tol, "%s: branch %s apparent flow %r, pi-model magnitude %r", what, key, s, m)
        if m > 1e-6:
            if p == 0:
                check(s > 0, "%s: branch %s apparent flow %r is not positive though P = 0", what, key, s)
                ctx.event("zero_P_flow")
            elif abs(p) > 1e-10:
                check((s > 0) == (p > 0), "%s: branch %s apparent flow %r has the wrong sign for P = %r", what, key, s, p)
        im, ia = abs(state["branch_i_magn"]["pu"][key]), state["branch_i_ang"]["rad"][key]
        check(abs(im - abs(i_f)) <= tol, "%s: branch %s current %r, pi-model gives %r", what, key, im, abs(i_f))
        if abs(i_f) > 1e-6:
            check(abs(cmath.rect(abs(i_f), ia) - i_f) <= tol, "%s: branch %s current angle %r, expected %r", what, key, ia, cmath.phase(i_f))
        draw[e.f] += s_f
        draw[e.t] += s_t
        cur[e.f] += i_f
        cur[e.t] += i_t
        losses += (s_f + s_t).real
    check(losses >= -tol, "%s: branches generate %r p.u. of active power", what, -losses)
    total = 0.0
    for b in net.bus_ids:
        bp, bq = state["bus_p"]["pu"][b], state["bus_q"]["pu"][b]
        t = tol if b == net.slack_bus else 1.05e-5 + tol
        check(abs(bp - draw[b].real) <= t and abs(bq - draw[b].imag) <= t,
              "%s: bus %d reports injection %r but its branches draw %r", what, b, complex(bp, bq), complex(draw[b]))
        im, ia = state["bus_i_magn"]["pu"][b], state["bus_i_ang"]["rad"][b]
        check(abs(im - abs(cur[b])) <= tol, "%s: bus %d current %r, branches draw %r", what, b, im, abs(cur[b]))
        if abs(cur[b]) > 1e-5:
            check(abs(cmath.rect(im, ia) - cur[b]) <= 2 * tol, "%s: bus %d current angle %r, expected %r", what, b, ia, cmath.phase(cur[b]))
        total += bp
    others = [i for i, d in net.dev.items() if d.bus == net.slack_bus and not d.slack]
    for c, part in (("dev_p", draw[net.slack_bus].real), ("dev_q", draw[net.slack_bus].imag)):
        exp = part - sum(state[c]["pu"][i] for i in others)
        got = state[c]["pu"][net.slack_dev]
        check(abs(got - exp) <= tol, "%s: slack device %s = %r but the slack bus needs %r", what, c, got, exp)
    inj = sum(state["dev_p"]["pu"].values())
    t = 1.05e-5 * len(net.bus_ids) + tol
    check(abs(inj - losses) <= t, "%s: devices inject %r in total but branch losses are %r", what, inj, losses)
    return others


def body(ctx, case):
    run = sk.Run(case)
    if run.reset_converged:
        check_flows(ctx, run.net, run.sim.state, "reset")
    for k, inp in enumerate(case["steps"]):
        state, _, _, _, conv = run.step(inp)
        if not conv:
            continue
        others = check_flows(ctx, run.net, state, "step %d" % k)
        if any(abs(v) > 1e-3 for v in state["branch_s"]["pu"].values()):
            ctx.nontrivial()
            if others:
                ctx.event("slack_bus_shared")
            for e in run.net.branches:
                if abs(e.tap - 1) > 1e-6:
                    ctx.event("transformer_branch")
                if e.ysh:
                    ctx.event("charging_branch")


RULE = "a converged transition in which some branch carries more than 0.001 p.u."
PARTS = [
    Part("mild", ng.sim_case(kinds=(-1, -1, 1, 2, 3), max_dev=4, max_bus=5, steps=(1, 2)), body, 750, 40000, RULE),
    Part("loads-any-shift", ng.sim_case(kinds=(-1,), min_dev=0, max_dev=5, max_bus=7, shifts="tree", steps=(1, 3), over=3.0), body, 1500, 80000, RULE),
]
