"""C01: a converged load flow satisfies the AC network equations."""
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check

TOL = 1.05e-5  # solver tolerance promised (1e-5) plus rounding of |V| and angle


def check_equations(net, state, what):
    for u in (state["bus_v_magn"]["pu"], state["bus_v_ang"]["rad"]):
        check(all(np.isfinite(u[i]) for i in net.bus_ids), "%s: converged but voltages are not finite", what)
    s = net.slack_bus
    check(abs(state["bus_v_magn"]["pu"][s] - net.v0) < 1e-9, "%s: slack bus magnitude %r instead of its specified %r",
          what, state["bus_v_magn"]["pu"][s], net.v0)
    check(abs(state["bus_v_ang"]["rad"][s]) < 1e-9, "%s: slack bus angle %r", what, state["bus_v_ang"]["rad"][s])
    V = sk.voltages(state, net)
    S = oc.power_at(net, V)
    tol = TOL + 1e-12 * float(np.max(np.abs(net.Y()))) * float(np.max(np.abs(V))) ** 2
    for k, b in enumerate(net.bus_ids):
        P = sum(state["dev_p"]["pu"][i] for i, d in net.dev.items() if d.bus == b)
        Q = sum(state["dev_q"]["pu"][i] for i, d in net.dev.items() if d.bus == b)
        check(abs(S[k].real - P) <= tol and abs(S[k].imag - Q) <= tol,
              "%s: converged, but at bus %d the voltages imply injection %r p.u. while its devices inject %r", what, b, complex(S[k]), complex(P, Q))


def body(ctx, case):
    run = sk.Run(case)
    net = run.net
    if run.reset_converged:
        check_equations(net, run.sim.state, "reset")
    for k, inp in enumerate(case["steps"]):
        state, _, _, _, conv = run.step(inp)
        if not conv:
            ctx.event("collapsed")
            continue
        check_equations(net, state, "step %d" % k)
        loaded = [b for b in net.bus_ids if b != net.slack_bus and any(
            abs(state["dev_p"]["pu"][i]) + abs(state["dev_q"]["pu"][i]) > 1e-3 for i, d in net.dev.items() if d.bus == b)]
        if loaded:
            ctx.nontrivial()
            ctx.event("converged_loaded")
            if len(net.branches) >= len(net.bus_ids):
                ctx.event("meshed")
            if any(abs(e.tap - 1) > 1e-6 for e in net.branches):
                ctx.event("tap_or_shift")
            if net.bus_ids != list(range(len(net.bus_ids))) or net.pos[net.slack_bus] != 0:
                ctx.event("unusual_numbering_or_slack_position")


RULE = "a converged transition with a non-zero injection at some non-slack bus, in a distinct case"
PARTS = [
    Part("mild", ng.sim_case(kinds=(-1, -1, -1, 1, 2, 3), max_dev=4, max_bus=6, steps=(1, 3)), body, 700, 40000, RULE),
    Part("loads-any-shift", ng.sim_case(kinds=(-1,), max_dev=6, max_bus=8, shifts="tree", steps=(1, 3), over=3.0), body, 1300, 80000, RULE),
    Part("heavy", ng.sim_case(kinds=(-1, -1, 1), max_dev=4, big=4.0, steps=(1, 4)), body, 350, 20000, RULE),
]
