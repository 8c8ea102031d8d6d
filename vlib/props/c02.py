"""C02: collapse is reported when, and only when, there is no operating point."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from ..netgen import D


def all_finite(net, state, what):
    for q, units in state.items():
        for u, m in units.items():
            for k, v in m.items():
                check(math.isfinite(v), "%s: converged but %s[%s][%s] = %r", what, q, u, k, v)


# --- part 1: one loaded bus, exact loadability limit -------------------------------------------------------------


@st.composite
def single(draw):
    spec = draw(ng.network(kinds=(-1,), min_dev=1, max_dev=1, max_bus=6, opt=True, alone=False))
    slack = [b[0] for b in spec["bus"] if b[1] == 0][0]
    for r in spec["device"]:
        if r[D["DEV_TYPE"]] == -1:
            if r[D["BUS_ID"]] == slack:
                r[D["BUS_ID"]] = [b[0] for b in spec["bus"] if b[0] != slack][0]
            r[D["PMIN"]], r[D["PMAX"]] = None, 0.0
            r[D["Q/P"]] = draw(ng.num(-0.5, 1.0))
    side = draw(st.sampled_from(["under", "over", "far_over"]))
    f = draw({"under": ng.num(0.05, 0.8), "over": ng.num(1.01, 1.2), "far_over": ng.num(1.2, 30.0)}[side])
    return {"spec": spec, "factor": f, "repeat": draw(st.integers(1, 3))}


def thevenin(net, bus):
    """E, Z seen from `bus` with no other injection."""
    Y = net.Y()
    n = len(net.bus_ids)
    s, b = net.pos[net.slack_bus], net.pos[bus]
    ns = [k for k in range(n) if k != s]
    Zr = np.linalg.inv(Y[np.ix_(ns, ns)])
    E = (-Zr @ Y[np.ix_(ns, [s])][:, 0] * net.v0)[ns.index(b)]
    return E, Zr[ns.index(b), ns.index(b)]


def disc(E, Z, S):
    """>= 0 (with a positive linear term) iff V conj((V-E)/Z) = S has a solution."""
    lin = abs(E) ** 2 + 2 * (S * np.conj(Z)).real
    return (lin * lin - 4 * abs(S) ** 2 * abs(Z) ** 2) if lin > 0 else -1.0


def body_single(ctx, case):
    spec = case["spec"]
    net = oc.Net(spec)
    d = net.dev[net.loads[0]]
    try:
        E, Z = thevenin(net, d.bus)
    except np.linalg.LinAlgError:
        return
    u = complex(-1, -(d.qp or 0.0))
    # Largest feasible load along u.
    lo, hi = 0.0, 1e-3
    while disc(E, Z, hi * u) >= 0:
        hi *= 2
        if hi > 1e6:
            return
    for _ in range(80):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if disc(E, Z, mid * u) >= 0 else (lo, mid)
    lam = case["factor"] * lo
    if lo < 0.02 or lo > 50:
        return
    S = lam * u
    sim = sk.make_sim(spec)
    ok0 = sk.reset_zero(sim, net)
    if case["factor"] > 1:
        # Far enough beyond the limit for no voltage to satisfy the equations within the tolerance.
        if any(disc(E, Z, S + complex(a, b) * 1e-3) >= 0 for a in (-1, 0, 1) for b in (-1, 0, 1)):
            return
        for _ in range(case["repeat"]):
            _, _, _, _, conv = sk.transition(sim, {"load": {d.id: -lam * net.base}, "pot": {}, "p": {}, "q": {}})
            check(not conv, "load of %r p.u. at bus %d exceeds the maximum transferable %r p.u. but the transition is reported as converged", lam, d.bus, lo)
        ctx.event("beyond_limit")
        ctx.nontrivial()
        # The verdict is not sticky: back at a light load the network recovers (if it was healthy with no load).
        light = reference(net, {d.bus: 0.05 * lo * u})
        if light:
            state, _, _, _, conv = sk.transition(sim, {"load": {d.id: -0.05 * lo * net.base}, "pot": {}, "p": {}, "q": {}})
            check(conv, "light load of %r p.u. (limit %r) reported as collapsed after an infeasible one", 0.05 * lo, lo)
            all_finite(net, state, "light load")
        return
    V = reference(net, {d.bus: S})
    if not V:
        return
    for _ in range(case["repeat"]):
        state, _, _, _, conv = sk.transition(sim, {"load": {d.id: -lam * net.base}, "pot": {}, "p": {}, "q": {}})
        check(conv, "load of %r p.u. at bus %d (limit %r p.u.) has a healthy operating point but is reported as collapsed", lam, d.bus, lo)
        all_finite(net, state, "transition")
    ctx.event("below_limit")
    ctx.nontrivial()


def reference(net, S):
    """A healthy operating point found by continuation, or None."""
    P, Q = {b: s.real for b, s in S.items()}, {b: s.imag for b, s in S.items()}
    V = oc.solve_pf(net, P, Q, steps=8)
    if V is None:
        return None
    m, a = np.abs(V), np.degrees(np.angle(V))
    if m.min() < 0.85 or m.max() > 1.2 or np.abs(a).max() > 30:
        return None
    return [complex(v) for v in V]


# --- part 2: independent feeders from the slack bus, one of them overloaded ---------------------------------------


@st.composite
def feeders(draw):
    n = draw(st.integers(2, 5))
    base = draw(st.sampled_from(ng.BASES))
    bus_ids = draw(ng.ids(n + 1))
    slack = bus_ids[draw(st.integers(0, n))]
    v0 = draw(ng.num(0.95, 1.05))
    buses = [[i, 0 if i == slack else 1, 33, v0 if i == slack else 1.1, v0 if i == slack else 0.9] for i in bus_ids]
    feet = [i for i in bus_ids if i != slack]
    br, dv = [], [[0, slack, 0] + [None] * 12]
    for k, i in enumerate(feet):
        a, b = (slack, i) if draw(st.booleans()) else (i, slack)
        br.append([a, b, draw(ng.num(0, 0.1)), draw(ng.num(0.02, 0.3)), draw(st.sampled_from([0.0, 0.05])), None,
                   draw(st.sampled_from([1.0, None, 0.95, 1.05])), 0.0])
        row = [k + 1, i, -1, draw(ng.num(-0.3, 0.8))] + [None] * 11
        dv.append(row)
    fac = [draw(ng.num(0.0, 0.7)) for _ in feet]
    bad = draw(st.integers(-len(feet), len(feet) - 1))
    if bad >= 0:
        fac[bad] = draw(ng.num(1.02, 5.0))
    return {"spec": {"base": base, "bus": buses, "branch": br, "device": dv}, "factors": fac}


def body_feeders(ctx, case):
    net = oc.Net(case["spec"])
    S, infeasible, loads = {}, False, {}
    for f, i in zip(case["factors"], net.loads):
        d = net.dev[i]
        E, Z = thevenin(net, d.bus)
        u = complex(-1, -d.qp)
        lo, hi = 0.0, 1e-3
        while disc(E, Z, hi * u) >= 0:
            hi *= 2
        for _ in range(80):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if disc(E, Z, mid * u) >= 0 else (lo, mid)
        s = f * lo * u
        S[d.bus] = s
        loads[i] = s.real * net.base
        if f > 1:
            if any(disc(E, Z, s + complex(a, b) * 1e-3) >= 0 for a in (-1, 0, 1) for b in (-1, 0, 1)):
                return
            infeasible = True
    sim = sk.make_sim(case["spec"])
    state, _, _, _, conv = sk.transition(sim, {"load": loads, "pot": {}, "p": {}, "q": {}})
    if infeasible:
        check(not conv, "one feeder is loaded beyond its limit (factors %r) but the transition is reported as converged", case["factors"])
        ctx.event("one_feeder_overloaded")
        ctx.nontrivial()
    elif reference(net, S):
        check(conv, "every feeder is within its limit (factors %r) but the network is reported as collapsed", case["factors"])
        all_finite(net, state, "feeders")
        ctx.event("all_feasible")
        ctx.nontrivial()


# --- part 3: general networks with a healthy operating point ------------------------------------------------------


def body_general(ctx, case):
    run = sk.Run(case)
    net = run.net
    for k, inp in enumerate(case["steps"]):
        state, _, _, _, conv = run.step(inp)
        S = {b: 0j for b in net.bus_ids}
        for i, d in net.dev.items():
            if not d.slack:
                S[d.bus] += complex(state["dev_p"]["pu"][i], state["dev_q"]["pu"][i])
        if conv:
            all_finite(net, state, "step %d" % k)
        if reference(net, S):
            check(conv, "step %d: injections %r admit a healthy operating point but the network is reported as collapsed", k, S)
            ctx.event("healthy")
            ctx.nontrivial()
        else:
            ctx.event("stressed_converged" if conv else "stressed_collapsed")


# --- part 4: phase shifts so large that the search often leads nowhere: an answer is still given -------------------


def body_shifts(ctx, case):
    run = sk.Run(case)
    for k, inp in enumerate([None] + case["steps"]):
        if inp is None:
            state, conv = run.sim.state, run.reset_converged
        else:
            state, _, _, _, conv = run.step(inp)
        check(conv in (True, False), "step %d: converged is %r", k, conv)
        if conv:
            all_finite(run.net, state, "step %d" % k)
        ctx.event("converged" if conv else "no_solution_found")
        if not conv:
            ctx.nontrivial()


PARTS = [
    Part("one-loaded-bus", single(), body_single, 480, 60000, "a load at a known fraction of the exact loadability limit, outside the undecided band around the limit"),
    Part("feeders", feeders(), body_feeders, 240, 30000, "star network, every feeder clearly inside its limit or one clearly beyond it"),
    Part("general", ng.sim_case(kinds=(-1, -1, -1, 1, 3), max_dev=4, max_bus=6, steps=(1, 3), over=2.0), body_general, 240, 30000,
         "a reference continuation solver finds a healthy operating point for the applied injections"),
    Part("large-shifts", ng.sim_case(kinds=(-1,), min_dev=1, max_dev=3, min_bus=2, max_bus=7, mesh=False, shifts="large", steps=(1, 2)), body_shifts, 400, 40000,
         "no solution was found, and this was reported"),
]
