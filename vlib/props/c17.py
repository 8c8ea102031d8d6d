"""C17: results do not depend on numbering, row order, branch direction or base power."""
import copy
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from ..netgen import B, D, R


@st.composite
def cases(draw, **kw):
    c = draw(ng.sim_case(**kw))
    s = c["spec"]
    nb, nd = len(s["bus"]), len(s["device"])
    t = {"bus": {}, "dev": {}, "perm": {}, "rev": [], "c": 1.0}
    if draw(st.booleans()):
        new = draw(st.lists(st.integers(0, 60), min_size=nb, max_size=nb, unique=True))
        t["bus"] = {str(r[0]): v for r, v in zip(s["bus"], new)}
    if draw(st.booleans()):
        new = draw(st.lists(st.integers(0, 60), min_size=nd, max_size=nd, unique=True))
        t["dev"] = {str(r[0]): v for r, v in zip(s["device"], new)}
    for k in ("bus", "branch", "device"):
        t["perm"][k] = draw(st.permutations(list(range(len(s[k])))))
    for r in s["branch"]:
        plain = (r[R["TAP"]] in (None, 1)) and r[R["SHIFT"]] in (None, 0)
        t["rev"].append(plain and draw(st.booleans()))
    if draw(st.booleans()):
        t["c"] = draw(st.one_of(st.sampled_from([2, 0.5, 4, 0.25]), ng.num(0.25, 4)))
    c["t"] = t
    return c


def transform(spec, t):
    s = copy.deepcopy(spec)
    bm = lambda i: t["bus"].get(str(i), i)
    dm = lambda i: t["dev"].get(str(i), i)
    c = t["c"]
    if c != 1:
        s["base"] = s["base"] * c
    for r in s["bus"]:
        r[0] = bm(r[0])
    for r, rev in zip(s["branch"], t["rev"]):
        r[0], r[1] = bm(r[0]), bm(r[1])
        if rev:
            r[0], r[1] = r[1], r[0]
        if c != 1:
            for k, f in (("BR_R", c), ("BR_X", c), ("BR_B", 1 / c)):
                if r[R[k]] is not None:
                    r[R[k]] = r[R[k]] * f
    for r in s["device"]:
        r[0], r[D["BUS_ID"]] = dm(r[0]), bm(r[D["BUS_ID"]])
    for k in ("bus", "branch", "device"):
        s[k] = [s[k][j] for j in t["perm"][k]]
    return s, bm, dm


def body(ctx, case):
    t = case["t"]
    spec2, bm, dm = transform(case["spec"], t)
    a = sk.Run(case)
    c2 = dict(case)
    c2["soc"] = {str(dm(int(k))): v for k, v in case["soc"].items()}
    c2["spec"] = spec2
    b = sk.Run(c2)
    net, net2 = a.net, b.net
    S, S2, c = net.base, net2.base, float(t["c"])
    loads = not (net.gens or net.des)
    u = max(1.0, c)  # a p.u. error of either system, in p.u. of the first
    tol0 = 2e-5 if loads else 4e-4
    changed = bool(t["bus"] or t["dev"] or any(t["rev"]) or t["c"] != 1 or any(p != sorted(p) for p in t["perm"].values()))
    check(a.reset_converged == b.reset_converged or not healthy(a) and not healthy(b), "reset converges only in one of two equivalent networks")
    for k, inp in enumerate(case["steps"]):
        tol = tol0 * (k + 1) * u
        x = a.step(inp)
        y = b.step({q: {str(dm(int(i))): v for i, v in m.items()} for q, m in inp.items()})
        if not (x[4] and y[4]):
            ok = x[4] if x[4] else y[4]
            st_ = x[0] if x[4] else y[0]
            if ok and min(st_["bus_v_magn"]["pu"].values()) > 0.85:
                check(False, "step %d: converged = %r in one network, %r in an equivalent one", k, x[4], y[4])
            ctx.event("not_converged")
            break
        X, Y = x[0], y[0]
        if min(X["bus_v_magn"]["pu"].values()) < 0.8 or max(X["bus_v_magn"]["pu"].values()) > 1.4:
            ctx.event("unhealthy_not_compared")
            break
        amp = 8.0 * tol
        for i in net.bus_ids:
            va, vb = sk.voltages(X, net)[net.pos[i]], sk.voltages(Y, net2)[net2.pos[bm(i)]]
            check(abs(va - vb) <= tol, "step %d: voltage of bus %d is %r, in the equivalent network (bus %d) %r", k, i, va, bm(i), vb)
            for q, unit in (("bus_p", "MW"), ("bus_q", "MVAr")):
                check(abs(X[q][unit][i] - Y[q][unit][bm(i)]) <= amp * S, "step %d: %s of bus %d is %r, in the equivalent network %r", k, q, i, X[q][unit][i], Y[q][unit][bm(i)])
        for i in net.dev_ids:
            w = amp if i == net.slack_dev else tol
            for q, unit in (("dev_p", "MW"), ("dev_q", "MVAr")):
                check(abs(X[q][unit][i] - Y[q][unit][dm(i)]) <= w * S, "step %d: %s of device %d is %r, in the equivalent network (device %d) %r", k, q, i, X[q][unit][i], dm(i), Y[q][unit][dm(i)])
        for i in net.des:
            w = tol * max(1.0, case["dt"] / max(net.dev[i].eff, 0.05)) * S
            check(abs(X["des_soc"]["MWh"][i] - Y["des_soc"]["MWh"][dm(i)]) <= w, "step %d: charge of unit %d is %r, in the equivalent network %r", k, i, X["des_soc"]["MWh"][i], Y["des_soc"]["MWh"][dm(i)])
        for i in net.gens:
            check(abs(X["gen_p_max"]["MW"][i] - Y["gen_p_max"]["MW"][dm(i)]) <= 1e-7 * S, "step %d: potential of generator %d differs", k, i)
        bq = oc.branch_quantities(net, sk.voltages(X, net))
        for e, rev in zip(net.branches, t["rev"]):
            key, key2 = (e.f, e.t), ((bm(e.t), bm(e.f)) if rev else (bm(e.f), bm(e.t)))
            i_f, i_t, s_f, s_t = bq[key]
            want = (s_t if rev else s_f) * S
            f = amp * S * max(1.0, abs(e.y) * 0.2)
            check(abs(Y["branch_p"]["MW"][key2] - want.real) <= f and abs(Y["branch_q"]["MVAr"][key2] - want.imag) <= f,
                  "step %d: flow of branch %r is (%r, %r) in the equivalent network, expected %r", k, key2, Y["branch_p"]["MW"][key2], Y["branch_q"]["MVAr"][key2], want)
            check(abs(abs(Y["branch_s"]["MVA"][key2]) - abs(X["branch_s"]["MVA"][key])) <= f, "step %d: apparent flow of branch %r is %r, in the equivalent network %r", k, key, X["branch_s"]["MVA"][key], Y["branch_s"]["MVA"][key2])
            w = abs(i_t if rev else i_f)
            check(abs(abs(Y["branch_i_magn"]["pu"][key2]) * c - w) <= amp * max(1.0, abs(e.y) * 0.2), "step %d: current of branch %r is %r in the equivalent network, expected %r", k, key2, Y["branch_i_magn"]["pu"][key2], w / c)
        # Reward parts: losses and branch penalties are expressed in p.u. of the base power.
        e1, e2, p1, p2 = x[2], y[2], x[3], y[3]
        n = len(net.dev_ids) + len(net.branches) * max([1.0] + [abs(e.y) * 0.2 for e in net.branches])
        check(abs(e2 * c - e1) <= amp * n * case["dt"], "step %d: energy loss %r p.u. of %r MVA, but %r p.u. of %r MVA in the equivalent network", k, e1, S, e2, S2)
        v = sum(max(0.0, X["bus_v_magn"]["pu"][i] - bb.vmax, bb.vmin - X["bus_v_magn"]["pu"][i]) for i, bb in net.bus.items()) * case["dt"] * case["lamb"]
        want = v + (p1 - v) / c
        check(abs(p2 - want) <= amp * n * case["dt"] * max(1, case["lamb"]) * max(1, 1 / c), "step %d: penalty %r, expected %r in the equivalent network (%r in the first)", k, p2, want, p1)
        check(abs(x[1] + e1 + p1) <= 1e-6 * max(1, abs(x[1])) and abs(y[1] + e2 + p2) <= 1e-6 * max(1, abs(y[1])), "step %d: reward is not -(loss + penalty)", k)
        if changed:
            ctx.nontrivial()
            for nme, f in (("renumbered_buses", t["bus"]), ("renumbered_devices", t["dev"]), ("reversed", any(t["rev"])), ("rebased", c != 1)):
                if f:
                    ctx.event(nme)


def healthy(run):
    try:
        return min(run.sim.state["bus_v_magn"]["pu"].values()) > 0.85
    except Exception:
        return False


RULE = "a converged step of a network and of a really different but equivalent network was compared"
PARTS = [
    Part("loads", cases(kinds=(-1,), min_dev=1, max_dev=5, max_bus=7, steps=(1, 3), over=2.0), body, 2240, 60000, RULE),
    Part("mixed", cases(kinds=(-1, 1, 2, 3), min_dev=1, max_dev=4, max_bus=5, steps=(1, 3)), body, 670, 20000, RULE),
]
