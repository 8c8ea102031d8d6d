"""C26: the full state is complete and consistent across units and elements."""
import math

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check


def factor(net, q, unit, i):
    """Value in `unit` per value in the reference unit (p.u. or radians)."""
    if unit in ("pu", "rad"):
        return 1.0
    if unit == "degree":
        return 180 / math.pi
    if unit == "kV":
        return net.bus[i].kv
    if unit == "kA":
        return net.base / net.bus[i].kv
    return net.base  # MW, MVAr, MVA, MWh


def same(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12)


def check_full(ctx, net, full, what):
    check(set(full) == set(oc.UNITS), "%s: the state has the quantities %r", what, sorted(full))
    for q, units in oc.UNITS.items():
        els = oc.elements(net, q)
        check(set(full[q]) == set(units), "%s: %s is given in the units %r", what, q, sorted(full[q]))
        ref = "pu" if "pu" in units else "rad"
        for u in units:
            d = full[q][u]
            check(len(d) == len(els) and set(d) == set(els), "%s: %s in %s is given for %r, the elements are %r", what, q, u, list(d), els)
            for i in els:
                want = full[q][ref][i] * factor(net, q, u, i)
                check(same(d[i], want), "%s: %s of %r is %r %s, but %r %s (%r %s expected)", what, q, i, d[i], u, full[q][ref][i], ref, want, u)
                if u == "degree":
                    check(-180 - 1e-9 <= d[i] <= 180 + 1e-9, "%s: %s of %r is %r degrees", what, q, i, d[i])
                elif u != ref and net.base != 1 and d[i] != 0:
                    ctx.nontrivial()
    for b in net.bus_ids:
        on = [i for i, d in net.dev.items() if d.bus == b]
        for bq, dq in (("bus_p", "dev_p"), ("bus_q", "dev_q")):
            for u in oc.UNITS[bq]:
                tot = sum(full[dq][u][i] for i in on)
                sc = sum(abs(full[dq][u][i]) for i in on)
                check(abs(full[bq][u][b] - tot) <= 1e-9 * sc + 1e-12, "%s: %s of bus %d is %r %s, its devices %r inject %r", what, bq, b, full[bq][u][b], u, on, tot)
        ctx.event("bus_with_%s_devices" % (len(on) if len(on) < 3 else "3+"))


def body(ctx, case):
    run = sk.Run(case)
    kept = []
    if run.reset_converged:
        check_full(ctx, run.net, run.sim.state, "reset")
    for k, inp in enumerate(case["steps"]):
        state, _, _, _, conv = run.step(inp)
        if not conv:
            continue
        check_full(ctx, run.net, state, "step %d" % k)
        kept.append(state)
        ctx.event("converged")


RULE = "a converged transition with a non-zero quantity in an absolute unit and a base power different from 1 MVA"
PARTS = [
    Part("mixed", ng.sim_case(kinds=(-1, 1, 2, 3), min_dev=2, max_dev=5, max_bus=4, steps=(1, 2)), body, 700, 40000, RULE),
    Part("loads", ng.sim_case(kinds=(-1,), min_dev=1, max_dev=6, max_bus=6, shifts="tree", steps=(1, 3)), body, 1600, 80000, RULE),
]
