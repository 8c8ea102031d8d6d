"""C07: loads and potentials are clipped to their own limits; loads keep their power factor."""
from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check


def body(ctx, case):
    run = sk.Run(case)
    net, S = run.net, run.net.base
    for k, inp in enumerate(case["steps"]):
        state, _, _, _, _ = run.step(inp)
        vals = set()
        for i in net.loads:
            d = net.dev[i]
            want = oc.clip(inp["load"][str(i)] / S, d.pmin, d.pmax)
            p, q = state["dev_p"]["pu"][i], state["dev_q"]["pu"][i]
            check(abs(p - want) <= 1e-9 * max(1, abs(want)), "step %d: load %d asked for %r p.u. in [%r, %r] injects %r", k, i, inp["load"][str(i)] / S, d.pmin, d.pmax, p)
            check(abs(q - d.qp * want) <= 1e-9 * max(1, abs(want)), "step %d: load %d with P=%r and Q/P=%r injects Q=%r", k, i, p, d.qp, q)
            check(abs(state["dev_p"]["MW"][i] - want * S) <= 1e-9 * max(1, abs(want * S)), "step %d: load %d MW value inconsistent", k, i)
            vals.add(round(want, 9))
            if want != inp["load"][str(i)] / S:
                ctx.event("load_clipped")
        for i in net.gens:
            d = net.dev[i]
            want = oc.clip(inp["pot"][str(i)] / S, d.pmin, d.pmax)
            got = state["gen_p_max"]["pu"][i]
            check(abs(got - want) <= 1e-9 * max(1, abs(want)), "step %d: potential of generator %d asked %r p.u. in [%r, %r] becomes %r", k, i, inp["pot"][str(i)] / S, d.pmin, d.pmax, got)
            vals.add(round(want, 9))
            if want != inp["pot"][str(i)] / S:
                ctx.event("potential_clipped")
        for i in state["gen_p_max"]["pu"]:
            check(i in net.gens, "device %r has a generation potential but is not a non-slack generator", i)
        if len(vals) >= 2:
            ctx.nontrivial()


RULE = "at least two loads/generators with different resulting values in one transition"
PARTS = [
    Part("loads", ng.sim_case(kinds=(-1,), min_dev=2, max_dev=6, max_bus=4, steps=(1, 3), over=2.0), body, 4000, 80000, RULE),
    Part("mixed", ng.sim_case(kinds=(-1, 1, 2), min_dev=2, max_dev=5, max_bus=4, steps=(1, 2), over=2.0), body, 1440, 30000, RULE),
]
