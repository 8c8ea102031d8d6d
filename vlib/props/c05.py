"""C05: storage set-points map to the nearest point allowed by power and energy limits."""
import math

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from .c04 import cases, tolerance


def body(ctx, case):
    run = sk.Run(case)
    net, S = run.net, run.net.base
    for k, inp in enumerate(case["steps"]):
        soc = dict(run.sim.state["des_soc"]["pu"])
        if k == 0:
            for i in net.des:
                check(abs(soc[i] - run.soc0[i]) < 1e-9, "after reset unit %d holds %r instead of %r p.u.h", i, soc[i], run.soc0[i])
        state, _, _, _, _ = run.step(inp)
        for i in net.des:
            d = net.dev[i]
            req = (inp["p"][str(i)] / S, inp["q"][str(i)] / S)
            h = oc.des_region(d, soc[i], run.dt)
            (x, y), kind = oc.project(h, req)
            got = (state["dev_p"]["pu"][i], state["dev_q"]["pu"][i])
            check(math.isfinite(got[0]) and math.isfinite(got[1]) and math.hypot(got[0] - x, got[1] - y) <= tolerance(h, req, (x, y)),
                  "step %d: storage %d (charge %r) asked for (P,Q)=%r p.u. applies %r, nearest feasible point is %r (%s)", k, i, soc[i], req, got, (x, y), kind)
            ctx.event("target_" + kind)
            if kind != "inside":
                ctx.nontrivial()
                on = [j for j, (a, b, c) in enumerate(h) if c != oc.INF and abs(a * x + b * y - c) < 1e-9]
                if any(h[j][0] and h[j][1] for j in on):
                    ctx.event("on_narrowing_line")
                if len(h) - 1 in on and h[-1][2] < d.pmax:
                    ctx.event("on_empty_limit")
                if len(h) - 2 in on and h[-2][2] < -d.pmin:
                    ctx.event("on_full_limit")


PARTS = [Part("transition", cases((3,), (3,), (1, 4), 2), body, 2880, 60000, "an infeasible request (its nearest feasible point lies on an edge or vertex) was projected")]
