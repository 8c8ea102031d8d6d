"""C04: generator set-points map to the nearest point of the operating region."""
import math

import hypothesis.strategies as st

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from ..netgen import D


def tolerance(h, pt, at):
    """Accuracy of the numerical projection: absolute, plus amplification by steep region lines.

    Where three or more limits meet (nearly) in the projection `at` the solver cannot polish its iterate.
    """
    slope = max([abs(a) for a, b, c in h if b != 0] + [0])
    meet = sum(1 for a, b, c in h if c != oc.INF and abs(a * at[0] + b * at[1] - c) < 2e-3 * math.hypot(a, b))
    return (1e-4 if meet < 3 else 5e-4) * max(1, abs(pt[0]), abs(pt[1])) + 2e-5 * slope * max(1, abs(pt[0])) + (1e-5 * slope if slope > 10 else 0)


@st.composite
def aimed_inputs(draw, spec, over=1.0, big=1.0):
    """Inputs, with the set-points of some devices aimed at the neighbourhood of a corner of their region."""
    inp = draw(ng.inputs(spec, over=over, big=big))
    S = spec["base"]
    net = oc.Net(spec)
    for i, d in net.dev.items():
        if d.type in (1, 2, 3) and draw(st.booleans()):
            ps = [v for v in (d.pp, d.pm if d.type == 3 else d.pmin, d.pmax, d.pmin) if abs(v) != oc.INF]
            qs = [v for v in (d.qmax, d.qmin, d.qp_, d.qm) if abs(v) != oc.INF]
            k = str(i)
            if ps:
                inp["p"][k] = (draw(st.sampled_from(ps)) + draw(ng.num(-0.2, 0.2)) * big) * S
            if qs:
                inp["q"][k] = (draw(st.sampled_from(qs)) + draw(ng.num(-0.2, 0.2)) * big) * S
            if d.type != 3 and d.pp != d.pmax and abs(d.pmax) != oc.INF and draw(st.booleans()):
                inp["pot"][k] = (d.pp + draw(ng.num(0, 1)) * (d.pmax - d.pp)) * S
    return inp


@st.composite
def cases(draw, kinds, need, steps, max_dev=3):
    big = draw(st.sampled_from([1.0, 1.0, 1.0, 0.1]))
    spec = draw(ng.network(max_bus=3, kinds=kinds, need=need, max_dev=max_dev, big=big, taps=False, shifts="none"))
    over = draw(st.sampled_from([1.0, 1.0, 3.0]))
    return {
        "spec": spec, "dt": draw(st.sampled_from([0.25, 1, 0.5, 1 / 12, 2.0])), "lamb": 100,
        "soc": {str(r[0]): draw(st.one_of(ng.num(0, 1), st.sampled_from([0, 1, 0.05, 0.95]))) for r in spec["device"] if r[D["DEV_TYPE"]] == 3},
        "steps": draw(ng.coherent([draw(aimed_inputs(spec, over, big)) for _ in range(draw(st.integers(*steps)))])),
        "decoy": draw(ng.decoy()),
    }


def body(ctx, case):
    run = sk.Run(case)
    net = run.net
    S = net.base
    for k, inp in enumerate(case["steps"]):
        state, _, _, _, _ = run.step(inp)
        for i in net.gens:
            d = net.dev[i]
            pot = oc.clip(inp["pot"][str(i)] / S, d.pmin, d.pmax)
            req = (inp["p"][str(i)] / S, inp["q"][str(i)] / S)
            h = oc.gen_region(d, pot)
            (x, y), kind = oc.project(h, req)
            got = (state["dev_p"]["pu"][i], state["dev_q"]["pu"][i])
            tol = tolerance(h, req, (x, y))
            check(math.isfinite(got[0]) and math.isfinite(got[1]) and math.hypot(got[0] - x, got[1] - y) <= tol,
                  "step %d: generator %d asked for (P,Q)=%r p.u. with potential %r applies %r, nearest feasible point is %r (%s)", k, i, req, pot, got, (x, y), kind)
            ctx.event("target_" + kind)
            if kind != "inside":
                ctx.nontrivial()
                on = [j for j, (a, b, c) in enumerate(h) if abs(a * x + b * y - c) < 1e-9]
                if any(h[j][0] and h[j][1] for j in on):
                    ctx.event("on_narrowing_line")
                if 2 in on and pot < d.pmax:
                    ctx.event("on_potential_limit")


PARTS = [Part("transition", cases((1, 2), (1, 2), (1, 3)), body, 2880, 60000, "an infeasible request (its nearest feasible point lies on an edge or vertex) was projected")]
