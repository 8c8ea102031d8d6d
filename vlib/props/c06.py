"""C06: state of charge follows the applied power over histories and never leaves its limits."""
import hypothesis.strategies as st

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from ..netgen import D


@st.composite
def cases(draw, steps):
    spec = draw(ng.network(max_bus=3, kinds=(3,), need=(3,), max_dev=2, taps=False, shifts="none"))
    rows = [r for r in spec["device"] if r[D["DEV_TYPE"]] == 3]
    dt = draw(st.sampled_from([0.25, 1, 0.5, 1 / 12, 2.0]))
    S = spec["base"]
    hist = []
    for _ in range(draw(st.integers(*steps))):
        if draw(st.integers(0, 11)) == 11:
            hist.append({"reset": {str(r[0]): draw(ng.charge(r, dt)) for r in rows}})
            continue
        st_ = {"load": {}, "pot": {}, "p": {}, "q": {}}
        for r in rows:
            k = draw(st.integers(0, 6))
            lim = 0.6 * S
            own = [lim if r[D["PMAX"]] is None else r[D["PMAX"]], -lim if r[D["PMIN"]] is None else r[D["PMIN"]]]
            st_["p"][str(r[0])] = [0.0, lim, -lim, draw(ng.num(-1, 1)) * lim, draw(ng.num(-0.1, 0.1)) * lim, *own][k]
            st_["q"][str(r[0])] = draw(st.sampled_from([0.0, 0.2 * S, -0.2 * S]))
        hist.append(st_)
    return {"spec": spec, "dt": dt, "lamb": 100, "soc": {str(r[0]): draw(ng.charge(r, dt)) for r in rows}, "hist": hist, "decoy": draw(ng.decoy())}


def body(ctx, case):
    run = sk.Run(case)
    net, dt = run.net, run.dt
    soc = dict(run.sim.state["des_soc"]["pu"])
    acc = {i: [soc[i], 0.0, 0.0, 0] for i in net.des}  # start, absorbed, delivered, steps
    both = set()
    for k, inp in enumerate(case["hist"]):
        if "reset" in inp:
            want = {i: net.dev[i].smin + inp["reset"][str(i)] * (net.dev[i].smax - net.dev[i].smin) for i in net.des}
            with sk.sut("Simulator.reset"):
                run.sim.reset(sk.init_vec(net, soc={i: v * net.base for i, v in want.items()}))
            soc = dict(run.sim.state["des_soc"]["pu"])
            for i in net.des:
                check(abs(soc[i] - want[i]) < 1e-9, "reset sets the charge of unit %d to %r instead of %r", i, soc[i], want[i])
                acc[i] = [soc[i], 0.0, 0.0, 0]
            ctx.event("reset_in_history")
            continue
        state, _, _, _, _ = run.step(inp)
        for i in net.des:
            d = net.dev[i]
            p, s1 = state["dev_p"]["pu"][i], state["des_soc"]["pu"][i]
            exact = oc.soc_step(d, soc[i], p, dt)
            lim = oc.clip(exact, d.smin, d.smax)
            # The applied power respects the energy limits up to the accuracy of the projection.
            noise = 2.5e-4 * dt / d.eff if d.eff > 0 else 0.0
            check(d.eff > 0 or p <= 2.5e-4, "step %d: unit %d of efficiency 0 delivers %r p.u.", k, i, p)
            check(abs(exact - lim) <= noise, "step %d: unit %d applies %r p.u. from charge %r, which would leave [%r, %r]", k, i, p, soc[i], d.smin, d.smax)
            check(abs(s1 - lim) <= 1e-9 * max(1, abs(lim)) + (abs(exact - lim)),
                  "step %d: unit %d with charge %r injects %r p.u. for %r h (efficiency %r) and ends at charge %r instead of %r", k, i, soc[i], p, dt, d.eff, s1, lim)
            check(d.smin - 1e-12 <= s1 <= d.smax + 1e-12, "step %d: charge %r of unit %d outside [%r, %r]", k, s1, i, d.smin, d.smax)
            check(abs(state["des_soc"]["MWh"][i] - s1 * net.base) <= 1e-9 * max(1, abs(s1 * net.base)), "step %d: unit %d MWh charge inconsistent", k, i)
            a = acc[i]
            a[1] += dt * max(0.0, -p)
            a[2] += dt * max(0.0, p)
            a[3] += 1
            bound = d.eff ** 2 * a[1] + d.eff * (a[0] - d.smin) + (2.5e-4 * dt * a[3] / d.eff if d.eff > 0 else 2.5e-4 * dt * a[3])
            check(a[2] <= bound + 1e-9, "step %d: unit %d has delivered %r p.u.h, more than its efficiency allows (%r)", k, i, a[2], bound)
            if p > 1e-4:
                both.add((i, "d"))
                if s1 <= d.smin + 1e-6:
                    ctx.event("emptied")
            if p < -1e-4:
                both.add((i, "c"))
                if s1 >= d.smax - 1e-6:
                    ctx.event("filled")
        soc = dict(state["des_soc"]["pu"])
    if any((i, "c") in both and (i, "d") in both for i in net.des):
        ctx.nontrivial()


RULE = "a unit both charged and discharged in the history"
PARTS = [
    Part("short", cases((2, 8)), body, 1440, 20000, RULE),
    Part("long", cases((10, 40)), body, 320, 6000, RULE),
]
