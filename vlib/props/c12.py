"""C12: the action space is the device limits; actions reach the right device; invalid actions change nothing."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, Violation, check
from .c04 import tolerance


@st.composite
def cases(draw):
    c = draw(ng.env_case(kinds=(1, 2, 3), min_dev=2, max_dev=4, max_bus=3, K=(0, 1), steps=(1, 3), taps=False, shifts="none"))
    c["bad"] = []
    for _ in range(len(c["actions"])):
        kind = draw(st.sampled_from([None, "high", "low", "short", "long", "nan", "2d"]))
        c["bad"].append([kind, draw(st.integers(0, 40)), draw(st.sampled_from([1e-3, 1.0, 1e6]))])
    return c


def snapshot(env):
    s = env.simulator.state
    flat = [v for q in sorted(s) for u in sorted(s[q]) for v in s[q][u].values()]
    return np.array(flat, dtype=float), np.array(env.state, copy=True), env.timestep, env.n_next, env.terminated, dict(env.np_random.bit_generator.state["state"])


def unchanged(a, b):
    return (sk.same(a[0], b[0]) and sk.same(a[1], b[1]) and a[2:] == b[2:])


def body(ctx, case):
    net, env = sk.env_of(case)
    S = net.base
    g, s = net.gens, net.des
    lo = [net.dev[i].pmin for i in g] + [net.dev[i].qmin for i in g] + [net.dev[i].pmin for i in s] + [net.dev[i].qmin for i in s]
    hi = [net.dev[i].pmax for i in g] + [net.dev[i].qmax for i in g] + [net.dev[i].pmax for i in s] + [net.dev[i].qmax for i in s]
    low, high = env.action_space.low, env.action_space.high
    check(low.shape == (len(lo),), "action space has shape %r for %d generators and %d storage units", low.shape, len(g), len(s))
    for k in range(len(lo)):
        check(oc.same_bound(low[k], lo[k] * S) and oc.same_bound(high[k], hi[k] * S),
              "action entry %d has bounds [%r, %r], the device limits are [%r, %r]", k, low[k], high[k], lo[k] * S, hi[k] * S)
    if sk.safe_reset(env) is None:
        return
    for k, act in enumerate(case["actions"]):
        a = sk.into_space(env.action_space, sk.action_from(net, act))
        kind, pos, amount = case["bad"][k]
        bad = np.array(a)
        pos %= len(a)
        if kind == "high":
            bad[pos] = high[pos] + amount
        elif kind == "low":
            bad[pos] = low[pos] - amount
        elif kind == "short":
            bad = bad[:-1]
        elif kind == "long":
            bad = np.append(bad, bad[-1])
        elif kind == "nan":
            bad[pos] = math.nan
        elif kind == "2d":
            bad = bad.reshape(1, -1)
        if kind is not None and not (kind in ("high", "low") and not np.isfinite(bad[pos])):
            before = snapshot(env)
            try:
                env.step(bad)
            except Exception:
                pass
            else:
                raise Violation("action %r (%s at entry %d) outside the action space [%r, %r] is accepted" % (bad, kind, pos, low, high))
            check(unchanged(before, snapshot(env)), "the rejected action %r (%s) changed the environment", bad, kind)
            ctx.event("rejected_" + kind)
        soc = dict(env.simulator.state["des_soc"]["pu"])
        pot = dict(zip(g, sk.vars_from(net, case["vars"][env.n_next % len(case["vars"])])[len(net.loads):]))
        _, _, term, _, _ = sk.step(env, a)
        full = env.simulator.state
        reqs = set()
        for i in g + s:
            d = net.dev[i]
            req = (act["p"][str(i)] / S, act["q"][str(i)] / S)
            reqs.add(req)
            h = oc.gen_region(d, oc.clip(pot[i] / S, d.pmin, d.pmax)) if d.type != 3 else oc.des_region(d, soc[i], case["dt"])
            (x, y), _ = oc.project(h, req)
            got = (full["dev_p"]["pu"][i], full["dev_q"]["pu"][i])
            check(math.hypot(got[0] - x, got[1] - y) <= tolerance(h, req, (x, y)),
                  "step %d: device %d was given (P,Q)=%r p.u. (nearest feasible %r) but injects %r; action %r", k, i, req, (x, y), got, a)
        if len(reqs) > 1:
            ctx.nontrivial()
            if g and s:
                ctx.event("generators_and_storage")
        if term:
            break


PARTS = [Part("env", cases(), body, 1440, 40000, "a step with at least two devices given different set-points")]
