"""C11: reported quantities respect the declared bounds, which agree across units."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from .c10 import cases as obs_cases, resolve, state_spec, user_obs


def check_declared(net, sb):
    check(set(sb) == set(oc.UNITS), "declared quantities %r", sorted(sb))
    for q, units in oc.UNITS.items():
        check(sorted(sb[q]) == sorted(oc.elements(net, q)), "bounds of %s are declared for %r instead of %r", q, list(sb[q]), oc.elements(net, q))
        for i in oc.elements(net, q):
            for u in units:
                check(u in sb[q][i], "no bound of %s[%s] in unit %s", q, i, u)
                lo, hi = sb[q][i][u]
                wl, wh = oc.bounds(net, q, i, u)
                check(lo <= hi, "%s[%s] in %s has lower bound %r above upper bound %r", q, i, u, lo, hi)
                check(oc.same_bound(lo, wl) and oc.same_bound(hi, wh), "%s[%s] in %s is declared in [%r, %r], the specification gives [%r, %r]", q, i, u, lo, hi, wl, wh)


def check_within(net, sb, full, what):
    for q, units in oc.UNITS.items():
        for i in oc.elements(net, q):
            if q in ("dev_p", "dev_q") and i == net.slack_dev or q in ("bus_p", "bus_q") and i == net.slack_bus:
                continue
            for u in units:
                lo, hi = sb[q][i][u]
                v = full[q][u][i]
                s = {"pu": 1, "kV": 1, "rad": 1, "degree": 1}.get(u, net.base)
                tol = (5e-4 * s * max(1, abs(v) / s) if q in ("dev_p", "dev_q", "bus_p", "bus_q") else 1e-9 * max(1, abs(v)))
                tol = tol if math.isfinite(tol) else 0.0
                check(lo - tol <= v <= hi + tol, "%s: %s[%s] = %r %s outside its declared bounds [%r, %r]", what, q, i, v, u, lo, hi)


def body(ctx, case):
    auxb = None if case["auxb"] is None else np.array(case["auxb"], dtype=float).reshape(-1, 2)
    net, env = sk.env_of(case, observation=user_obs(case), aux_bounds=auxb)
    sb = env.simulator.state_bounds
    check_declared(net, sb)
    if case["mode"] != "func":
        ent = resolve(net, case["K"], state_spec(net) if case["mode"] == "state" else case["obs"])
        low, high = env.observation_space.low, env.observation_space.high
        check(low.shape == (len(ent),), "observation space has shape %r for %d entries", low.shape, len(ent))
        for k, (q, i, u) in enumerate(ent):
            lo, hi = ((case["auxb"][i] if case["auxb"] else (-oc.INF, oc.INF)) if q == "aux" else oc.bounds(net, q, i, u))
            check(oc.same_bound(low[k], lo) and oc.same_bound(high[k], hi), "observation entry %d (%s[%s] %s) has bounds [%r, %r], expected [%r, %r]", k, q, i, u, low[k], high[k], lo, hi)
    out = sk.safe_reset(env)
    if out is None:
        return
    if case["mode"] == "func":
        check(np.all(np.isinf(env.observation_space.low)) and np.all(np.isinf(env.observation_space.high)), "function observations are not unbounded")
    check_within(net, sb, env.simulator.state, "after reset")
    for k, a in enumerate(case["actions"]):
        _, _, term, _, _ = sk.step(env, sk.into_space(env.action_space, sk.action_from(net, a)))
        if term:
            break
        check_within(net, sb, env.simulator.state, "step %d" % k)
    ctx.nontrivial()


RULE = "bounds compared and at least the reset state checked against them"
PARTS = [
    Part("mixed", obs_cases(kinds=(-1, 1, 2, 3), min_dev=2, max_dev=4, max_bus=4, steps=(0, 2), over=3.0), body, 670, 30000, RULE),
    Part("loads", obs_cases(kinds=(-1,), min_dev=1, max_dev=5, max_bus=4, steps=(1, 2), over=3.0), body, 1120, 40000, RULE),
]
