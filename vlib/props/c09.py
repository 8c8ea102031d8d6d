"""C09: rewards are clipped as configured; a collapse is terminal and absorbing until reset."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check
from ..netgen import D


# Observation specifications (a terminal observation has the length of an observation, not of a state).
OBS = [None, [["bus_v_magn", "all", "pu"]], [["dev_p", "all", "MW"], ["dev_q", "all", "pu"], ["branch_p", "all", "pu"], ["bus_p", "all", "MW"]], [0, 1, 0], [0, 1, 2, 3] * 4]


def observe(o):
    if o is None:
        return "state"
    if isinstance(o[0], list):
        return [tuple(e) for e in o]
    return lambda s: np.array([0.5 * s[i % len(s)] for i in o])


@st.composite
def cases(draw, kinds, max_dev, steps):
    c = draw(ng.env_case(kinds=kinds, need=(-1,), max_dev=max_dev, max_bus=3, K=(0, 1), steps=(3, 5)))
    # At least one load that can collapse the network.
    slack = [b[0] for b in c["spec"]["bus"] if b[1] == 0][0]
    r = [r for r in c["spec"]["device"] if r[D["DEV_TYPE"]] == -1][0]
    if r[D["BUS_ID"]] == slack:
        r[D["BUS_ID"]] = [b[0] for b in c["spec"]["bus"] if b[0] != slack][0]
    r[D["PMIN"]] = None
    c["victim"] = r[0]
    c["gamma"] = draw(st.one_of(st.sampled_from([0.9, 0.995, 0.5, 0, 1, 0.25]), st.sampled_from([0.999, 0.9999, 0.99999, 1e-3]), ng.num(0, 1)))
    c["obs"] = draw(st.sampled_from(OBS))
    c1 = draw(st.sampled_from([None, 1, 0.01, 0.001, 0.0, 0.05, 100]))
    c2 = draw(st.sampled_from([None, 100, 0.5, 1e-3, 3, 10000, 0]))
    c["clip"] = draw(st.sampled_from([[c1, c2], [c1, c2], [c1, c2], None]))
    n = draw(st.integers(*steps))
    ops = []
    dead = False
    for _ in range(n):
        k = draw(st.integers(0, 11))
        op = "collapse" if k >= 10 else "reset" if k == 9 or (dead and k >= 6) else "step"
        dead = (dead or op == "collapse") and op != "reset"
        ops.append(op)
    c["ops"] = ops
    c["heavy"] = draw(st.sampled_from([50.0, 1e3, 20.0]))
    return c


def body(ctx, case):
    net0 = oc.Net(case["spec"])
    base = [sk.vars_from(net0, v) for v in case["vars"]]
    heavy = base[0].copy()
    heavy[net0.loads.index(case["victim"])] = -case["heavy"] * net0.base
    nexts = [heavy if op == "collapse" else base[k % len(base)] for k, op in enumerate(case["ops"])]
    clip = tuple(case["clip"]) if case["clip"] is not None else None
    net, env = sk.env_of(case, nexts=nexts, costs_clipping=clip, observation=observe(case["obs"]))
    c1, c2 = (math.inf if v is None else v for v in (clip or (None, None)))
    r0 = sk.safe_reset(env)
    if r0 is None:
        return
    fresh, sinks = None, 0
    from gym_anm.simulator import Simulator

    ref = Simulator(ng.to_network(case["spec"]), case["dt"], case["lamb"])
    ref.reset(sk.init_from(net, case["init"]))
    dead = False
    for k, op in enumerate(case["ops"]):
        if op == "reset":
            out = sk.safe_reset(env)
            check(out is not None, "op %d: the initial state accepted before is rejected at a later reset", k)
            check(env.terminated is False or env.terminated == False, "op %d: still terminated after reset", k)
            check(env.e_loss == 0 and env.penalty == 0, "op %d: costs (%r, %r) after a reset, before any step", k, env.e_loss, env.penalty)
            check(sk.same(out[0], r0[0]), "op %d: reset gives observation %r instead of %r", k, out[0], r0[0])
            if dead:
                # After a collapse and a reset it behaves like a fresh environment.
                _, fresh = sk.env_of(case, nexts=nexts, costs_clipping=clip, observation=observe(case["obs"]))
                sk.safe_reset(fresh)
                ctx.event("reset_after_collapse")
            else:
                fresh = None
            ref.reset(sk.init_from(net, case["init"]))
            dead = False
            continue
        a = sk.into_space(env.action_space, sk.action_from(net, case["actions"][k % len(case["actions"])]))
        n0 = env.n_next
        nv = nexts[n0 % len(nexts)]
        obs, r, term, trunc, info = sk.step(env, a)
        check(trunc is False or trunc == False, "op %d: truncated = %r", k, trunc)
        check(isinstance(info, dict), "op %d: info is %r", k, type(info))
        if dead:
            check(bool(term) is True, "op %d: terminated is %r after a collapse without reset", k, term)
            check(float(r) == 0.0, "op %d: reward %r after a collapse without reset", k, r)
            check(np.shape(obs) == np.shape(r0[0]) == (env.observation_N,) and not np.any(obs), "op %d: observation %r after a collapse", k, obs)
            sinks += 1
            ctx.event("absorbing_step")
            continue
        g, s = net.gens, net.des
        pl = dict(zip(net.loads, nv))
        pp = dict(zip(g, nv[len(net.loads):]))
        P = dict(zip(g, a)) | dict(zip(s, a[2 * len(g):]))
        Q = dict(zip(g, a[len(g):])) | dict(zip(s, a[2 * len(g) + len(s):]))
        st_, _, _, _, conv = ref.transition(pl, pp, P, Q)
        check(bool(term) == (not conv), "op %d: terminated = %r but the load flow %s", k, term, "converged" if conv else "did not converge")
        if not conv:
            want = -math.inf if (c2 == math.inf or case["gamma"] == 1) else -c2 / (1 - case["gamma"])
            check((c2 == 0 and case["gamma"] == 1) or math.isclose(r, want, rel_tol=1e-9), "op %d: collapse reward %r, expected %r", k, r, want)
            check(np.shape(obs) == np.shape(r0[0]) == (env.observation_N,) and not np.any(obs), "op %d: observation %r at the collapse", k, obs)
            check(not np.any(env.state), "op %d: state %r at the collapse", k, env.state)
            dead = True
            ctx.event("collapse")
            ctx.nontrivial()
            fresh = None
            continue
        # Exactly the clipped costs of this transition.
        e, pen = oc.reward_parts(net, env.simulator.state, case["dt"], case["lamb"])
        we = math.copysign(min(abs(e), c1), e) if e != 0 else 0.0
        wp = min(pen, c2)
        tol = 1e-8 * max(1.0, abs(e), case["lamb"])
        check(abs(env.e_loss - we) <= tol, "op %d: energy loss cost %r, expected %r (unclipped %r, clip %r)", k, env.e_loss, we, e, c1)
        check(abs(env.penalty - wp) <= tol, "op %d: penalty cost %r, expected %r (unclipped %r, clip %r)", k, env.penalty, wp, pen, c2)
        check(math.isclose(r, -(env.e_loss + env.penalty), rel_tol=1e-9, abs_tol=1e-9), "op %d: reward %r is not -(%r + %r)", k, r, env.e_loss, env.penalty)
        if abs(e) > c1 and c1 > 0 or pen > c2:
            ctx.nontrivial("clipping_active")
            if e < 0 and abs(e) > c1:
                ctx.event("negative_loss_clipped")
        if fresh is not None:
            fresh.n_next = n0
            o2, r2, t2, _, _ = sk.step(fresh, a)
            check(sk.same(obs, o2) and bool(t2) == bool(term) and sk.close(r, r2, 1e-9),
                  "op %d: after collapse and reset the environment differs from a fresh one: %r, %r vs %r, %r", k, obs, r, o2, r2)
            ctx.event("fresh_comparison")


RULE = "the history contains a collapse, or a step whose cost exceeds its clipping value"
PARTS = [
    Part("mixed", cases((-1, 1, 2, 3), 3, (3, 8)), body, 220, 12000, RULE),
    Part("loads", cases((-1,), 3, (4, 14)), body, 450, 30000, RULE),
]
