"""C14: reset reproduces a feasible initial state, maps an infeasible one, and retries up to 100 times."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, Violation, check, sut
from ..netgen import D
from .c04 import tolerance
from .c12 import snapshot


@st.composite
def cases(draw, **kw):
    c = draw(ng.env_case(over=2.0, **kw))
    # Charges inside and outside the limits.
    for r in c["spec"]["device"]:
        if r[D["DEV_TYPE"]] == 3:
            lo, hi = r[D["SOC_MIN"]] or 0.0, r[D["SOC_MAX"]]
            c["init"]["soc"][str(r[0])] = draw(st.one_of(ng.num(0, 1).map(lambda f: lo + f * (hi - lo)), ng.num(-1, 3).map(lambda f: lo + f * (hi - lo)), ng.num(0, 1).map(lambda f: lo * f)))
    c["again"] = draw(st.booleans())
    return c


def check_reset(ctx, net, env, init, aux, what):
    S = net.base
    full = env.simulator.state
    changed = 0
    for i in net.loads:
        d = net.dev[i]
        w = oc.clip(init["load"][str(i)] / S, d.pmin, d.pmax)
        changed += w != init["load"][str(i)] / S
        check(sk.same(full["dev_p"]["pu"][i], w) and sk.same(full["dev_q"]["pu"][i], w * d.qp), "%s: load %d injects %r, expected %r", what, i,
              (full["dev_p"]["pu"][i], full["dev_q"]["pu"][i]), (w, w * d.qp))
    for i in net.gens + net.des:
        d = net.dev[i]
        req = (init["p"][str(i)] / S, init["q"][str(i)] / S)
        if d.type == 3:
            w = oc.clip(init["soc"][str(i)] / S, d.smin, d.smax)
            changed += w != init["soc"][str(i)] / S
            check(sk.same(full["des_soc"]["pu"][i], w), "%s: unit %d starts with charge %r, expected %r (limits %r, %r)", what, i, full["des_soc"]["pu"][i], w, d.smin, d.smax)
            # Any injection that some charge makes possible is accepted.
            h = oc.des_region(d, d.smax if req[0] > 0 else d.smin, env.delta_t)
        else:
            pot = oc.clip(init["pot"][str(i)] / S, d.pmin, d.pmax)
            changed += pot != init["pot"][str(i)] / S
            check(sk.same(full["gen_p_max"]["pu"][i], pot), "%s: generator %d starts with potential %r, expected %r", what, i, full["gen_p_max"]["pu"][i], pot)
            h = oc.gen_region(d, pot)
        (x, y), kind = oc.project(h, req)
        changed += kind != "inside"
        got = (full["dev_p"]["pu"][i], full["dev_q"]["pu"][i])
        check(math.hypot(got[0] - x, got[1] - y) <= tolerance(h, req, (x, y)), "%s: device %d asked for (P,Q)=%r starts at %r, expected %r", what, i, req, got, (x, y))
    want = sk.expected_state(net, full, aux)
    check(sk.same(env.state, want), "%s: state vector %r, expected %r", what, env.state, want)
    check(env.timestep == 0 and not env.terminated, "%s: timestep %r, terminated %r", what, env.timestep, env.terminated)
    return changed


def body(ctx, case):
    net, env = sk.env_of(case)
    init = case["init"]
    out = sk.safe_reset(env)
    if out is None:
        ctx.event("infeasible_initial_state")
        return
    c = check_reset(ctx, net, env, init, init["aux"], "first reset")
    ctx.event("mapped" if c else "reproduced_exactly")
    if net.gens or net.des:
        ctx.nontrivial()
    for a in case["actions"]:
        if sk.step(env, sk.into_space(env.action_space, sk.action_from(net, a)))[2]:
            break
    if case["again"]:
        check(sk.safe_reset(env) is not None, "the same initial state is rejected at a later reset")
        check_reset(ctx, net, env, init, init["aux"], "reset after %d steps" % len(case["actions"]))
        ctx.event("second_reset")


@st.composite
def retry_cases(draw):
    base = draw(st.sampled_from(ng.BASES))
    return {
        "base": base, "bad": draw(st.one_of(st.integers(0, 5), st.integers(95, 105), st.sampled_from([97, 98, 99, 100, 101, 150, 100, 99]))),
        "first": draw(st.booleans()), "load": draw(ng.num(-0.3, 0)), "load2": draw(ng.num(-0.3, 0)), "r": draw(ng.num(0.001, 0.1)), "x": draw(ng.num(0.01, 0.2)),
        "realistic": draw(st.integers(0, 19)) == 19, "steps": draw(st.integers(0, 2)),
    }


def body_retry(ctx, case):
    from gym_anm.errors import EnvInitializationError

    S = case["base"]
    spec = {"base": S, "bus": [[0, 0, 33, 1.0, 1.0], [1, 1, 33, 1.1, 0.9]], "branch": [[0, 1, case["r"], case["x"], 0.0, 10 * S, 1, 0]],
            "device": [[0, 0, 0] + [None] * 12, [1, 1, -1, 0.2] + [None] * 11]}
    good = [0, case["load"] * S, 0, case["load"] * S * 0.2]
    n = case["bad"]
    bad = [0, -1e200 * S, 0, -0.2e200 * S]
    bads = [bad] * n
    if n and case["realistic"]:
        bads[0] = [0, -60.0 * S, 0, -12.0 * S]
    calls = {"n": 0, "seq": bads + [good]}

    def make():
        from ..simkit import make_env_class

        C = make_env_class()

        class E(C):
            def init_state(self):
                k = calls["n"]
                calls["n"] += 1
                if k > 400:
                    raise Violation("more than 400 initial states requested in one reset")
                return sk.typed(calls["seq"][min(k, len(calls["seq"]) - 1)])

        return E(ng.to_network(spec), [good], [[case["load2"] * S]])

    env = make()
    if not case["first"]:  # a history before the reset with infeasible candidates
        calls["seq"] = [good]
        env.reset()
        for _ in range(case["steps"]):
            env.step(np.zeros(0))
        calls["n"], calls["seq"] = 0, bads + [good]
    try:
        out = env.reset()
    except EnvInitializationError:
        check(n >= 100, "initialization error although candidate %d (of at most 100) has a load flow solution", n + 1)
        check(calls["n"] == 100, "initialization error after %d instead of 100 candidates", calls["n"])
        ctx.event("gave_up")
        # A later reset with a feasible candidate succeeds.
        calls["n"], calls["seq"] = 0, bads[:case["steps"]] + [good]
        with sut("reset after an initialization error"):
            out = env.reset()
        check(calls["n"] == case["steps"] + 1, "after an initialization error, %d candidates requested, the first feasible one is number %d", calls["n"], case["steps"] + 1)
        check(sk.same(env.state[1], good[1]) and sk.same(out[0], env.state) and not env.terminated, "after an initialization error, reset gives state %r (terminated %r), the candidate was %r",
              env.state, env.terminated, good)
    except (Violation, AssertionError):
        raise
    except Exception as e:
        raise Violation("reset with %d infeasible candidates raises %s: %s" % (n, type(e).__name__, e))
    else:
        check(n < 100, "candidate %d is accepted although only 100 may be requested", n + 1)
        check(calls["n"] == n + 1, "%d candidates requested, the first feasible one is number %d", calls["n"], n + 1)
        check(sk.same(env.state[1], good[1]) and abs(env.simulator.state["dev_p"]["MW"][1] - good[1]) < 1e-9 * S, "state after reset is %r, candidate was %r", env.state, good)
        check(sk.same(out[0], env.state), "observation %r differs from the state %r", out[0], env.state)
        ctx.event("accepted_candidate_%s" % ("100" if n == 99 else "early" if n < 99 else "late"))
        env.n_next = 0
        o, r, t, _, _ = sk.step(env, np.zeros(0))
        check(not t and abs(env.simulator.state["dev_p"]["MW"][1] - case["load2"] * S) < 1e-9 * S, "after the retries a step gives load %r instead of %r (terminated %r)",
              env.simulator.state["dev_p"]["MW"][1], case["load2"] * S, t)
    if n:
        ctx.nontrivial()


PARTS = [
    Part("mapping", cases(kinds=(-1, 1, 2, 3), min_dev=2, max_dev=4, max_bus=3, steps=(0, 2)), body, 1120, 30000, "an initial state with a generator or storage unit was compared"),
    Part("retry", retry_cases(), body_retry, 260, 4000, "at least one infeasible candidate before a feasible one"),
]
