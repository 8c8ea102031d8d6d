"""C13: user-supplied variables reach the right devices; wrong sizes are rejected."""
import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, Violation, check
from .c12 import snapshot, unchanged


@st.composite
def cases(draw, **kw):
    c = draw(ng.env_case(over=2.0, **kw))
    c["wrong"] = [draw(st.sampled_from([0, 0, -1, 1, 2, -2, "K", "-K", "empty"])) for _ in c["actions"]]
    c["wrong_init"] = draw(st.sampled_from([0, 0, -1, 1, 3, "K", "-K"]))
    return c


def resized(v, how, K):
    n = len(v)
    m = {"K": n + K, "-K": n - K, "empty": 0}.get(how, None)
    m = max(0, n + how) if m is None else m
    out = np.zeros(m)
    out[: min(n, m)] = v[: min(n, m)]
    return out


def body(ctx, case):
    from gym_anm.errors import EnvInitializationError, EnvNextVarsError

    net0 = oc.Net(case["spec"])
    good = [sk.vars_from(net0, v) for v in case["vars"]]
    nexts, plan = [], []
    for k, v in enumerate(good):
        w = resized(v, case["wrong"][k], case["K"])
        if w.size != v.size:
            nexts.append(w)
            plan.append((k, False))
        nexts.append(v)
        plan.append((k, True))
    init = sk.init_from(net0, case["init"])
    bad0 = resized(init, case["wrong_init"], case["K"])
    inits = ([bad0] if bad0.size != init.size else []) + [init]
    net, env = sk.env_of(case, nexts=nexts, inits=inits)
    env.limit = 3
    if len(inits) == 2:
        try:
            env.reset()
        except EnvInitializationError:
            ctx.event("wrong_init_rejected")
        except Exception as e:
            raise Violation("initial state of length %d instead of %d raises %s: %s" % (bad0.size, init.size, type(e).__name__, e))
        else:
            raise Violation("initial state of length %d instead of %d is accepted" % (bad0.size, init.size))
        env.inits = [init]
        env.n_init = 0
    if sk.safe_reset(env) is None:
        return
    check(sk.same(env.state[len(env.state) - case["K"]:], case["init"]["aux"]), "auxiliary variables after reset are %r, expected %r", env.state, case["init"]["aux"])
    S = net.base
    for k, ok in plan:
        a = sk.into_space(env.action_space, sk.action_from(net, case["actions"][k]))
        if not ok:
            before = snapshot(env)
            try:
                env.step(a)
            except EnvNextVarsError:
                pass
            except Exception as e:
                raise Violation("next variables of a wrong length raise %s: %s instead of the documented error" % (type(e).__name__, e))
            else:
                raise Violation("next variables of length %d instead of %d are accepted" % (nexts[env.n_next - 1].size, good[k].size))
            after = snapshot(env)
            check(unchanged(before[:3] + before[4:], after[:3] + after[4:]), "a transition was made with next variables of a wrong length")
            ctx.event("wrong_next_vars_rejected")
            continue
        s_prev = np.array(env.state, copy=True)
        _, _, term, _, _ = sk.step(env, a)
        check(sk.same(env.seen[-1], s_prev), "next_vars received %r instead of the current state %r", env.seen[-1], s_prev)
        full, v = env.simulator.state, case["vars"][k]
        for i in net.loads:
            d = net.dev[i]
            w = oc.clip(v["load"][str(i)] / S, d.pmin, d.pmax)
            check(sk.same(full["dev_p"]["pu"][i], w), "step %d: load %d is given %r p.u. but injects %r", k, i, w, full["dev_p"]["pu"][i])
        for i in net.gens:
            d = net.dev[i]
            w = oc.clip(v["pot"][str(i)] / S, d.pmin, d.pmax)
            check(sk.same(full["gen_p_max"]["pu"][i], w), "step %d: generator %d is given potential %r p.u. but has %r", k, i, w, full["gen_p_max"]["pu"][i])
        if term:
            break
        check(sk.same(env.state[len(env.state) - case["K"]:], v["aux"]), "step %d: auxiliary variables %r instead of %r", k, env.state[len(env.state) - case["K"]:], v["aux"])
        if len(net.loads) + len(net.gens) + case["K"] >= 2:
            ctx.nontrivial()


RULE = "a step with at least two user-supplied entries"
PARTS = [
    Part("mixed", cases(kinds=(-1, 1, 2, 3), min_dev=2, max_dev=5, max_bus=3, steps=(1, 3)), body, 500, 25000, RULE),
    Part("loads", cases(kinds=(-1,), min_dev=1, max_dev=5, max_bus=4, steps=(1, 4)), body, 1000, 60000, RULE),
]
