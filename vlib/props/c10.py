"""C10: state and observation vectors contain exactly the selected quantities."""
import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check

QUANT = list(oc.UNITS)


@st.composite
def obs_list(draw, net, K):
    """A list observation specification: entries [quantity, ids or 'all', unit or None]."""
    out = []
    for _ in range(draw(st.integers(1, 5))):
        q = draw(st.sampled_from(QUANT + ["aux"]))
        els = list(range(K)) if q == "aux" else [list(e) if isinstance(e, tuple) else e for e in oc.elements(net, q)]
        if not els or draw(st.integers(0, 2)) == 0:
            ids = "all"
        else:
            ids = draw(st.lists(st.sampled_from(els), min_size=1, max_size=len(els), unique_by=str))
        unit = None if q == "aux" else draw(st.sampled_from([None] + list(oc.UNITS[q])))
        out.append([q, ids, unit])
    return out


@st.composite
def cases(draw, steps=(1, 4), own=False, **kw):
    c = draw(ng.env_case(steps=steps, **kw))
    net = oc.Net(c["spec"])
    mode = draw(st.sampled_from(["list", "list", "list", "state", "func"] + ["list", "func", "method"] * own))
    c["mode"] = mode
    if mode == "list":
        c["obs"] = draw(obs_list(net, c["K"]))
    elif mode in ("func", "method"):
        c["ownbounds"] = mode == "method" or (own and draw(st.booleans()))
        n = 2 * len(net.dev_ids) + len(net.des) + len(net.gens) + c["K"]
        c["obs"] = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=4))
    c["auxb"] = [sorted([draw(ng.num(-5, 50, 1)), draw(ng.num(-5, 100, 1))]) for _ in range(c["K"])] if draw(st.booleans()) else None
    return c


def user_obs(case):
    if case["mode"] in ("state", "method"):
        return "state"
    if case["mode"] == "func":
        idx = case["obs"]
        return lambda s: np.array([2.0 * s[i] + 1 for i in idx])
    out = []
    for q, ids, unit in case["obs"]:
        ids = "all" if ids == "all" else [tuple(i) if isinstance(i, list) else i for i in ids]
        out.append((q, ids) if unit is None else (q, ids, unit))
    return out


def resolve(net, K, spec):
    """[(quantity, id, unit)] of a list specification, in order."""
    out = []
    for e in spec:
        q, ids, unit = e[0], e[1], (e[2] if len(e) > 2 else None)
        if isinstance(ids, str):
            ids = list(range(K)) if q == "aux" else oc.elements(net, q)
        for i in ids:
            i = tuple(i) if isinstance(i, (list, tuple)) else i
            out.append((q, i, None if q == "aux" else unit or oc.UNITS[q][0]))
    return out


def state_spec(net):
    return [("dev_p", "all", "MW"), ("dev_q", "all", "MVAr"), ("des_soc", "all", "MWh"), ("gen_p_max", "all", "MW"), ("aux", "all")]


def expected_obs(net, case, full, aux, state):
    if case["mode"] in ("func", "method"):
        return np.array([2.0 * state[i] + 1 for i in case["obs"]])
    spec = state_spec(net) if case["mode"] == "state" else case["obs"]
    v = []
    for q, i, unit in resolve(net, case["K"], spec):
        if q == "aux":
            x = aux[i]
            lo, hi = case["auxb"][i] if case["auxb"] else (-oc.INF, oc.INF)
        else:
            x = full[q][unit][i]
            lo, hi = oc.bounds(net, q, i, unit)
        v.append(oc.clip(x, lo, hi))
    return np.array(v, dtype=float)


OWN = (-1e7, 2e7)


def subclass(case):
    """The user's environment class: its own observation bounds, or also its own observation method."""
    if not case.get("ownbounds"):
        return None
    from gymnasium import spaces

    n = len(case["obs"])

    class Own(sk.make_env_class()):
        def observation_bounds(self):
            return spaces.Box(low=np.full(n, OWN[0]), high=np.full(n, OWN[1]), dtype=np.float64)

    if case["mode"] == "func":
        return Own

    class Method(Own):
        def observation(self, s_t):
            return np.array([2.0 * s_t[i] + 1 for i in case["obs"]])

    return Method


def body(ctx, case):
    auxb = None if case["auxb"] is None else np.array(case["auxb"], dtype=float).reshape(-1, 2)
    net, env = sk.env_of(case, observation=user_obs(case), aux_bounds=auxb, cls=subclass(case))
    out = sk.safe_reset(env)
    if out is None:
        return
    obs = out[0]
    aux = case["init"]["aux"]
    for k in range(len(case["actions"]) + 1):
        full = env.simulator.state
        want = sk.expected_state(net, full, aux)
        check(sk.same(env.state, want), "after %d steps the state vector is %r, expected %r", k, env.state, want)
        o = expected_obs(net, case, full, aux, want)
        check(sk.same(obs, o), "after %d steps the observation of %r is %r, expected %r", k, case.get("obs", "state"), obs, o)
        sp = env.observation_space
        check(sp.shape == o.shape and sp.contains(obs), "after %d steps the observation %r is not in the observation space %r", k, obs, sp)
        if case.get("ownbounds"):
            check(np.all(sp.low == OWN[0]) and np.all(sp.high == OWN[1]), "the observation space %r is not the user's", sp)
        check(env.observation_N == len(o) and env.state_N == len(want), "observation_N/state_N are %r/%r", env.observation_N, env.state_N)
        if len(o) > 1 and len({round(float(x), 9) for x in o}) > 1:
            ctx.nontrivial()
        if k == len(case["actions"]):
            break
        a = sk.into_space(env.action_space, sk.action_from(net, case["actions"][k]))
        obs, _, term, _, _ = sk.step(env, a)
        if term:
            ctx.event("collapsed")
            break
        aux = case["vars"][k]["aux"]
    ctx.event("mode_" + case["mode"])
    if case["mode"] == "list":
        for q, ids, unit in case["obs"]:
            ctx.event("q_%s%s" % (q, "" if unit is None else "_" + unit))


RULE = "an observation with at least two different entries was compared"
PARTS = [
    Part("mixed", cases(own=True, kinds=(-1, 1, 2, 3), min_dev=2, max_dev=4, max_bus=4, steps=(1, 3)), body, 1040, 30000, RULE),
    Part("loads", cases(own=True, kinds=(-1,), min_dev=1, max_dev=4, max_bus=5, steps=(1, 4)), body, 1760, 60000, RULE),
    Part("branches", cases(own=True, kinds=(-1,), min_dev=1, max_dev=3, min_bus=6, max_bus=9, steps=(1, 2)), body, 400, 20000, RULE),
]
