"""C21: constant forecasts are the present, perfect forecasts are the actual future, acting changes nothing."""
import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check, sut
from . import c12, c15, c19, c20


def same_array(what, got, want, net, tol=1e-9):
    got = np.asarray(got, dtype=float)
    check(got.size == want.size, "%s: the forecast has shape %r, expected %r", what, got.shape, want.shape)
    if want.size == 0:
        return
    check(got.shape == want.shape, "%s: the forecast has shape %r, expected %r", what, got.shape, want.shape)
    bad = np.abs(got - want) > tol * np.maximum(1, np.abs(want))
    if bad.any():
        i, k = [int(x[0]) for x in np.nonzero(bad)]
        check(False, "%s: row %d, stage %d is %r p.u. instead of %r", what, i, k, float(got[i, k]), float(want[i, k]))


# --- constant forecasts in any environment -------------------------------------------------------------------------------


@st.composite
def const_cases(draw):
    c = draw(ng.env_case(steps=(1, 4), K=(0, 3), min_dev=1, max_dev=5, max_bus=4, kinds=(-1, -1, 1, 2, 3), x0=False))
    c["N"] = draw(st.integers(1, 5))
    c["act"] = draw(st.integers(0, 3)) == 0
    return c


def body_constant(ctx, case):
    from gym_anm import MPCAgentConstant

    net, env = sk.env_of(case)
    if sk.safe_reset(env) is None:
        return
    with sut("MPCAgentConstant construction"):
        agent = MPCAgentConstant(env.simulator, env.action_space, env.gamma, 0.9, case["N"])
    seen = set()
    n = len(net.dev_ids)
    for k, act in enumerate([None] + case["actions"]):
        if act is not None and sk.step(env, sk.into_space(env.action_space, sk.action_from(net, act)))[2]:
            break
        vec = np.array(env.state)
        p = {i: vec[j] / net.base for j, i in enumerate(net.dev_ids)}
        pot = {i: vec[2 * n + len(net.des) + j] / net.base for j, i in enumerate(net.gens)}
        before = c12.snapshot(env)
        with sut("MPCAgentConstant.forecast"):
            L, G = agent.forecast(env)
        same_array("after %d steps, loads" % k, L, np.array([[p[i]] * case["N"] for i in net.loads]).reshape(-1, case["N"]), net)
        same_array("after %d steps, generators" % k, G, np.array([[pot[i]] * case["N"] for i in net.gens]).reshape(-1, case["N"]), net)
        check(c12.unchanged(before, c12.snapshot(env)), "forecasting changed the environment")
        if case["act"] and not any(b[R_SHIFT] not in (None, 0, 0.0) for b in case["spec"]["branch"]):
            loads, gens = [[p[i]] * case["N"] for i in net.loads], [[pot[i]] * case["N"] for i in net.gens]
            soc = {i: float(env.simulator.state["des_soc"]["pu"][i]) for i in net.des}
            if c20.LP(net, env.delta_t, env.lamb, env.gamma, 0.9, case["N"], soc, loads, gens, pi=0.999 * c20.PI).solve() is None:
                continue
            with sut("MPCAgentConstant.act"):
                agent.act(env)
            check(c12.unchanged(before, c12.snapshot(env)), "acting after %d steps changed the environment", k)
            ctx.event("acted")
        seen.add(tuple(np.round(list(p.values()) + list(pot.values()), 6)))
    if len(seen) > 1 and (net.loads or net.gens):
        ctx.nontrivial()


R_SHIFT = ng.R["SHIFT"]


# --- acting changes neither the state nor the future (stochastic environments) ---------------------------------------------


@st.composite
def twin_cases(draw):
    c = draw(c20.agent_cases(horizon=(1, 3), min_dev=1, max_dev=4, max_bus=3, steps=(2, 3), kinds=(-1, 1, 2, 3)))
    c["seed"] = draw(st.integers(0, 10**6))
    c["when"] = [draw(st.integers(0, 2)) for _ in range(5)]
    return c


def body_twin(ctx, case):
    from gym_anm import MPCAgentConstant
    from gym_anm.errors import EnvInitializationError

    net = oc.Net(case["spec"])
    envs, nets = [], []
    for _ in range(2):
        with sut("environment construction"):
            nw = ng.to_network(case["spec"])
            envs.append(c15.rand_env_class()(nw, [sk.init_from(net, case["init"])], [sk.vars_from(net, v) for v in case["vars"]], "state", case["K"], case["dt"], case["gamma"], case["lamb"]))
            nets.append(nw)
    a, b = envs
    with sut("MPCAgentConstant construction"):
        agent = MPCAgentConstant(a.simulator, a.action_space, a.gamma, case["beta"], case["N"])
    spaces = (np.array(a.action_space.low), np.array(a.action_space.high))
    acts = [sk.into_space(a.action_space, sk.action_from(net, x)) for x in case["actions"]]
    x, y = c15.do_reset(a, case["seed"]), c15.do_reset(b, case["seed"])
    tol = 1e-9
    acted = 0
    for k, act in enumerate([None] + acts):
        if act is not None:
            x, y = c15.do_step(a, act), c15.do_step(b, act)
        check(c15.agree(x, y, tol, case["lamb"]), "operation %d differs when an MPC agent acted before: %r instead of %r", k, x, y)
        if x[0] == "none" or (x[0] == "step" and x[4]):
            break
        for _ in range(case["when"][k]):
            loads, gens = [[v[0]] * case["N"] for v in c20.present(net, a)[0]], [[v[0]] * case["N"] for v in c20.present(net, a)[1]]
            soc = {i: float(a.simulator.state["des_soc"]["pu"][i]) for i in net.des}
            if c20.LP(net, a.delta_t, a.lamb, a.gamma, case["beta"], case["N"], soc, loads, gens, pi=0.999 * c20.PI).solve() is None:
                break
            st0 = (a.np_random.bit_generator.state, np.array(a.state), c15.flat(a.simulator.state), a.timestep)
            with sut("MPCAgentConstant.act"):
                agent.act(a)
            st1 = (a.np_random.bit_generator.state, np.array(a.state), c15.flat(a.simulator.state), a.timestep)
            check(st0[0] == st1[0], "acting drew from the environment's random generator")
            check(np.array_equal(st0[1], st1[1]) and st0[3] == st1[3], "acting changed the environment's state: %r, was %r", st1[1], st0[1])
            check(all(v == st1[2].get(q) or v != v for q, v in st0[2].items()) and len(st0[2]) == len(st1[2]), "acting changed the simulator's state")
            acted += 1
    check(np.array_equal(spaces[0], a.action_space.low) and np.array_equal(spaces[1], a.action_space.high), "acting changed the action space")
    if acted and k > 0:
        ctx.nontrivial()


# --- perfect forecasts ------------------------------------------------------------------------------------------------------


@st.composite
def perfect_cases(draw):
    n = draw(st.integers(1, 5))
    return {"t": draw(st.one_of(st.integers(0, 95), st.integers(90, 95))), "seed": draw(st.integers(0, 10**6)), "N": draw(st.one_of(st.integers(1, 8), st.integers(80, 110), st.integers(180, 300))),
            "u": [[draw(ng.num(0, 1)) for _ in range(6)] for _ in range(n)], "act": draw(st.integers(0, 3)) == 0, "again": draw(st.booleans())}


def body_perfect(ctx, case):
    """Forecasts along a history against the values the environment announces and then produces."""
    from gym_anm import MPCAgentPerfect

    with sut("ANM6Easy"):
        env = c20.easy_at()(case["t"])
        twin = c20.easy_at()(case["t"])
        env.reset(seed=case["seed"])
        twin.reset(seed=case["seed"])
        N = case["N"]
        agent = MPCAgentPerfect(env.simulator, env.action_space, env.gamma, planning_steps=N)
        short = MPCAgentPerfect(env.simulator, env.action_space, env.gamma, planning_steps=min(N, 6))
    lo, hi = env.action_space.low, env.action_space.high
    pmax = np.array([[c19.NET.dev[i].pmax] for i in c19.NET.gens])
    pend = {}
    for k in range(len(case["u"]) + 1):
        with sut("MPCAgentPerfect.forecast"):
            L, G = agent.forecast(env)
        want, v = [], np.array(env.state)
        for _ in range(N):
            with sut("next_vars"):
                nv = env.next_vars(v)
            want.append(np.array(nv[:5], dtype=float) / 100)
            v = np.append(v[:17], nv[5])
        want = np.array(want).T
        where = "time of day %d, N = %d" % (env.state[17], N)
        same_array(where + ", loads", L, want[:3], c19.NET)
        same_array(where + ", generators", np.minimum(np.asarray(G, dtype=float), pmax), np.minimum(want[3:], pmax), c19.NET)
        if case["act"]:
            st0 = (np.array(env.state), c15.flat(env.simulator.state), env.date, env.timestep)
            with sut("MPCAgentPerfect.act"):
                short.act(env)
            st1 = (np.array(env.state), c15.flat(env.simulator.state), env.date, env.timestep)
            check(np.array_equal(st0[0], st1[0]) and st0[1] == st1[1] and st0[2:] == st1[2:], "acting at %s changed the environment", where)
        if case["again"]:
            with sut("MPCAgentPerfect.forecast"):
                L2, G2 = agent.forecast(env)
            check(np.array_equal(L, L2) and np.array_equal(G, G2), "a second forecast at %s differs", where)
        for j in range(N):
            pend.setdefault(k + 1 + j, []).append((np.asarray(L)[:, j], np.asarray(G)[:, j], where, j))
        if k == len(case["u"]):
            break
        a = lo + (0.4 + 0.2 * np.array(case["u"][k])) * (hi - lo)
        o1, o2 = c15.do_step(env, a), c15.do_step(twin, a)
        check(c15.agree(o1, o2, 1e-9, 100), "step %d differs from an environment in which no agent acts: %r instead of %r", k, o1, o2)
        if o1[4]:
            break
        s = env.simulator.state
        for l, g, where, j in pend.pop(k + 1, []):
            for m, i in enumerate(c19.NET.loads):
                check(abs(l[m] - s["dev_p"]["pu"][i]) <= 1e-9, "load %d forecast at %s for stage %d is %r p.u., the environment produced %r", i, where, j, l[m], s["dev_p"]["pu"][i])
            for m, i in enumerate(c19.NET.gens):
                p = min(g[m], c19.NET.dev[i].pmax)
                check(abs(p - s["gen_p_max"]["pu"][i]) <= 1e-9, "potential of generator %d forecast at %s for stage %d is %r p.u., the environment produced %r", i, where, j, p, s["gen_p_max"]["pu"][i])
    t = case["t"]
    if t + N > 95:
        ctx.event("past_midnight")
    if t + N > 191:
        ctx.event("several_days")
    ctx.nontrivial()


PARTS = [
    Part("constant", const_cases(), body_constant, 510, 16000, "forecasts at two or more different states with loads or generators were compared"),
    Part("twin", twin_cases(), body_twin, 190, 6000, "an agent acted before at least one compared step"),
    Part("perfect", perfect_cases(), body_perfect, 260, 8000, "every stage of every forecast of a history was compared with announced and produced values"),
]
