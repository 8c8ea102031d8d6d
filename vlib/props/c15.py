"""C15: trajectories are reproducible, environments are independent, caller's data is never modified."""
import copy
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check, sut
from ..netgen import D
from . import c10


# --- a stochastic user-defined environment ------------------------------------------------------------------------------

_cls = []


def rand_env_class():
    if not _cls:
        from gym_anm import ANMEnv

        class RandEnv(ANMEnv):
            """Draws initial states and next variables with the environment's random generator."""

            def __init__(self, network, inits, nexts, *a, **k):
                self.pool = (inits, nexts)
                super().__init__(network, *a, **k)

            def _pick(self, vs):
                v = np.array(vs[self.np_random.integers(len(vs))], dtype=float)
                return v * self.np_random.uniform(0.3, 1.0, size=v.shape)

            def reset(self, **kw):
                self.tries = 0
                return super().reset(**kw)

            def init_state(self):
                sk.give_up(self, 8)
                return self._pick(self.pool[0])

            def next_vars(self, s_t):
                return self._pick(self.pool[1])

        _cls.append(RandEnv)
    return _cls[0]


@st.composite
def history(draw, n):
    """Operations before the compared part: resets with other seeds and steps."""
    return [draw(st.one_of(st.just(["step", 0]), st.tuples(st.just("reset"), st.integers(0, 5)).map(list), st.just(["reset", None])))
            for _ in range(draw(st.integers(0, n)))]


@st.composite
def cases(draw, kinds, max_dev, steps):
    a = draw(c10.cases(kinds=kinds, min_dev=1, max_dev=max_dev, max_bus=4, steps=steps))
    b = draw(c10.cases(kinds=kinds, min_dev=1, max_dev=max_dev, max_bus=3, steps=(1, 3)))
    if ng.some(draw, 0.5):  # environments of almost the same network
        b = copy.deepcopy(a)
        b["spec"] = ng.sibling(a["spec"], {"kind": draw(st.sampled_from([k for k in ng.SIBLING if k not in ("drop", "limits", "base")])), "j": draw(st.integers(0, 7)), "f": draw(st.sampled_from([0.5, 1.5, 3.0]))})
        b["dt"], b["lamb"], b["gamma"] = draw(st.sampled_from([(0.25, 100, 0.9), (1, 7, 0.5)]))
    n = len(a["actions"])
    return {
        "a": a, "b": b, "seed": draw(st.integers(0, 2**31 - 1)), "ctor": draw(st.booleans()),
        "before": draw(history(4)), "clip": draw(st.sampled_from([None, [1, 100], [None, 2]])),
        "order": draw(st.lists(st.integers(0, 2), min_size=2 * n, max_size=4 * n + 2)),
        "rounds": draw(st.integers(1, 2)),
    }


def build(case, c, seed=None):
    net = oc.Net(c["spec"])
    auxb = None if c["auxb"] is None else np.array(c["auxb"], dtype=float).reshape(-1, 2)
    clip = None if case["clip"] is None else tuple(case["clip"])
    with sut("environment construction"):
        env = rand_env_class()(ng.to_network(c["spec"]), [sk.init_from(net, c["init"])], [sk.vars_from(net, v) for v in c["vars"]],
                               c10.user_obs(c), c["K"], c["dt"], c["gamma"], c["lamb"], auxb, clip, seed)
    acts = [sk.into_space(env.action_space, sk.action_from(net, a)) for a in c["actions"]]
    return net, env, acts


def do_reset(env, seed):
    """("reset", obs, state), or ("none",) when no initial state is feasible."""
    from gym_anm.errors import EnvInitializationError

    with sut("env.reset", allow=(EnvInitializationError,)):
        try:
            obs, _ = env.reset(seed=seed) if seed is not None else env.reset()
        except EnvInitializationError:
            return ("none",)
    return ("reset", np.array(obs, copy=True), np.array(env.state, copy=True))


def do_step(env, a):
    obs, r, term, trunc, _ = sk.step(env, a)
    return ("step", np.array(obs, copy=True), np.array(env.state, copy=True), float(r), bool(term), bool(trunc), float(env.e_loss), float(env.penalty))


def agree(x, y, tol, lamb):
    if x[0] != y[0] or len(x) != len(y):
        return False
    for u, v in zip(x[1:], y[1:]):
        if isinstance(u, np.ndarray):
            if u.shape != v.shape or not np.all((np.isfinite(u) & np.isfinite(v) & (np.abs(u - v) <= tol * np.maximum(1, np.maximum(np.abs(u), np.abs(v))))) | (u == v) | (np.isnan(u) & np.isnan(v))):
                return False
        elif isinstance(u, bool):
            if u != v:
                return False
        elif not (u == v or math.isclose(u, v, rel_tol=tol * max(1, lamb), abs_tol=tol * max(1, lamb))):
            return False
    return True


class Player:
    """Plays reset(seed) then the actions, one operation per `advance`."""

    def __init__(self, env, acts, seed, rounds, ctor):
        self.env, self.acts, self.seed, self.rounds, self.ctor = env, acts, seed, rounds, ctor
        self.k, self.r, self.trace = -1, 0, []

    def advance(self):
        if self.k == -1:
            out = do_reset(self.env, None if self.ctor else self.seed + self.r)
            self.trace.append(out)
            self.k = len(self.acts) if out[0] == "none" else 0
        elif self.k < len(self.acts):
            self.trace.append(do_step(self.env, self.acts[self.k]))
            self.k += 1
        if self.k >= len(self.acts) and self.r + 1 < self.rounds:
            self.r += 1
            self.k = -1

    def done(self):
        return self.k >= len(self.acts) and self.r + 1 >= self.rounds

    def finish(self):
        while not self.done():
            self.advance()
        return self.trace


def body(ctx, case):
    a, b = case["a"], case["b"]
    seed, ctor, rounds = case["seed"], case["ctor"], case["rounds"]
    cs = seed if ctor else None
    net, env, acts = build(case, a, cs)
    tol = 1e-9
    solo = Player(env, acts, seed, rounds, ctor).finish()
    netb, envb, actsb = build(case, b, cs)
    solo_b = Player(envb, actsb, seed, 1, ctor).finish()

    # Twin 1 has no history; twin 2 goes through another history first; a different environment runs in between.
    _, t1, acts1 = build(case, a, cs)
    _, t2, acts2 = build(case, a, cs)
    _, t3, acts3 = build(case, b, cs)
    alive = False
    for op, s in case["before"]:
        if op == "reset":
            alive = do_reset(t2, s)[0] == "reset"
        elif alive:
            do_step(t2, acts2[0])
    players = [Player(t1, acts1, seed, rounds, ctor), Player(t2, acts2, seed, rounds, False), Player(t3, acts3, seed, 1, ctor)]
    if ctor:
        # Seeded through the constructor: the other twin is reset with the seed instead; both draw the same numbers.
        players[1].rounds = 1
    for k in case["order"]:
        players[k].advance()
    for p in players:
        p.finish()
    for name, p, ref, lamb, tl in (("a twin interleaved with others", players[0], solo, a["lamb"], tol),
                                   ("an environment with an earlier history, reset again with the seed", players[1], solo, a["lamb"], tol),
                                   ("the other environment, interleaved", players[2], solo_b, b["lamb"], tol)):
        n = min(len(p.trace), len(ref))
        for k in range(n):
            check(agree(p.trace[k], ref[k], tl, lamb), "%s differs at operation %d: %r instead of %r", name, k, p.trace[k], ref[k])
        if not (p is players[1] and ctor):
            check(len(p.trace) == len(ref), "%s made %d operations instead of %d", name, len(p.trace), len(ref))
    if case["before"] and len(solo) > 2:
        ctx.nontrivial()
    ctx.event("constructor_seed" if ctor else "reset_seed")
    if any(o[0] == "step" and o[4] for o in solo):
        ctx.event("collapse_in_trace")


# --- a transition depends only on the previous charge and the inputs -----------------------------------------------------


def flat(state):
    return {(q, u, i): float(v) for q in state for u in state[q] for i, v in state[q][u].items()}


def body_markov(ctx, case):
    run = sk.Run(case)
    net = run.net
    exact = not (net.gens or net.des)
    tol = 1e-9 if exact else 3e-4
    n = 0
    for k, inp in enumerate(case["steps"]):
        soc = {i: run.sim.state["des_soc"]["MWh"][i] for i in net.des}
        out = run.step(inp)
        if k == 0:
            continue
        sim = sk.make_sim(case["spec"], case["dt"], case["lamb"])
        with sut("Simulator.reset"):
            sim.reset(sk.init_vec(net, soc=soc))
        out2 = sk.transition(sim, inp)
        conv = bool(out[4])
        check(bool(out2[4]) == conv, "step %d: converged = %r after a history, %r on a fresh simulator with the same charges", k, out[4], out2[4])
        if not conv:
            continue
        x, y = flat(out[0]), flat(out2[0])
        check(x.keys() == y.keys(), "step %d: the full states list different entries", k)
        if not exact and min(run.sim.state["bus_v_magn"]["pu"].values()) < 0.8:
            continue
        for key in x:
            if key[0].endswith("_ang") and not exact or key[0] == "branch_i_ang" or key[0] == "bus_i_ang":
                continue
            t = tol * max(1.0, abs(x[key]), abs(y[key]))
            if not exact:
                t *= 30 * (net.base if key[1] in ("MW", "MVAr", "MVA", "MWh") else 1)
                if key[1] in ("kA",):
                    t *= 1 + net.base / min(bus.kv for bus in net.bus.values())
            u, v = x[key], y[key]
            if not exact and key[0] in ("branch_s", "branch_i_magn"):
                # The sign follows the active flow (current), which may be zero up to the noise of the projection.
                e = key[2]
                w = x[("branch_p", "pu", e)] if key[0] == "branch_s" else x[("branch_i_magn", "pu", e)] * math.cos(x[("branch_i_ang", "rad", e)])
                if abs(w) < 30 * tol:
                    u, v = abs(u), abs(v)
            check(u == v or math.isfinite(t) and abs(u - v) <= t, "step %d: %s is %r after a history but %r on a fresh simulator with the same charges %r and inputs", k, key, x[key], y[key], soc)
        if exact:
            for j in (1, 2, 3):
                check(sk.close(out[j], out2[j], 1e-8), "step %d: result %d is %r after a history, %r on a fresh simulator", k, j, out[j], out2[j])
        n += 1
    if n:
        ctx.nontrivial()


# --- the caller's data is never modified ------------------------------------------------------------------------------


def fingerprint(x):
    if isinstance(x, np.ndarray):
        return ("nd", x.dtype.str, x.shape, repr(x.tolist()))
    if isinstance(x, dict):
        return ("d", [(k, fingerprint(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [fingerprint(v) for v in x])
    return (type(x).__name__, repr(x)) if not callable(x) else ("f", id(x))


def body_args(ctx, case):
    from gym_anm import ANMEnv
    from gym_anm.errors import EnvInitializationError

    net = oc.Net(case["spec"])
    network = ng.to_network(case["spec"])
    auxb = None if case["auxb"] is None else np.array(case["auxb"], dtype=float).reshape(-1, 2)
    obs_spec = c10.user_obs(case)
    init = sk.init_from(net, case["init"])
    nexts = [sk.vars_from(net, v) for v in case["vars"]]
    clip = [1, None]
    count = [0]

    class Env(ANMEnv):
        def init_state(self):
            return init  # the very same object every time

        def next_vars(self, s_t):
            count[0] += 1
            return nexts[(count[0] - 1) % len(nexts)]

    options = {"x": [1, 2]}
    things = {"network": network, "observation": obs_spec, "aux_bounds": auxb, "initial state": init, "next variables": nexts, "costs_clipping": clip, "options": options}
    fp = {k: fingerprint(v) for k, v in things.items()}

    def unchanged(when):
        for k, v in things.items():
            check(fingerprint(v) == fp[k], "%s: the caller's %s was modified: %r, was %r", when, k, fingerprint(v), fp[k])

    with sut("environment construction"):
        env = Env(network, obs_spec, case["K"], case["dt"], case["gamma"], case["lamb"], auxb, clip, 3)
    unchanged("after construction")
    for rnd in range(2):
        with sut("env.reset", allow=(EnvInitializationError,)):
            try:
                env.reset(seed=rnd, options=options)
            except EnvInitializationError:
                return
        unchanged("after reset")
        for k, act in enumerate(case["actions"]):
            a = sk.into_space(env.action_space, sk.action_from(net, act))
            a0 = fingerprint(a)
            sk.step(env, a)
            check(fingerprint(a) == a0, "step %d modified the action array: %r, was %r", k, fingerprint(a), a0)
            unchanged("after step %d" % k)
    # A second environment from the very same (shared) objects behaves like one from fresh copies.
    with sut("environment construction"):
        env2 = Env(network, obs_spec, case["K"], case["dt"], case["gamma"], case["lamb"], auxb, clip, 3)
    check(np.array_equal(env2.action_space.low, env.action_space.low) and np.array_equal(env2.action_space.high, env.action_space.high),
          "a second environment from the same network has other action bounds")
    inp = {k: {} for k in ("load", "pot", "p", "q")}
    # The simulator's own interface.
    dicts = [{i: nexts[0][j] for j, i in enumerate(net.loads)}, {i: nexts[0][len(net.loads) + j] for j, i in enumerate(net.gens)},
             {i: 0.1 for i in net.gens + net.des}, {i: 0.05 for i in net.gens + net.des}]
    d0 = fingerprint(dicts)
    sim = sk.make_sim(case["spec"])
    v0 = sk.init_vec(net)
    f0 = fingerprint(v0)
    with sut("Simulator.reset/transition"):
        sim.reset(v0)
        sim.transition(*dicts)
    check(fingerprint(dicts) == d0, "Simulator.transition modified its arguments: %r, were %r", fingerprint(dicts), d0)
    check(fingerprint(v0) == f0, "Simulator.reset modified its argument")
    ctx.nontrivial()


# --- ANM6-Easy ---------------------------------------------------------------------------------------------------------


@st.composite
def easy_cases(draw):
    n = draw(st.integers(1, 5))
    return {"seed": draw(st.integers(0, 2**31 - 1)), "before": draw(history(3)), "n": n,
            "acts": [[draw(ng.num(0, 1)) for _ in range(6)] for _ in range(n)], "order": draw(st.lists(st.integers(0, 1), min_size=4, max_size=14)),
            "make": draw(st.booleans())}


def body_easy(ctx, case):
    import gymnasium as gym
    from gym_anm.envs import ANM6Easy

    def new():
        with sut("ANM6Easy construction"):
            return gym.make("ANM6Easy-v0").unwrapped if case["make"] else ANM6Easy()

    def act(env, u):
        lo, hi = env.action_space.low, env.action_space.high
        return lo + np.array(u) * (hi - lo)

    solo_env, e2 = new(), new()
    acts = [act(solo_env, u) for u in case["acts"]]
    solo = Player(solo_env, acts, case["seed"], 1, False).finish()
    dates = (solo_env.date, solo_env.year_count)
    alive = False
    for op, s in case["before"]:
        if op == "reset":
            alive = do_reset(e2, s)[0] == "reset"
        elif alive:
            do_step(e2, acts[0])
    e3 = new()
    ps = [Player(e2, acts, case["seed"], 1, False), Player(e3, acts, case["seed"], 1, False)]
    for k in case["order"]:
        ps[k].advance()
    for name, p in (("ANM6-Easy with an earlier history", ps[0]), ("a second ANM6-Easy", ps[1])):
        p.finish()
        for k, (x, y) in enumerate(zip(p.trace, solo)):
            check(agree(x, y, 1e-9, 100), "%s reset with seed %d differs at operation %d: %r instead of %r", name, case["seed"], k, x, y)
    check((e3.date, e3.year_count) == dates and (e2.date, e2.year_count) == dates, "dates differ for the same seed: %r, %r, %r", e3.date, e2.date, dates)
    if case["before"]:
        ctx.nontrivial()


PARTS = [
    Part("loads", cases((-1,), 4, (2, 6)), body, 400, 25000, "an environment with an earlier history is compared over at least two operations"),
    Part("mixed", cases((-1, 1, 2, 3), 3, (2, 4)), body, 130, 8000, "an environment with an earlier history is compared over at least two operations"),
    Part("markov-loads", ng.sim_case(kinds=(-1,), max_dev=5, max_bus=5, steps=(2, 5), over=2.0), body_markov, 350, 20000, "a transition after at least one other was compared"),
    Part("markov-mixed", ng.sim_case(kinds=(-1, 1, 2, 3, 3), min_dev=1, max_dev=4, max_bus=3, steps=(2, 4), taps=False, shifts="none", x0=False), body_markov, 180, 12000,
         "a transition after at least one other was compared"),
    Part("arguments", c10.cases(kinds=(-1, 1, 2, 3), min_dev=1, max_dev=3, max_bus=3, steps=(1, 3)), body_args, 200, 12000, "snapshots compared over a whole history"),
    Part("anm6-easy", easy_cases(), body_easy, 60, 5000, "an environment with an earlier history is compared"),
]
