"""C25: environments obey the Gymnasium contract, returned data is never altered."""
import copy

import hypothesis.strategies as st
import numpy as np

from .. import oracle as oc, simkit as sk
from ..core import HarnessError, Part, check, sut
from . import c10, c15


def frozen(x):
    """A deep, comparable copy."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return ("dict", tuple(sorted((repr(k), frozen(v)) for k, v in x.items())))
    return ("value", repr(x))


class Keeper:
    """Everything the environment has returned, with copies."""

    def __init__(self):
        self.kept = []

    def keep(self, what, x):
        self.kept.append((what, x, frozen(x)))

    def verify(self, after):
        for what, x, f in self.kept:
            check(frozen(x) == f, "%s was altered by a later call (%s): now %r", what, after, x)


def check_obs(env, obs, what, inside=True):
    sp = env.observation_space
    check(isinstance(obs, np.ndarray), "%s: the observation is a %s", what, type(obs).__name__)
    check(obs.shape == sp.shape, "%s: the observation has shape %r, the space %r", what, obs.shape, sp.shape)
    check(obs.dtype == sp.dtype, "%s: the observation has type %s, the space %s", what, obs.dtype, sp.dtype)
    if inside:
        check(sp.contains(obs), "%s: observation %r outside the space", what, obs)


def check_reset(out, env, what):
    check(isinstance(out, tuple) and len(out) == 2, "%s: reset returned %r", what, type(out))
    obs, info = out
    check(isinstance(info, dict), "%s: reset's info is a %s", what, type(info).__name__)
    check_obs(env, obs, what)
    return obs, info


def check_step(out, env, what):
    check(isinstance(out, tuple) and len(out) == 5, "%s: step returned %r", what, type(out))
    obs, r, term, trunc, info = out
    check(isinstance(r, (int, float, np.floating, np.integer)) and not isinstance(r, bool) and r == r, "%s: the reward is %r (%s)", what, r, type(r).__name__)
    check(isinstance(term, (bool, np.bool_)) and isinstance(trunc, (bool, np.bool_)), "%s: terminated/truncated are %r/%r", what, term, trunc)
    check(not trunc, "%s: the episode was truncated", what)
    check(isinstance(info, dict), "%s: step's info is a %s", what, type(info).__name__)
    check_obs(env, obs, what, inside=not term)
    return out


def sample(env, seed, case=None):
    sp = env.action_space
    sp.seed(seed)
    a = sp.sample()
    if not np.all(np.isfinite(sp.low) & np.isfinite(sp.high)):
        # Sampling an unbounded dimension gives values far outside any power system.
        a = np.where(np.isfinite(sp.low) & np.isfinite(sp.high), a, np.clip(np.zeros_like(a), sp.low, sp.high)).astype(a.dtype)
    check(sp.contains(a), "a sampled action %r is not in the space", a)
    return a


# --- user-defined environments --------------------------------------------------------------------------------------------


@st.composite
def cases(draw, **kw):
    c = draw(c10.cases(steps=(2, 4), **kw))
    for k in ("load", "pot", "p", "q"):  # a feasible initial state (an infeasible one is searched 100 times)
        c["init"][k] = {i: 0.02 * v for i, v in c["init"][k].items()}
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        k = draw(st.sampled_from(["step", "step", "step", "sample", "scribble", "reset", "reset0"]))
        ops.append([k] if k in ("step", "scribble", "reset0") else [k, draw(st.integers(0, 2**31 - 1))])
    return {"c": c, "ops": ops, "random": draw(st.booleans()), "clip": draw(st.sampled_from([None, [1, 100]])), "live": draw(st.booleans())}


def body(ctx, case):
    from gym_anm.errors import EnvInitializationError

    c = case["c"]
    if case["random"]:
        net, env, acts = c15.build(case, c)
    else:
        auxb = None if c["auxb"] is None else np.array(c["auxb"], dtype=float).reshape(-1, 2)
        kw = {} if case["clip"] is None else {"costs_clipping": tuple(case["clip"])}
        net, env = sk.env_of(c, observation=c10.user_obs(c), aux_bounds=auxb, **kw)
        acts = [sk.into_space(env.action_space, sk.action_from(net, a)) for a in c["actions"]]
    keep = Keeper()

    def reset(what, **k):
        with sut("env.reset", allow=(EnvInitializationError,)):
            try:
                out = env.reset(**k)
            except EnvInitializationError:
                return None
        obs, info = check_reset(out, env, what)
        check(env.timestep == 0, "%s: the step counter is %r after a reset", what, env.timestep)
        note(what, obs, info)
        return obs

    def note(what, obs, info):
        keep.verify(what)
        keep.keep("the observation of %s" % what, obs)
        keep.keep("the state after %s" % what, env.state)
        keep.keep("the info of %s" % what, info)
        keep.keep("the full state after %s" % what, env.simulator.state)

    obs = reset("the first reset")
    if obs is None:
        return
    n, over, depth = 0, False, 0
    for k, op in enumerate(case["ops"]):
        what = "call %d (%s)" % (k + 1, op[0])
        if op[0] in ("reset", "reset0"):
            o = reset(what, **({"seed": op[1]} if op[0] == "reset" else {"options": {}}))
            if o is None:
                return
            obs, n, over = o, 0, False
            ctx.event("reset")
        elif op[0] == "scribble":
            if c["mode"] == "func":
                continue
            # The caller may use the observation as scratch space.
            before = (frozen(env.state), frozen(env.simulator.state), frozen(env.observation_space.low), frozen(env.observation_space.high))
            mine = env.observation(env.state) if not over else np.zeros(env.observation_N)
            last = keep.kept[-4]
            obs[:] = 1e9
            keep.kept[-4] = (last[0], obs, frozen(obs))
            after = (frozen(env.state), frozen(env.simulator.state), frozen(env.observation_space.low), frozen(env.observation_space.high))
            check(before == after, "%s: writing into a returned observation changed the environment", what)
            again = env.observation(env.state) if not over else mine
            check(np.array_equal(mine, again), "%s: writing into a returned observation changed later observations", what)
            ctx.event("scribble")
        else:
            a = acts[k % len(acts)] if op[0] == "step" else sample(env, op[1])
            a0 = np.array(a, copy=True)
            obs, r, term, _, info = check_step(sk.step(env, a), env, what)
            check(np.array_equal(a, a0), "%s altered the action", what)
            if over:
                check(term, "%s: not terminal after a terminal state", what)
            else:
                n += 1
                check(env.timestep == n, "%s: the step counter is %r after %d steps", what, env.timestep, n)
            over = over or bool(term)
            depth = max(depth, n)
            note(what, obs, info)
            ctx.event("step_terminal" if over else "step")
    keep.verify("the end")
    if depth >= 2:
        ctx.nontrivial()


# --- the registered task ------------------------------------------------------------------------------------------------------


@st.composite
def easy_cases(draw, ops=(2, 10)):
    out = []
    for _ in range(draw(st.integers(*ops))):
        k = draw(st.sampled_from(["step", "step", "step", "reset", "mild"]))
        out.append([k, draw(st.integers(0, 2**31 - 1))])
    return {"ops": out, "seed": draw(st.integers(0, 10**6)), "vec": draw(st.sampled_from([0, 0, 1]))}


@st.composite
def long_cases(draw):
    return {"ops": [["mild", draw(st.integers(0, 10**6))] for _ in range(draw(st.sampled_from([150, 120])))], "seed": draw(st.integers(0, 10**6)), "vec": 0}


def easy_body(ctx, case):
    import gymnasium as gym
    import gym_anm  # noqa: F401
    from gym_anm.envs import ANM6Easy

    with sut("gym.make"):
        env = gym.make("ANM6Easy-v0")
        other = gym.make("ANM6Easy-v0")
    check(isinstance(env.unwrapped, ANM6Easy), "ANM6Easy-v0 is a %s", type(env.unwrapped))
    check(env.spec.max_episode_steps is None, "ANM6Easy-v0 is registered with an episode limit of %r", env.spec.max_episode_steps)
    check(env.unwrapped is not other.unwrapped, "gym.make returned the same environment twice")
    keep = Keeper()
    u = env.unwrapped

    def note(what, obs, info):
        keep.verify(what)
        keep.keep("the observation of %s" % what, obs)
        keep.keep("the state after %s" % what, u.state)
        keep.keep("the info of %s" % what, info)
        if len(keep.kept) > 60:
            del keep.kept[:15]

    with sut("reset through gym.make"):
        out = env.reset(seed=case["seed"])
    obs, info = check_reset(out, env, "the first reset")
    note("the first reset", obs, info)
    n, over = 0, False
    for k, (op, x) in enumerate(case["ops"]):
        what = "call %d (%s)" % (k + 1, op)
        if op == "reset":
            with sut("reset through gym.make"):
                out = env.reset(seed=x) if x % 2 else env.reset()
            obs, info = check_reset(out, env, what)
            n, over = 0, False
            check(u.timestep == 0, "%s: the step counter is %r after a reset", what, u.timestep)
        else:
            a = sample(env, x)
            if op == "mild":
                a = 0.3 * a
                a = np.clip(a, env.action_space.low, env.action_space.high).astype(env.action_space.dtype)
            with sut("step through gym.make"):
                out = env.step(a)
            obs, r, term, _, info = check_step(out, env, what)
            if not over:
                n += 1
                check(u.timestep == n, "%s: the step counter is %r after %d steps", what, u.timestep, n)
            over = over or bool(term)
            ctx.event("step_terminal" if over else "step")
        note(what, obs, info)
    if n >= 2:
        ctx.nontrivial()


RULE = "at least two steps of one episode, all earlier results compared after every call"
PARTS = [
    Part("mixed", cases(kinds=(-1, 1, 2, 3), min_dev=2, max_dev=4, max_bus=4), body, 400, 20000, RULE),
    Part("loads", cases(kinds=(-1,), min_dev=1, max_dev=4, max_bus=5), body, 900, 40000, RULE),
    Part("heavy", cases(kinds=(-1, -1, 1), min_dev=1, max_dev=3, max_bus=3, big=5.0, over=2.0), body, 250, 12000, RULE),
    Part("registered", easy_cases(), easy_body, 100, 6000, RULE),
    Part("registered-long", long_cases(), easy_body, 16, 600, RULE),
]
