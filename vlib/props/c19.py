"""C19: ANM6-Easy follows its published deterministic daily schedule and calendar."""
import datetime as dt
import math

import hypothesis.strategies as st
import numpy as np

from .. import oracle as oc, simkit as sk
from ..core import Part, check, sut
from .c15 import do_reset

# --- the published task ----------------------------------------------------------------------------------------------

LOADS = {1: (-1, -5, -2), 3: (-4, -10, -20), 5: (0, -25, 0)}  # MW in scenarios 1, 2, 3
GENS = {2: (0, 4, 30), 4: (40, 11, 40)}
# (start hour, end hour, scenario): constant periods; the two hours between them are linear.
PERIODS = [(-1, 6, 0), (8, 11, 1), (13, 16, 2), (18, 21, 1), (23, 30, 0)]
N = None
SPEC = {
    "base": 100.0,
    "bus": [[0, 0, 132, 1.0, 1.0]] + [[i, 1, 33, 1.1, 0.9] for i in range(1, 6)],
    "device": [
        [0, 0, 0, N, 200, -200, 200, -200, N, N, N, N, N, N, N], [1, 3, -1, 0.2, 0, -10, N, N, N, N, N, N, N, N, N],
        [2, 3, 2, N, 30, 0, 30, -30, 20, N, 15, -15, N, N, N], [3, 4, -1, 0.2, 0, -30, N, N, N, N, N, N, N, N, N],
        [4, 4, 2, N, 50, 0, 50, -50, 35, N, 20, -20, N, N, N], [5, 5, -1, 0.2, 0, -30, N, N, N, N, N, N, N, N, N],
        [6, 5, 3, N, 50, -50, 50, -50, 30, -30, 25, -25, 100, 0, 0.9],
    ],
    "branch": [[0, 1, 0.0036, 0.1834, 0.0, 32, 1, 0], [1, 2, 0.03, 0.022, 0.0, 25, 1, 0], [1, 3, 0.0307, 0.0621, 0.0, 18, 1, 0],
               [2, 4, 0.0303, 0.0611, 0.0, 18, 1, 0], [2, 5, 0.0159, 0.0502, 0.0, 18, 1, 0]],
}
NET = oc.Net(SPEC)


def schedule(values, t):
    h = t / 4
    for k, (a, b, s) in enumerate(PERIODS):
        if a <= h <= b:
            return float(values[s])
        if h < a:
            _, a0, s0 = PERIODS[k - 1]
            return values[s0] + (values[s] - values[s0]) * (h - a0) / (a - a0)
    raise ValueError


# Known finding: these transition values of the shipped benchmark are not the linear ones.  Only exactly these values
# at exactly these times are attributed to the finding.
KNOWN = {}
for _d, _a, _b in ((2, 7.25, 36.75), (4, 14.725, 36.375)):
    for _k in range(7):
        _v = _a + (_b - _a) * _k / 6
        KNOWN[(_d, 45 + _k)] = KNOWN[(_d, 71 - _k)] = _v


def check_value(ctx, what, dev, t, got, pmax=None):
    want = schedule(LOADS.get(dev) or GENS[dev], t)
    k = KNOWN.get((dev, t))
    clip = lambda v: v if pmax is None else min(v, pmax)
    if abs(got - clip(want)) <= 1e-6:
        return
    if k is not None and abs(got - clip(k)) <= 1e-6:
        ctx.known_finding("series-%d" % dev, "device %d at step %d" % (dev, t))
        return
    check(False, "%s of device %d at time of day %d (%02d:%02d) is %r, published is %r", what, dev, t, t // 4, 15 * (t % 4), got, clip(want))


def check_state(ctx, env, t, k):
    s = env.state
    check(s.shape == (18,), "the state vector has shape %r", s.shape)
    check(float(s[17]) == t, "after %d steps the time of day is %r instead of %d", k, s[17], t)
    for d in LOADS:
        check_value(ctx, "demand", d, t, float(s[d]))
        check(abs(s[7 + d] - 0.2 * s[d]) <= 1e-9, "reactive demand of device %d is %r for P = %r", d, s[7 + d], s[d])
    for j, d in enumerate(GENS):
        check_value(ctx, "potential", d, t, float(s[15 + j]), NET.dev[d].pmax * 100)


def check_constants(env):
    check(env.K == 1 and env.delta_t == 0.25 and env.gamma == 0.995 and env.lamb == 100 and tuple(env.costs_clipping) == (1, 100),
          "the task's constants are K=%r, delta_t=%r, gamma=%r, lambda=%r, clipping=%r", env.K, env.delta_t, env.gamma, env.lamb, env.costs_clipping)
    low, high = env.action_space.low, env.action_space.high
    wl, wh = [0, 0, -30, -50, -50, -50], [30, 50, 30, 50, 50, 50]
    check(np.allclose(low, wl) and np.allclose(high, wh), "the action space is %r, %r", low, high)
    lo, hi = [], []
    for q, ids, unit in (("dev_p", NET.dev_ids, "MW"), ("dev_q", NET.dev_ids, "MVAr"), ("des_soc", NET.des, "MWh"), ("gen_p_max", NET.gens, "MW")):
        for i in ids:
            a, b = oc.bounds(NET, q, i, unit)
            lo.append(a)
            hi.append(b)
    lo.append(0)
    hi.append(95)
    sp = env.observation_space
    check(sp.shape == (18,) and np.allclose(sp.low, lo) and np.allclose(sp.high, hi), "the observation space is %r, %r", sp.low, sp.high)


def new_env(make):
    import gymnasium as gym
    from gym_anm.envs import ANM6Easy

    with sut("ANM6Easy construction"):
        return gym.make("ANM6Easy-v0").unwrapped if make else ANM6Easy()


# --- series ------------------------------------------------------------------------------------------------------------


@st.composite
def series_cases(draw):
    return {"t": draw(st.integers(0, 95)), "rest": [draw(ng_num()) for _ in range(17)], "make": draw(st.booleans())}


def ng_num():
    return st.floats(-100, 100, allow_nan=False).map(lambda x: round(x, 3))


_env = {}


def body_series(ctx, case):
    """The user-level function that draws the next variables, for all 96 times of day and an arbitrary rest of the state."""
    if case["make"] not in _env:
        _env[case["make"]] = new_env(case["make"])
        with sut("env.reset"):
            _env[case["make"]].reset(seed=0)
    env = _env[case["make"]]
    for j in range(96):
        t = (case["t"] + j) % 96
        s = np.array(case["rest"] + [float(t)])
        with sut("next_vars"):
            v = env.next_vars(s)
        check(np.shape(v) == (6,), "next_vars returns %r", v)
        n = (t + 1) % 96
        check(float(v[5]) == n, "the time of day after %d is %r", t, v[5])
        for x, d in zip(v, list(LOADS) + list(GENS)):
            check_value(ctx, "next value", d, n, float(x))
    ctx.nontrivial()


# --- histories -----------------------------------------------------------------------------------------------------------


@st.composite
def run_cases(draw, steps, resets, mild=None):
    ops = []
    mild = draw(st.booleans()) if mild is None else mild
    for _ in range(draw(st.integers(*resets))):
        date = draw(st.one_of(st.none(), st.tuples(st.integers(1990, 2100), st.integers(1, 12), st.integers(1, 28)).map(list)))
        n = draw(st.integers(*steps))
        ops.append({"seed": draw(st.one_of(st.none(), st.integers(0, 10**6))), "date": date, "n": n,
                    "u": [[draw(st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0, 1).map(lambda x: round(x, 3)))) for _ in range(6)] for _ in range(min(n, 4))]})
    if mild:  # moderate reactive and storage set-points: no collapse
        for o in ops:
            o["u"] = [[u[0], u[1]] + [round(0.4 + 0.2 * x, 4) for x in u[2:]] for u in o["u"]]
    return {"ops": ops, "make": draw(st.booleans()), "seed0": draw(st.integers(0, 10**6))}


def body_run(ctx, case):
    env = new_env(case["make"])
    check_constants(env)
    env.reset(seed=case["seed0"])
    low, high = env.action_space.low, env.action_space.high
    times = set()
    for o, op in enumerate(case["ops"]):
        kw = {}
        if op["seed"] is not None:
            kw["seed"] = op["seed"]
        if op["date"] is not None:
            d0 = dt.datetime(*op["date"])
            kw["options"] = {"date_init": d0}
        with sut("ANM6Easy.reset"):
            out = env.reset(**kw)
        t0 = int(env.state[17])
        check(0 <= t0 <= 95 and t0 == env.state[17], "the initial time of day is %r", env.state[17])
        check(np.allclose(out[0], env.state, atol=1e-9), "reset returns %r for the state %r", out[0], env.state)
        check_state(ctx, env, t0, 0)
        check(0 <= env.state[14] <= 100 + 1e-9, "the initial charge is %r", env.state[14])
        start = env.date
        off = dt.timedelta(minutes=15 * t0)
        if op["date"] is not None:
            check(start == d0 + off, "reset %d: the date is %r for a starting day %r and time of day %d", o, start, d0, t0)
        else:
            check(start - off == dt.datetime(start.year, (start - off).month, (start - off).day), "reset %d: the date %r does not match the time of day %d", o, start, t0)
        check(env.year_count == 0, "reset %d: the year count is %r", o, env.year_count)
        for k in range(op["n"]):
            a = low + np.array(op["u"][k % len(op["u"])]) * (high - low)
            obs, r, term, _, _ = sk.step(env, a)
            if term:  # extreme actions can make the network collapse; the calendar goes on
                check(env.date == start + dt.timedelta(minutes=15 * (k + 1)), "after %d steps from %r the date is %r", k + 1, start, env.date)
                ctx.event("collapsed")
                if op.get("year"):
                    body_year(ctx, env, start, k + 1, a)
                break
            t = (t0 + k + 1) % 96
            times.add(t)
            check_state(ctx, env, t, k + 1)
            check(env.date == start + dt.timedelta(minutes=15 * (k + 1)), "after %d steps from %r the date is %r", k + 1, start, env.date)
            check(env.year_count == 0, "after %d steps the year count is %r", k + 1, env.year_count)
            e, p = oc.reward_parts(NET, env.simulator.state, 0.25, 100)
            want = -(math.copysign(min(abs(e), 1), e) + min(p, 100))
            check(abs(r - want) <= 1e-6 * max(1, abs(want)), "the reward is %r, expected %r (loss %r, penalty %r)", r, want, e, p)
    if len(times) > 1:
        ctx.nontrivial()
    if any(o["n"] > 96 for o in case["ops"]):
        ctx.event("more_than_a_day")


def body_year(ctx, env, start, k, a):
    """In the terminal state steps are cheap: let a whole year go by."""
    y = dt.timedelta(days=365)
    for k in range(k + 1, 35044):
        env.step(a)
        if k > 35036 or k % 97 == 0:
            want = start + dt.timedelta(minutes=15 * k)
            check(env.date == want, "after %d steps from %r the date is %r", k, start, env.date)
            check(env.year_count == (want - start) // y, "after %d steps (%r) the year count is %r", k, want - start, env.year_count)
    ctx.event("whole_year")


@st.composite
def year_cases(draw):
    c = draw(run_cases((1, 3), (1, 1), False))
    c["ops"][0]["u"] = [[0.0, 0.0, 0.0, 0.0, 0.0, 0.0]]
    c["ops"][0]["n"] = 3
    c["ops"][0]["year"] = True
    return c


# --- calendar ------------------------------------------------------------------------------------------------------------


@st.composite
def calendar_cases(draw):
    return {"hours": draw(st.sampled_from([0.25, 24 * 30, 24 * 91.25, 24 * 365, 24 * 364, 24 * 100, 24 * 200, 0.5, 8759.75, 1 / 120, 2.05, 0.01, 0.29])), "n": draw(st.integers(3, 12)),
            "date": draw(st.one_of(st.none(), st.tuples(st.integers(1990, 2100), st.integers(1, 12), st.integers(1, 28), st.integers(0, 23), st.sampled_from([0, 15, 45])).map(list))),
            "seed": draw(st.integers(0, 1000)), "resets": draw(st.integers(1, 2))}


_cls = []


def calendar_class():
    if not _cls:
        from gym_anm.envs import ANM6

        class Calendar(ANM6):
            def init_state(self):
                return np.zeros(17)

            def next_vars(self, s_t):
                return np.zeros(5)

        _cls.append(Calendar)
    return _cls[0]


def body_calendar(ctx, case):
    """The date and year count of the base class, with long time steps so that years elapse."""
    with sut("ANM6 construction"):
        env = calendar_class()("state", 0, case["hours"], 0.9, 1)
    for r in range(case["resets"]):
        kw = {"options": {"date_init": dt.datetime(*case["date"])}} if case["date"] else {}
        with sut("ANM6.reset"):
            env.reset(seed=case["seed"] + r, **kw)
        start = env.date
        check(case["date"] is None or start == dt.datetime(*case["date"]), "the initial date is %r instead of %r", start, case["date"])
        check(env.year_count == 0, "the year count after reset is %r", env.year_count)
        for k in range(case["n"]):
            sk.step(env, np.zeros(6))
            want = start + (k + 1) * dt.timedelta(hours=case["hours"])
            check(abs(env.date - want) < dt.timedelta(milliseconds=10), "after %d steps of %g h from %r the date is %r", k + 1, case["hours"], start, env.date)
            y = (want - start) // dt.timedelta(days=365)
            check(env.year_count == y, "after %r the year count is %r instead of %d", want - start, env.year_count, y)
            if y:
                ctx.nontrivial()


PARTS = [
    Part("series", series_cases(), body_series, 380, 5000, "all 96 times of day x 5 series were compared"),
    Part("histories", run_cases((1, 8), (1, 3)), body_run, 320, 8000, "a history visiting at least two times of day was compared"),
    Part("days", run_cases((97, 200), (1, 1), True), body_run, 30, 400, "a history visiting at least two times of day was compared"),
    Part("year", year_cases(), body_run, 10, 80, "a history visiting at least two times of day was compared"),
    Part("calendar", calendar_cases(), body_calendar, 190, 5000, "a history in which at least one whole year elapsed"),
]
