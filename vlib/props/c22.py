"""C22: rendering messages describe the actual network and the current state."""
import datetime as dt
import math
import re
import urllib.request

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, rend, simkit as sk
from ..core import Part, Violation, check, sut

rend.setup()

from . import c15, c19  # noqa: E402

NET = c19.NET
PAGE = "/envs/anm6_env/rendering/"


# --- environments ----------------------------------------------------------------------------------------------------------

_cls = []


def custom_class():
    if not _cls:
        from gym_anm.envs import ANM6

        class MyGrid(ANM6):
            """Scripted environment on the 6-bus network; `table` rows are next variables."""

            def __init__(self, table, K, delta_t, gamma, lamb, clip):
                self.table, self.i = table, 0
                super().__init__("state", K, delta_t, gamma, lamb, None, clip)

            def init_state(self):
                s = np.zeros(17 + self.K)
                s[[1, 3, 5]] = self.table[0][:3]
                s[[8, 10, 12]] = 0.2 * np.array(self.table[0][:3])
                s[14] = self.np_random.uniform(0, 100)
                s[15:17] = self.table[0][3:5]
                return s

            def next_vars(self, s_t):
                self.i += 1
                return np.array(list(self.table[self.i % len(self.table)]) + [float(self.i)] * self.K)

        _cls.append(MyGrid)
    return _cls[0]


def make(case):
    from gym_anm.envs import ANM6Easy

    with sut("environment construction"):
        if case["easy"]:
            return ANM6Easy()
        clip = None if case["clip"] is None else tuple(case["clip"])
        return custom_class()(case["table"], case["K"], case["dt"], case["gamma"], case["lamb"], clip if clip is not None else (None, None))


@st.composite
def cases(draw, ops, skips=(0, 3)):
    u = lambda: [draw(st.one_of(ng.num(0, 1), st.sampled_from([0.0, 1.0]))) for _ in range(6)]
    out = []
    for _ in range(draw(st.integers(*ops))):
        k = draw(st.sampled_from(["step", "step", "step", "render", "render", "render", "reset", "date", "frame", "reopen"]))
        if k == "step":
            mild = draw(st.integers(0, 3))
            a = u()
            if mild:
                a = a[:2] + [round(0.4 + 0.2 * x, 4) for x in a[2:]]
            out.append(["step", a])
        elif k == "reset":
            out.append(["reset", draw(st.integers(0, 10**6)), draw(st.one_of(st.none(), st.tuples(st.integers(1990, 2100), st.integers(1, 12), st.integers(1, 28)).map(list)))])
        elif k == "date":
            if draw(st.booleans()):
                out.append(["date", [draw(st.integers(1990, 2100)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)), draw(st.sampled_from([0, 15, 59]))]])
        elif k == "frame":  # the usual loop
            for _ in range(draw(st.integers(1, 4))):
                a = u()
                out += [["step", a[:2] + [round(0.4 + 0.2 * x, 4) for x in a[2:]]], ["render"]]
        elif k == "reopen":
            if draw(st.integers(0, 3)) == 0:
                out.append(["reopen"])
        else:
            out.append(["render"])
    easy = draw(st.booleans())
    c = {"easy": easy, "ops": out, "n": draw(st.integers(*skips)), "seed": draw(st.integers(0, 10**6)), "default": draw(st.booleans())}
    if not easy:
        row = st.tuples(*[st.one_of(ng.num(-40, 2, 2), st.sampled_from([0.0, -10.0])) for _ in range(3)], *[ng.num(0, 60, 2)] * 2).map(list)
        num = lambda hi: draw(st.one_of(st.none(), ng.num(0.5, hi, 2), st.sampled_from([1, 100])))
        c.update(table=draw(st.lists(row, min_size=1, max_size=4)), K=draw(st.integers(0, 2)), dt=draw(st.sampled_from([0.25, 1, 0.5, 24, 24 * 200, 24 * 1500, 1 / 120, 0.01, 2.05, 0.29, 1 / 3])),
                 gamma=draw(st.sampled_from([0.9, 0.995, 0.5, 0])), lamb=draw(st.sampled_from([1, 100, 1000])), clip=[num(200), num(1e5)])
    return c


# --- expected messages --------------------------------------------------------------------------------------------------------


def close_list(got, want, tol):
    return isinstance(got, list) and len(got) == len(want) and all(isinstance(g, (int, float)) and not isinstance(g, bool) and abs(g - w) <= tol * max(1, abs(w)) for g, w in zip(got, want))


def check_init(m, env, case):
    S = 100.0
    want = {
        "messageLabel": "init", "deviceType": [NET.dev[i].type for i in NET.dev_ids],
        "pMax": [max(abs(NET.dev[i].pmin), abs(NET.dev[i].pmax)) * S for i in NET.dev_ids],
        "qMax": [max(abs(NET.dev[i].qmin), abs(NET.dev[i].qmax)) * S for i in NET.dev_ids],
        "sRate": [b.rate * S for b in NET.branches],
        "vMagnMin": [NET.bus[b].vmin for b in NET.bus_ids], "vMagnMax": [NET.bus[b].vmax for b in NET.bus_ids],
        "socMax": [NET.dev[i].smax * S for i in NET.des], "title": type(env).__name__,
    }
    clip = [1, 100] if case["easy"] else case["clip"]
    want["energyLossMax"] = 100 if clip[0] is None else clip[0]
    want["penaltyMax"] = 10000 if clip[1] is None else clip[1]
    check(set(m) == set(want), "the initialization message has the entries %r", sorted(m))
    for k, v in want.items():
        ok = close_list(m[k], v, 1e-9) if isinstance(v, list) else (m[k] == v if isinstance(v, str) else isinstance(m[k], (int, float)) and abs(m[k] - v) <= 1e-9 * max(1, abs(v)))
        check(ok, "the initialization message has %s = %r, the network's is %r", k, m[k], v)


def snapshot(env):
    """What a message sent now has to show (independently of the state's lists, from the state vector and voltages)."""
    full = env.simulator.state
    n = 7
    v = np.array(env.state, dtype=float)
    out = {"time": [env.date.month, env.date.day, env.date.hour, env.date.minute], "yearCount": env.year_count, "networkCollapsed": bool(env.terminated), "reward": [float(env.e_loss), float(env.penalty)]}
    if env.terminated:
        return out
    out.update(pInjections=list(v[:n]), qInjections=list(v[n:2 * n]), socStorage=[v[14]], pPotential=list(v[15:17]))
    V = sk.voltages(full, NET)
    out["vMagn"] = list(np.abs(V))
    out["sFlows"] = []
    for b in NET.branches:
        i = b.M @ np.array([V[NET.pos[b.f]], V[NET.pos[b.t]]])
        s = max(abs(V[NET.pos[b.f]] * i[0].conj()), abs(V[NET.pos[b.t]] * i[1].conj()))
        out["sFlows"].append(float(s) * 100)
    return out


KEYS = {"messageLabel", "time", "yearCount", "pInjections", "qInjections", "sFlows", "socStorage", "pPotential", "vMagn", "reward", "networkCollapsed"}


def check_update(m, want, where):
    check(set(m) == KEYS and m["messageLabel"] == "update", "%s: the update has the entries %r", where, sorted(m))
    check(m["networkCollapsed"] is want["networkCollapsed"], "%s: the collapse flag is %r instead of %r", where, m["networkCollapsed"], want["networkCollapsed"])
    check(m["time"] == want["time"] and m["yearCount"] == want["yearCount"], "%s: the update shows the time %r (year %r) instead of %r (year %r)", where, m["time"], m["yearCount"], want["time"], want["yearCount"])
    sizes = {"pInjections": 7, "qInjections": 7, "sFlows": 5, "socStorage": 1, "pPotential": 2, "vMagn": 6, "reward": 2}
    for k, n in sizes.items():
        check(isinstance(m[k], list) and len(m[k]) == n and all(isinstance(x, (int, float)) for x in m[k]), "%s: the update has %s = %r", where, k, m[k])
    for k, w in want.items():
        if k in ("networkCollapsed", "time", "yearCount"):
            continue
        got = [abs(x) for x in m[k]] if k == "sFlows" else m[k]
        if all(math.isfinite(x) for x in w):
            check(close_list(got, w, 1e-5 if k == "sFlows" else 1e-9), "%s: the update shows %s = %r, the state is %r", where, k, m[k], w)
        elif k == "reward":  # unlimited costs of a collapsed network: shown as a huge finite cost
            for x, y in zip(m[k], w):
                check(abs(x - y) <= 1e-7 * max(1, abs(y)) if math.isfinite(y) else x > 1e6, "%s: the update shows the costs %r, they are %r", where, m[k], w)


class Session:
    """A rendering environment and a client watching it."""

    def __init__(self, env, case):
        self.env, self.case = env, case
        self.view, self.k, self.calls = None, 0, []

    def start(self):
        """First render call."""
        env = self.env
        for attempt in range(3):
            with rend.start_lock(), rend.quiet(), sut("env.render", allow=(OSError,)):
                try:
                    self.call()
                    break
                except OSError:  # the chosen port was taken in between: not the environment's fault
                    rend.kill_children()
                    env.render_mode = None
                    if attempt == 2:
                        raise
        self.calls = [None]
        with sut("a client of the rendering server"):
            self.view = rend.Viewer(env.ws_server.address)
            self.sync()
            first = self.view.got
        check(len(first) == 1, "a client connecting after the first render call receives %r", first)
        with sut("the initialization message"):
            m = rend.strict(first[0])
        check_init(m, env, self.case)
        self.view.got = []

    def check_page(self):
        env = self.env
        with sut("the visualization page"):
            html = urllib.request.urlopen(env.http_server.address + PAGE, timeout=20).read().decode()
        found = re.findall(r"wss?://[^\s\"'`<>;]+", html)
        check([u.rstrip("/") for u in found] == [env.ws_server.address.rstrip("/")], "the page at %s connects to %r instead of %s", env.http_server.address + PAGE, found, env.ws_server.address)

    def sync(self):
        self.k += 1
        m = "%d-%d" % (id(self), self.k)
        self.view.send(rend.marker(m))
        return self.view.until(m)

    def call(self):
        if self.case["n"] == 0 and self.case["default"]:
            self.env.render()
        else:
            self.env.render(mode="human", skip_frames=self.case["n"])

    def frame(self, where):
        env, n = self.env, self.case["n"]
        want = snapshot(env)
        rng = env.np_random.bit_generator.state
        before = (np.array(env.state), c15.flat(env.simulator.state), env.timestep, env.date, env.terminated)
        with rend.quiet(), sut("env.render"):
            self.call()
        after = (np.array(env.state), c15.flat(env.simulator.state), env.timestep, env.date, env.terminated)
        check(np.array_equal(before[0], after[0]) and all(v == after[1].get(q) or v != v for q, v in before[1].items()) and before[2:] == after[2:] and rng == env.np_random.bit_generator.state,
              "%s: rendering changed the environment", where)
        with sut("a client of the rendering server"):
            got = self.sync()
        check(len(got) <= 1, "%s: one render call sent %d messages", where, len(got))
        self.calls.append(len(got))
        w = self.calls[-(n + 1):]
        if len(w) == n + 1 and None not in w:
            check(sum(w) == 1, "%s: with %d skipped frames, %d of the last %d render calls produced an update", where, n, sum(w), n + 1)
        for g in got:
            try:
                m = rend.strict(g)
            except ValueError as e:
                raise Violation("%s: the update is not strictly valid JSON (%s): %s" % (where, e, g[:500]))
            check_update(m, want, where)
        return len(got)

    def close(self):
        try:
            if self.view:
                self.view.close()
        except Exception:
            pass
        self.view = None


def body(ctx, case):
    env, twin = make(case), make(case)
    low, high = env.action_space.low, env.action_space.high
    a, b = c15.do_reset(env, case["seed"]), c15.do_reset(twin, case["seed"])
    if a[0] == "none":
        return
    s = Session(env, case)
    frames, collapsed, resets = 0, False, 0
    hours = 0.25 if case["easy"] else case["dt"]
    date0 = date = env.date
    try:
        check_mode(env)
        s.start()
        s.check_page()
        for k, op in enumerate(case["ops"]):
            where = "operation %d of %r" % (k, [o[0] for o in case["ops"]])
            if op[0] == "render":
                frames += s.frame(where)
                collapsed |= env.terminated
            elif op[0] == "step":
                act = low + np.array(op[1]) * (high - low)
                dead = env.terminated
                x, y = c15.do_step(env, act), c15.do_step(twin, act)
                check(c15.agree(x, y, 1e-9, 1000), "%s: differs from an environment that is not rendered: %r instead of %r", where, x, y)
                date = env.date if dead else date + dt.timedelta(hours=hours)
                check(abs(env.date - date) < dt.timedelta(milliseconds=10) and (dead or env.year_count == (date - date0).days // 365),
                      "%s: the date is %r (year %r) after a step of %r h, it should be %r (%r)", where, env.date, env.year_count, hours, date, (date - date0).days // 365)
            elif op[0] == "reset":
                from gym_anm.errors import EnvInitializationError

                kw = {} if op[2] is None else {"options": {"date_init": dt.datetime(*op[2])}}
                for e in (env, twin):
                    with sut("env.reset", allow=(EnvInitializationError,)):
                        try:
                            e.reset(seed=op[1], **kw)
                        except EnvInitializationError:
                            return
                check(sk.same(env.state, twin.state) and env.date == twin.date, "%s: reset differs from an environment that is not rendered", where)
                resets += 1
                date0 = date = env.date
            elif op[0] == "date":
                for e in (env, twin):
                    with sut("reset_date"):
                        e.reset_date(dt.datetime(*op[1]))
                    check(e.date == dt.datetime(*op[1]) and e.year_count == 0, "%s: the date is %r after reset_date(%r)", where, e.date, op[1])
                date0 = date = env.date
            elif op[0] == "reopen":
                s.close()
                with rend.quiet(), sut("env.close"):
                    env.close()
                rend.kill_children()
                s.start()
    finally:
        s.close()
        with rend.quiet():
            try:
                env.close()
            finally:
                rend.kill_children()
    if frames:
        ctx.nontrivial()
        if resets:
            ctx.event("update_and_reset")
        if collapsed:
            ctx.event("collapsed_frame")


def check_mode(env):
    try:
        with rend.quiet():
            env.render(mode="rgb_array")
    except NotImplementedError:
        return
    raise Violation("an unsupported rendering mode is accepted")


# --- two environments rendered at the same time --------------------------------------------------------------------------------


@st.composite
def pair_cases(draw):
    a, b = draw(cases((1, 1))), draw(cases((1, 1)))
    return {"a": a, "b": b, "order": draw(st.lists(st.tuples(st.integers(0, 1), st.booleans()).map(list), min_size=3, max_size=12)), "u": [draw(ng.num(0.4, 0.6)) for _ in range(6)]}


def body_pair(ctx, case):
    envs = [make(case["a"]), make(case["b"])]
    ss = [Session(e, c) for e, c in zip(envs, (case["a"], case["b"]))]
    frames = [0, 0]
    try:
        for e, c in zip(envs, (case["a"], case["b"])):
            if c15.do_reset(e, c["seed"])[0] == "none":
                return
        for s in ss:
            s.start()
        for k, (i, do_step) in enumerate(case["order"]):
            e = envs[i]
            if do_step:
                sk.step(e, e.action_space.low + np.array(case["u"]) * (e.action_space.high - e.action_space.low))
            frames[i] += ss[i].frame("operation %d of environment %d" % (k, i))
            with sut("a client of the rendering server"):
                other = ss[1 - i].sync()
            check(not other, "rendering one environment sent %r to the clients of another", other)
    finally:
        for s in ss:
            s.close()
        with rend.quiet():
            for e in envs:
                try:
                    e.close()
                except Exception:
                    pass
            rend.kill_children()
    if all(frames):
        ctx.nontrivial()


PARTS = [
    Part("histories", cases((3, 14)), body, 260, 6000, "at least one update message was compared with the state of its render call"),
    Part("pairs", pair_cases(), body_pair, 60, 1500, "two environments rendered at the same time both sent updates"),
]
