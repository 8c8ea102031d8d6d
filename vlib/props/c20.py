"""C20: MPC agents return an optimal first stage of their N-stage DC optimal power flow (independent LP as oracle)."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, check, sut
from ..netgen import D

PI = math.pi


class LP:
    """The N-stage problem as a linear program over [theta, P_gen, P_slack, p_charge, p_discharge, overflow] per stage."""

    def __init__(self, net, dt, lamb, gamma, beta, N, soc, loads, gens, pi=PI):
        from scipy.sparse import coo_matrix

        self.net, self.N = net, N
        buses, nb = net.bus_ids, len(net.bus_ids)
        G, S, L = net.gens, net.des, net.loads
        rated = [k for k, br in enumerate(net.branches) if math.isfinite(br.rate)]
        self.o_g, self.o_s = nb, nb + len(G)
        self.o_c = self.o_s + 1
        self.o_d = self.o_c + len(S)
        self.o_t = self.o_d + len(S)
        self.w = self.o_t + len(rated)
        self.n = self.w * N
        pos = {b: i for i, b in enumerate(buses)}
        ae, be, au, bu = [], [], [], []
        self.c = np.zeros(self.n)
        self.bounds = []
        for k in range(N):
            o = k * self.w
            for b in buses:
                self.bounds.append((0, 0) if b == net.slack_bus else (-pi, pi))
            for j, i in enumerate(G):
                d = net.dev[i]
                self.bounds.append((d.pmin if math.isfinite(d.pmin) else None, min(d.pmax, gens[j][k])))
            self.bounds.append((None, None))
            self.bounds += [(0, None)] * (2 * len(S) + len(rated))
            for j, i in enumerate(S):
                if net.dev[i].eff == 0:
                    self.bounds[o + self.o_d + j] = (0, 0)
            # Balance at every bus.
            rows = {b: {} for b in buses}
            rhs = {b: 0.0 for b in buses}
            for br in net.branches:
                f, t, bij = br.f, br.t, br.x / (br.r**2 + br.x**2) / abs(br.tap)
                for a, e in ((f, t), (t, f)):
                    r = rows[a]
                    r[pos[a]] = r.get(pos[a], 0) - bij
                    r[pos[e]] = r.get(pos[e], 0) + bij
            for j, i in enumerate(G):
                rows[net.dev[i].bus][self.o_g + j] = 1.0
            rows[net.slack_bus][self.o_s] = 1.0
            for j, i in enumerate(S):
                rows[net.dev[i].bus][self.o_c + j] = -1.0
                rows[net.dev[i].bus][self.o_d + j] = 1.0
            for j, i in enumerate(L):
                rhs[net.dev[i].bus] -= loads[j][k]
            for b in buses:
                ae.append({o + c: v for c, v in rows[b].items()})
                be.append(rhs[b])
            # Storage powers and charges.
            for j, i in enumerate(S):
                d = net.dev[i]
                p = {o + self.o_d + j: 1.0, o + self.o_c + j: -1.0}
                if math.isfinite(d.pmax):
                    au.append(p)
                    bu.append(d.pmax)
                if math.isfinite(d.pmin):
                    au.append({c: -v for c, v in p.items()})
                    bu.append(-d.pmin)
                q = {}
                for m in range(k + 1):
                    q[m * self.w + self.o_c + j] = dt * d.eff
                    if d.eff > 0:
                        q[m * self.w + self.o_d + j] = -dt / d.eff
                au.append(q)
                bu.append(d.smax - soc[i])
                au.append({c: -v for c, v in q.items()})
                bu.append(soc[i] - d.smin)
            # Flows above the margin.
            for m, kk in enumerate(rated):
                br = net.branches[kk]
                bij = br.x / (br.r**2 + br.x**2) / abs(br.tap)
                for s in (1, -1):
                    au.append({o + pos[br.f]: s * bij, o + pos[br.t]: -s * bij, o + self.o_t + m: -1.0})
                    bu.append(beta * br.rate)
                self.c[o + self.o_t + m] = gamma**k * lamb
            for j, i in enumerate(G):
                if net.dev[i].type != 2:
                    self.c[o + self.o_g + j] = gamma**k
            self.c[o + self.o_s] = gamma**k
        self.ae, self.be, self.au, self.bu = ae, be, au, bu
        self.coo = coo_matrix

    def _mat(self, rows):
        d, i, j = [], [], []
        for r, row in enumerate(rows):
            for c, v in row.items():
                d.append(v)
                i.append(r)
                j.append(c)
        return self.coo((d, (i, j)), shape=(len(rows), self.n)).tocsr()

    def solve(self, fixed=None, tol=0.0):
        """Optimal value, or None when infeasible.  `fixed`: {device id: P} of the first stage, within `tol`."""
        from scipy.optimize import linprog

        au, bu = list(self.au), list(self.bu)
        bounds = list(self.bounds)
        for i, p in (fixed or {}).items():
            if i in self.net.gens:
                c = self.o_g + self.net.gens.index(i)
                lo, hi = bounds[c]
                lo = -math.inf if lo is None else lo
                hi = math.inf if hi is None else hi
                bounds[c] = (max(lo, p - tol) if p - tol <= hi else p - tol, min(hi, p + tol) if p + tol >= lo else p + tol)
                if bounds[c][0] > bounds[c][1]:
                    return None
            else:
                j = self.net.des.index(i)
                row = {self.o_d + j: 1.0, self.o_c + j: -1.0}
                au.append(row)
                bu.append(p + tol)
                au.append({c: -v for c, v in row.items()})
                bu.append(-(p - tol))
        r = linprog(self.c, A_ub=self._mat(au) if au else None, b_ub=bu or None, A_eq=self._mat(self.ae), b_eq=self.be, bounds=bounds, method="highs")
        if r.status == 0:
            return float(r.fun)
        if r.status == 2:
            return None
        if r.status == 3:
            return -math.inf
        raise RuntimeError("oracle LP: " + r.message)


def judge(ctx, net, env, action, beta, N, loads, gens, what):
    """The action against the LP for the given forecasts (p.u.)."""
    S = net.base
    g, s = net.gens, net.des
    sp = env.action_space
    check(np.shape(action) == sp.shape, "%s: the action has shape %r, the space %r", what, np.shape(action), sp.shape)
    check(sp.contains(np.asarray(action, dtype=sp.dtype)), "%s: the action %r is outside the action space [%r, %r]", what, action, sp.low, sp.high)
    a = [float(x) for x in action]
    ng_, ns = len(g), len(s)
    pg, qg, ps, qs = a[:ng_], a[ng_:2 * ng_], a[2 * ng_:2 * ng_ + ns], a[2 * ng_ + ns:]
    for i, q in zip(g + s, qg + qs):
        d = net.dev[i]
        want = oc.clip(0.0, d.qmin * S, d.qmax * S)
        check(abs(q - want) <= 1e-6 * max(1, abs(want)), "%s: reactive set-point of device %d is %r instead of %r", what, i, q, want)
    soc = {i: float(env.simulator.state["des_soc"]["pu"][i]) for i in s}
    args = (net, env.delta_t, env.lamb, env.gamma, beta, N, soc, loads, gens)
    if LP(*args, pi=0.999 * PI).solve() is None:
        ctx.event("infeasible")
        return None
    lp = LP(*args)
    best = lp.solve()
    if best is None or not math.isfinite(best):
        ctx.event("unbounded")
        return None
    tol = 1e-5
    fixed = {i: p / S for i, p in zip(g + s, pg + ps)}
    got = lp.solve(fixed, tol)
    check(got is not None, "%s: no feasible plan starts with the active set-points %r p.u. (charges %r, loads %r, potentials %r)", what, fixed, soc, loads, gens)
    check(got - best <= 1e-4 * (1 + abs(best)), "%s: the active set-points %r p.u. start a plan of cost %.6f at best, the optimum is %.6f (charges %r, loads %r, potentials %r)",
          what, fixed, got, best, soc, loads, gens)
    return lp, best, fixed


def sensitive(lp, best, fixed):
    """Non-trivial: some other admissible first stage is worse."""
    net = lp.net
    for i in fixed:
        d = net.dev[i]
        for v in (d.pmin, d.pmax, 0.0):
            if math.isfinite(v) and abs(v - fixed[i]) > 1e-3:
                alt = lp.solve({i: v}, 1e-9)
                if alt is None or alt - best > 1e-3 * (1 + abs(best)):
                    return True
    return False


@st.composite
def agent_cases(draw, horizon=(1, 4), steps=(1, 3), **kw):
    kw.setdefault("kinds", (-1, -1, 1, 2, 2, 3, 3))
    c = draw(ng.env_case(steps=steps, K=(0, 1), x0=False, shifts="none", **kw))
    base = c["spec"]["base"]
    for r in c["spec"]["device"]:
        if r[D["DEV_TYPE"]] == 3 and ng.some(draw, 0.1):
            r[D["EFF"]] = 0
    tight = draw(st.integers(0, 2))
    for b in c["spec"]["branch"]:
        if tight and b[5] is not None:
            b[5] = draw(ng.num(0.005, 0.3)) * base if tight == 1 else draw(ng.num(0.005, 0.08)) * base
    N = draw(st.integers(*horizon))
    c["N"], c["beta"] = N, draw(st.one_of(st.sampled_from([0.9, 1.0, 0.5, 0.0]), ng.num(0, 1)))
    c["gamma"] = draw(st.sampled_from([0.9, 1, 0.5, 0.995, 0.1, 0]))
    c["follow"] = draw(st.booleans())
    c["as_list"] = draw(st.booleans())
    u = lambda: draw(st.one_of(ng.num(0, 1), st.sampled_from([0.0, 1.0])))
    c["u"] = []
    for _ in range(len(c["actions"])):
        c["u"].append([[[u() for _ in range(N)] for r in c["spec"]["device"] if r[D["DEV_TYPE"]] == t or (t == 2 and r[D["DEV_TYPE"]] == 1)] for t in (-1, 2)])
    return c


_cls = []


def given_class():
    if not _cls:
        from gym_anm.agents.mpc import MPCAgent

        class Given(MPCAgent):
            """A user-defined MPC agent whose forecasts are scripted (p.u.)."""

            loads = gens = None

            def forecast(self, env):
                return self.loads, self.gens

        _cls.append(Given)
    return _cls[0]


def body(ctx, case):
    net, env = sk.env_of(case)
    N, beta = case["N"], case["beta"]
    with sut("MPC agent construction"):
        agent = given_class()(env.simulator, env.action_space, env.gamma, safety_margin=beta, planning_steps=N)
    if sk.safe_reset(env) is None:
        return
    hit = False
    for k, act in enumerate(case["actions"]):
        ul, ug = case["u"][k]
        loads, gens = [], []
        for x, i in zip(ul, net.loads):
            d = net.dev[i]
            lo, hi = (d.pmin if math.isfinite(d.pmin) else -0.5), d.pmax
            loads.append([lo + v * (hi - lo) for v in x])
        for x, i in zip(ug, net.gens):
            d = net.dev[i]
            hi = d.pmax * 1.5 if math.isfinite(d.pmax) else d.pmin + 0.5
            gens.append([d.pmin + v * (max(hi, d.pmin) - d.pmin) for v in x])
        L, G = np.array(loads, dtype=float).reshape(-1, N), np.array(gens, dtype=float).reshape(-1, N)
        agent.loads, agent.gens = (L.tolist(), G.tolist()) if case["as_list"] else (L, G)
        if LP(net, env.delta_t, env.lamb, env.gamma, beta, N, {i: float(env.simulator.state["des_soc"]["pu"][i]) for i in net.des}, loads, gens, pi=0.999 * PI).solve() is None:
            ctx.event("infeasible")
            return
        with sut("MPCAgent.act"):
            a = agent.act(env)
        r = judge(ctx, net, env, a, beta, N, loads, gens, "call %d (N = %d)" % (k, N))
        if r and sensitive(*r):
            hit = True
        b = np.asarray(a, dtype=float) if case["follow"] else sk.into_space(env.action_space, sk.action_from(net, act))
        if sk.step(env, b)[2]:
            break
    if hit:
        ctx.nontrivial()
    if N > 1:
        ctx.event("several_stages")


def present(net, env):
    full = env.simulator.state
    return [[full["dev_p"]["pu"][i]] for i in net.loads], [[full["gen_p_max"]["pu"][i]] for i in net.gens]


def body_constant(ctx, case):
    from gym_anm import MPCAgentConstant

    net, env = sk.env_of(case)
    N, beta = case["N"], case["beta"]
    if sk.safe_reset(env) is None:
        return
    with sut("MPCAgentConstant construction"):
        agent = MPCAgentConstant(env.simulator, env.action_space, env.gamma, beta, N)
    hit = False
    for k, act in enumerate(case["actions"]):
        loads, gens = [[x[0]] * N for x in present(net, env)[0]], [[x[0]] * N for x in present(net, env)[1]]
        soc = {i: float(env.simulator.state["des_soc"]["pu"][i]) for i in net.des}
        if LP(net, env.delta_t, env.lamb, env.gamma, beta, N, soc, loads, gens, pi=0.999 * PI).solve() is None:
            ctx.event("infeasible")
            return
        with sut("MPCAgentConstant.act"):
            a = agent.act(env)
        r = judge(ctx, net, env, a, beta, N, loads, gens, "call %d (N = %d)" % (k, N))
        if r and sensitive(*r):
            hit = True
        b = np.asarray(a, dtype=float) if case["follow"] else sk.into_space(env.action_space, sk.action_from(net, act))
        if sk.step(env, b)[2]:
            break
    if hit:
        ctx.nontrivial()


@st.composite
def easy_cases(draw):
    return {"seed": draw(st.integers(0, 10**6)), "N": draw(st.integers(1, 12)), "beta": draw(st.sampled_from([0.9, 1.0, 0.7, 0.5])), "perfect": draw(st.booleans()),
            "t": draw(st.integers(0, 95)), "steps": draw(st.integers(1, 4)), "soc": draw(ng.num(0, 1)), "gamma": draw(st.sampled_from([0.995, 0.9, 0.5, 1]))}


_easy = []


def easy_at():
    """ANM6-Easy starting at a given time of day."""
    if not _easy:
        from gym_anm.envs import ANM6Easy

        class EasyAt(ANM6Easy):
            def __init__(self, t):
                self.t0 = t
                super().__init__()

            def init_state(self):
                while True:
                    s = super().init_state()
                    if int(s[17]) == self.t0:
                        return s

        _easy.append(EasyAt)
    return _easy[0]


def body_easy(ctx, case):
    import gym_anm
    from . import c19

    net, N = c19.NET, case["N"]
    with sut("ANM6Easy"):
        env = easy_at()(case["t"])
        env.reset(seed=case["seed"])
        cls = gym_anm.MPCAgentPerfect if case["perfect"] else gym_anm.MPCAgentConstant
        agent = cls(env.simulator, env.action_space, case["gamma"], safety_margin=case["beta"], planning_steps=N)
    env.gamma = case["gamma"]
    hit = False
    for k in range(case["steps"]):
        with sut("MPC agent act"):
            a = agent.act(env)
        if case["perfect"]:
            v, rows = np.array(env.state), []
            for _ in range(N):
                nv = env.next_vars(v)
                rows.append(nv[:5])
                v = np.append(v[:17], nv[5])
            m = np.array(rows).T / 100
            loads, gens = m[:3].tolist(), m[3:].tolist()
        else:
            loads, gens = [[x[0]] * N for x in present(net, env)[0]], [[x[0]] * N for x in present(net, env)[1]]
        r = judge(ctx, net, env, a, case["beta"], N, loads, gens, "ANM6-Easy step %d at time of day %d (%s, N = %d)" % (k, env.state[17], "perfect" if case["perfect"] else "constant", N))
        if r and sensitive(*r):
            hit = True
        if sk.step(env, np.asarray(a, dtype=float))[2]:
            break
    if hit:
        ctx.nontrivial()


@st.composite
def arbitrage_cases(draw):
    """A storage unit behind a line of limited rating, light and heavy stages: the first stage depends on every discount factor."""
    S = draw(st.sampled_from([1, 100, 10]))
    two = draw(st.booleans())
    heavy, cap, rate = draw(ng.num(0.3, 1)), draw(ng.num(0.02, 0.6)), draw(ng.num(0.1, 0.6))
    eff, smin = draw(st.one_of(st.just(1.0), ng.num(0.6, 1))), draw(st.sampled_from([0.0, 0.1]))
    x = draw(ng.num(0.05, 0.5))
    ids = draw(st.permutations([0, 1, 2, 3, 4]))
    spec = {"base": S, "bus": [[0, 0, 33, 1.0, 1.0], [1, 1, 33, 1.1, 0.9]] + ([[2, 1, 33, 1.1, 0.9]] if two else []),
            "branch": [[0, 1, x / 10, x, 0.0, rate * S, 1, 0]] + ([[1, 2, 0.01, 0.1, 0.0, draw(ng.num(0.1, 0.6)) * S, 1, 0]] if two else []),
            "device": [[ids[0], 0, 0] + [None] * 12, [ids[1], 1, -1, 0.2, 0, -heavy * S] + [None] * 9,
                       [ids[2], 2 if two else 1, 3, None, cap * S, -cap * S, cap * S, -cap * S] + [None] * 4 + [(smin + draw(ng.num(0.05, 1.0))) * S, smin * S, eff]]}
    if draw(st.booleans()):
        spec["device"].append([ids[3], 1, draw(st.sampled_from([1, 2])), None, 0.3 * S, 0, 0.1 * S, -0.1 * S] + [None] * 7)
    if two and draw(st.booleans()):
        spec["device"].append([ids[4], 2, -1, 0.1, 0, -heavy / 2 * S] + [None] * 9)
    spec["device"].sort(key=lambda r: r[0])
    N = draw(st.integers(2, 8))
    soc = spec["device"][[r[D["DEV_TYPE"]] for r in spec["device"]].index(3)]
    z = lambda t: {str(r[0]): 0.0 for r in spec["device"] if r[D["DEV_TYPE"]] in t}
    frac = draw(st.one_of(ng.num(0, 1), st.sampled_from([0.0, 0.5, 1.0])))
    v = {"load": z((-1,)), "pot": z((1, 2)), "aux": []}
    c = {"spec": spec, "K": 0, "dt": draw(st.sampled_from([0.25, 1, 0.5])), "lamb": draw(st.one_of(ng.num(0.2, 10), ng.num(0.1, 2))), "gamma": draw(ng.num(0.4, 0.99)),
         "init": {"load": z((-1,)), "p": z((1, 2, 3)), "q": z((1, 2, 3)), "pot": z((1, 2)), "soc": {str(soc[0]): soc[13] + frac * (soc[12] - soc[13])}, "aux": []},
         "vars": [v], "actions": [None] * draw(st.integers(1, 2)), "N": N, "beta": draw(st.sampled_from([1.0, 0.9, 0.5])), "follow": True, "as_list": draw(st.booleans())}
    u = lambda: draw(st.sampled_from([0.0, 1.0, 1.0, 0.5]))
    c["u"] = [[[[u() for _ in range(N)] for r in spec["device"] if r[D["DEV_TYPE"]] in t] for t in ((-1,), (1, 2))] for _ in c["actions"]]
    if draw(st.booleans()):
        # Slow charging for one heavy stage: whether to charge now depends on the discount of that stage.
        k = N - 1
        soc[D["PMAX"]], soc[D["PMIN"]] = heavy * S, -heavy * S / (N + 2)
        soc[D["SOC_MAX"]] = 2 * heavy * S + smin * S
        c["init"]["soc"][str(soc[0])] = soc[D["SOC_MIN"]]
        c["gamma"] = draw(ng.num(0.6, 0.98))
        c["lamb"] = max(0.0, draw(st.sampled_from([0.85, 0.95, 1.06, 1.2])) / (c["gamma"]**k * eff**2) - 1)
        spec["branch"][0][5] = 0.5 * heavy * S
        c["beta"] = 0.5
        c["u"] = [[[[1.0] * k + [0.0] for r in spec["device"] if r[D["DEV_TYPE"]] == -1], [[0.0] * N for r in spec["device"] if r[D["DEV_TYPE"]] in (1, 2)]] for _ in c["actions"]]
    return c


RULE = "an admissible other first-stage set-point makes the best plan at least 0.1 % worse"
PARTS = [
    Part("forecasts", agent_cases(min_dev=2, max_dev=5, max_bus=4), body, 380, 10000, RULE),
    Part("constant", agent_cases(horizon=(1, 3), min_dev=1, max_dev=4, max_bus=4, steps=(1, 2)), body_constant, 190, 6000, RULE),
    Part("one-stage", agent_cases(horizon=(1, 1), min_dev=2, max_dev=6, max_bus=6), body, 190, 6000, RULE),
    Part("arbitrage", arbitrage_cases(), body, 380, 10000, RULE),
    Part("storages", agent_cases(horizon=(1, 3), need=(-1, 3, 3, 3), max_dev=6, max_bus=3, steps=(1, 2)), body, 130, 4000, RULE),
    Part("anm6-easy", easy_cases(), body_easy, 100, 2500, RULE),
]
