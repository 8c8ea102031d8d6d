"""Shared access to the code under test through its public interface."""
import copy
import math

import numpy as np

from . import netgen as ng, oracle as oc
from .core import Violation, check, sut
from .netgen import D


def make_sim(spec, delta_t=0.25, lamb=100):
    from gym_anm.simulator import Simulator

    with sut("Simulator() on a well-formed network"):
        return Simulator(ng.to_network(spec), delta_t, lamb)


def init_vec(net, soc=None, p=None, q=None, pot=None, aux=()):
    """Initial state vector; arguments are {id: value in MW/MVAr/MWh}."""
    z = lambda m, ids: [float((m or {}).get(i, (m or {}).get(str(i), 0.0))) for i in ids]
    return np.array(z(p, net.dev_ids) + z(q, net.dev_ids) + z(soc, net.des) + z(pot, net.gens) + list(aux), dtype=float)


def typed(v):
    """A vector as a user may write it: of integers where all its entries are whole numbers (for every other such vector)."""
    a = np.array(v, dtype=float)
    if a.size and np.all(np.abs(a) < 1e9) and np.all(a == np.round(a)) and not np.any(np.signbit(a) & (a == 0)) and int(a.sum()) % 2:
        return a.astype(np.int64)
    return a


def ik(m):
    return {int(k): v for k, v in m.items()}


def transition(sim, inp):
    with sut("Simulator.transition"):
        return sim.transition(ik(inp["load"]), ik(inp["pot"]), ik(inp["p"]), ik(inp["q"]))


def reset_zero(sim, net, soc=None):
    with sut("Simulator.reset"):
        return sim.reset(init_vec(net, soc=soc))


def voltages(state, net):
    m, a = state["bus_v_magn"]["pu"], state["bus_v_ang"]["rad"]
    return np.array([complex(m[i] * math.cos(a[i]), m[i] * math.sin(a[i])) for i in net.bus_ids])


def sizes(net):
    return len(net.loads), len(net.gens), len(net.des)


def make_env_class():
    """An ANMEnv whose initial states and next variables are scripted."""
    from gym_anm import ANMEnv

    class ScriptEnv(ANMEnv):
        """`inits`: list of initial vectors (cycled); `nexts`: list of next-variable vectors (cycled)."""

        def __init__(self, network, inits, nexts, observation="state", K=0, delta_t=0.25, gamma=0.9, lamb=100,
                     aux_bounds=None, costs_clipping=None, seed=None):
            self.inits, self.nexts = inits, nexts
            self.n_init = self.n_next = 0
            self.seen = []
            super().__init__(network, observation, K, delta_t, gamma, lamb, aux_bounds, costs_clipping, seed)

        limit = None  # give up (as after 100 infeasible candidates) when the same candidate was infeasible so often

        def reset(self, **kw):
            self.tries = 0
            return super().reset(**kw)

        def init_state(self):
            give_up(self, self.limit)
            v = self.inits[self.n_init % len(self.inits)]
            self.n_init += 1
            return typed(v)

        def next_vars(self, s_t):
            self.seen.append(np.array(s_t, copy=True))
            v = self.nexts[self.n_next % len(self.nexts)]
            self.n_next += 1
            return typed(v)

    return ScriptEnv


def give_up(env, limit):
    """Spare the remaining retries of a reset that cannot succeed; what happens after 100 of them is judged by C14."""
    from gym_anm.errors import EnvInitializationError

    env.tries += 1
    if limit is not None and env.tries > limit:
        raise EnvInitializationError("no feasible initial state")


_cls = []


def ScriptEnv(*a, **k):
    if not _cls:
        _cls.append(make_env_class())
    return _cls[0](*a, **k)


def close(a, b, tol):
    return math.isclose(a, b, rel_tol=tol, abs_tol=tol)


class Decoy:
    """A second simulator or environment, of an almost identical network, whose use must not matter to the first."""

    def __init__(self, case, env=False):
        self.case, self.k, self.env, self.obj = case, 0, env, None
        self.spec = ng.sibling(case["spec"], case["decoy"])
        self.net = oc.Net(self.spec)
        try:
            (self._env if env else self._sim)()
        except Exception:  # not judged
            self.obj = None

    def _sim(self):
        from gym_anm.simulator import Simulator

        self.obj = Simulator(ng.to_network(self.spec), self.case["dt"] * 2, self.case["lamb"] + 1)
        self.obj.reset(init_vec(self.net))

    def _env(self):
        c = self.case
        n = len(self.net.loads) + len(self.net.gens) + c["K"]
        self.obj = ScriptEnv(ng.to_network(self.spec), [init_vec(self.net, aux=[1.0] * c["K"])], [np.full(n, -0.01 * self.net.base)], "state",
                             c["K"], c["dt"] * 2, 0.5, c["lamb"] + 1, None, (2, 3))
        self.obj.limit = 2
        self.obj.reset()

    def use(self):
        self.k += 1
        if self.obj is None:
            return
        try:
            if self.env:
                lo, hi = self.obj.action_space.low, self.obj.action_space.high
                self.obj.step(np.clip(np.zeros(len(lo)), lo, hi))
            else:
                z = {i: 0.07 * self.k * self.net.base for i in self.net.dev_ids}
                self.obj.transition({i: -v for i, v in z.items()}, z, z, z)
        except Exception:
            pass


class Run:
    """A simulator reset to given charges, stepped through the inputs of a `sim_case`."""

    def __init__(self, case, spec=None):
        self.spec = spec or case["spec"]
        self.net = oc.Net(self.spec)
        self.dt, self.lamb = case["dt"], case["lamb"]
        d = case.get("decoy") if spec is None else None
        self.decoy = Decoy(case) if d and d["first"] else None
        self.sim = make_sim(self.spec, self.dt, self.lamb)
        if d and not d["first"]:
            self.decoy = Decoy(case)
        f = ik(case.get("soc", {}))
        soc = {i: (self.net.dev[i].smin + f[i] * (self.net.dev[i].smax - self.net.dev[i].smin)) * self.net.base for i in self.net.des}
        with sut("Simulator.reset"):
            self.reset_converged = self.sim.reset(init_vec(self.net, soc=soc))
        self.soc0 = {i: soc[i] / self.net.base for i in self.net.des}

    def step(self, inp):
        if self.decoy:
            self.decoy.use()
        return transition(self.sim, inp)


# --- environments -----------------------------------------------------------------------------------------------------


def init_from(net, init):
    """Initial state vector from {"load", "p", "q", "pot", "soc", "aux"} (MW, MVAr, MWh)."""
    p = dict(ik(init["p"]))
    q = dict(ik(init["q"]))
    for i, v in ik(init["load"]).items():
        p[i] = v
        q[i] = v * net.dev[i].qp
    return init_vec(net, soc=ik(init.get("soc", {})), p=p, q=q, pot=ik(init["pot"]), aux=init.get("aux", ()))


def vars_from(net, v):
    return np.array([v["load"][str(i)] for i in net.loads] + [v["pot"][str(i)] for i in net.gens] + list(v["aux"]), dtype=float)


def action_from(net, a):
    g, s = net.gens, net.des
    return np.array([a["p"][str(i)] for i in g] + [a["q"][str(i)] for i in g] + [a["p"][str(i)] for i in s] + [a["q"][str(i)] for i in s], dtype=float)


def into_space(space, a):
    """Move an action onto the space bounds when it misses them by rounding only."""
    b = np.clip(a, space.low, space.high)
    if np.all(np.abs(b - a) <= 1e-9 * np.maximum(1, np.abs(a))):
        return b
    return a


def env_of(case, nexts=None, inits=None, observation="state", cls=None, **kw):
    net = oc.Net(case["spec"])
    args = dict(K=case["K"], delta_t=case["dt"], gamma=case["gamma"], lamb=case["lamb"])
    args.update(kw)
    d = case.get("decoy")
    dec = Decoy(case, env=True) if d and d["first"] else None
    with sut("environment construction"):
        env = (cls or ScriptEnv)(ng.to_network(case["spec"]), inits if inits is not None else [init_from(net, case["init"])],
                        nexts if nexts is not None else [vars_from(net, v) for v in case["vars"]], observation=observation, **args)
    env.limit = 3 if inits is None else None
    env.decoy = Decoy(case, env=True) if d and not d["first"] else dec
    return net, env


def safe_reset(env):
    """Reset; None when the scripted initial state has no load flow solution (documented error)."""
    from gym_anm.errors import EnvInitializationError

    with sut("env.reset", allow=(EnvInitializationError,)):
        try:
            return env.reset()
        except EnvInitializationError:
            return None


def typed_action(a):
    """The action as an array of integers or of float32 when that loses nothing (for some of such actions)."""
    if not isinstance(a, np.ndarray) or a.dtype != np.float64 or a.ndim != 1 or not np.all(np.isfinite(a)):
        return a
    b = typed(a)
    if b is a or b.dtype == np.float64:
        f = a.astype(np.float32)
        b = f if a.size and np.all(f == a) and int(np.sum(np.abs(a)) * 8) % 2 else a
    return b


def step(env, a):
    a = typed_action(a)
    if getattr(env, "decoy", None):
        env.decoy.use()
    with sut("env.step"):
        return env.step(a)


def expected_state(net, full, aux):
    v = [full["dev_p"]["MW"][i] for i in net.dev_ids] + [full["dev_q"]["MVAr"][i] for i in net.dev_ids]
    v += [full["des_soc"]["MWh"][i] for i in net.des] + [full["gen_p_max"]["MW"][i] for i in net.gens] + list(aux)
    return np.array(v, dtype=float)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= tol * np.maximum(1, np.maximum(np.abs(a), np.abs(b))))) | (a == b)))
