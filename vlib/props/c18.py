"""C18: invalid environment arguments are rejected with the documented errors, supported ones are usable."""
import math

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, Violation, check, sut
from . import c10

# One bad ingredient per case: (name, allowed error names).  The other arguments are valid.
SCALAR = {
    "K < 0": ("ArgsError",), "delta_t = 0": ("ArgsError",), "delta_t < 0": ("ArgsError",), "lamb < 0": ("ArgsError",),
    "gamma < 0": ("ArgsError",), "gamma > 1": ("ArgsError",), "aux_bounds too short": ("ArgsError",), "aux_bounds too long": ("ArgsError",),
    "observation of a wrong type": ("ArgsError", "ObsSpaceError"),
}
ENTRY = {
    "entry of length 1": ("ObsSpaceError",), "entry of length 4": ("ObsSpaceError",), "entry not a tuple": ("ObsSpaceError",),
    "unknown quantity": ("ObsNotSupportedError",), "unknown element": ("ObsSpaceError",), "elements not a list": ("ObsSpaceError",),
    "unknown unit": ("UnitsNotSupportedError",), "auxiliary index too large": ("ObsSpaceError",), "negative auxiliary index": ("ObsSpaceError",),
    "element of another kind": ("ObsSpaceError",), "reversed branch": ("ObsSpaceError",), "unit of another quantity": ("UnitsNotSupportedError",),
}
NAMES = sorted(SCALAR) + sorted(ENTRY)
ALLUNITS = sorted({u for us in oc.UNITS.values() for u in us})


@st.composite
def bad_cases(draw):
    spec = draw(ng.network(kinds=(-1, 1, 2, 3), need=(-1, 2, 3), min_bus=3, max_bus=4, min_dev=3, max_dev=4, mesh=False))
    K = draw(st.integers(0, 3))
    return {"spec": spec, "K": K, "dt": draw(st.sampled_from([0.25, 1, 0.5])), "lamb": draw(st.sampled_from([0, 1, 100])), "gamma": draw(st.sampled_from([0, 0.9, 1])),
            "good": draw(c10.obs_list(oc.Net(spec), K)), "auxb": draw(st.booleans()), "first": draw(st.integers(0, len(NAMES) - 1)),
            "k": draw(st.integers(0, 1000)), "e": draw(st.sampled_from([1e-9, 1e-3, 0.5, 1, 2, 10])), "pos": draw(st.integers(0, 5)),
            "state_obs": draw(st.booleans())}


WRONG_OBS = [None, 3, "states", "State", ("dev_p", "all"), {"dev_p": "all"}, 1.5, (("dev_p", "all", "MW"),), "", b"state", np.array([1.0, 2.0])]
UNKNOWN_Q = ["bus_v", "dev_s", "P", "", "AUX", "bus_p ", "branch_i", "soc", "branch_p_magn", "des_p", "gen_p", 3, None, "busp"]


def bad_entry(name, net, K, c):
    k = c["k"]
    qs = list(oc.UNITS)
    q = qs[k % len(qs)]
    els = oc.elements(net, q)
    if name == "entry of length 1":
        return [(q,), [q], (els,)][k % 3]
    if name == "entry of length 4":
        return (q, "all", oc.UNITS[q][0], 1)
    if name == "entry not a tuple":
        return [q, 7, None, 2.5, {q: "all"}][k % 5]
    if name == "unknown quantity":
        b = UNKNOWN_Q[k % len(UNKNOWN_Q)]
        return [(b, "all"), (b, [net.dev_ids[0]], "MW"), (b, net.bus_ids[:1])][k % 3]
    if name == "unknown element":
        no = 99 + 10 * max(list(net.bus_ids) + list(net.dev_ids))
        bad = no if not q.startswith("branch") else [(no, net.bus_ids[0]), 0, (net.bus_ids[0],), (net.bus_ids[0], net.bus_ids[0])][k % 4]
        if not q.startswith("branch") and k % 3 == 1:
            bad = -1
        elif k % 7 == 3:
            bad = "all"
        ids = list(els)
        ids.insert(k % (len(ids) + 1), bad)
        return (q, ids) if k % 2 else (q, ids, oc.UNITS[q][-1])
    if name == "elements not a list":
        return (q, [5, None, "any", "All", "", 2.0][k % 6])
    if name == "unknown unit":
        bad = ["mw", "W", "p.u.", "", "PU", "deg", "kA ", "MVar", 1][k % 9]
        return (q, "all", bad)
    if name == "unit of another quantity":
        bad = [u for u in ALLUNITS if u not in oc.UNITS[q]]
        return (q, list(els), bad[k % len(bad)])
    if name == "auxiliary index too large":
        return ("aux", [K + k % 3]) if k % 2 else ("aux", list(range(K)) + [K], None)
    if name == "negative auxiliary index":
        return ("aux", [-1 - k % 3])
    if name == "element of another kind":
        opts = [("des_soc", net.gens[:1]), ("gen_p_max", net.des[:1]), ("gen_p_max", net.loads[:1]), ("des_soc", net.loads[:1]), ("gen_p_max", [net.slack_dev]), ("des_soc", [net.slack_dev])]
        return opts[k % len(opts)]
    if name == "reversed branch":
        e = net.branches[k % len(net.branches)]
        qs = [x for x in qs if x.startswith("branch")]
        return (qs[k % len(qs)], [(e.t, e.f)])
    raise KeyError(name)


def construct(net_spec, args, reset=False):
    from gym_anm import ANMEnv

    return ANMEnv(ng.to_network(net_spec), **args)


def rejected(name, errors, spec, args):
    import gym_anm.errors as E

    allowed = tuple(getattr(E, n) for n in errors)
    try:
        construct(spec, args)
    except allowed:
        return
    except Exception as ex:
        raise Violation("%s (%r) raises %s: %s, documented is %s" % (name, {k: v for k, v in args.items()}, type(ex).__name__, str(ex)[:150], "/".join(errors)))
    raise Violation("%s is accepted: %r" % (name, args))


def valid_args(case):
    K = case["K"]
    auxb = np.array([[0.0, 10.0 + i] for i in range(K)]).reshape(-1, 2) if case["auxb"] else None
    obs = "state" if case["state_obs"] else c10.user_obs({"mode": "list", "obs": case["good"]})
    return dict(observation=obs, K=K, delta_t=case["dt"], gamma=case["gamma"], lamb=case["lamb"], aux_bounds=auxb)


def body_bad(ctx, case):
    net = oc.Net(case["spec"])
    K, e, k = case["K"], case["e"], case["k"]
    good = valid_args(case)
    with sut("construction of an environment with valid arguments %r" % (good,)):
        construct(case["spec"], good)
    for j in range(7):
        name = NAMES[(case["first"] + 5 * j) % len(NAMES)]
        a = valid_args(case)
        if name in SCALAR:
            if name == "K < 0":
                a["K"] = -1 - k % 3
                a["aux_bounds"] = None
                a["observation"] = "state"
            elif name == "delta_t = 0":
                a["delta_t"] = [0, 0.0][k % 2]
            elif name == "delta_t < 0":
                a["delta_t"] = -e
            elif name == "lamb < 0":
                a["lamb"] = -e
            elif name == "gamma < 0":
                a["gamma"] = -e
            elif name == "gamma > 1":
                a["gamma"] = 1 + e
            elif name == "aux_bounds too short":
                if K == 0:
                    continue
                a["aux_bounds"] = np.array([[0.0, 1.0]] * (k % K)).reshape(-1, 2)
            elif name == "aux_bounds too long":
                a["aux_bounds"] = np.array([[0.0, 1.0]] * (K + 1 + k % 2)) if k % 3 else [(0, 1)] * (K + 1)
            else:
                a["observation"] = WRONG_OBS[k % len(WRONG_OBS)]
            errs = SCALAR[name]
        else:
            obs = list(c10.user_obs({"mode": "list", "obs": case["good"]}))
            obs.insert(case["pos"] % (len(obs) + 1), bad_entry(name, net, K, case))
            a["observation"] = obs
            errs = ENTRY[name]
        rejected(name, errs, case["spec"], a)
        ctx.event(name)
    ctx.nontrivial()


# --- supported specifications are usable --------------------------------------------------------------------------------


@st.composite
def good_cases(draw):
    c = draw(c10.cases(kinds=(-1, 1, 2, 3), need=(-1,), min_dev=1, max_dev=3, max_bus=4, steps=(1, 1)))
    net = oc.Net(c["spec"])
    if c["mode"] == "list":
        # Append one (quantity, unit) pair chosen uniformly, as a tuple or a list, so that every pair is covered.
        pairs = [(q, u) for q in oc.UNITS for u in oc.UNITS[q]]
        q, u = draw(st.sampled_from(pairs))
        c["obs"] = c["obs"] + [[q, "all", u]]
    c["as_list"] = draw(st.booleans())
    c["gamma"] = draw(st.sampled_from([0, 1, 0.5, 0.0, 1.0]))
    c["lamb"] = draw(st.sampled_from([0, 0.5, 1e4]))
    c["dt"] = draw(st.sampled_from([1e-3, 0.25, 24]))
    return c


def body_good(ctx, case):
    net = oc.Net(case["spec"])
    auxb = None if case["auxb"] is None else np.array(case["auxb"], dtype=float).reshape(-1, 2)
    obs_spec = c10.user_obs(case)
    if case["as_list"] and case["mode"] == "list":
        obs_spec = [list(e) for e in obs_spec]
    net, env = sk.env_of(case, observation=obs_spec, aux_bounds=auxb)
    out = sk.safe_reset(env)
    if out is None:
        return
    obs = out[0]
    a = sk.into_space(env.action_space, sk.action_from(net, case["actions"][0]))
    term = False
    for k in range(2):
        sp = env.observation_space
        check(isinstance(obs, np.ndarray) and sp.shape == obs.shape, "the observation of a supported specification %r is %r, space %r", case.get("obs"), obs, sp)
        check(np.all(sp.low <= sp.high), "the observation space of a supported specification %r has bounds %r > %r", case.get("obs"), sp.low, sp.high)
        check(np.all(np.isfinite(obs)) and (term or sp.contains(obs)), "the observation of a supported specification %r is %r, space %r", case.get("obs"), obs, sp)
        if k == 1:
            break
        with sut("stepping an environment with a supported specification"):
            obs, _, term, _, _ = env.step(a)
    if case["mode"] == "list":
        n = len(c10.resolve(net, case["K"], case["obs"]))
        check(obs.shape == (n,), "the observation has %r entries for a specification of %d quantities %r", obs.shape, n, case["obs"])
        for q, ids, u in case["obs"]:
            ctx.event("%s [%s]" % (q, u))
        ctx.nontrivial()
    else:
        ctx.event("mode_" + case["mode"])


PARTS = [
    Part("invalid", bad_cases(), body_bad, 2880, 80000, "seven single invalid arguments next to otherwise valid ones (which are accepted)"),
    Part("supported", good_cases(), body_good, 1280, 40000, "a list specification was reset and stepped"),
]
