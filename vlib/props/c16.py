"""C16: malformed networks are rejected with an input-network error; well-formed ones are accepted and simulable."""
import copy

import hypothesis.strategies as st
import numpy as np

from .. import netgen as ng, oracle as oc, simkit as sk
from ..core import Part, Violation, check, sut
from ..netgen import B, D, R

# --- mutations: each breaks exactly one documented rule ------------------------------------------------------------------
# (name, device kind needed or None, alternatives)

EPS = [1e-6, 1e-3, 0.1, 1.0, 50.0]


def canonical(row, S, u):
    """A fully specified well-formed device row (u in [0.1, 1])."""
    t = row[D["DEV_TYPE"]]
    r = list(row[:3]) + [None] * 12
    w = u * S
    if t == -1:
        r[D["Q/P"]], r[D["PMAX"]], r[D["PMIN"]] = 0.2, -0.05 * w, -0.3 * w
    elif t == 0:
        r[D["PMAX"]], r[D["PMIN"]], r[D["QMAX"]], r[D["QMIN"]] = 2 * w, -w, w, -2 * w
    else:
        r[D["PMAX"]], r[D["PMIN"]], r[D["QMAX"]], r[D["QMIN"]] = 0.5 * w, 0.1 * w, 0.4 * w, -0.3 * w
        r[D["P+"]], r[D["Q+"]], r[D["Q-"]] = 0.3 * w, 0.2 * w, -0.1 * w
        if t == 3:
            r[D["PMIN"]], r[D["P-"]] = -0.4 * w, -0.2 * w
            r[D["SOC_MAX"]], r[D["SOC_MIN"]], r[D["EFF"]] = 0.5 * w, 0.1 * w, 0.9
    return r


def dset(**kv):
    def f(row, S, e):
        for k, v in kv.items():
            k = {"Pp": "P+", "Pm": "P-", "Qp": "Q+", "Qm": "Q-", "QP": "Q/P"}.get(k, k)
            row[D[k]] = v(row, S, e) if callable(v) else v
    return f


g = lambda row, c: row[D[c]]
GEN = (1, 2)
DEVMUT = {
    "load without Q/P": ((-1,), dset(QP=None)),
    "load PMAX > 0": ((-1,), dset(PMAX=lambda r, S, e: e)),
    "load PMAX < PMIN": ((-1,), dset(PMAX=lambda r, S, e: g(r, "PMIN") - e)),
    "generator PMAX < 0": (GEN, dset(PMIN=None, Pp=None, PMAX=lambda r, S, e: -e)),
    "generator PMIN < 0": (GEN, dset(PMIN=lambda r, S, e: -e)),
    "generator PMAX < PMIN": (GEN, dset(Pp=None, PMAX=lambda r, S, e: g(r, "PMIN") * (1 - min(e, 1)))),
    "storage PMAX < 0": ((3,), dset(PMAX=lambda r, S, e: -e, Pp=None, Pm=None, PMIN=lambda r, S, e: -2 * e - S)),
    "storage PMIN > 0": ((3,), dset(PMIN=lambda r, S, e: e, Pp=None, Pm=None, PMAX=lambda r, S, e: 2 * e + S)),
    "QMAX < QMIN": ((0, 1, 2, 3), dset(Qp=None, Qm=None, QMAX=lambda r, S, e: g(r, "QMIN") - e)),
    "slack PMAX < PMIN": ((0,), dset(PMAX=lambda r, S, e: g(r, "PMIN") - e)),
    "P+ > PMAX": ((1, 2, 3), dset(Pp=lambda r, S, e: g(r, "PMAX") + e)),
    "P+ < PMIN": ((1, 2, 3), dset(Pp=lambda r, S, e: g(r, "PMIN") - e)),
    "P- < PMIN": ((3,), dset(Pm=lambda r, S, e: g(r, "PMIN") - e)),
    "P- > PMAX": ((3,), dset(Pm=lambda r, S, e: g(r, "PMAX") + e, Pp=None)),
    "P+ < P-": ((3,), dset(Pp=lambda r, S, e: 0.0, Pm=lambda r, S, e: min(e, g(r, "PMAX")))),
    "Q+ > QMAX": ((1, 2, 3), dset(Qp=lambda r, S, e: g(r, "QMAX") + e)),
    "Q- < QMIN": ((1, 2, 3), dset(Qm=lambda r, S, e: g(r, "QMIN") - e)),
    "Q+ < Q-": ((1, 2, 3), dset(Qm=lambda r, S, e: 0.0, Qp=lambda r, S, e: -min(e, -g(r, "QMIN")))),
    "Q+ < Q-, both positive": ((1, 2, 3), dset(Qm=lambda r, S, e: 0.8 * g(r, "QMAX"), Qp=lambda r, S, e: 0.8 * g(r, "QMAX") * (1 - min(e, 1)))),
    "Q+ < Q-, both negative": ((1, 2, 3), dset(Qp=lambda r, S, e: 0.8 * g(r, "QMIN"), Qm=lambda r, S, e: 0.8 * g(r, "QMIN") * (1 - min(e, 1)))),
    "storage without SOC_MAX": ((3,), dset(SOC_MAX=None)),
    "storage SOC_MAX < 0": ((3,), dset(SOC_MAX=lambda r, S, e: -e, SOC_MIN=None)),
    "storage SOC_MIN < 0": ((3,), dset(SOC_MIN=lambda r, S, e: -e)),
    "storage SOC_MAX < SOC_MIN": ((3,), dset(SOC_MAX=lambda r, S, e: g(r, "SOC_MIN") * (1 - min(e, 0.9)))),
    "storage EFF < 0": ((3,), dset(EFF=lambda r, S, e: -e)),
    "storage EFF > 1": ((3,), dset(EFF=lambda r, S, e: 1 + e)),
    "device on an unknown bus": ((-1, 1, 2, 3), dset(BUS_ID=lambda r, S, e: 77)),
    "device without bus": ((-1, 1, 2, 3), dset(BUS_ID=None)),
    "device without ID": ((-1, 0, 1, 2, 3), dset(DEV_ID=None)),
    "device without type": ((-1, 1, 2, 3), dset(DEV_TYPE=None)),
    "device type 4": ((-1, 1, 2, 3), dset(DEV_TYPE=4)),
    "device type -2": ((-1, 1, 2, 3), dset(DEV_TYPE=-2)),
    "device type 1.5": ((-1, 1, 2, 3), dset(DEV_TYPE=1.5)),
    "device type -0.5": ((-1, 1, 2, 3), dset(DEV_TYPE=-0.5)),
    "device type 0.5": ((-1, 1, 2, 3), dset(DEV_TYPE=0.5)),
    "slack device without bus": ((0,), dset(BUS_ID=None)),
    "slack device on an unknown bus": ((0,), dset(BUS_ID=77)),
}


def bmut(col, val, slack=None):
    def f(spec, k, e):
        rows = [r for r in spec["bus"] if slack is None or (r[B["BUS_TYPE"]] == 0) == slack]
        r = rows[k % len(rows)]
        r[B[col]] = val(r, e) if callable(val) else val
    return f


def rmut(col, val):
    def f(spec, k, e):
        r = spec["branch"][k % len(spec["branch"])]
        if isinstance(col, tuple):
            for c in col:
                r[R[c]] = val[k % len(val)]
        else:
            r[R[col]] = val(r, e) if callable(val) else val
    return f


def two_slack_devices(spec, k, e):
    r = list([x for x in spec["device"] if x[D["DEV_TYPE"]] == 0][0])
    r[0] = 88
    spec["device"].insert(k % (len(spec["device"]) + 1), r)


def no_slack_device(spec, k, e):
    spec["device"] = [r for r in spec["device"] if r[D["DEV_TYPE"]] != 0]


def slack_mismatch(spec, k, e):
    r = [x for x in spec["device"] if x[D["DEV_TYPE"]] == 0][0]
    others = [b[0] for b in spec["bus"] if b[1] != 0]
    r[D["BUS_ID"]] = others[k % len(others)]


def dup_bus(spec, k, e):
    rows = [r for r in spec["bus"] if r[B["BUS_TYPE"]] != 0]
    r = list(rows[k % len(rows)])
    spec["bus"].insert(k % (len(spec["bus"]) + 1), r)


def dup_dev(spec, k, e):
    # Two devices share an ID (the copy is of another kind where possible).
    rows = [r for r in spec["device"] if r[D["DEV_TYPE"]] != 0]
    r = list(rows[k % len(rows)])
    spec["device"].append(r)


def parallel(rev):
    def f(spec, k, e):
        r = list(spec["branch"][k % len(spec["branch"])])
        if rev:
            r[0], r[1] = r[1], r[0]
        spec["branch"].append(r)
    return f


def self_loop(spec, k, e):
    r = list(spec["branch"][k % len(spec["branch"])])
    b = spec["bus"][k % len(spec["bus"])][0]
    r[0] = r[1] = b
    spec["branch"].append(r)


def base(v):
    def f(spec, k, e):
        spec["base"] = v(e) if callable(v) else v
    return f


NETMUT = {
    "base power 0": base(0), "base power < 0": base(lambda e: -e),
    "two slack buses": bmut("BUS_TYPE", 0, slack=False), "no slack bus": bmut("BUS_TYPE", 1, slack=True),
    "bus type 2": bmut("BUS_TYPE", 2, slack=False), "bus type -1": bmut("BUS_TYPE", -1, slack=False), "bus without type": bmut("BUS_TYPE", None, slack=False),
    "bus without ID": bmut("BUS_ID", None), "duplicate bus ID": dup_bus,
    "bus without base voltage": bmut("BASE_KV", None), "base voltage 0": bmut("BASE_KV", 0), "base voltage < 0": bmut("BASE_KV", lambda r, e: -e),
    "bus without VMAX": bmut("VMAX", None), "VMAX < 0": bmut("VMAX", lambda r, e: -e),
    "bus without VMIN": bmut("VMIN", None, slack=False), "VMIN < 0": bmut("VMIN", lambda r, e: -e, slack=False),
    "VMAX < VMIN": bmut("VMIN", lambda r, e: r[B["VMAX"]] + e, slack=False),
    "no slack device": no_slack_device, "two slack devices": two_slack_devices, "slack device at another bus": slack_mismatch,
    "duplicate device ID": dup_dev,
    "parallel branches": parallel(False), "parallel branches, opposite directions": parallel(True),
    "branch from a bus to itself": self_loop,
    "branch from an unknown bus": rmut("F_BUS", 77), "branch to an unknown bus": rmut("T_BUS", 77),
    "branch without F_BUS": rmut("F_BUS", None), "branch without T_BUS": rmut("T_BUS", None),
    "BR_R < 0": rmut("BR_R", lambda r, e: -e), "BR_X < 0": rmut("BR_X", lambda r, e: -e), "r = x = 0": rmut(("BR_R", "BR_X"), [0.0, None, 0]),
    "BR_B < 0": rmut("BR_B", lambda r, e: -e), "RATE < 0": rmut("RATE", lambda r, e: -e),
    "TAP 0": rmut("TAP", 0.0), "TAP < 0": rmut("TAP", lambda r, e: -e), "SHIFT < 0": rmut("SHIFT", lambda r, e: -e), "SHIFT > 360": rmut("SHIFT", lambda r, e: 360 + e),
}
NAMES = sorted(DEVMUT) + sorted(NETMUT)


@st.composite
def bad_cases(draw):
    spec = draw(ng.network(min_bus=2, max_bus=4, min_dev=4, max_dev=6, need=(-1, 1, 2, 3)))
    return {"spec": spec, "mut": draw(st.integers(0, len(NAMES) - 1)), "k": draw(st.integers(0, 11)), "e": draw(st.sampled_from(EPS)), "u": draw(ng.num(0.1, 1, 2))}


def mutate(case, name):
    spec = copy.deepcopy(case["spec"])
    k, e = case["k"], case["e"]
    if name in NETMUT:
        ok = copy.deepcopy(spec)
        NETMUT[name](spec, k, e)
        return ok, spec
    kinds, f = DEVMUT[name]
    idx = [i for i, r in enumerate(spec["device"]) if r[D["DEV_TYPE"]] in kinds]
    i = idx[k % len(idx)]
    spec["device"][i] = canonical(spec["device"][i], spec["base"], case["u"])
    ok = copy.deepcopy(spec)
    f(spec["device"][i], spec["base"], e)
    return ok, spec


def rejected(what, f):
    from gym_anm.simulator.components.errors import InputNetworkFileError

    try:
        f()
    except InputNetworkFileError:
        return
    except Exception as ex:
        raise Violation("%s raises %s (%s) instead of an input-network error" % (what, type(ex).__name__, str(ex)[:200]))
    raise Violation("%s is accepted" % what)


def body_bad(ctx, case):
    from gym_anm import ANMEnv
    from gym_anm.simulator import Simulator

    # Every rule is exercised on this network; the drawn index only decides which one is tried first.
    n = len(NAMES)
    for j in range(6):
        name = NAMES[(case["mut"] + j * 13) % n]
        ok, bad = mutate(case, name)
        sk.make_sim(ok)
        rejected("Simulator(): a network with '%s' (variant %d, %g)" % (name, case["k"], case["e"]), lambda: Simulator(ng.to_network(bad), 0.25, 100))
        rejected("ANMEnv(): a network with '%s' (variant %d, %g)" % (name, case["k"], case["e"]),
                 lambda: ANMEnv(ng.to_network(bad), "state", 0, 0.25, 0.9, 100))
        ctx.event(name)
    ctx.nontrivial()


# --- well-formed networks --------------------------------------------------------------------------------------------

EDGES = {
    -1: ["PMAX=PMIN", "QP=0"],
    0: ["PMAX=PMIN", "QMAX=QMIN"],
    1: ["PMAX=0", "PMAX=PMIN", "QMAX=QMIN", "P+=PMIN", "P+=PMAX", "Q+=Q-", "Q+=QMAX", "Q-=QMIN", "Q+=QMIN", "P-"],
    3: ["PMAX=0", "PMIN=0", "PMAX=PMIN=0", "QMAX=QMIN", "P+=P-", "P+=PMAX", "P-=PMIN", "Q+=Q-", "Q+=QMAX", "Q-=QMIN", "SOC_MAX=SOC_MIN", "SOC_MAX=0", "EFF=0", "EFF=1"],
}
EDGES[2] = EDGES[1]


@st.composite
def good_cases(draw):
    c = draw(ng.env_case(kinds=(-1, 1, 2, 3), min_dev=1, max_dev=4, max_bus=4, steps=(1, 2), K=(0, 1)))
    c["u"] = draw(ng.num(0.1, 1, 2))
    c["edges"] = {}
    for r in c["spec"]["device"]:
        if draw(st.integers(0, 2)) == 0:
            c["edges"][str(r[0])] = draw(st.sampled_from(EDGES[r[D["DEV_TYPE"]]]))
    c["bredges"] = [draw(st.sampled_from([None, None, None, "RATE=0", "SHIFT=360", "SHIFT=0", "B=0", "R=0", "TAP"])) for _ in c["spec"]["branch"]]
    c["busedges"] = [draw(st.sampled_from([None, None, "VMAX=VMIN", "VMIN=0"])) for _ in c["spec"]["bus"]]
    c["dtype"] = draw(st.sampled_from(["auto", "object", "float"]))
    c["acts"] = [[draw(st.one_of(ng.num(0, 1), st.sampled_from([0.0, 1.0]))) for _ in range(12)] for _ in range(2)]
    return c


def apply_edges(case):
    spec = copy.deepcopy(case["spec"])
    S = spec["base"]
    for i, r in enumerate(spec["device"]):
        ed = case["edges"].get(str(r[0]))
        if ed is None:
            continue
        row = canonical(r, S, case["u"])
        P = lambda c, v: row.__setitem__(D[c], v)
        G = lambda c: row[D[c]]
        if ed == "PMAX=PMIN":
            P("PMAX", G("PMIN"))
            if r[D["DEV_TYPE"]] in (1, 2):
                P("P+", G("PMIN"))
        elif ed == "QP=0":
            P("Q/P", 0.0)
        elif ed == "PMAX=0" and r[D["DEV_TYPE"]] == 3:
            P("PMAX", 0.0)
            P("P+", 0.0)
        elif ed == "PMAX=0":
            for c in ("PMAX", "PMIN", "P+"):
                P(c, 0.0)
        elif ed == "PMIN=0":
            P("PMIN", 0.0)
            P("P-", 0.0)
        elif ed == "PMAX=PMIN=0":
            for c in ("PMAX", "PMIN", "P+", "P-"):
                P(c, 0.0)
        elif ed == "QMAX=QMIN":
            for c in ("QMAX", "Q+", "Q-") if r[D["DEV_TYPE"]] else ("QMAX",):
                P(c, G("QMIN"))
        elif ed == "P+=P-":
            P("P-", 0.0)
            P("P+", 0.0)
        elif ed == "SOC_MAX=0":
            P("SOC_MAX", 0.0)
            P("SOC_MIN", 0.0)
        elif ed == "EFF=0":
            P("EFF", 0.0)
        elif ed == "EFF=1":
            P("EFF", 1)
        elif ed == "P-":
            P("P-", -3.0)  # ignored for generators
        else:
            a, b = ed.split("=")
            P(a, G(b))
            if ed == "Q+=QMIN":
                P("Q-", G(b))
        spec["device"][i] = row
    for e, r in zip(case["bredges"], spec["branch"]):
        if e == "RATE=0":
            r[R["RATE"]] = 0.0
        elif e and e.startswith("SHIFT"):
            r[R["SHIFT"]] = float(e[6:])
        elif e == "B=0":
            r[R["BR_B"]] = 0
        elif e == "R=0" and r[R["BR_X"]]:
            r[R["BR_R"]] = 0
        elif e == "TAP":
            r[R["TAP"]] = 1
    for e, r in zip(case["busedges"], spec["bus"]):
        if e == "VMAX=VMIN":
            r[B["VMIN"]] = r[B["VMAX"]]
        elif e == "VMIN=0":
            r[B["VMIN"]] = 0
    return spec


def as_network(spec, dtype):
    n = ng.to_network(spec)
    if dtype == "object":
        return {k: v.astype(object) if isinstance(v, np.ndarray) else v for k, v in n.items()}
    if dtype == "float":
        return {k: (v.astype(float) if isinstance(v, np.ndarray) and v.dtype != object else v) for k, v in n.items()}
    return n


def body_good(ctx, case):
    spec = apply_edges(case)
    net = oc.Net(spec)
    zero = sk.init_vec(net, aux=[0.0] * case["K"])
    nexts = [sk.vars_from(net, v) for v in case["vars"]]
    with sut("construction of an environment with a well-formed network"):
        env = sk.ScriptEnv(as_network(spec, case["dtype"]), [zero], nexts, "state", case["K"], case["dt"], case["gamma"], case["lamb"])
    if sk.safe_reset(env) is None:
        # No load flow solution when nothing is injected: only possible through minimum injections.
        check(any(d.type in (1, 2) and d.pmin > 0 or d.type == -1 and d.pmax < 0 or d.type in (1, 2, 3) and (d.qmin > 0 or d.qmax < 0) for d in net.dev.values())
              or any(abs(e.tap.imag) > 0.1 or e.ysh.imag > 0.05 for e in net.branches), "a well-formed network cannot be reset with zero injections")
        ctx.event("no_solution_at_reset")
        return
    lo, hi = env.action_space.low, env.action_space.high
    for u in case["acts"]:
        a = np.array([x if not np.isfinite(l) and not np.isfinite(h) else min(max((l if np.isfinite(l) else h - 50) + t * ((h if np.isfinite(h) else l + 50) - (l if np.isfinite(l) else h - 50)), l), h)
                      for x, t, l, h in [(10 * (u[k % 12] - 0.5), u[k % 12], lo[k], hi[k]) for k in range(len(lo))]], dtype=float)
        obs, r, term, _, _ = sk.step(env, a)
        check(term or np.all(np.isfinite(obs)) and np.isfinite(r), "a converged step of a well-formed network returns %r, %r", obs, r)
        if term:
            ctx.event("collapsed")
            break
    for e in list(case["edges"].values()) + [e for e in case["bredges"] if e]:
        ctx.event("edge " + e)
    if case["edges"] or any(v is None for t in ("bus", "branch", "device") for r in spec[t] for v in r):
        ctx.nontrivial()


PARTS = [
    Part("malformed", bad_cases(), body_bad, 2560, 60000, "six single-rule violations of a well-formed network, each tried through the simulator and the environment"),
    Part("well-formed", good_cases(), body_good, 1440, 40000, "a network with an absent optional field or a parameter at its allowed limit was reset and stepped"),
]
