"""Hypothesis strategies for network specifications and inputs (plain JSON data)."""
import hypothesis.strategies as st

# Column names (documented input format of gym-anm).
BUS = ["BUS_ID", "BUS_TYPE", "BASE_KV", "VMAX", "VMIN"]
DEV = ["DEV_ID", "BUS_ID", "DEV_TYPE", "Q/P", "PMAX", "PMIN", "QMAX", "QMIN", "P+", "P-", "Q+", "Q-", "SOC_MAX", "SOC_MIN", "EFF"]
BR = ["F_BUS", "T_BUS", "BR_R", "BR_X", "BR_B", "RATE", "TAP", "SHIFT"]
B = {k: i for i, k in enumerate(BUS)}
D = {k: i for i, k in enumerate(DEV)}
R = {k: i for i, k in enumerate(BR)}


def num(lo, hi, nd=4):
    """A float in [lo, hi], rounded (so that shrunk cases are readable)."""
    return st.floats(lo, hi, allow_nan=False).map(lambda x: min(max(round(x, nd), lo), hi))


BASES = [100, 1, 10, 37.5, 250.0, 3, 0.5]


# Knee of a P-Q region as a fraction of the range; almost vertical lines (knee within 5 % of the limit but not at
# it) are left out, because the solver's absolute tolerance is amplified by the slope.
KNEE = st.one_of(num(0, 0.95), st.just(1.0))


def some(draw, p):
    """True with probability about p (shrinks to False)."""
    return draw(st.integers(0, 99)) >= 100 - int(100 * p)


@st.composite
def ids(draw, n, start=0):
    mode = draw(st.integers(0, 4))
    if mode == 0:
        return list(range(start, start + n))
    if mode == 1:
        return draw(st.permutations(list(range(n))))
    if mode == 4:
        return draw(st.lists(st.one_of(st.integers(0, 12), st.integers(95, 105), st.integers(0, 3000)), min_size=n, max_size=n, unique=True))
    return draw(st.lists(st.integers(0, 40), min_size=n, max_size=n, unique=True))


@st.composite
def gen_row(draw, base, opt=True, big=1.0, unlimited=True):
    """Limits of a non-slack generator, in MW/MVAr."""
    row = [None] * 15
    pmax = draw(num(0.05, 0.6)) * big
    row[D["PMAX"]] = pmax
    k = draw(st.integers(0, 3))
    pmin = 0.0
    if k == 1:
        pmin = None
    elif k == 2:
        pmin = draw(num(0, 0.5)) * pmax
    row[D["PMIN"]] = pmin
    k = draw(st.integers(0, 4))
    if k == 1:  # range excluding zero
        qmin = draw(num(-0.4, 0.3)) * big
        qmax = qmin + draw(num(0, 0.4)) * big
    else:
        qmax, qmin = draw(num(0, 0.4)) * big, -draw(num(0, 0.4)) * big
    if some(draw, 0.2):  # symmetric limits (with or without symmetric Q+ and Q-)
        qmax, qmin = max(abs(qmax), abs(qmin)), -max(abs(qmax), abs(qmin))
    row[D["QMAX"]], row[D["QMIN"]] = qmax, qmin
    if some(draw, 0.6):
        lo = pmin or 0.0
        a = draw(KNEE)
        row[D["P+"]] = pmax if a == 1 else lo + a * (pmax - lo)
        a, b = sorted([draw(num(0, 1)), draw(num(0, 1))])
        if qmax == -qmin and some(draw, 0.3):
            a, b = min(a, 1 - a), max(a, 1 - a)
        row[D["Q-"]], row[D["Q+"]] = qmin + a * (qmax - qmin), qmin + b * (qmax - qmin)
        for f in ("P+", "Q+", "Q-"):
            if opt and some(draw, 0.15):
                row[D[f]] = None
    if opt and unlimited:
        if some(draw, 0.08):
            row[D["PMAX"]] = None
        if some(draw, 0.1):
            row[D["QMAX"]] = row[D["Q+"]] = None
        if some(draw, 0.1):
            row[D["QMIN"]] = row[D["Q-"]] = None
    return _scale(_fix(row), base)


@st.composite
def des_row(draw, base, opt=True, big=1.0, unlimited=True):
    row = [None] * 15
    pmax, pmin = draw(num(0.02, 0.5)) * big, -draw(num(0.02, 0.5)) * big
    row[D["PMAX"]], row[D["PMIN"]] = pmax, pmin
    qmax, qmin = draw(num(0, 0.5)) * big, -draw(num(0, 0.5)) * big
    k = draw(st.integers(0, 9))
    if k == 1:
        qmin = draw(num(0, 1)) * qmax
    elif k == 2:
        qmax = draw(num(0, 1)) * qmin
    if some(draw, 0.2):
        qmax, qmin = max(abs(qmax), abs(qmin)), -max(abs(qmax), abs(qmin))
    if some(draw, 0.2):
        row[D["PMIN"]] = pmin = -pmax
    row[D["QMAX"]], row[D["QMIN"]] = qmax, qmin
    if some(draw, 0.6):
        a, b = draw(KNEE), draw(KNEE)
        row[D["P+"]], row[D["P-"]] = a * pmax, b * pmin
        a, b = sorted([draw(num(0, 1)), draw(num(0, 1))])
        if qmax == -qmin and some(draw, 0.3):
            a, b = min(a, 1 - a), max(a, 1 - a)
        row[D["Q-"]], row[D["Q+"]] = qmin + a * (qmax - qmin), qmin + b * (qmax - qmin)
        for f in ("P+", "P-", "Q+", "Q-"):
            if opt and some(draw, 0.12):
                row[D[f]] = None
    if opt and unlimited:
        if some(draw, 0.07):
            row[D["PMAX"]] = None
        if some(draw, 0.07):
            row[D["PMIN"]] = None
        if some(draw, 0.08):
            row[D["QMAX"]] = row[D["Q+"]] = None
        if some(draw, 0.08):
            row[D["QMIN"]] = row[D["Q-"]] = None
    smin = 0.0
    k = draw(st.integers(0, 3))
    if k == 1:
        smin = None
    elif k == 2:
        smin = draw(num(0, 0.5)) * big
    row[D["SOC_MIN"]] = smin
    row[D["SOC_MAX"]] = (smin or 0.0) + draw(num(0.01, 1.0)) * big
    row[D["EFF"]] = draw(st.one_of(num(0.5, 1.0), st.sampled_from([1.0, 0.9, 0.2, 1, 0, 0.05]), st.none() if opt else st.just(0.8)))
    return _scale(_fix(row), base)


def _fix(row):
    """Remove rounding noise that would break the documented ordering of the limits."""
    g = lambda c, d: d if row[D[c]] is None else row[D[c]]
    inf = float("inf")
    des = row[D["SOC_MAX"]] is not None

    def put(c, v):
        if row[D[c]] is not None:
            row[D[c]] = v

    pmin, pmax = g("PMIN", -inf if des else 0.0), g("PMAX", inf)
    qmin, qmax = g("QMIN", -inf), g("QMAX", inf)
    put("P+", min(max(g("P+", 0), pmin), pmax))
    put("Q+", min(max(g("Q+", 0), qmin), qmax))
    put("Q-", min(max(g("Q-", 0), qmin), g("Q+", qmax)))
    if des:
        put("P-", min(max(g("P-", 0), pmin), g("P+", pmax)))
    return row


MWCOLS = ["PMAX", "PMIN", "QMAX", "QMIN", "P+", "P-", "Q+", "Q-", "SOC_MAX", "SOC_MIN"]


def _scale(row, base):
    for c in MWCOLS:
        if row[D[c]] is not None:
            row[D[c]] = row[D[c]] * base
    return row


@st.composite
def load_row(draw, base, opt=True, big=1.0):
    row = [None] * 15
    row[D["Q/P"]] = draw(st.one_of(num(-0.6, 0.6), st.sampled_from([0.2, 0, -0.3])))
    pmin = -draw(num(0.02, 0.6)) * big
    row[D["PMIN"]] = pmin
    k = draw(st.integers(0, 3))
    row[D["PMAX"]] = [0.0, None, 0.0, 0.0][k] if k != 2 else pmin * draw(num(0, 1))
    if opt and some(draw, 0.15):
        row[D["PMIN"]] = None
    return _scale(row, base)


@st.composite
def slack_row(draw, base, opt=True):
    row = [None] * 15
    if not opt or some(draw, 0.5):
        row[D["PMAX"]], row[D["PMIN"]] = draw(num(0.5, 5)), -draw(num(0.5, 5))
        row[D["QMAX"]], row[D["QMIN"]] = draw(num(0.5, 5)), -draw(num(0.5, 5))
    return _scale(row, base)


@st.composite
def network(draw, min_bus=2, max_bus=5, min_dev=1, max_dev=5, kinds=(-1, 1, 2, 3), opt=True, mesh=True, taps=True,
            shifts="small", big=1.0, rates=True, bases=BASES, x0=True, lossless=True, unlimited=True, need=(), scaled=True, alone=True):
    """A well-formed connected network.  `big` scales the device sizes (p.u.)."""
    base = draw(st.sampled_from(bases))
    if max_bus >= 4 and max_dev >= 3 and some(draw, 0.05):  # now and then a larger grid, of smaller devices
        min_bus, max_bus, max_dev, big = 4, 14, 11, 0.3 * big
    f = 1.0  # now and then a grid of much larger or smaller power than its base
    if scaled and some(draw, 0.12):
        f = draw(st.sampled_from([8.0, 4.0, 0.25]))
        big *= f
    alone = alone and min_bus == 2 and not need and some(draw, 0.02)  # now and then a slack bus alone, or no device but the slack
    n = 1 if alone else draw(st.integers(min_bus, max_bus))
    if min_dev == 1 < max_dev and not need and some(draw, 0.5 if alone else 0.01):
        min_dev = max_dev = 0
    bus_ids = draw(ids(n))
    slack = bus_ids[draw(st.integers(0, n - 1))]
    buses = []
    for i in bus_ids:
        kv = draw(st.sampled_from([132, 33, 11, 0.4, 2.5, 220, 400, 750]))
        if i == slack:
            v0 = draw(st.one_of(st.sampled_from([1.0, 1, 1.03, 0.97]), num(0.95, 1.05)))
            vmin = draw(st.sampled_from([v0, None, 0.9, 0.0])) if opt else v0
            buses.append([i, 0, kv, v0, vmin if vmin is None else min(vmin, v0)])
        else:
            if some(draw, 0.3):
                lo = draw(num(0.9, 1.05))
                hi = lo + draw(num(0, 0.05))
            else:
                hi, lo = draw(st.sampled_from([(1.1, 0.9), (1.05, 0.95), (1.0, 1.0), (2, 0)]))
            buses.append([i, 1, kv, hi, lo])
    # Spanning tree plus extra edges.
    order = draw(st.permutations(bus_ids)) if n > 2 else list(bus_ids)
    edges = []
    for k in range(1, n):
        edges.append((order[draw(st.integers(0, k - 1))], order[k]))
    if mesh and n > 2:
        for _ in range(draw(st.integers(0, 2))):
            a, b = draw(st.sampled_from(bus_ids)), draw(st.sampled_from(bus_ids))
            if a != b and (a, b) not in edges and (b, a) not in edges:
                edges.append((a, b))
    tree = len(edges) == n - 1
    rows = []
    for a, b in edges:
        if draw(st.booleans()):
            a, b = b, a
        k = draw(st.integers(0, 9))
        x = draw(num(0.01, 0.2))
        r = draw(num(0.0, 0.1))
        if k == 1 and lossless:
            r = draw(st.sampled_from([0.0, None]))
        elif k == 2 and x0:
            x, r = draw(st.sampled_from([0.0, None])), draw(num(0.01, 0.1))
        bb = draw(st.sampled_from([0.0, None, 0.02, 0.08, 0.2])) if opt else draw(st.sampled_from([0.0, 0.02, 0.2]))
        rate = None
        if rates:
            rate = draw(st.one_of(num(0.01, 1.0).map(lambda v: v * base), st.sampled_from([0.0, 32.0 * base])))
            if opt and some(draw, 0.1):
                rate = None
        tap, sh = 1.0, 0.0
        if opt and some(draw, 0.2):
            tap = None
        if opt and some(draw, 0.2):
            sh = None
        if taps and some(draw, 0.4):
            tap = draw(num(0.92, 1.08))
        if shifts != "none" and some(draw, 0.7 if shifts == "large" else 0.3):
            sh = draw(num(0, 5, 2))
            if some(draw, 0.15 if shifts == "large" else 0.3):
                sh = 360 - sh
            elif shifts != "small" and tree and some(draw, 1.0 if shifts == "large" else 0.4):
                sh = draw(num(0, 360, 1))
            elif some(draw, 0.05):
                sh = draw(st.sampled_from([360.0, 360]))
        if f != 1:
            r, x, bb = [v and round(v * g, 9) for v, g in ((r, 1 / f), (x, 1 / f), (bb, f))]
            rate = rate and rate * f
        rows.append([a, b, r, x, bb, rate, tap, sh])
    if len(rows) > 1 and some(draw, 0.5):
        rows = draw(st.permutations(rows))
    # Devices.
    m = draw(st.integers(max(min_dev, len(need)), max_dev))
    ks = list(need) + [draw(st.sampled_from(list(kinds))) for _ in range(m - len(need))]
    dev_ids = draw(ids(m + 1))
    spos = draw(st.integers(0, m))
    devs = []
    j = 0
    places = bus_ids
    if m > 2 and some(draw, 0.15):  # several devices at one bus
        places = [draw(st.sampled_from([slack] + bus_ids))] * 4 + bus_ids
    for pos in range(m + 1):
        if pos == spos:
            row = draw(slack_row(base, opt))
            row[D["BUS_ID"]], row[D["DEV_TYPE"]] = slack, 0
        else:
            t = ks[j]
            j += 1
            if t == -1:
                row = draw(load_row(base, opt, big))
            elif t == 3:
                row = draw(des_row(base, opt, big, unlimited))
            else:
                row = draw(gen_row(base, opt, big, unlimited))
            row[D["BUS_ID"]], row[D["DEV_TYPE"]] = draw(st.sampled_from(places)), t
        row[D["DEV_ID"]] = dev_ids[pos]
        devs.append(row)
    return {"base": base, "bus": buses, "branch": [list(r) for r in rows], "device": devs}


def to_network(spec):
    """The network dictionary a user would write."""
    import numpy as np

    def table(rows):
        if any(v is None for r in rows for v in r):
            return np.array(rows, dtype=object)
        return np.array(rows)

    branch = table(spec["branch"]) if spec["branch"] else np.zeros((0, 8))
    return {"baseMVA": spec["base"], "bus": table(spec["bus"]), "branch": branch, "device": table(spec["device"])}


# --- inputs -----------------------------------------------------------------------------------------------------


@st.composite
def value_around(draw, lo, hi, scale, inside_only=False, over=1.0):
    """A number relative to [lo, hi] (either may be None/inf): inside, at a limit, or beyond it."""
    a = lo if lo is not None and abs(lo) != float("inf") else None
    b = hi if hi is not None and abs(hi) != float("inf") else None
    if a is None:
        a = (b if b is not None else 0.0) - scale
    if b is None:
        b = a + 2 * scale
    k = draw(st.integers(0, 9)) if not inside_only else draw(st.integers(0, 6))
    if k <= 4:
        return a + draw(num(0, 1)) * (b - a)
    if k == 5:
        return a
    if k == 6:
        return b
    if k == 7:
        return a - draw(num(0, 1)) * scale * over
    if k == 8:
        return b + draw(num(0, 1)) * scale * over
    return 0.0


@st.composite
def inputs(draw, spec, inside_only=False, over=1.0, big=1.0):
    """Inputs of one transition: {"load": {id: MW}, "pot": {...}, "p": {...}, "q": {...}} (string keys)."""
    base = spec["base"]
    scale = 0.3 * base * big
    out = {"load": {}, "pot": {}, "p": {}, "q": {}}
    for row in spec["device"]:
        i, t = str(row[D["DEV_ID"]]), row[D["DEV_TYPE"]]
        g = lambda c: row[D[c]]
        if t == -1:
            hi = g("PMAX") if g("PMAX") is not None else 0.0
            out["load"][i] = draw(value_around(g("PMIN"), hi, scale, inside_only, over))
        elif t in (1, 2):
            pmin = g("PMIN") if g("PMIN") is not None else 0.0
            out["pot"][i] = draw(value_around(pmin, g("PMAX"), scale, inside_only, over))
            out["p"][i] = draw(value_around(pmin, g("PMAX"), scale, inside_only, over))
            out["q"][i] = draw(value_around(g("QMIN"), g("QMAX"), scale, inside_only, over))
        elif t == 3:
            out["p"][i] = draw(value_around(g("PMIN"), g("PMAX"), scale, inside_only, over))
            out["q"][i] = draw(value_around(g("QMIN"), g("QMAX"), scale, inside_only, over))
    return out


@st.composite
def coherent(draw, items):
    """A history in which, now and then, some inputs stay (almost) what they were in the step before."""
    for a, b in zip(items, items[1:]):
        if not some(draw, 0.25):
            continue
        f = draw(st.sampled_from([0.0, 0.0, 1e-4, 1e-3, 0.02]))
        keep = draw(st.lists(st.sampled_from(sorted(b)), min_size=1, max_size=len(b), unique=True))
        for k in keep:
            for i in (b[k] if isinstance(b[k], dict) else range(len(b[k]))):
                b[k][i] = a[k][i] if f == 0 else a[k][i] + f * (b[k][i] - a[k][i])
    return items


@st.composite
def charge(draw, row, dt):
    """Initial charge of a storage unit as a fraction, often one it can exactly deliver or fill in one step."""
    k = draw(st.integers(0, 7))
    if k > 3:
        return draw(num(0, 1))
    if k < 2:
        return float(k)
    lo, hi = row[D["SOC_MIN"]] or 0.0, row[D["SOC_MAX"]]
    eff = 1.0 if row[D["EFF"]] is None else row[D["EFF"]]
    p = row[D["PMAX" if k == 2 else "PMIN"]]
    if p is None or eff == 0 or hi <= lo:
        return draw(num(0, 1))
    f = p * dt / eff / (hi - lo) if k == 2 else 1 + p * dt * eff / (hi - lo)
    return min(max(f, 0.0), 1.0)


SIBLING = ["x", "b", "tap", "shift", "rate", "v0", "vlim", "limits", "qp", "eff", "move", "base", "kv", "drop", "same"]


@st.composite
def decoy(draw):
    """Another environment, of almost the same network, used next to the one under test (or None, mostly)."""
    if not some(draw, 0.18):
        return None
    return {"kind": draw(st.sampled_from(SIBLING)), "j": draw(st.integers(0, 7)), "f": draw(st.sampled_from([0.5, 1.5, 0.8, 3.0])), "first": draw(st.booleans())}


def sibling(spec, d):
    """A well-formed network which differs from `spec` in one respect."""
    import copy

    s = copy.deepcopy(spec)
    k, f = d["kind"], d["f"]
    br = s["branch"][d["j"] % len(s["branch"])] if s["branch"] else [0] * 8
    devs = [r for r in s["device"] if r[D["DEV_TYPE"]] != 0]
    dev = devs[d["j"] % len(devs)] if devs else s["device"][0]
    if k == "x":
        br[2], br[3] = br[2] and br[2] * f, br[3] and br[3] * f
    elif k == "b":
        br[4] = 0.06 * f
    elif k == "tap":
        br[6] = 1 + (f - 1.1) / 20
    elif k == "shift":
        br[7] = 4.0 * f
    elif k == "rate":
        br[5] = f * 0.2 * s["base"]
    elif k == "v0":
        for b in s["bus"]:
            if b[1] == 0:
                b[3], b[4] = 1 + (f - 1) / 30, None
    elif k == "vlim":
        for b in s["bus"]:
            if b[1] == 1:
                b[3], b[4] = 1.02, 0.99
    elif k == "limits":
        for c in MWCOLS:
            dev[D[c]] = dev[D[c]] and dev[D[c]] * f
    elif k == "qp":
        for r in devs:
            if r[D["DEV_TYPE"]] == -1:
                r[D["Q/P"]] = 0.1 * f
    elif k == "eff":
        for r in devs:
            if r[D["DEV_TYPE"]] == 3:
                r[D["EFF"]] = f / 4
    elif k == "move":
        dev[D["BUS_ID"]] = s["bus"][d["j"] % len(s["bus"])][0] if devs else dev[D["BUS_ID"]]
    elif k == "base":
        s["base"] = s["base"] * f
    elif k == "kv":
        for b in s["bus"]:
            b[2] = b[2] * f
    elif k == "drop" and len(devs) > 1:
        s["device"] = [r for r in s["device"] if r is not dev]
    return s


@st.composite
def sim_case(draw, steps=(1, 3), inside_only=False, over=1.0, lambs=(100, 1, 0, 12.5, 1000), **kw):
    """A network, a time step, initial charges (fractions) and the inputs of several transitions."""
    spec = draw(network(**kw))
    n = draw(st.integers(*steps))
    big = kw.get("big", 1.0)
    dt = draw(st.sampled_from([0.25, 1, 0.5, 1 / 12, 2.0]))
    return {
        "spec": spec,
        "dt": dt,
        "lamb": draw(st.sampled_from(list(lambs))),
        "soc": {str(r[0]): draw(charge(r, dt)) for r in spec["device"] if r[D["DEV_TYPE"]] == 3},
        "steps": draw(coherent([draw(inputs(spec, inside_only, over, big)) for _ in range(n)])),
        "decoy": draw(decoy()),
    }


# --- environments ---------------------------------------------------------------------------------------------------


@st.composite
def action_for(draw, spec, limit=0.6):
    """An action inside the action space: {"p": {id: MW}, "q": {...}} for generators and storage units."""
    S = spec["base"]
    out = {"p": {}, "q": {}}
    for r in spec["device"]:
        if r[D["DEV_TYPE"]] not in (1, 2, 3):
            continue
        des = r[D["DEV_TYPE"]] == 3
        for k, lo, hi in (("p", "PMIN", "PMAX"), ("q", "QMIN", "QMAX")):
            a, b = r[D[lo]], r[D[hi]]
            if a is None:
                a = 0.0 if (k == "p" and not des) else None
            if a is None and b is None:
                a, b = -limit * S, limit * S
            a = b - limit * S if a is None else a
            b = a + limit * S if b is None else b
            m = draw(st.integers(0, 5))
            v = a if m == 1 else b if m == 2 else a + draw(num(0, 1)) * (b - a)
            out[k][str(r[0])] = min(max(v, a), b)
    return out


@st.composite
def env_case(draw, steps=(1, 5), K=(0, 3), opt=True, over=1.0, big=1.0, **kw):
    """A scripted environment: initial vectors, next variables and actions."""
    spec = draw(network(opt=opt, big=big, **kw))
    k = draw(st.integers(*K))
    n = draw(st.integers(*steps))

    def vars_():
        inp = draw(inputs(spec, over=over, big=big))
        return {"load": inp["load"], "pot": inp["pot"], "aux": [draw(num(-5, 100, 2)) for _ in range(k)]}

    init = draw(inputs(spec, over=over, big=big))
    init["aux"] = [draw(num(-5, 100, 2)) for _ in range(k)]
    init["soc"] = {}
    dt = draw(st.sampled_from([0.25, 1, 0.5, 1 / 12]))
    for r in spec["device"]:
        if r[D["DEV_TYPE"]] == 3:
            lo, hi = r[D["SOC_MIN"]] or 0.0, r[D["SOC_MAX"]]
            init["soc"][str(r[0])] = min(lo + draw(charge(r, dt)) * (hi - lo), hi)
    return {
        "spec": spec, "K": k, "dt": dt, "lamb": draw(st.sampled_from([100, 1, 1000, 0])),
        "gamma": draw(st.sampled_from([0.9, 0.995, 0.5, 0, 1])), "init": init,
        "vars": draw(coherent([vars_() for _ in range(n)])), "actions": draw(coherent([draw(action_for(spec)) for _ in range(n)])),
        "decoy": draw(decoy()),
    }
