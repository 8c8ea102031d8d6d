"""Reference models, written from the documentation and independent of gym_anm's code."""
import math

import numpy as np

from .netgen import B, D, R

INF = float("inf")


class Dev:
    pass


class Branch:
    pass


class Bus:
    pass


class Net:
    """A parsed network specification; every quantity in per-unit."""

    def __init__(self, spec):
        self.base = S = spec["base"]
        self.bus, self.dev, self.branches = {}, {}, []
        for r in sorted(spec["bus"], key=lambda r: r[B["BUS_ID"]]):
            b = Bus()
            b.id, b.kv, b.slack = int(r[0]), r[2], r[1] == 0
            b.vmax = r[3]
            b.vmin = r[4] if r[4] is not None else r[3]
            self.bus[b.id] = b
        self.bus_ids = list(self.bus)
        self.slack_bus = [b.id for b in self.bus.values() if b.slack][0]
        self.v0 = float(self.bus[self.slack_bus].vmax)
        self.pos = {i: k for k, i in enumerate(self.bus_ids)}
        for r in spec["branch"]:
            e = Branch()
            g = lambda c, d: d if r[R[c]] is None else r[R[c]]
            e.f, e.t = int(r[0]), int(r[1])
            e.y = 1 / complex(g("BR_R", 0), g("BR_X", 0))
            e.r, e.x = g("BR_R", 0), g("BR_X", 0)
            e.ysh = 1j * g("BR_B", 0) / 2
            e.rate = g("RATE", INF) / S
            a = g("SHIFT", 0) * math.pi / 180
            e.tap = g("TAP", 1) * complex(math.cos(a), math.sin(a))
            # [I_f; I_t] = M [V_f; V_t]
            e.M = np.array([[(e.y + e.ysh) / abs(e.tap) ** 2, -e.y / np.conj(e.tap)], [-e.y / e.tap, e.y + e.ysh]])
            self.branches.append(e)
        for r in sorted(spec["device"], key=lambda r: r[0]):
            d = Dev()
            g = lambda c: r[D[c]]
            pu = lambda c: None if r[D[c]] is None else r[D[c]] / S
            d.id, d.bus, d.type = int(g("DEV_ID")), int(g("BUS_ID")), int(g("DEV_TYPE"))
            d.slack = d.type == 0
            d.qp = g("Q/P")
            d.pmax, d.pmin, d.qmax, d.qmin = pu("PMAX"), pu("PMIN"), pu("QMAX"), pu("QMIN")
            if d.type == -1:
                d.pmax = 0.0 if d.pmax is None else d.pmax
                d.pmin = -INF if d.pmin is None else d.pmin
                if d.qp == 0:
                    d.qmin = d.qmax = 0.0
                else:
                    d.qmin, d.qmax = sorted([d.qp * d.pmin, d.qp * d.pmax])
            else:
                d.pmax = INF if d.pmax is None else d.pmax
                d.pmin = ((-INF if d.type in (0, 3) else 0.0) if d.pmin is None else d.pmin)
                d.qmax = INF if d.qmax is None else d.qmax
                d.qmin = -INF if d.qmin is None else d.qmin
                d.pp, d.pm, d.qp_, d.qm = pu("P+"), pu("P-"), pu("Q+"), pu("Q-")
                d.pp = d.pmax if d.pp is None else d.pp
                d.pm = d.pmin if d.pm is None else d.pm
                d.qp_ = d.qmax if d.qp_ is None else d.qp_
                d.qm = d.qmin if d.qm is None else d.qm
            if d.type == 3:
                d.smax = pu("SOC_MAX")
                d.smin = pu("SOC_MIN") or 0.0
                d.eff = 1.0 if g("EFF") is None else g("EFF")
            self.dev[d.id] = d
        self.dev_ids = list(self.dev)
        self.loads = [i for i, d in self.dev.items() if d.type == -1]
        self.gens = [i for i, d in self.dev.items() if d.type in (1, 2)]
        self.rer = [i for i, d in self.dev.items() if d.type == 2]
        self.des = [i for i, d in self.dev.items() if d.type == 3]
        self.slack_dev = [i for i, d in self.dev.items() if d.type == 0][0]

    def Y(self):
        n = len(self.bus_ids)
        Y = np.zeros((n, n), complex)
        for e in self.branches:
            k = [self.pos[e.f], self.pos[e.t]]
            Y[np.ix_(k, k)] += e.M
        return Y


# --- operating regions --------------------------------------------------------------------------------------------


def line_cap(p1, q1, p2, q2):
    """Coefficients (m, c) of the line q = m p + c through two points; None if it does not restrict anything."""
    if p1 == p2 or q1 == q2 or any(abs(v) == INF for v in (p1, q1, p2, q2)):
        return None
    m = (q2 - q1) / (p2 - p1)
    return m, q1 - m * p1


def gen_region(d, pot):
    """Half-planes (a, b, c): a p + b q <= c of a generator with potential `pot`."""
    h = [(-1, 0, -d.pmin), (1, 0, d.pmax), (1, 0, pot), (0, -1, -d.qmin), (0, 1, d.qmax)]
    up = line_cap(d.pp, d.qmax, d.pmax, d.qp_)
    lo = line_cap(d.pp, d.qmin, d.pmax, d.qm)
    if up:
        h.append((-up[0], 1, up[1]))
    if lo:
        h.append((lo[0], -1, -lo[1]))
    return h


def des_region(d, soc, dt):
    h = [(-1, 0, -d.pmin), (1, 0, d.pmax), (0, -1, -d.qmin), (0, 1, d.qmax)]
    for pk, pe in ((d.pp, d.pmax), (d.pm, d.pmin)):
        up = line_cap(pk, d.qmax, pe, d.qp_)
        lo = line_cap(pk, d.qmin, pe, d.qm)
        if up:
            h.append((-up[0], 1, up[1]))
        if lo:
            h.append((lo[0], -1, -lo[1]))
    # Charging at power P for dt stores eff*P*dt; discharging P takes P*dt/eff from the storage.
    if d.eff > 0:
        h.append((-1, 0, (d.smax - soc) / (d.eff * dt)))
    h.append((1, 0, (soc - d.smin) * d.eff / dt))
    return h


def project(halfplanes, pt):
    """Exact Euclidean projection on a convex polygon: the point, its projections on edges, or the vertices."""
    h = [(a, b, c) for a, b, c in halfplanes if c != INF]
    hn = []
    for a, b, c in h:
        n = math.hypot(a, b)
        hn.append((a / n, b / n, c / n))
    p, q = pt
    scale = 1 + max([abs(c) for _, _, c in hn] + [0])
    scale = min(scale, 1 + max(abs(p), abs(q), 10))
    tol = 1e-10 * scale

    def ok(x, y):
        return all(a * x + b * y <= c + tol * (1 + abs(c)) for a, b, c in hn)

    if all(a * p + b * q <= c for a, b, c in hn):
        return (p, q), "inside"
    best, kind = None, None
    cand = []
    for a, b, c in hn:
        t = a * p + b * q - c
        cand.append((p - t * a, q - t * b, "edge"))
    for i in range(len(hn)):
        for j in range(i):
            a, b, c = hn[i]
            e, f, g = hn[j]
            det = a * f - b * e
            if abs(det) < 1e-12:
                continue
            cand.append(((c * f - b * g) / det, (a * g - c * e) / det, "vertex"))
    for x, y, k in cand:
        if ok(x, y):
            d = math.hypot(x - p, y - q)
            if best is None or d < best[0] - 1e-15:
                best, kind = (d, x, y), k
    if best is None:
        raise RuntimeError("empty region %r" % (halfplanes,))
    return (best[1], best[2]), kind


def clip(x, lo, hi):
    return max(lo, min(hi, x))


def soc_step(d, soc, p, dt):
    """Exact storage dynamics for an applied injection p (p.u.)."""
    if d.eff == 0:  # nothing is ever stored, nothing can be delivered
        return soc
    return soc - dt * p / d.eff if p > 0 else soc - dt * p * d.eff


# --- network equations --------------------------------------------------------------------------------------------


def solve_pf(net, P, Q, v0=None, steps=1, tol=1e-11):
    """Reference load flow (polar Newton on a dense matrix).  P, Q: {bus: p.u.} for the non-slack buses.

    Returns V (by bus order) or None."""
    Y = net.Y()
    n = len(net.bus_ids)
    s = net.pos[net.slack_bus]
    ns = [k for k in range(n) if k != s]
    S = np.array([complex(P.get(i, 0.0), Q.get(i, 0.0)) for i in net.bus_ids])
    V = np.full(n, net.v0, complex) if v0 is None else np.array(v0, complex)
    for lam in np.linspace(0, 1, steps + 1)[1:] if steps > 1 else [1.0]:
        for _ in range(60):
            I = Y @ V
            mis = (V * np.conj(I) - lam * S)[ns]
            F = np.concatenate([mis.real, mis.imag])
            if not np.all(np.isfinite(F)):
                return None
            if len(F) == 0 or np.max(np.abs(F)) < tol:
                break
            dVm = np.diag(V) @ np.conj(Y @ np.diag(V / np.abs(V))) + np.diag(np.conj(I)) @ np.diag(V / np.abs(V))
            dVa = 1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V))
            J = np.block([[dVa[np.ix_(ns, ns)].real, dVm[np.ix_(ns, ns)].real], [dVa[np.ix_(ns, ns)].imag, dVm[np.ix_(ns, ns)].imag]])
            try:
                dx = np.linalg.solve(J, -F)
            except np.linalg.LinAlgError:
                return None
            va, vm = np.angle(V), np.abs(V)
            va[ns] += dx[: n - 1]
            vm[ns] += dx[n - 1:]
            V = vm * np.exp(1j * va)
        else:
            return None
    return V


def power_at(net, V):
    """Complex power drawn from each bus into the network (by bus order)."""
    return V * np.conj(net.Y() @ V)


def branch_quantities(net, V):
    out = {}
    for e in net.branches:
        vf, vt = V[net.pos[e.f]], V[net.pos[e.t]]
        i_f, i_t = e.M @ np.array([vf, vt])
        out[(e.f, e.t)] = (i_f, i_t, vf * np.conj(i_f), vt * np.conj(i_t))
    return out


# --- bounds -------------------------------------------------------------------------------------------------------

UNITS = {  # documented units, default first
    "bus_p": ("MW", "pu"), "bus_q": ("MVAr", "pu"), "bus_v_magn": ("pu", "kV"), "bus_v_ang": ("degree", "rad"),
    "bus_i_magn": ("pu", "kA"), "bus_i_ang": ("degree", "rad"), "dev_p": ("MW", "pu"), "dev_q": ("MVAr", "pu"),
    "des_soc": ("MWh", "pu"), "gen_p_max": ("MW", "pu"), "branch_p": ("MW", "pu"), "branch_q": ("MVAr", "pu"),
    "branch_s": ("MVA", "pu"), "branch_i_magn": ("pu",), "branch_i_ang": ("degree", "rad"),
}


def elements(net, q):
    """The IDs of the elements that have quantity q, in documented order."""
    if q.startswith("bus"):
        return list(net.bus_ids)
    if q.startswith("dev"):
        return list(net.dev_ids)
    if q == "des_soc":
        return list(net.des)
    if q == "gen_p_max":
        return list(net.gens)
    return [(e.f, e.t) for e in net.branches]


def bounds(net, q, i, unit):
    """Declared (lower, upper) bound of quantity q of element i."""
    S = net.base
    f = 1 if unit == "pu" else S
    if q in ("bus_p", "bus_q"):
        ds = [d for d in net.dev.values() if d.bus == i]
        a, b = ("pmin", "pmax") if q == "bus_p" else ("qmin", "qmax")
        return sum(getattr(d, a) for d in ds) * f, sum(getattr(d, b) for d in ds) * f
    if q in ("dev_p", "dev_q"):
        d = net.dev[i]
        return ((d.pmin, d.pmax) if q == "dev_p" else (d.qmin, d.qmax))[0] * f, ((d.pmin, d.pmax) if q == "dev_p" else (d.qmin, d.qmax))[1] * f
    if q == "des_soc":
        return net.dev[i].smin * f, net.dev[i].smax * f
    if q == "gen_p_max":
        return net.dev[i].pmin * f, net.dev[i].pmax * f
    if q == "bus_v_magn" and i == net.slack_bus:
        v = net.v0 * (1 if unit == "pu" else net.bus[i].kv)
        return v, v
    if q == "bus_v_ang" and i == net.slack_bus:
        return 0.0, 0.0
    if q.endswith("_ang"):
        return (-180.0, 180.0) if unit == "degree" else (-math.pi, math.pi)
    return -INF, INF


def same_bound(a, b):
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-9)  # an infinite bound only equals itself


def reward_parts(net, state, dt, lamb):
    """Energy loss and penalty recomputed from a full state."""
    P = state["dev_p"]["pu"]
    e = sum(P[i] for i, d in net.dev.items() if d.type != 3) + sum(max(0.0, state["gen_p_max"]["pu"][i] - P[i]) for i in net.rer)
    over = 0.0
    for b, bus in net.bus.items():
        v = state["bus_v_magn"]["pu"][b]
        over += max(0.0, v - bus.vmax, bus.vmin - v)
    for br in net.branches:
        over += max(0.0, abs(state["branch_s"]["pu"][(br.f, br.t)]) - br.rate)
    return e * dt, over * dt * lamb
