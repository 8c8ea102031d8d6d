"""C24: the web page displays the received values."""
import atexit
import json
import math
import os
import re
import shutil
import subprocess
import xml.etree.ElementTree as ET

import hypothesis.strategies as st

from .. import boot
from ..core import HarnessError, Part, Violation, check

# Elements of the drawing (network.svg) that show each quantity.
DEVICES = [
    dict(pmax="text4219", qmax="text4450", p="rect4223", q="rect4227", pt="text4267", qt="text4271", arrow="g2863"),
    dict(pmax="text1129", qmax="text4479", p="rect1121", q="rect1094", pt="text1183", qt="text1206", arrow="g2899"),
    dict(pmax="text1223", qmax="text4509", p="rect1227", q="rect1231", pt="text3968", qt="text3972", arrow="g2935", pot="rect4394"),
    dict(pmax="text3978", qmax="text4539", p="rect3982", q="rect3986", pt="text4038", qt="text4042", arrow="g3007"),
    dict(pmax="text4048", qmax="text4569", p="rect4052", q="rect4056", pt="text4081", qt="text4085", arrow="g2971", pot="rect4421"),
    dict(pmax="text4103", qmax="text4599", p="rect4107", q="rect4111", pt="text4129", qt="text4133", arrow="g3079"),
    dict(pmax="text4177", qmax="text4628", p="rect4181", q="rect4185", pt="text4201", qt="text4205", arrow="g3043"),
]
LINES = [
    dict(rect="rect1326", text="text1338", cross=["path1591", "path1593"], arrows=["g3151", "g2613"]),
    dict(rect="rect1232", text="text1324", cross=["path8986", "path8988"], arrows=["g2325", "g3115"]),
    dict(rect="rect1226", text="text1270", cross=["path1623", "path1625"], arrows=["g2541", "g2577"]),
    dict(rect="rect1272", text="text1284", cross=["path1615", "path1617"], arrows=["g2469", "g2505"]),
    dict(rect="rect1286", text="text1298", cross=["path1631", "path1633"], arrows=["g2361", "g2397", "g2433"]),
]
BUSES = [
    dict(text="text1153", cross=["path1131", "path1133"]), dict(text="text1159", cross=["path1123", "path1125"]),
    dict(text="text1165", cross=["path1105", "path1108"]), dict(text="text1077", cross=["path1098", "path1100"]),
    dict(text="text1141", cross=["path1107", "path1109"]), dict(text="text1147", cross=["path1115", "path1117"]),
]
P_HEIGHT, LINE_HEIGHT, SOC_HEIGHT, COST_WIDTH = 19.8, 24.6, 19.8, 93.8
GEN, LOAD, RED = "#31b620", "#4960fb", "#ff0000"
MONTHS = "January February March April May June July August September October November December".split()
LOADS, GENS, STORAGE = (1, 3, 5), (2, 4), 6

_page = {}


def page():
    if not _page:
        d = os.path.join(boot.REPO, "gym_anm", "envs", "anm6_env", "rendering")
        node = shutil.which("node") or "/usr/bin/node"
        if not os.path.exists(node):
            raise HarnessError("node is not installed")
        p = subprocess.Popen([node, os.path.join(boot.VERIF, "vlib", "js", "page.js"), d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, encoding="utf-8")
        atexit.register(p.kill)
        table = {}
        for e in ET.parse(os.path.join(d, "envs", "anm6", "network.svg")).iter():
            if "id" in e.attrib:
                table[e.attrib["id"]] = {k: v for k, v in e.attrib.items() if k in ("x", "y", "width", "height")}
        _page.update(proc=p, table=table)
        ask({"svg": table})
    return _page


def ask(obj):
    p = _page["proc"]
    p.stdin.write(json.dumps(obj) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    if not line:
        raise HarnessError("the page runner ended")
    return json.loads(line)


# --- generators ---------------------------------------------------------------------------------------------------------


def mag(hi=1e4):
    """Positive magnitudes over many scales, with the boundaries of the display precision."""
    return st.one_of(st.integers(1, 400).map(float), st.floats(0.01, hi), st.sampled_from([1.0, 10.0, 30.0, 100.0, 33.3]))


def rel(cap=None):
    """Value relative to its maximum."""
    o = [st.sampled_from([0.0, 1.0, 1 + 1e-6, 1 - 1e-6, 0.5]), st.floats(0, 1), st.floats(0, 0.02)]
    if cap is None:
        o += [st.floats(1, 3), st.sampled_from([1.5, 200.0])]
    return st.one_of(*o)


@st.composite
def cases(draw):
    init = {
        "deviceType": [0, -1, draw(st.sampled_from([1, 2])), -1, draw(st.sampled_from([1, 2])), -1, 3],
        "pMax": [draw(mag()) for _ in range(7)], "qMax": [draw(mag()) for _ in range(7)], "sRate": [draw(mag()) for _ in range(5)],
        "vMagnMin": [draw(st.sampled_from([0.9, 0.95, 1.0, 1.03])) for _ in range(6)], "vMagnMax": [draw(st.sampled_from([1.03, 1.04, 1.1, 1.05])) for _ in range(6)],
        "socMax": [draw(mag())], "title": draw(st.sampled_from(["ANM6Easy", "MyGrid"])), "energyLossMax": draw(mag()), "penaltyMax": draw(mag(1e6)),
    }
    ups = []
    sign = st.sampled_from([1, 1, -1])
    for _ in range(draw(st.integers(1, 4))):
        u = {"p": [], "q": [draw(sign) * draw(rel()) for _ in range(7)], "s": [draw(sign) * draw(rel()) for _ in range(5)], "pot": [], "soc": draw(rel(1))}
        for i in range(7):
            x = draw(rel())
            if i in GENS:
                x = min(x, 1.0)
                u["pot"].append(draw(st.one_of(st.just(x), st.floats(x, 1), st.just(1.0))))
            else:
                x *= draw(sign)
            u["p"].append(x)
        u["v"] = [draw(st.one_of(st.sampled_from(["min", "max", "below", "above"]), st.floats(0.5, 1.5), st.sampled_from([0.0, 1.0]))) for _ in range(6)]
        u["time"] = [draw(st.integers(1, 12)), draw(st.integers(1, 31)), draw(st.integers(0, 23)), draw(st.one_of(st.integers(0, 59), st.sampled_from([0, 9, 10, 15])))]
        u["year"] = draw(st.one_of(st.integers(0, 3), st.integers(4, 3000)))
        u["cost"] = [draw(sign) * draw(rel()), draw(rel())]
        u["collapsed"] = draw(st.sampled_from([False, False, True]))
        ups.append(u)
    return {"init": init, "updates": ups}


def message(init, u):
    v = []
    for x, lo, hi in zip(u["v"], init["vMagnMin"], init["vMagnMax"]):
        v.append({"min": lo, "max": hi, "below": lo - 1e-6, "above": hi + 1e-6}.get(x, x))
    return {
        "messageLabel": "update", "time": u["time"], "yearCount": u["year"],
        "pInjections": [a * b for a, b in zip(u["p"], init["pMax"])], "qInjections": [a * b for a, b in zip(u["q"], init["qMax"])],
        "sFlows": [a * b for a, b in zip(u["s"], init["sRate"])], "socStorage": [u["soc"] * init["socMax"][0]],
        "pPotential": [a * init["pMax"][i] for a, i in zip(u["pot"], GENS)], "vMagn": v,
        "reward": [u["cost"][0] * init["energyLossMax"], u["cost"][1] * init["penaltyMax"]], "networkCollapsed": u["collapsed"],
    }


# --- judgement ------------------------------------------------------------------------------------------------------------

NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


class Shot:
    def __init__(self, shot):
        self.s = shot

    def el(self, i):
        return self.s.get(i) or {"text": None, "attrs": _page["table"].get(i, {}), "style": {}, "rot": [], "box": None}

    def text(self, i):
        t = self.el(i)["text"]
        return None if t is None else t.strip()

    def attr(self, i, k):
        try:
            return float(self.el(i)["attrs"][k])
        except (KeyError, TypeError, ValueError):
            return math.nan

    def style(self, i, k):
        x = self.el(i)["style"].get(k, self.el(i)["attrs"].get(k))
        return None if x is None else str(x).lower()


def digits(v):
    """Accuracy with which a value is displayed."""
    a = abs(v)
    if a == 0:
        return 1e-12
    sig = 1 if a > 1e10 or a < 0.1 else 2 if a >= 1000 or a < 1 else 3
    return 0.5000001 * 10.0 ** (math.floor(math.log10(a)) - sig + 1)


def number(text, what, want, tol, before="", after=""):
    m = NUM.search((text or "").replace("\u2212", "-"))
    check(m is not None, "%s: no number in %r", what, text)
    got = float(m.group(0))
    check(abs(got - want) <= tol, "%s: shows %r for %r", what, text, want)
    check(text[:m.start()].strip() == before and text[m.end():].strip() == after, "%s: shows %r instead of a number with %r and %r", what, text, before, after)


def near(got, want, what, tol=1e-6):
    check(abs(got - want) <= tol * max(1, abs(want)), "%s: %r, expected %r", what, got, want)


def colour(got, want, what):
    check(got == want, "%s: colour %r, expected %r", what, got, want)


def crosses(s, ids, shown, what):
    for i in ids:
        colour(s.style(i, "stroke"), RED if shown else "none", what)


def turned(s, i, angle, what):
    e = s.el(i)
    check(sum(r[0] for r in e["rot"]) % 360 == angle, "%s: turned by %r, expected %d", what, e["rot"], angle)
    b = e["box"]
    for a, x, y in e["rot"]:
        if a % 360:
            check(abs(x - b["x"] - b["width"] / 2) < 1e-6 and abs(y - b["y"] - b["height"] / 2) < 1e-6, "%s: not turned about its centre", what)


def judge_init(s, init):
    for i, d in enumerate(DEVICES):
        number(s.text(d["pmax"]), "maximum P of device %d" % i, init["pMax"][i], 0.5000001)
        number(s.text(d["qmax"]), "maximum Q of device %d" % i, init["qMax"][i], 0.5000001)
    number(s.text("text1215"), "capacity", init["socMax"][0], 1e-9 * init["socMax"][0])
    number(s.text("text3022"), "energy cost range", init["energyLossMax"], 1e-9 * init["energyLossMax"])
    number(s.text("text2992"), "penalty range", init["penaltyMax"], 1e-9 * init["penaltyMax"])
    check(s.text("text5968") == init["title"], "title: %r", s.text("text5968"))
    for l, d in enumerate(LINES):
        crosses(s, d["cross"], False, "cross of line %d before any update" % l)
    for b, d in enumerate(BUSES):
        crosses(s, d["cross"], False, "cross of bus %d before any update" % b)


def judge(ctx, s, init, u, m):
    for i, d in enumerate(DEVICES):
        p, q, pm, qm = m["pInjections"][i], m["qInjections"][i], init["pMax"][i], init["qMax"][i]
        w = "P of device %d" % i
        number(s.text(d["pt"]), w, p, digits(p), "", "MW")
        number(s.text(d["qt"]), "Q of device %d" % i, q, digits(q), "", "MVAr")
        h = P_HEIGHT * min(1, abs(p) / pm)
        near(s.attr(d["p"], "height"), h, "bar of " + w)
        near(s.attr(d["q"], "height"), P_HEIGHT * min(1, abs(q) / qm), "bar of Q of device %d" % i)
        if p != 0:
            colour(s.style(d["p"], "fill"), GEN if p > 0 else LOAD, w)
        if q != 0:
            colour(s.style(d["q"], "fill"), GEN if q > 0 else LOAD, "Q of device %d" % i)
        if "pot" in d:
            pot = m["pPotential"][GENS.index(i)]
            near(s.attr(d["pot"], "height"), max(0.0, P_HEIGHT * pot / pm - h) if pot > p else 0.0, "curtailed potential of device %d" % i)
            if pot > p:
                near(s.attr(d["pot"], "y") - float(_page["table"][d["pot"]]["y"]), h, "place of the curtailed potential of device %d" % i)
                ctx.event("curtailed")
        if p != 0:
            turned(s, d["arrow"], 180 if (p > 0) == (i in LOADS) else 0, "arrow of device %d with P %r" % (i, p))
    for l, d in enumerate(LINES):
        f, r = m["sFlows"][l], init["sRate"][l]
        pc = 100 * abs(f) / r
        w = "loading of line %d (%r of %r)" % (l, f, r)
        number(s.text(d["text"]), w, pc, digits(pc) * 1.001, "", "%")
        near(s.attr(d["rect"], "height"), LINE_HEIGHT * min(1, abs(f) / r), "bar of " + w)
        x = u["s"][l]
        # Exactly at 100 % only where floating-point rounding cannot decide.
        if abs(abs(x) - 1) > 5e-7 or (abs(x) == 1 and 100 * r / r == 100 and r * (100 / r) == 100):
            crosses(s, d["cross"], abs(x) > 1, "cross on line %d loaded at %r %%" % (l, 100 * abs(x)))
            if abs(x) > 1:
                ctx.event("overload")
            elif abs(x) == 1:
                ctx.event("exactly at the rating")
        if re.fullmatch("#[0-9a-f]{6}", s.style(d["rect"], "fill") or "") is None:
            raise Violation("bar of %s: colour %r" % (w, s.style(d["rect"], "fill")))
        if f != 0:
            for a in d["arrows"]:
                turned(s, a, 180 if f < 0 else 0, "arrow of line %d with flow %r" % (l, f))
    for b, d in enumerate(BUSES):
        v, lo, hi = m["vMagn"][b], init["vMagnMin"][b], init["vMagnMax"][b]
        number(s.text(d["text"]), "voltage of bus %d" % b, v, digits(v), "|V| =", "pu")
        crosses(s, d["cross"], v < lo or v > hi, "cross on bus %d with |V| %r in [%r, %r]" % (b, v, lo, hi))
        if v < lo or v > hi:
            ctx.event("voltage violation")
    soc = m["socStorage"][0]
    number(s.text("text4215"), "storage level", soc, digits(soc), "", "MWh")
    near(s.attr("rect1607", "height"), SOC_HEIGHT * soc / init["socMax"][0], "storage bar")
    e, c = m["reward"]
    number(s.text("text3028"), "energy cost", e, 0.00500001 + 1e-9 * abs(e))
    number(s.text("text3034"), "penalty", c, 0.00500001 + 1e-9 * abs(c))
    near(s.attr("rect5879", "width"), COST_WIDTH * min(1, abs(e) / init["energyLossMax"]), "energy cost bar")
    near(s.attr("rect5903", "width"), COST_WIDTH * min(1, c / init["penaltyMax"]), "penalty bar")
    if e != 0:
        colour(s.style("rect5879", "fill"), RED if e > 0 else GEN, "energy cost bar with cost %r" % e)
    colour(s.style("rect5903", "fill"), RED, "penalty bar")
    mo, day, hh, mm = m["time"]
    check(s.text("tspan5951") == "%s %d" % (MONTHS[mo - 1], day), "date: shows %r for %r", s.text("tspan5951"), m["time"])
    check(s.text("tspan5955") == "%02d:%02d" % (hh, mm), "time: shows %r for %r", s.text("tspan5955"), m["time"])
    check(s.text("tspan1071") == "Year count: %d" % m["yearCount"], "year count: shows %r for %r", s.text("tspan1071"), m["yearCount"])
    check(s.text("text6301") == ("\u2713" if m["networkCollapsed"] else ""), "collapse mark: shows %r for %r", s.text("text6301"), m["networkCollapsed"])
    if m["networkCollapsed"]:
        ctx.event("collapsed")


def body(ctx, case):
    page()
    init = case["init"]
    msgs = [message(init, u) for u in case["updates"]]
    r = ask({"messages": [json.dumps(dict(init, messageLabel="init"))] + [json.dumps(m) for m in msgs]})
    if r.get("error"):
        raise Violation("the page failed: %s" % r["error"])
    judge_init(Shot(r["shots"][0]), init)
    for u, m, shot in zip(case["updates"], msgs, r["shots"][1:]):
        judge(ctx, Shot(shot), init, u, m)
    if len(msgs) > 1 or any(abs(x) > 0 for x in case["updates"][0]["p"]):
        ctx.nontrivial()
    ctx.event("updates", len(msgs))


PARTS = [
    Part("messages", cases(), body, quick=2600, thorough=60000, rule="at least one update with a non-zero injection, or several updates"),
]
