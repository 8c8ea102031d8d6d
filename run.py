#!/usr/bin/env python
"""Run the check of one property:  run.py C01 [quick|thorough]   or   run.py --replay FILE

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2/3: error of the check itself.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY=tempfile.gettempdir())
    e.pop("PYTHONPATH", None)
    return e


def known_findings(prop):
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return [k for k in json.load(f)["known"] if k["property"] == prop]


def replay(path):
    from vlib import boot

    boot.setup()
    import importlib
    from vlib import core

    with open(path) as f:
        r = json.load(f)
    mod = importlib.import_module("vlib.props." + r["property"].lower())
    part = [p for p in mod.PARTS if p.name == r["part"]][0]
    try:
        with core.time_limit():
            core.judge(part, core.Ctx("quick", 0), r["case"])
    except core.Hang:
        print("no answer within %d s" % core.CASE_SECONDS)
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    except core.Violation as e:
        print("reproduced: %s" % e)
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("not reproduced (property holds on this case)")
    return 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    nsh = int(os.environ.get("VERIF_SHARDS", "8"))
    budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "3000"))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    procs = []
    failed, errors, results = None, [], []
    try:
        for i in range(nsh):
            out = os.path.join(tmp, "r%d.json" % i)
            log = open(os.path.join(tmp, "l%d.txt" % i), "w")
            p = subprocess.Popen([PY, os.path.join(HERE, "vlib", "worker.py"), prop, tier, str(seed), str(i), str(nsh),
                                  str(t0 + budget), out], env=env(), cwd=tmp, stdout=log, stderr=subprocess.STDOUT,
                                 start_new_session=True)
            procs.append((p, out, log))
        pending = list(range(nsh))
        hard = t0 + budget + 240
        while pending and failed is None:
            for i in list(pending):
                p, out, log = procs[i]
                if p.poll() is None:
                    continue
                pending.remove(i)
                if not os.path.exists(out):
                    log.flush()
                    errors.append("worker %d died (rc=%s): %s" % (i, p.returncode, open(log.name).read()[-2000:]))
                    continue
                for r in json.load(open(out)):
                    if r.get("error"):
                        errors.append("part %s: %s" % (r["part"], r["error"]))
                        continue
                    results.append(r)
                    if r["fail"] and failed is None:
                        failed = r["fail"]
            if time.time() > hard:
                errors.append("timeout: workers %s still running" % pending)
                break
            time.sleep(0.05)
    finally:
        import signal

        for p, _, log in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
            log.close()
        shutil.rmtree(tmp, ignore_errors=True)

    from vlib import evidence

    evidence.write(HERE, prop, tier, seed, results, failed, time.time() - t0)
    for k in known_findings(prop):
        if any(k["key"] in r["known"] for r in results):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if failed:
        d = os.path.join(HERE, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s_%s_seed%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(failed, f, indent=1)
        print("%s [%s]: %s" % (prop, failed["part"], failed["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        print("CHECK ERROR in %s:\n%s" % (prop, "\n".join(e[:3000] for e in errors[:3])))
        return 3
    ev = sum(r["evaluations"] for r in results)
    sk = sum(r["skipped"] for r in results)
    print("%s %s: held on %d cases%s in %.1f s" % (prop, tier, ev, " (%d skipped at the time limit)" % sk if sk else "", time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
