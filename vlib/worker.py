"""One worker process: runs its shard of every part of a property."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import boot

boot.setup()
import importlib
import traceback
from vlib import core


def main():
    prop, tier, seed, shard, nshards, deadline, out = sys.argv[1:8]
    seed, shard, nshards, deadline = int(seed), int(shard), int(nshards), float(deadline)
    results = []
    try:
        mod = importlib.import_module("vlib.props." + prop.lower())
        for part in mod.PARTS:
            ns = min(nshards, part.shards or nshards)
            if shard >= ns:
                continue
            r = core.run_part(prop, part, tier, seed, shard, ns, deadline)
            results.append(r)
            if r.get("error") or r.get("fail"):
                break
    except Exception:
        results.append({"part": "?", "error": traceback.format_exc()})
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(results, f, default=core.jdefault)
    os.rename(tmp, out)


main()
