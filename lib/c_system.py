"""C35: content through all layers (spec/System.tla)."""
import json


def c35(c):
    sims = c.gen_sim("GenSystem", "GenSystem", c.pick(1200, 10000), 40)
    ss = [{"c": (40, 700, 8, 5000, 700, 20000)[k % 6], "ops": t} for k, t in enumerate(sims)]
    traces = c.harness("system", ss)
    seen = {}
    for t in traces:
        for e in json.loads(t)["ev"]:
            k = " ".join((e["op"], e.get("how", ""), e.get("r", ""), e.get("p", {}).get("s", ""), e.get("p", {}).get("k", "")))
            seen[k] = seen.get(k, 0) + 1
    c.detail["steps"] = seen
    c.sample(json.loads(traces[0])["ev"][:3])
    c.validate("TraceSystem", traces)
