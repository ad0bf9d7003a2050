"""C11: damaged archives (spec/BarcParse.tla). C30: their layout (spec/BarcFormat.tla)."""
import json

import huge


def c11(c):
    nb = c.pick(12, 30)
    lines = c.gen_lines("GenParse", "GenParse", "GEN", env={"SEED": str(c.seed % 1000), "NUM": str(nb)},
                        heap="6g")
    scripts = [json.loads(l[0]) for l in lines]
    c.log("%d damaged archives" % len(scripts))
    whole = [s for s in scripts if not s["m"]]
    trunc = [s for s in scripts if len(s["m"]) == 1 and s["m"][0]["k"] == "trunc"]
    field = [s for s in scripts if len(s["m"]) == 1 and s["m"][0]["k"] == "field"]
    rest = [s for s in scripts if s["m"] and (len(s["m"]) > 1 or s["m"][0]["k"] not in ("trunc", "field"))]
    n = c.pick(5000, 60000)
    pick = whole + trunc + field + c.rng.sample(rest, min(n, len(rest)))
    pick += [{"mode": "many", "n": k, "gz": z} for z in (False, True)
             for k in (1, 127, 128, 129, 20000, 24575, 24576, 24577, 32768, 40000)]
    traces = c.harness("parse", pick)
    c.sample([e for e in json.loads(traces[-1])["ev"]][:3])
    c.detail["reads"] = sum(t.count('"op":"read"') for t in traces)
    c.detail["records"] = sum(t.count('"k":"rec"') for t in traces)
    c.detail["errors"] = sum(t.count('"k":"err"') for t in traces)
    c.validate("TraceParse", traces)


def c30(c):
    lines = c.gen_lines("GenFormat", "GenFormat", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(900, 3000))})
    ss = [json.loads(l[0]) for l in lines]
    traces = c.harness("format", ss)
    c.sample(json.loads(traces[0])["ev"][:1])
    for k in ("written", "read", "part"):
        c.detail[k] = sum(t.count('"op":"%s"' % k) for t in traces)
    c.validate("TraceFormat", traces)
    huge.run(c, "C30", "laid", 40, 300)
    huge.run(c, "C30", "write", 4, 30)
