"""C03, C04 (and the reading part of C05): spec/ReadFrom.tla."""
import json

import huge


def configs(c, small, large):
    s = [json.loads(l[0]) for l in c.gen_lines("GenReadFrom", "GenReadFrom_small", "GEN")]
    b = [json.loads(l[0]) for l in c.gen_lines("GenReadFrom", "GenReadFrom_large", "GEN")]
    # A source of single bytes into real buffers makes endless traces.
    c.detail["configurations"] = {"small": len(s), "large": len(b)}
    s = s if small is None or small >= len(s) else c.rng.sample(s, small)
    top = [x for x in b if x["M"] >= 1 << 30]
    b = b if large is None or large >= len(b) else top + c.rng.sample([x for x in b if x["M"] < 1 << 30], large)
    return s, b


def check(c, pid):
    c.model_check("ReadFromAlg")
    s, b = configs(c, c.pick(6000, None), c.pick(1500, None))
    nodir = [dict(x, nodir=True) for x in c.rng.sample(s, 200)]
    traces = c.harness("readfrom", s + b + nodir)
    c.sample(json.loads(traces[0]))
    c.validate("TraceReadFrom", traces, env={"FOCUS": pid})


def c03(c):
    check(c, "C03")
    huge.run(c, "C03", "limit", 12, 60)


def c04(c):
    check(c, "C04")
