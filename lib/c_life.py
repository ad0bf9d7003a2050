"""C31: what values hold on to (spec/Life.tla)."""
import json


def c31(c):
    sims = c.gen_sim("GenLife", "GenLifeSim", c.pick(1500, 12000), 30)
    ss = [{"c": (40, 5000, 700)[k % 3], "back": k % 2 == 0, "ops": t} for k, t in enumerate(sims)]
    traces = c.harness("life", ss)
    c.sample(json.loads(traces[0])["ev"][:5])
    for k in ("rec", "map", "poll", "remove", "drop"):
        c.detail[k] = sum(t.count('"op":"%s"' % k) for t in traces)
    c.validate("TraceLife", traces)
