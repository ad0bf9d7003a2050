"""C01, C02, C05: bodies (spec/Body.tla)."""
import json

import huge


def strip(events):
    """Operations only: results are for the implementation to give."""
    drop = ("ok", "flt", "obs", "got", "contig", "m")
    return [{k: v for k, v in e.items() if k not in drop} for e in events]


SIZES = [1, 2, 7, 1000, 4096, 70000]


def scripts(tours, sims):
    res = []
    for k, t in enumerate(tours):
        res.append({"c": (1, 1, 5)[k % 3], "outmax": k % 3, "ops": strip(t)})
    for k, t in enumerate(sims):
        s = SIZES[k % len(SIZES)]
        res.append({"c": s, "outmax": (0, 1, 13)[k % 3] if s < 100 else (0, 3000)[k % 2],
                    "ops": strip(t)})
    return res


def puts(c, num):
    """Bodies of many writes of different sizes"""
    lines = c.gen_lines("GenPuts", "GenPuts", "GEN", env={"SEED": str(c.seed % 1000), "NUM": str(num)})
    return [json.loads(l[0]) for l in lines]


def c01(c):
    c.model_check("MCBody")
    tours = c.gen_edges("GenBody", c.pick("GenBodyEdge", "GenBodyEdgeT"))
    sims = c.gen_sim("GenBody", "GenBodySim", c.pick(150, 1500), 30)
    traces = c.harness("body", scripts(tours, sims) + puts(c, c.pick(400, 4000)))
    c.sample(json.loads(traces[0])["ev"][:6])
    c.validate("TraceBody", traces)
    huge.run(c, "C01", "img", 12, 60)


def c02(c):
    c.model_check("MCBody")
    # Interleaved use from one thread: two readers/clones of one image
    tours = c.gen_edges("GenBody", "GenBodyEdgeR")
    sims = c.gen_sim("GenBody", "GenBodySim", c.pick(60, 600), 30, seed=c.seed + 77)
    traces = c.harness("body", scripts(tours, sims))
    c.validate("TraceBody", traces)
    # and from several at once
    pars = c.gen_sim("GenBodyPar", "GenBodyPar", c.pick(300, 3000), 75)
    ps = []
    for k, h in enumerate(pars):
        ops = [{"t": x["t"], "e": strip([x["e"]])[0]} for x in h]
        ps.append({"c": (3, 1000, 40000)[k % 3], "par": True, "seed": c.seed * 1000 + k + 1, "ops": ops})
    traces = c.harness("body", ps, tag="par", jobs=3)
    c.sample(json.loads(traces[0])["ev"][:6])
    c.validate("TraceBody", traces, cfg="TraceBodyPar")


def c05(c):
    c.model_check("MCBody")
    c.model_check("ReadFromAlg")
    # Every system call of these behaviours fails, is interrupted, is cut short
    tours = c.gen_edges("GenBody", "GenBodyEdgeF")
    sims = c.gen_sim("GenBody", "GenBodySim", c.pick(60, 600), 30, seed=c.seed + 99)
    ss = scripts(tours, sims)
    for k, s in enumerate(ss):
        s["faults"] = "all"
        s["c"] = (2, 5, 700)[k % 3]
        s["seed"] = c.seed + k
    # (not the ones of thousands of writes)
    few = [s for s in puts(c, c.pick(40, 400)) if len(s["ops"][1].get("cells", [])) < 1000]
    for k, s in enumerate(few):
        ss.append(dict(s, faults="all", c=min(s["c"], 16), seed=c.seed + k))
    traces = c.harness("body", ss)
    c.sample(json.loads(traces[-1])["ev"][:6])
    c.detail["faulted_runs"] = sum(1 for t in traces if '"plan":""' not in t)
    c.validate("TraceBody", traces)
    import c_readfrom
    s, b = c_readfrom.configs(c, c.pick(700, 6000), c.pick(120, 1200))
    b = [x for x in b if x["L"] < 100000 and x["chunk"] > 1000]
    traces = c.harness("readfrom", [dict(x, faults=True) for x in s + b])
    c.detail["faulted_reads"] = len(traces)
    c.sample(json.loads(traces[-1]))
    c.validate("TraceReadFrom", traces, env={"FOCUS": "C05"})
