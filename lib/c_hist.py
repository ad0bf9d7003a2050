"""C07, C09, C10: histories of an archive (spec/ArcHist.tla, BarcWrite.tla)."""
import json


def gen(c, mode, num):
    lines = c.gen_lines("GenHist", "GenHist", "GEN", env={
        "SEED": str(c.seed % 1000), "NUM": str(num), "MODE": mode})
    res = [json.loads(l[0]) for l in lines]
    c.log("%s: %d scripts" % (mode, len(res)))
    return res


def run(c, scripts):
    traces = c.harness("hist", scripts)
    c.detail["scans"] = c.detail.get("scans", 0) + sum(t.count('"op":"done"') for t in traces)
    c.sample([e for e in json.loads(traces[-1])["ev"]][:6])
    c.validate("TraceHist", traces)
    return traces


def c07(c):
    c.model_check("BarcWrite", c.pick("BarcWriteQ", "BarcWrite"))
    scripts = gen(c, "probe", c.pick(60, 500))
    turns = gen(c, "turns", c.pick(3000, 15000))
    run(c, scripts)
    run(c, turns)


def c09(c):
    c.model_check("BarcWrite", c.pick("BarcWriteQ", "BarcWrite"))
    run(c, gen(c, "locked", c.pick(150, 1500)))
    run(c, gen(c, "threads", c.pick(60, 600)))


def c10(c):
    c.model_check("BarcWrite", c.pick("BarcWriteQ", "BarcWrite"))
    traces = run(c, gen(c, "faults", c.pick(24, 200)))
    c.detail["faulty_writes"] = sum(t.count('"flt":"hard"') for t in traces)
