"""C12: choice of compression (spec/Compress.tla); C13: dialogs as records
(spec/DialogConv.tla)."""
import json


def gen(c, module, num, mode=""):
    lines = c.gen_lines(module, module, "GEN", env={
        "SEED": str(c.seed % 1000), "NUM": str(num), "MODE": mode})
    c.log("%s: %d scripts" % (module, len(lines)))
    return [json.loads(l[0]) for l in lines]


def c12(c):
    scripts = gen(c, "GenCompress", c.pick(6000, 80000))
    scripts += [{"levels": "gzip"}, {"levels": "brotli"}]
    traces = c.harness("compress", scripts)
    c.sample(json.loads(traces[0])["ev"])
    c.detail["compressed"] = sum('"mode":"P"' not in t for t in traces)
    c.validate("TraceCompress", traces)


def c13(c):
    scripts = gen(c, "GenConv", c.pick(800, 8000), "dialog") + gen(c, "GenConv", 0, "record")
    traces = c.harness("convert", scripts)
    c.sample(json.loads(traces[-1])["ev"])
    c.validate("TraceConv", traces)
