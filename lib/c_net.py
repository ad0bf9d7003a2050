"""C23, C24: requests recorded and dialogs fetched (spec/ReqRecord.tla, Fetch.tla).
C25, C26, C27: the command line program (spec/Cli.tla, CliRecord.tla).
C29: logging (spec/Log.tla)."""
import json


def fetch(c, focus):
    lines = c.gen_lines("GenFetch", "GenFetch", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(1500, 12000))})
    ss = [json.loads(l[0]) for l in lines]
    traces = c.harness("fetch", ss, crate="netharness", binary="bihnet")
    seen = {}
    for t in traces:
        t = json.loads(t)
        e = t["ev"][0]
        k = " ".join((t["p"]["stop"], t["p"]["fr"], e.get("r", e["op"]), e.get("kind", "")))
        seen[k] = seen.get(k, 0) + 1
    c.detail["exchanges"] = seen
    c.sample(json.loads(traces[0]))
    c.validate("TraceFetch", traces, env={"FOCUS": focus})


def c23(c):
    fetch(c, "C23")


def c24(c):
    fetch(c, "C24")


def cli(c, sub, gen, trace, num, key):
    lines = c.gen_lines(gen, gen, "GEN", env={"SEED": str(c.seed % 1000), "NUM": str(num)})
    ss = [json.loads(l[0]) for l in lines]
    traces = c.harness(sub, ss, crate="netharness", binary="bihnet")
    seen = {}
    for t in traces:
        t = json.loads(t)
        k = key(t) + " exit %d" % t["ev"][0].get("code", -9)
        seen[k] = seen.get(k, 0) + 1
    c.detail["runs"] = seen
    c.sample(json.loads(traces[0]))
    c.validate(trace, traces)


def c25(c):
    cli(c, "cat", "GenCli", "TraceCli", c.pick(1500, 10000),
        lambda t: " ".join((t["sel"]["k"], "+".join(f["dam"] for f in t["files"]))))


def c26(c):
    cli(c, "cp", "GenCli", "TraceCli", c.pick(1500, 10000),
        lambda t: " ".join((t["sel"]["k"], "same" if t["same"] else "", "full" if t["full"] else "",
                            "+".join(f["dam"] for f in t["files"]))))


def c27(c):
    cli(c, "record", "GenCliRec", "TraceCliRec", c.pick(1500, 8000),
        lambda t: " ".join((t["p"]["stop"], "decode" if t["o"]["decode"] else "raw", t["p"]["z"],
                            "full" if t["o"]["full"] else "")))


FLAGS = [(0, []), (1, ["-d"]), (1, ["--debug"]), (2, ["-dd"]), (2, ["-d", "--debug"]), (3, ["-ddd"]),
         (1, ["+-d"]), (2, ["+-dd"]), (3, ["+--debug", "+-dd"]), (3, ["-d", "-d", "-d"]), (4, ["-dddd"])]


def c29(c):
    lines = c.gen_lines("GenLog", "GenLog", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(500, 1900))})
    ss = [json.loads(l[0]) for l in lines]
    traces = c.harness("log", ss, crate="netharness", binary="bihnet")
    traces += c.harness("flags", [{"flags": [{"n": n, "f": f} for n, f in FLAGS]}],
                        crate="netharness", binary="bihnet")
    c.sample(json.loads(traces[0])["ev"][:5])
    c.sample(json.loads(traces[-1])["ev"][:3])
    c.validate("TraceLog", traces)


def c32(c):
    c.model_check("ExchAlg", c.pick("ExchAlgQ", "ExchAlg"))
    lines = c.gen_lines("GenExch", "GenExch", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(1500, 15000))})
    ss = [json.loads(l[0]) for l in lines]
    traces = c.harness("exch", ss, crate="netharness", binary="bihnet")
    seen = {}
    for t in traces:
        for o in json.loads(t)["ev"][0].get("out", []):
            k = " ".join((o["r"], o.get("kind", ""), str(o.get("status", ""))))
            seen[k] = seen.get(k, 0) + 1
    c.detail["outcomes"] = seen
    c.sample(json.loads(traces[0])["ev"])
    c.validate("TraceExch", traces)
