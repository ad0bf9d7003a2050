"""C33: what failing operations report (spec/Errors.tla). C34: archive reads that fail (spec/ReadFault.tla)."""
import json


def c33(c):
    lines = c.gen_lines("GenErrors", "GenErrors", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(2100, 16000))})
    ss = [json.loads(l[0]) for l in lines]
    traces = c.harness("errors", [s for s in ss if s["what"] != "http"])
    traces += c.harness("neterr", [s for s in ss if s["what"] == "http"], crate="netharness", binary="bihnet")
    seen = {}
    for t in traces:
        t = json.loads(t)
        for e in t["ev"]:
            k = " ".join((t["d"]["what"], e.get("cause", e["op"]), e.get("r", ""), " ".join(e.get("chain", []))))
            seen[k] = seen.get(k, 0) + 1
    c.detail["reported"] = seen
    c.sample(json.loads(traces[0])["ev"][:2])
    c.validate("TraceErrors", traces)


def c34(c):
    lines = c.gen_lines("GenReadFault", "GenReadFault", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(400, 4000))})
    traces = c.harness("readfault", [json.loads(l[0]) for l in lines])
    seen = {}
    for t in traces:
        for e in json.loads(t)["ev"]:
            k = " ".join((e["op"], e.get("flt", ""), str(e.get("k", "")) if e["op"] != "seek" else "", str(e.get("ok", ""))))
            seen[k] = seen.get(k, 0) + 1
    c.detail["steps"] = seen
    c.sample(json.loads(traces[0])["ev"][:3])
    c.validate("TraceReadFault", traces)
