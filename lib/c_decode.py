"""C22: decoding response bodies (spec/Decode.tla)."""
import json


def c22(c):
    lines = c.gen_lines("GenDecode", "GenDecode", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(700, 8000))})
    ss = [json.loads(l[0]) for l in lines]
    for k, s in enumerate(ss):
        s["rnd"] = k
        s["cuts"] = (120, 30, 0)[k % 3]
        s["flips"] = (0, 40, 20)[k % 3]
        s["faults"] = (0, 40, 0, 0)[k % 4]
    traces = c.harness("decode", ss)
    seen = {}
    for t in traces:
        t = json.loads(t)
        for e in t["ev"]:
            k = " ".join((t["d"]["z"], e.get("how", e["op"]), e.get("flt", ""), e.get("r", ""), e.get("kind", "")))
            seen[k] = seen.get(k, 0) + 1
    c.detail["decodings"] = seen
    c.sample(json.loads(traces[0])["ev"][:2])
    c.validate("TraceDecode", traces)
