"""C06, C08, C14: archives (spec/Barc.tla)."""
import json

import huge

SIZES = [1, 3, 40, 700, 2100, 5000, 70000]


def behaviours(c, nsim, seed=0, sizes=SIZES):
    tours = c.gen_edges("GenBarc", "GenBarcEdge", maxlen=30)
    sims = c.gen_sim("GenBarc", "GenBarcSim", nsim, 30, seed=c.seed + seed)
    res = [{"c": (1, 40, 5000)[k % 3], "ops": t} for k, t in enumerate(tours)]
    res += [{"c": sizes[k % len(sizes)], "ops": t} for k, t in enumerate(sims)]
    return res


NO = {"h": [], "b": 0}
TUNE = {"k": 9, "d": 0, "mk": 9, "md": 0, "br": 8192, "bf": 65536}


def largest():
    """Header blocks of exactly the largest size, plain (with its terminator)
    and compressed (without), and with very many names."""
    plain = {"h": [[0, [5] * 116 + [0] * 795 + [1] * 3]], "b": 0}
    packed = {"h": [[0, [5] * 116 + [0] * 799]], "b": 0}
    many = {"h": [], "b": 24576}
    e = {"f": "slice", "v": []}
    b = {"f": "slice", "v": [1, 2]}
    res = []
    for z, blk in (("none", plain), ("gzip", packed), ("brotli", packed), ("none", many),
                   ("gzip", many)):
        z = {"k": z} if z == "none" else {"k": z, "min": 0, "lvl": 1, "id": False, "f": True}
        for part in ("m", "qh", "rh"):
            rec = {"m": NO, "qh": NO, "qb": b, "rh": NO, "rb": e}
            rec[part] = blk
            res.append({"c": 40, "ops": [
                {"op": "open", "h": 1}, {"op": "write", "h": 1, "c": rec, "z": z},
                {"op": "write", "h": 1, "c": dict(rec, **{part: NO}), "z": z},
                {"op": "reader", "h": 1, "r": 1},
                {"op": "read", "r": 1, "x": 0, "t": TUNE},
                {"op": "read", "r": 1, "x": 0, "t": TUNE},
                {"op": "read", "r": 1, "x": 0, "t": TUNE}]})
    return res


def run(c, pid, nsim, seed):
    traces = c.harness("barc", behaviours(c, nsim, seed) + (largest() if pid == "C06" else []))
    c.sample([e for e in json.loads(traces[0])["ev"]][:5])
    c.detail["records_read"] = sum(t.count('"k":"rec"') for t in traces)
    c.detail["records_written"] = sum(t.count('"op":"write"') for t in traces)
    c.detail["records_compressed"] = sum(t.count('"mode":"Z"') + t.count('"mode":"B"') for t in traces)
    c.validate("TraceBarc", traces, env={"FOCUS": pid})


def c06(c):
    run(c, "C06", c.pick(250, 2500), 6)
    huge.run(c, "C06", "write", 6, 30)
    huge.run(c, "C06", "zip", 4, 12)


def c08(c):
    run(c, "C08", c.pick(150, 1500), 8)
    huge.run(c, "C08", "laid", 30, 200)
    huge.run(c, "C08", "write", 4, 30)


def c14(c):
    run(c, "C14", c.pick(250, 2500), 14)
