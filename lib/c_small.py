"""C20, C21, C28: buffers, encodings, settings (spec/BufWin.tla, Encodings.tla, Tune.tla)."""
import json


def c20(c):
    tours = c.gen_edges("GenBuf", "GenBufEdge")
    sims = c.gen_sim("GenBuf", "GenBufSim", c.pick(200, 3000), 25)
    ss = []
    for src in ("bytes", "map", "slice"):
        for k, t in enumerate(tours):
            ss.append({"src": src, "c": (1, 3, 1500)[k % 3], "ops": t})
        for k, t in enumerate(sims):
            ss.append({"src": src, "c": (1, 7, 4096, 5000, 65536)[k % 5], "ops": t})
    traces = c.harness("bufs", ss)
    c.sample(json.loads(traces[0])["ev"][:6])
    c.validate("TraceBuf", traces)


def c21(c):
    lines = c.gen_lines("GenEnc", "GenEnc", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(2000, 20000))})
    ss = [{"cases": json.loads(l[0])} for l in lines]
    traces = c.harness("encodings", ss)
    c.detail["cases"] = sum(len(s["cases"]) for s in ss)
    c.sample(json.loads(traces[0])["ev"][:6])
    c.validate("TraceEnc", traces)


def c28(c):
    sims = c.gen_sim("GenTune", "GenTuneSim", c.pick(1000, 10000), 24)
    ss = [{"default": k % 2 == 1, "ops": t} for k, t in enumerate(sims)]
    traces = c.harness("tune", ss)
    c.sample(json.loads(traces[0])["ev"][:6])
    c.validate("TraceTune", traces)
