"""C15-C19: asynchronous streams and sinks (spec/Async.tla, AsyncAlg.tla)."""
import json

import huge

FILE = ["fs", "fs", "back", "map", "fslice", "mslice"]
RAM = ["slice", "ram", "gath"]


def concrete(c, tour):
    """A schedule of the model, with body forms, buffer types and wakers drawn"""
    r = c.rng
    cell = r.choice([1, 3, 700, 5000])
    mix = tour[0]
    loss = any(e.get("lost") for e in tour)
    ops = []
    for k, m in enumerate(mix["mix"]):
        bt = "loss" if loss else r.choice(["bytes", "uni"])
        if m["k"] == "str":
            ops.append({"op": "str", "t": k + 1, "pol": m["pol"], "bt": bt, "hb": r.random() < .5,
                        "frm": r.choice(RAM if m["ram"] else FILE),
                        "cells": [r.randrange(120) for _ in range(m["n"])]})
        else:
            ops.append({"op": "snk", "t": k + 1, "pol": m["pol"], "bt": bt, "fs": m["fs"], "pre": [],
                        "mram": m["mram"] * cell, "max": m["max"] * cell})
    for e in tour[1:]:
        o = {"op": e["op"]}
        if "t" in e:
            o["t"] = e["t"]
        if e["op"] in ("poll", "ready", "flush", "close"):
            o["w"] = r.randrange(2)
        if e["op"] == "send":
            o.update(cells=[r.randrange(120) for _ in e["cells"]], map=r.random() < .5)
        if e["op"] == "step":
            o = {"op": "step", "lost": e["lost"]}
        ops.append(o)
    return {"p": mix["p"], "c": cell, "item": cell, "bfs": cell, "ops": ops}


def scripts(c, tours, draws):
    edges = c.gen_edges("GenAsync", c.pick("GenAsyncEdge", "GenAsyncEdgeT"), limit=tours)
    lines = c.gen_lines("GenAsync", "GenAsyncDraw", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(draws)})
    return [concrete(c, t) for t in edges], [json.loads(l[0]) for l in lines]


def check(c):
    c.model_check("MCAsync")
    if c.pid == "C18":
        c.model_check("MCAsync", "MCAsyncLive")
    edges, drawn = scripts(c, c.pick(2500, None), c.pick(3000, 15000))
    traces = c.harness("async", edges + drawn)
    c.sample(json.loads(traces[-1])["ev"][:6])
    # Each system call made by polls and the pool fails in turn
    some = [dict(s, faults=True) for s in c.rng.sample(edges, min(len(edges), c.pick(150, 1500)))
            + c.rng.sample(drawn, c.pick(150, 1500)) if s["c"] < 1000 or s["bfs"] > 1000]
    more = c.harness("async", some, tag="faults")
    c.detail["faulted_runs"] = sum(1 for t in more if '"plan":""' not in t)
    traces += more
    c.detail["polls_pending"] = sum(t.count('"r":"pend"') for t in traces)
    c.validate("TraceAsync", traces, env={"FOCUS": c.pid})


def c15(c):
    check(c)
    huge.run(c, "C15", "stream", 12, 60)


def c16(c):
    check(c)
    huge.run(c, "C16", "sink", 12, 60)


def c17(c):
    check(c)


def c18(c):
    check(c)


def c19(c):
    check(c)
