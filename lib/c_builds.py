"""C36: builds with only some of the optional parts (spec/Builds.tla)."""
import json
import os
import vlib


def c36(c):
    other = os.path.join(vlib.build("harness"), "bih")
    kinds = {"none": ("GenBuildsN", c.pick(350, 3000)), "mmap": ("GenBuildsN", c.pick(150, 1500)),
             "brotli": ("GenBuildsB", c.pick(150, 1500)), "plain": ("GenBuildsB", c.pick(250, 2000))}
    seen = {}
    traces = []
    for n, (kind, (cfg, num)) in enumerate(kinds.items()):
        try:
            vlib.build("redharness:" + kind)
        except vlib.ToolError:
            # No such build, of which there is nothing to say
            c.detail.setdefault("not built", []).append(kind)
            continue
        sims = c.gen_sim("GenBuilds", cfg, num, 40, seed=c.seed * 10 + n)
        ss = [{"c": (40, 700, 8, 5000, 700, 20000)[k % 6], "ops": t, "other": other} for k, t in enumerate(sims)]
        got = c.harness("system", ss, tag="system-" + kind, crate="redharness:" + kind, binary="bihred")
        for t in got:
            for e in json.loads(t)["ev"]:
                k = " ".join((kind, e["op"], e.get("how", ""), e.get("who", ""), e.get("r", "")))
                seen[k] = seen.get(k, 0) + 1
        c.sample({"build": kind, "ev": json.loads(got[0])["ev"][:2]})
        traces += got
    c.detail["steps"] = seen
    if not traces:
        raise vlib.ToolError("none of the builds")
    c.validate("TraceBuilds", traces)
