"""Bodies and archives beyond 32 bits (spec/Huge.tla), part of several checks."""
import json


def run(c, pid, mode, quick, thorough):
    lines = c.gen_lines("GenHuge", "GenHuge", "GEN",
                        env={"SEED": str(c.seed % 1000), "NUM": str(c.pick(quick, thorough)), "MODE": mode})
    traces = c.harness("huge", [json.loads(l[0]) for l in lines], tag="huge-" + mode)
    c.detail["huge_" + mode] = len(traces)
    c.validate("TraceHuge", traces, env={"FOCUS": pid})
