#!/usr/bin/env python3
"""Write MANIFEST.json from the table below and the checks present."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from check import GROUPS

MC = "TLA+ spec model checked with TLC; "
NOTES = {
 "C01": ("Body.tla; every transition of the small state graph and simulated behaviours replayed, traces validated", "State graph covered completely for 2 objects, <=3 fresh cells, a 3 cell file; deeper by simulation with 5 objects and cells up to 70 kB; bodies around 2^31 and 2^32 bytes (Huge.tla)."),
 "C02": ("Body.tla; interleavings of readers/clones replayed, multi-threaded runs validated", "Single-thread interleavings cover every transition for 3 objects; threads are real, so their schedules are sampled (perturbed at system calls)."),
 "C03": ("ReadFrom.tla, refined by ReadFromAlg.tla; enumerated configurations replayed, traces validated", "Configurations enumerated at all boundaries; quick tier takes a seeded sample."),
 "C04": ("ReadFrom.tla, refined by ReadFromAlg.tla; enumerated configurations replayed, traces of source reads and system calls validated", "Memory held is bounded through bytes consumed minus bytes written to the temporary file."),
 "C05": ("Body.tla and ReadFrom.tla with failing operations; each system call of generated behaviours failed in turn, traces validated", "One fault per run, at every system call and source read; destinations of write-outs failing after every number of cells."),
 "C06": ("Barc.tla; every transition of the small state graph and simulated behaviours replayed, traces validated", "State graph covered completely for 3 records, 2 handles, 1 reader; contents, body forms, strategies and limits by simulation, with blocks of exactly the largest size and bodies beyond 2^32 bytes (Huge.tla)."),
 "C08": ("Barc.tla; every transition of the small state graph and simulated behaviours replayed, traces validated", "As C06, with all earlier bytes compared after each write; offsets beyond 2^32 (Huge.tla)."),
 "C07": ("ArcHist.tla, refined by BarcWrite.tla; writes probed by readers at every system call, crash snapshots, turn-scheduled writer and reader steps, traces validated", "Every system call boundary of generated writes; one writer, one tail reader and fresh readers at each."),
 "C09": ("ArcHist.tla, refined by BarcWrite.tla; concurrent histories recorded from threads and validated, lock behaviour scripted", "Thread schedules are sampled, perturbed at system calls; mutual exclusion is observed directly."),
 "C10": ("ArcHist.tla, refined by BarcWrite.tla; each system call of generated writes failed in turn, traces validated", "One fault (or one kind of lasting fault) per write, at every system call, several per history."),
 "C11": ("BarcParse.tla, grammar of the format, decides what reading damaged bytes may return; generated damage replayed, traces validated", "Damage generated by kind, position and depth around record structure; not arbitrary bytes throughout."),
 "C12": ("Compress.tla states the rule; generated records around the decision stored, traces validated", "Minimum lengths, given and default, within 4 bytes of the boundary for drawn records, types, strategies; levels told apart by size."),
 "C13": ("DialogConv.tla; generated dialogs and edited records converted, traces validated", "Every status, every list of up to 3 encodings (up to 8 drawn), every method x url x version of the tables, each field missing or malformed alone and in pairs."),
 "C14": ("Barc.tla; every transition of the small state graph and simulated behaviours replayed, traces validated", "Placement judged at the thresholds +-3 bytes, for cells of 1 byte to 70 kB."),
 "C15": ("Async.tla, met by AsyncAlg.tla; tours of its state graph and drawn schedules replayed with poll, permit and pool steps controlled, traces validated", "Body forms, buffer types, sizes and wakers drawn; each system call made by polls and pool failed in turn for a sample of schedules."),
 "C16": ("Async.tla, met by AsyncAlg.tla; tours of its state graph and drawn schedules replayed with poll, permit and pool steps controlled, traces validated", "Limits drawn at the boundaries +-1 byte; each system call failed in turn for a sample of schedules."),
 "C17": ("Async.tla, met by AsyncAlg.tla; schedules replayed, with thread and free permits recorded at each system call and first access to mapped memory, traces validated", "Mapped memory is watched through page protection: first access in each poll or pool step."),
 "C18": ("Async.tla, met by AsyncAlg.tla which is checked for completion under fairness; schedules replayed and driven to completion only by wake-ups delivered, traces validated", "Up to 3 transfers, 1-2 permits, one pool thread."),
 "C19": ("Async.tla, met by AsyncAlg.tla; schedules with drops, closing, lost operations and failing system calls replayed, free permits after every step validated", "Up to 3 transfers, 1-2 permits, one pool thread; one fault per run."),
 "C20": ("BufWin.tla; every transition of a bounded model and random behaviours replayed on plain and mapped buffers, all views compared after every step", "Up to 4 windows of 4 cells in the covered graph; larger ones drawn. Splits of length 0 excluded."),
 "C21": ("Encodings.tla; all small header sets and drawn larger ones evaluated by the real code and validated", "Names in lower case, readable header values."),
 "C22": ("Decode.tla; drawn dialogs decoded by the real code intact, cut, damaged and with failing system calls, results validated", "Drawn dialogs; single faults; single member gzip; trailing data not claimed."),
 "C23": ("ReqRecord.tla; drawn requests recorded and sent to a scripted loopback server, record, request and request as received validated", "Bodies of GET and HEAD are left out by the HTTP library."),
 "C24": ("Fetch.tla; drawn exchanges with a scripted loopback server (framing, stalls, cuts, limits, policies) run by the real code, outcomes validated", "Plain HTTP/1 over loopback; TLS replaced by a stand-in."),
 "C25": ("Cli.tla; drawn archives (intact, cut, damaged, missing) and arguments run with the real program, output and exit status validated", "Drawn cases; bodies and headers are told apart by unique marks."),
 "C26": ("Cli.tla; drawn archives, arguments, path spellings and links, and a full disk run with the real program, archives and exit status validated", "Drawn cases."),
 "C27": ("CliRecord.tla; drawn options, responses and failures of a loopback server run with the real program, appended record validated", "Drawn cases; plain HTTP/1; default timeouts not waited for."),
 "C28": ("Tune.tla; random setting, finish and reset sequences replayed, refusals and snapshots validated", "Boundary values of each setting."),
 "C29": ("Log.tla; set up and message sequences in fresh processes, and the program's debug flags, lines shown validated", "Every level with targets in and resembling the project's; the program's levels 1 and 2 differ only in the library part."),
 "C30": ("BarcFormat.tla lays out archives byte by byte; generated records written and the bytes validated, generated layouts read", "Parts are compared as bytes for plain records and after decompressing the whole payload for compressed ones."),
 "C31": ("Life.tla; simulated behaviours replayed, files held open, mapped or left and contents after each step validated", "5 values at a time, 30 steps; an upper bound of files held, by identity, not of descriptors per file."),
 "C32": ("Exch.tla, with the sharing of permits in ExchAlg.tla (safety and progress); drawn sets of exchanges run with a real server in one runtime, outcomes validated", "Up to 12 exchanges at once over loopback; schedules are those of the runtime, sampled."),
 "C33": ("Errors.tla gives the chain of kinds, code and details by layer and cause; drawn operations failed at each system call, by their source or destination, or by content, reported errors validated", "One cause per run; at most 40 system calls of an operation, evenly spaced. Errors of fetching are in C24."),
 "C34": ("ReadFault.tla, archive reads with failing, interrupted and shortened calls; each system call of drawn reads faulted in turn, traces validated", "One fault per run, at up to 30 evenly spaced system calls of each step of a read."),
 "C35": ("System.tla, all layers in one model; simulated histories replayed through real bodies, streams, sinks, dialogs and archives, with the state of all of these validated after each step", "Drawn histories of 40 steps over three bodies, two dialogs and two archives."),
 "C36": ("Builds.tla, the model of all layers with optional parts left out and archives shared with a full build; simulated histories replayed by four differently configured builds of the crates and program, all state validated after each step", "Drawn histories of 40 steps; builds with neither option, mmap only, brotli only, and all options without debugging checks."),
}

def main():
    checks = []
    for pid in sorted(GROUPS):
        t, n = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py " + pid,
            "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": MC + t,
            "level": "model_checking",
            "level_note": n,
        })
    claimed = set(GROUPS)
    na = []
    with open(os.path.join(V, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)["id"]
            if p not in claimed:
                na.append({"property": p, "reason": "check not built yet"})
    m = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": checks,
        "not_applicable": na,
        "notes": "TLA+ modules in spec/, Rust harness crates in harness/ and netharness/, "
                 "runner in check.py and lib/. No hooks in /repo. Fixed defects are listed in "
                 "KNOWN_FINDINGS.txt.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
