#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property of properties.jsonl on /repo's working tree.

Exit 0: held on everything explored. Exit 1 with VIOLATION lines: broken. Anything else: the check itself failed."""
import json, os, sys, traceback
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.dont_write_bytecode = True
import vlib, tlc
import comp_checksums, comp_cli, comp_compare, comp_session, comp_readers, comp_release, comp_http, comp_bs, comp_window, comp_scan, comp_tables, comp_merge, comp_patch, comp_readsource, comp_workflow

PLAN = {
    "C01": [comp_patch.system, comp_patch.seq],
    "C02": [comp_patch.seq, comp_patch.system],
    "C03": [comp_patch.system, comp_patch.seq, lambda ck: comp_bs.run(ck, "count"), comp_readsource.counts],
    "C04": [lambda ck: comp_scan.run(ck, "complete")],
    "C05": [lambda ck: comp_scan.run(ck, "genuine")],
    "C06": [comp_merge.run],
    "C07": [lambda ck: comp_bs.run(ck, "order")],
    "C08": [lambda ck: comp_bs.run(ck, "limit")],
    "C09": [lambda ck: comp_bs.run(ck, "fail")],
    "C10": [comp_tables.verifier, lambda ck: comp_bs.run(ck, "fail")],
    "C11": [lambda ck: comp_bs.run(ck, "close")],
    "C12": [comp_tables.resolver],
    "C13": [comp_window.rolling],
    "C14": [comp_window.window],
    "C15": [comp_tables.index],
    "C16": [comp_checksums.run],
    "C17": [comp_tables.indexfile],
    "C18": [comp_http.run, lambda ck: comp_bs.logs(ck, True)],
    "C19": [comp_session.run],
    "C20": [comp_session.run],
    "C21": [comp_cli.run],
    "C22": [comp_readers.run],
    "C23": [comp_scan.shared],
    "C24": [comp_readsource.run],
    "C25": [comp_workflow.run],
    "C26": [comp_compare.run],
    "C27": [comp_release.run],
}

BS = ("every transition of the labelled state graph replayed in the real block source under a deterministic scheduler",
      "Exhaustive for the bounded constants of the models (requests, slots, faults, Close); every transition is compared "
      "with the code after all its goroutines came to rest. Trusts testing/synctest, TLC and the fake requester.")
WIN = ("every behaviour of the bounded specification (exhaustive short ones, simulated long ones) replayed in the real type, "
       "every observable compared after every step",
       "Exhaustive up to the stated number of operations; longer histories and larger blocks are sampled by TLC's simulator.")
SCAN = ("every bounded (reference, local) pair of the scan specification, plus generated larger ones, run through the real scanner "
        "with five kinds of reader; results that differ from the specification are judged by TLC with the property itself",
        "Exhaustive for the stated lengths and alphabets; larger inputs are generated. Trusts MD5 of equal length blocks not to collide.")
SYS = ("the specification of a whole patch (indexing, sectioned scans, merging, fetching, assembling) checked by TLC; every bounded (reference, local, "
       "sections) triple and generated larger ones run through the real RSync.Patch, results judged by TLC where the specification leaves a choice",
       "Exhaustive for the stated lengths and alphabets; larger inputs are generated by seed. Trusts TLC, MD5 of equal length blocks not to collide, and the fake source.")
MRG = ("every result stream of the bounded merge specification, in its interleavings, fed to the real merger; results judged by TLC with the property",
       "Exhaustive for the stated streams; longer ones generated by seed. Interleaving inside one merge step is the Go scheduler's.")
TAB = ("every state and step of the bounded specification replayed in the real code, every answer compared", "Exhaustive for the stated bounds; larger tables generated by seed.")
HTTP = ("every combination of answer (status, coding, framing, announced and sent length, broken connection) of the fetch specification, "
        "given byte by byte by a loopback server to the real source", "Exhaustive over the listed answers and ranges. Only real network timing is not explored.")
SES = ("every history of the session specification (output path kinds, contents, faults, steps) run on real files in a scratch directory",
       "Exhaustive over the listed path kinds, contents and faults. The final copy is not atomic and not claimed to be.")
RDR = ("every sequence of read sizes of the reader specification replayed in the real readers, every byte and end compared", "Exhaustive for the stated sizes and depth; larger constructions generated by seed.")
SHR = ("the interleavings of several scans on one index and comparer, checked by TLC; sampled schedules replayed turn by turn in real scans held at "
       "every read and lookup, results and statistics compared", "All interleavings of tiny scans in the model; schedules of larger ones are sampled. "
       "What happens within one turn is only tried by running truly in parallel.")
RSO = ("every case of the reader source specification (sizes, spans, read fragmentations, failing reads and seeks) run in the real source",
       "Exhaustive over the listed sizes and faults; longer histories generated by seed. A reader that itself ends with io.ErrUnexpectedEOF is taken for ended.")
CLI = ("every case of the command line specification (every truncation, header damage, faults, round trips) run with the tool built from the tree",
       "Exhaustive over the listed sizes, damages and faults; further round trips generated by seed. Sources are HTTP URLs.")
WFL = ("histories of operations on the same files (edits, builds, damages, comparisons, patches) generated by TLC from the specification of the workflow, all short ones "
       "and random long ones, run with the built tool and with the library; every recorded history judged by TLC against the specification",
       "Exhaustive for histories of three operations over few contents; longer ones are random walks. Operations follow each other, they do not overlap.")
CMP = ("every case of the specification of the comparison (sections, scans, merged blocks, numbers) run with the tool built from the tree, what it prints "
       "compared with the specification's numbers", "Exhaustive over tiny files; larger ones generated by seed, those cut in sections by writing many bytes for each of the model's. "
       "Comparisons and weak hits of those are only bounded.")
REL = ("every history of the specification of what a session holds (failed creations, every way a fetch ends at every position, results that cannot be put in place) "
       "run with real files and a loopback server; open files, goroutines and connections counted after it",
       "Exhaustive over the listed histories. Counts what the process holds in the end, not in between.")
CLAIMS = {"C01": SYS, "C02": SYS, "C03": SYS, "C04": SCAN, "C05": SCAN, "C06": MRG, "C07": BS, "C08": BS, "C09": BS, "C10": TAB, "C11": BS, "C12": TAB,
          "C13": WIN, "C14": WIN, "C15": TAB, "C16": TAB, "C17": TAB, "C18": HTTP, "C19": SES, "C20": SES, "C21": CLI, "C22": RDR, "C23": SHR, "C24": RSO, "C25": WFL, "C26": CMP, "C27": REL}
NOT_APPLICABLE = {}


def replay(ck, path):
    d = json.load(open(path))
    f = ck.path("case.json")
    # one seen only beside others: the case beside itself
    vlib.write_cases(f, [d["case"]] * (3000 if d.get("par") else 1))
    ck.seed = d.get("seed", ck.seed)
    env = dict(d.get("env") or {}, VH_FIRST=str(0 if d.get("par") else d.get("idx", 0)))
    if d["suite"].startswith("cli") or d["suite"] == "sessionstool" or "VH_GOSYNC" in env:
        env.update(comp_cli.build(ck))
    tr = ck.path("trace_replay")
    ck.suite(d["suite"], f, shards=1, env=env, trace=tr)
    if d.get("judge"):
        ck.judge(d["judge"], d["suite"], tr, f, shards=1)
    for x in ck.divs:
        print("%s: %s" % (" ".join(x["tags"]), x["what"]))
    return 1 if ck.divs else 0


def main():
    pid = sys.argv[1]
    if pid == "--setup":   # nothing is kept: compile once to see that the tools work
        ck = vlib.Check("setup", "quick", 1)
        try:
            ck.build()
        finally:
            ck.cleanup()
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    ck = vlib.Check(pid, tier, int(os.environ.get("VERIF_SEED", "1")))
    try:
        if "--replay" in sys.argv:
            return replay(ck, sys.argv[sys.argv.index("--replay") + 1])
        for step in PLAN[pid]:
            step(ck)
        return ck.finish()
    except (vlib.CheckError, tlc.TLCError) as e:
        print("CHECK-ERROR: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        ck.cleanup()


if __name__ == "__main__":
    sys.exit(main())
