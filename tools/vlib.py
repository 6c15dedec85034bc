"""Runs the harness over cases of the specifications and turns differences into verdicts."""
import json, os, re, shutil, subprocess, sys, time, random
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import tlc  # noqa

GO = "/opt/veriftools/go1.27.3/bin"
REPO_PKG = "github.com/Redundancy/go-sync"


class CheckError(Exception):
    """Trouble of the check itself: no verdict."""


def goenv():
    e = dict(os.environ)
    e["PATH"] = GO + ":" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off", CGO_ENABLED="0")
    return e


# suites whose cases are independent of everything else in the process
BESIDE = set("blocksource checksums http merge readers readsource scan scanfail seqpatch system resolver index verifier indexfile window rolling".split())


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.scratch = os.path.join(ROOT, "out", "%s-%d" % (pid, os.getpid()))
        os.makedirs(self.scratch)
        self.bin = None
        self.models = []      # TLC runs
        self.suites = []      # harness runs
        self.divs = []        # differences, all tags
        self.samples = []
        self.traces = 0       # behaviours and traces compared with the real code
        self.steps = 0
        self.notes = {}
        self.exhaustive = True
        self.rng = random.Random(seed * 1000003 + sum(map(ord, pid)))
        self.pool = ThreadPoolExecutor(8)

    quick = property(lambda s: s.tier == "quick")

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    # ------------------------------------------------------------------ TLC
    def model(self, name, module, consts, **kw):
        """A model that must hold."""
        r = tlc.must(tlc.run(module, consts, self.scratch, name, **kw))
        self.models.append({"model": name, "module": module, "states": r["states"], "distinct": r["distinct"],
                            "depth": r["depth"], "emitted": r["emitted"],
                            "checked": list(kw.get("invariants", ())) + list(kw.get("properties", ())),
                            "wall_s": round(r["wall"], 1)})
        return r

    def mutant(self, name, module, consts, **kw):
        """A model with a design defect: TLC must reject it, else the checked properties are vacuous."""
        r = tlc.run(module, consts, self.scratch, name, **kw)
        if r["violated"] is None:
            raise CheckError("specification mutant %s is not rejected (rc %d)\n%s" % (name, r["rc"], "\n".join(r["text"][-20:])))
        self.notes.setdefault("rejected_spec_mutants", {})[name] = r["violated"]

    def jobs(self, thunks, n=4):
        """Independent parts of a check, side by side (their shards share the other pool)."""
        with ThreadPoolExecutor(n) as ex:
            return [f.result() for f in [ex.submit(t) for t in thunks]]

    # ------------------------------------------------------------------ the harness
    def build(self):
        if self.bin:
            return
        out = self.path("vh.test")
        p = subprocess.run([GO + "/go", "test", "-vet=off", "-c", "-o", out, "."], cwd=os.path.join(ROOT, "harness"),
                           env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode:
            raise CheckError("building the harness failed:\n" + p.stdout[-4000:])
        self.bin = out

    def suite(self, name, infile, cfg=None, shards=8, hang_s=10, trace=None, env=None, timeout=800, count=True, label=None):
        """Replays every case of infile; returns merged result."""
        self.build()
        label = label or name
        futs = [self.pool.submit(self._shard, name, infile, cfg, i, shards, hang_s, trace, env, timeout, label)
                for i in range(shards)]
        res = [f.result() for f in futs]
        m = {"suite": label, "cases": 0, "steps": 0, "notes": {}, "divs": [], "samples": []}
        for r in res:
            m["cases"] += r["cases"]
            m["steps"] += r["steps"]
            for k, v in (r["notes"] or {}).items():
                m["notes"][k] = m["notes"].get(k, 0) + v
            m["divs"] += r["divs"] or []
            m["samples"] += r["samples"] or []
        for d in m["divs"]:
            d.update(suite=name, cfg=cfg, env=env)
        self.divs += m["divs"]
        if count:
            self.traces += m["cases"]
            self.steps += m["steps"]
        for s in m["samples"][:1]:
            txt = json.dumps(s)
            self.samples.append({"suite": label, "case": s if len(txt) < 1500 else txt[:1500] + "..."})
        self.suites.append({"suite": label, "cases": m["cases"], "steps": m["steps"],
                            "differences": len(m["divs"]), "notes": m["notes"]})
        if m["cases"] == 0 and not m["divs"]:
            raise CheckError("suite %s ran no case" % label)
        if name in BESIDE and not m["divs"]:
            self._beside(name, infile, cfg, m, trace, env, timeout, label)
        return m

    def _beside(self, name, infile, cfg, m, trace, env, timeout, label):
        """A part of the cases again, eight beside each other in one process."""
        n = max(1, m["cases"] // (400 if self.quick else 4000))
        sc = self.path("h_%s_par" % re.sub(r"\W", "_", label))
        os.makedirs(sc, exist_ok=True)
        for k in range(2):
            r, end = self._proc(name, infile, cfg, 0, n, [], None, 60, trace and trace + ".par", dict(env or {}, VH_PAR="8"), timeout, sc)
            if end is None:
                self.traces += r["cases"]
                self.steps += r["steps"]
                self.suites.append({"suite": label + ", eight at a time", "cases": r["cases"], "steps": r["steps"],
                                    "differences": len(r["divs"] or []), "notes": {}})
                for d in r["divs"] or []:
                    d.update(suite=name, cfg=cfg, env=env, par=True)
                self.divs += r["divs"] or []
                return
            kind, idx, tags, text = end
            if kind != "hang" or k:
                case = self._case(name, infile, cfg, idx, env, sc)
                self.divs.append({"tags": tags.split(), "what": "with others beside it: " + (text[:1500] if kind != "hang" else "never ends"), "idx": idx,
                                  "case": case, "crash": text[:6000], "suite": name, "cfg": cfg, "env": env, "par": True})
                return

    def judge(self, module, suite, trace, infile, cfg=None, consts=None, shards=8, env=None, what="TLC rejects the recorded behaviour"):
        """Records of the real code (trace.0 ...) judged by a specification; a rejected record is a difference."""
        recs = []
        for p in ["%s.%d" % (trace, i) for i in range(shards)] + [trace + ".par.0"]:
            if os.path.exists(p):
                # the last line of a process that was ended may be cut
                recs += [l for l in open(p) if l.endswith("}\n")]
        if not recs:
            return 0
        f = trace + ".ndjson"
        open(f, "w").writelines(recs)
        em = trace + ".verdicts"
        r = tlc.must(tlc.run(module, dict(consts or {}, File=f), self.scratch, "judge_" + os.path.basename(trace),
                             invariants=["Judge"], workers=4, emit=em))
        seen = set()
        cases = None
        for l in open(em):
            v = json.loads(l)
            seen.add(v["k"])
            if v["v"]:
                rec = json.loads(recs[v["k"] - 1])
                if cases is None:
                    cases = [x for x in open(infile) if x.strip()]
                case = json.loads(cases[min(rec["idx"], len(cases) - 1)])
                self.divs.append({"tags": v["v"], "what": "%s: %s" % (what, json.dumps(rec)[:1500]), "idx": rec["idx"],
                                  "case": case, "suite": suite, "cfg": cfg, "env": env, "judge": module})
        if len(seen) != len(recs):
            raise CheckError("judge %s: %d verdicts for %d records" % (module, len(seen), len(recs)))
        self.models.append({"model": module + ":" + os.path.basename(trace), "module": module, "states": r["states"],
                            "distinct": r["distinct"], "depth": r["depth"], "emitted": r["emitted"],
                            "checked": ["records of the real code"], "wall_s": round(r["wall"], 1)})
        self.notes["records_judged_by_tlc"] = self.notes.get("records_judged_by_tlc", 0) + len(recs)
        return len(recs)

    def _shard(self, name, infile, cfg, i, n, hang_s, trace, env, timeout, label):
        skip, merged = [], None
        tot = {"cases": 0, "steps": 0, "notes": {}, "divs": [], "samples": []}
        sc = self.path("h_%s_%d" % (re.sub(r"\W", "_", label), i))
        os.makedirs(sc, exist_ok=True)
        bad = 0
        while True:
            r, end = self._proc(name, infile, cfg, i, n, skip, None, hang_s, trace, env, timeout, sc)
            if end is None:
                for k in ("cases", "steps", "notes", "samples"):
                    tot[k] = r[k]
                tot["divs"] += r["divs"] or []
                return tot
            kind, idx, tags, text = end
            if kind == "hang":
                # a verdict only if the case alone hangs again, with more time
                _, end2 = self._proc(name, infile, cfg, 0, 1, [], idx, hang_s * 2, None, env, timeout, sc)
                if end2 is None:
                    self.notes["hangs_not_reproduced"] = self.notes.get("hangs_not_reproduced", 0) + 1
                    skip.append(idx)
                    bad += 1
                    if bad > 3:
                        raise CheckError("suite %s: cases hang irreproducibly\n%s" % (label, text[-3000:]))
                    continue
                what = "the call never returns (hang)"
            else:
                what = "the process crashed: " + text[:1500]
            case = self._case(name, infile, cfg, idx, env, sc)
            tot["divs"].append({"tags": tags.split(), "what": what, "idx": idx, "case": case, "crash": text[:6000]})
            skip.append(idx)
            bad += 1
            if bad >= 6 or kind == "hang":   # enough seen
                tot["cases"] += len(skip)
                return tot

    def _case(self, name, infile, cfg, idx, env, sc):
        p = os.path.join(sc, "case.json")
        self._proc(name, infile, cfg, 0, 1, [], idx, 60, None, dict(env or {}, VH_DUMP=p), 300, sc)
        return json.load(open(p))

    def _proc(self, name, infile, cfg, shard, shards, skip, only, hang_s, trace, env, timeout, sc):
        e = goenv()
        out, jr = os.path.join(sc, "result.json"), os.path.join(sc, "journal")
        for p in (out, jr):
            if os.path.exists(p):
                os.remove(p)
        e.update(VH_SUITE=name, VH_IN=infile, VH_OUT=out, VH_JOURNAL=jr, VH_SEED=str(self.seed), VH_TIER=self.tier,
                 VH_SHARD=str(shard), VH_SHARDS=str(shards), VH_SKIP=",".join(map(str, skip)), VH_HANG_S=str(hang_s),
                 VH_SCRATCH=sc, GOMAXPROCS="4", GOTRACEBACK="all", TMPDIR=sc)
        e.pop("VH_CFG", None)
        if cfg is not None:
            e["VH_CFG"] = json.dumps(cfg)
        if only is not None:
            e["VH_ONLY"] = str(only)
        if not trace:   # a suite may record unconditionally
            trace = os.path.join(sc, "trace")
        e["VH_TRACE"] = trace + ".%d" % shard
        e.update(env or {})
        err = os.path.join(sc, "stderr")
        with open(err, "w") as f:
            try:
                rc = subprocess.run([self.bin, "-test.run", "^TestVH$", "-test.timeout", "0"], cwd=sc, env=e, stdout=f,
                                    stderr=subprocess.STDOUT, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("suite %s timed out" % name)
        text = open(err, errors="replace").read()
        if os.path.exists(out):
            r = json.load(open(out))
            if r.get("done"):
                if r["divs"] or rc == 0:
                    return r, None
                raise CheckError("suite %s: exit %d\n%s" % (name, rc, text[-3000:]))
        if rc == 98 or not os.path.exists(jr):
            raise CheckError("harness failure in suite %s (exit %d)\n%s" % (name, rc, text[-4000:]))
        j = open(jr).read().split("|")
        idx, tags = int(j[0]), j[1]
        if rc == 97:
            return None, ("hang", idx, tags, text[-6000:])
        m = re.search(r"^(panic:|fatal error:)", text, re.M)
        if not m or rc < 0:
            raise CheckError("suite %s: exit %d in case %d\n%s" % (name, rc, idx, text[-4000:]))
        first = text[m.start():].split("\n\ngoroutine ")
        head = first[0] + "\n" + (first[1] if len(first) > 1 else "")
        if REPO_PKG not in head:
            # runtime-detected trouble (e.g. a deadlocked bubble) has no frame of its own
            if "deadlock" in first[0] and REPO_PKG in text:
                return None, ("crash", idx, tags, text[m.start():m.start() + 6000])
            raise CheckError("suite %s: panic outside the code under test in case %d\n%s" % (name, idx, text[m.start():][:4000]))
        return None, ("crash", idx, tags, text[m.start():m.start() + 6000])

    # ------------------------------------------------------------------ verdict
    def finish(self, level_assumptions=()):
        mine = [d for d in self.divs if self.pid in d["tags"]]
        other = sorted({t for d in self.divs for t in d["tags"]} - {self.pid})
        known = load_known(self.pid)
        rep = []
        hit = {}
        for d in mine:
            k = match_known(known, d)
            if k:
                hit.setdefault(k["id"], k)
            else:
                rep.append(d)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["distinct"] for m in self.models),
                "transitions": sum(m["states"] for m in self.models),
                "traces_validated_against_impl": self.traces,
                "steps_compared_with_impl": self.steps,
                "samples": self.samples[:8],
                "models": self.models, "suites": self.suites, "notes": self.notes,
                "other_properties_with_differences": other,
            },
            "assumptions": list(level_assumptions),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(rep),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for d in self.divs:
            if self.pid not in d["tags"] and os.environ.get("VH_VERBOSE"):
                print("  (other) %s: %s" % (d["tags"], d["what"][:300]))
        if not rep:
            return 0
        rd = os.path.join(ROOT, "out", "replay")
        os.makedirs(rd, exist_ok=True)
        for n, d in enumerate(rep[:5]):
            p = os.path.join(rd, "%s-%d.json" % (self.pid, n))
            json.dump({"property": self.pid, "seed": self.seed, **d}, open(p, "w"), indent=1)
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("  %s: %s" % (d["suite"], d["what"][:1500]))
        if len(rep) > 5:
            print("  ... %d more differences" % (len(rep) - 5))
        return 1

    def cleanup(self):
        self.pool.shutdown()
        if not os.environ.get("VH_KEEP"):
            shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(pid):
    p = os.path.join(ROOT, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def match_known(known, d):
    for k in known:
        if k["suite"] == d["suite"] and k["case"] == d["case"]:
            return k
    return None


def write_cases(path, cases):
    with open(path, "w") as f:
        for c in cases:
            f.write(json.dumps(c))
            f.write("\n")
    return path
