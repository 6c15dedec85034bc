"""The command line tool: Cli.tla."""
import json, os, subprocess
import comp_scan, tlc, vlib

INV = "InvRefused InvUsed InvDone InvLayout InvReport".split()
LOCS = ["same", "empty", "shifted", "late", "hole", "shorter", "longer", "tail", "swapped", "foreign"]
OUTS = ["place", "same", "absent", "existing"]


def cases(rng, q):
    out = {}

    def add(n, bs, cmd="patch", dmg=("none", 0), bad="none", at0=0, loc="hole", o="absent", flat=False, p=0):
        x = dict(n=n, bs=bs, cmd=cmd, dmg=list(dmg), bad=bad, at0=at0, loc=loc, out=o, flat=flat, p=p)
        out[json.dumps(x)] = x
    # round trips
    sizes = [(0, 4), (1, 4), (3, 4), (4, 4), (5, 4), (8, 4), (37, 4), (100, 1), (100, 16), (1000, 100), (1001, 1000), (999, 1000), (20000, 8192), (70000, 512)]
    if not q:
        sizes += [(n, b) for n in (2, 7, 63, 64, 65, 1023, 1024, 1025, 30000) for b in (1, 2, 3, 8, 64, 1024, 4096) if n // b < 5000]
    for n, bs in sizes:
        for loc in LOCS:
            o = OUTS[(n + bs + LOCS.index(loc)) % 4]
            add(n, bs, loc=loc, o=o, flat=(n + len(loc)) % 3 == 0)
        for o in OUTS:
            add(n, bs, o=o, loc="swapped")
        add(n, bs, cmd="diff", loc="same")
        add(n, bs, cmd="diff", loc="same", p=3, flat=True)
        add(n, bs, cmd="diff", loc="hole")
    for _ in range(60 if q else 600):
        bs = rng.choice([1, 2, 5, 16, 100, 1000, 4096])
        add(rng.randint(0, min(60 * bs, 40000)), bs, loc=rng.choice(LOCS), o=rng.choice(OUTS), flat=rng.random() < .3)
    # every truncation and every byte of the header
    for n, bs, o in [(9, 4, "absent"), (8, 4, "place")] + ([] if q else [(100, 16, "existing"), (1, 4, "same")]):
        ln = 24 + 20 * -(-n // bs)
        for k in range(0, ln + 1):
            add(n, bs, dmg=("cut", k), o=o)
            add(n, bs, dmg=("cut", k), cmd="diff", loc="same")
        for k in (0, 1, 10, 19, 20, 21, 40):
            add(n, bs, dmg=("extra", k), o=o)
            add(n, bs, dmg=("extra", k), cmd="diff")
        for k in range(6):
            add(n, bs, dmg=("magic", k), o=OUTS[k % 4])
            add(n, bs, dmg=("magic", k), cmd="diff")
        for k in (0, 1, 2, 256, 65535):
            for f in ("major", "minor", "patch"):
                add(n, bs, dmg=(f, k), o=OUTS[k % 4])
                add(n, bs, dmg=(f, k), cmd="diff")
        for k in (-n - 1, -n, -bs - 3, bs, 3 * bs, 1000000):
            add(n, bs, dmg=("size", k), o=OUTS[k % 4])
            add(n, bs, dmg=("size", k), cmd="diff")
        add(n, bs, dmg=("bs0", 0), o=o)
        add(n, bs, dmg=("bs0", 0), cmd="diff")
    for n, bs in ((0, 4), (20, 20)):
        for k in range(0, 25):
            add(n, bs, dmg=("cut", k), o=OUTS[k % 4], loc="empty")
    # failures
    for n, bs in ((37, 4), (1000, 100)):
        for o in OUTS:
            for b in range(0, -(-n // bs)):
                add(n, bs, bad="source", at0=b, loc="empty" if b % 2 else "foreign", o=o)
            add(n, bs, bad="local", o=o, loc="same")
            add(n, bs, bad="index", o=o)
        for k in (0, 1, 2, 5, 6):
            add(n, bs, bad="args", at0=k)
        for k in (0, 1):
            for o in ("place", "same"):
                for loc in ("foreign", "hole", "shorter"):
                    add(n, bs, bad="place", at0=k, loc=loc, o=o)
        for loc in ("foreign", "hole", "same", "swapped"):
            add(n, bs, bad="full", loc=loc, o="existing")
        add(n, bs, bad="local", cmd="diff")
        add(n, bs, bad="index", cmd="diff")
    # files that are compared in several sections
    for n, bs, p in [(1100000, 8192, 3), (1048576, 8192, 4), (1048576, 65536, 16), (1048577, 1000, 7), (1200000, 100000, 5)] + \
                    ([] if q else [(n, b, p) for n in (1048576, 1048577, 2000000, 1500001) for b in (1024, 4096, 10007, 262144) for p in (1, 2, 3, 5, 8, 13)]):
        add(n, bs, cmd="diff", loc="same", p=p)
        add(n, bs, loc="shifted", o="place")
        for loc in LOCS[1:]:
            add(n, bs, cmd="diff", loc=loc, p=p)
    for _ in range(30 if q else 400):
        bs = rng.choice([16, 50, 100, 1000, 4096])
        add(rng.randint(bs, 60 * bs), bs, cmd="diff", loc=rng.choice(LOCS), p=rng.choice([0, 1, 3]))
    for _ in range(8 if q else 60):
        bs = rng.choice([1000, 4096, 8192, 50000, 300000])
        add(rng.randint(1400000, 1700000), bs, cmd="diff", loc=rng.choice(LOCS), p=rng.choice([0, 2, 3, 6, 11]))
    # a missing local block of a flat file may be found elsewhere
    return [x for x in out.values() if not (x["bad"] == "source" and x["flat"])]


def build(ck):
    b = ck.path("gosync")
    e = vlib.goenv()
    e["GOFLAGS"] = "-mod=readonly"
    p = subprocess.run([vlib.GO + "/go", "build", "-o", b, "./cmd/gosync"], cwd="/repo", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise vlib.CheckError("building the tool failed:\n" + p.stdout[-3000:])
    return {"VH_GOSYNC": b}


def run(ck):
    ck.build()
    env = build(ck)
    p, f = ck.path("cli_cases.json"), ck.path("cli.json")
    json.dump(cases(ck.rng, ck.quick), open(p, "w"))
    raw = tlc.Raw('Range0(JsonDeserialize("%s"))' % p)
    few = tlc.Raw('{z \\in Range0(JsonDeserialize("%s")) : z.n < 40}' % p)

    def main():
        ck.model("Cli", "Cli", dict(Cases=raw, Bug="none"), invariants=INV + ["Emit"], emit=f, workers=4)
        ck.suite("cli", f, label="command line", hang_s=75, env=env)

    def builds():
        g = vlib.write_cases(ck.path("clib.json"), [{"kind": "size", "bs": b} for b in ("0", "-1", "-8192", "4294967296", "99999999999", "x")] +
                             [{"kind": k, "bs": "16"} for k in ("missing", "folder", "full", "ownname", "ownlink")])
        ck.suite("clibuild", g, label="builds that must be refused", hang_s=75, env=env)
    def names():
        g = ck.path("cli_names.json")
        ck.model("IndexName", "IndexName", dict(MaxLen=6 if ck.quick else 8, Bug="none"), invariants="InvBeside InvStem InvNoExt Emit".split(), properties=["Ends"], emit=g)
        ck.suite("cliname", g, label="names of indexes", hang_s=75, env=env)
    jobs = [lambda: comp_scan.clihuge(ck, env, ["build", "patch"]), main, builds, names, lambda: ck.model("Cli:ends", "Cli", dict(Cases=few, Bug="none"), invariants=INV, properties=["Ends"])]
    for b in ("ignoreHeader", "ignoreCount", "ignoreResult", "ignoreClose"):
        jobs.append(lambda b=b: ck.mutant("Cli:" + b, "Cli", dict(Cases=few, Bug=b), invariants=INV))
    for b in ("anyDot", "firstDot"):
        jobs.append(lambda b=b: ck.mutant("IndexName:" + b, "IndexName", dict(MaxLen=5, Bug=b), invariants="InvBeside InvStem InvNoExt".split()))
    ck.jobs(jobs)
