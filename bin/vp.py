#!/usr/bin/env python3
"""vp.py check ID | setup | replay FILE | list | build HARNESS..."""
import json, os, sys, subprocess, time, shutil, tempfile, struct, mmap, signal, hashlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vpbuild
from vpbuild import VERIF
sys.path.insert(0, VERIF)
from checks import CHECKS, HARNESSES

NPROC = 8
SEED = int(os.environ.get("VERIF_SEED", "1"))
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=1:max_allocation_size_mb=8192:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:detect_stack_use_after_return=0",
        "UBSAN_OPTIONS": "halt_on_error=1:exitcode=77"}


def findings(pid):
    """lines 'finding: property=<id> key=<key> <text>'"""
    out = {}
    try:
        for l in open(f"{VERIF}/known-findings.txt"):
            if l.startswith("finding: "):
                w = l.split(None, 3)
                if w[1] == f"property={pid}":
                    out[w[2].split("=", 1)[1]] = w[3].strip()
    except OSError:
        pass
    return out


class Run:
    def __init__(self, binary, args, thorough, hang, work):
        self.binary, self.args, self.thorough, self.hang, self.work = binary, args, thorough, hang, work

    def cmd(self, tag, extra):
        out = f"{self.work}/{tag}.json"
        prog = f"{self.work}/{tag}.prog"
        scr = f"{self.work}/vscratch_{tag}"
        shutil.rmtree(scr, ignore_errors=True)
        os.makedirs(scr)
        c = [self.binary, "--out", out, "--progress", prog, "--scratch", scr] + self.args + extra
        if self.thorough:
            c.append("--thorough")
        return c, out, prog

    def start(self, tag, extra):
        c, out, prog = self.cmd(tag, extra)
        log = open(f"{self.work}/{tag}.log", "w")
        env = dict(os.environ, **ASAN, VERIF_SEED=str(SEED))
        p = subprocess.Popen(c, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=self.work, start_new_session=True)
        return dict(p=p, out=out, prog=prog, log=f"{self.work}/{tag}.log", last=None, t=time.time(), tag=tag)

    @staticmethod
    def idx(j):
        try:
            with open(j["prog"], "rb") as f:
                return struct.unpack("q", f.read(8))[0]
        except (OSError, struct.error):
            return -1

    @staticmethod
    def beat(j):
        try:
            with open(j["prog"], "rb") as f:
                return f.read(16)
        except OSError:
            return b""

    def wait(self, jobs, hang):
        """returns list of (job, status) status: ok|crash|hang"""
        res, live = [], list(jobs)
        while live:
            time.sleep(0.02)
            for j in list(live):
                rc = j["p"].poll()
                if rc is not None:
                    live.remove(j)
                    try:
                        os.killpg(j["p"].pid, signal.SIGKILL)
                    except OSError:
                        pass
                    if rc == 0 and os.path.exists(j["out"]):
                        res.append((j, "ok", rc))
                    else:
                        res.append((j, "crash", rc))
                else:
                    i = self.beat(j)
                    if i != j["last"]:
                        j["last"], j["t"] = i, time.time()
                    elif time.time() - j["t"] > hang:
                        try:
                            os.killpg(j["p"].pid, signal.SIGKILL)
                        except OSError:
                            pass
                        j["p"].wait()
                        live.remove(j)
                        res.append((j, "hang", None))
        return res

    def single(self, i, tag="single"):
        """one case alone: (verdict, message, desc)"""
        j = self.start(tag, ["--only", str(i)])
        (_, st, rc), = self.wait([j], self.hang * 3)
        log = open(j["log"], errors="replace").read()
        desc = ""
        for l in log.splitlines():
            if l.startswith("case "):
                desc = l.split(": ", 1)[1]
                break
        if st == "ok":
            r = json.load(open(j["out"]))
            if r["fails"]:
                return "fail", r["fails"][0]["msg"], r["fails"][0]["desc"]
            return "ok", "", desc
        tail = [l for l in log.splitlines() if l.strip()]
        key = [l for l in tail if "ERROR: AddressSanitizer" in l or "runtime error" in l or "terminate called" in l or "what():" in l]
        if st == "hang":
            return "fail", f"no progress for {self.hang * 3} s (hang)", desc
        return "fail", f"crashed (exit {rc}) " + " | ".join((key or tail[-3:])[:3]), desc


def run_stage(pid, stage, thorough, work, known):
    h = stage["harness"]
    spec = HARNESSES[h]
    binary = vpbuild.build(h, spec)
    args = list(stage.get("args", []))
    n = stage.get("shards", NPROC)
    hang = stage.get("hang", 60)
    os.makedirs(work, exist_ok=True)
    R = Run(binary, args, thorough, hang, work)
    t0 = time.time()
    jobs = [R.start(f"s{i}", ["--shard", f"{i}/{n}"]) for i in range(n)]
    res = R.wait(jobs, hang)
    agg = dict(cases=0, ran=0, counters={}, samples=[], outcomes=set(), stage=h + " " + " ".join(args), known={}, notes=[])
    viol = []

    def absorb(j, r):
        agg["cases"] = max(agg["cases"], r["cases"])
        agg["ran"] += r["ran"]
        for k, v in r["counters"].items():
            if k.startswith("max_"):
                agg["counters"][k] = max(agg["counters"].get(k, 0), v)
            else:
                agg["counters"][k] = agg["counters"].get(k, 0) + v
        agg["samples"] += r["samples"]
        for k in r["known"]:
            agg["known"][k["key"]] = k
        with open(j["out"] + ".hashes", "rb") as f:
            d = f.read()
        agg["outcomes"].update(struct.unpack(f"{len(d) // 8}Q", d))

    for j, st, rc in sorted(res, key=lambda r: r[0]["tag"]):
        if st == "ok":
            r = json.load(open(j["out"]))
            if not r["fails"]:
                absorb(j, r)
            cand = [x["idx"] for x in r["fails"]]
            first = r["fails"][0] if r["fails"] else None
        else:
            cand, first = [R.idx(j)], None
            if cand[0] < 0:
                tail = open(j["log"], errors="replace").read()[-1500:]
                raise RuntimeError(f"{h} died before its first case (rc={rc}):\n{tail}")
        for c in cand[:1]:
            if viol:
                continue
            # replay before report
            verdict, msg, desc = "ok", "", ""
            for k in range(2):
                verdict, msg, desc = R.single(c, "single")
                if verdict == "fail":
                    break
            if verdict == "fail":
                viol.append(dict(harness=h, args=args, case=c, desc=desc, message=msg, thorough=thorough))
            else:
                # perhaps state carried over from earlier cases of the shard: re-run the whole shard
                for attempt in range(3):
                    j2 = R.start("again", ["--shard", j["tag"][1:] + f"/{n}"])
                    (_, st2, rc2), = R.wait([j2], hang * 3)
                    bad = st2 != "ok" or json.load(open(j2["out"]))["fails"]
                    if not bad and st == "ok":
                        continue
                    break
                if bad:
                    m = (first or {}).get("msg") or f"{st2} rc={rc2} at case {c}"
                    viol.append(dict(harness=h, args=args, case=c, shard=j["tag"][1:] + f"/{n}", desc=(first or {}).get("desc", desc), message="only after the earlier cases of the shard: " + m, thorough=thorough))
                else:
                    # not reproducible (a stall of the machine): take the complete re-run instead
                    r = json.load(open(j2["out"]))
                    agg["notes"].append(f"shard {j['tag'][1:]}: {st} (rc={rc}) at case {c} did not reproduce; counted from its re-run")
                    absorb(j2, r)
    for k, v in agg["known"].items():
        if k not in known:
            viol.append(dict(harness=h, args=args, case=-1, desc=v["case"], message=f"[{k}] {v['msg']}", thorough=thorough))
    agg["wall"] = time.time() - t0
    return agg, viol


def check(pid):
    c = CHECKS[pid]
    thorough = os.environ.get("VERIF_TIER") == "thorough"
    t0 = time.time()
    known = findings(pid)
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    work = tempfile.mkdtemp(prefix=f"vscratch_{pid}_", dir=base)
    stages, viols = [], []
    try:
        for i, st in enumerate(c["stages"]):
            if st.get("thorough_only") and not thorough:
                continue
            a, v = run_stage(pid, st, thorough, f"{work}/st{i}", known)
            stages.append(a)
            viols += v
            shutil.rmtree(f"{work}/st{i}", ignore_errors=True)
            print(f"[{pid}] {a['stage']}: {a['ran']} cases, {len(a['outcomes'])} distinct outcomes, {a['wall']:.1f} s", flush=True)
            if viols:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    cov = {}
    tot = {}
    for a in stages:
        for k, v in a["counters"].items():
            tot[k] = tot.get(k, 0) + v
    ran = sum(a["ran"] for a in stages)
    outs = set().union(*[a["outcomes"] for a in stages]) if stages else set()
    samples = sum((a["samples"][:2] for a in stages), [])[:12] or ["none"]
    if c["level"] == "model_checking":
        cov = dict(states=tot.get("states", len(outs)), transitions=tot.get("transitions", 0),
                   traces_validated_against_impl=tot.get("traces", ran), samples=samples)
    else:
        cov = dict(evaluations=tot.get("evaluations", ran), distinct_nontrivial=len(outs), rule=c["rule"], samples=samples)
    cov["executions"] = ran
    cov["distinct_outcomes"] = len(outs)
    cov["exhaustive"] = not viols
    cov["bounds"] = c.get("bounds", "")
    cov["counters"] = tot
    cov["stages"] = [dict(stage=a["stage"], cases=a["ran"], distinct_outcomes=len(a["outcomes"]), counters=a["counters"], wall_s=round(a["wall"], 2)) for a in stages]
    notes = sum((a["notes"] for a in stages), [])
    if notes:
        cov["notes"] = notes
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=SEED, level=c["level"], coverage=cov,
              assumptions=c.get("assumptions", []), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for a in stages:
        for k in a["known"]:
            if k in known and k not in seen:
                seen.add(k)
                print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if viols:
        v = viols[0]
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        rp = f"{VERIF}/replays/{pid}-{hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:10]}.json"
        v["property"] = pid
        with open(rp, "w") as f:
            json.dump(v, f, indent=1)
        print(f"case: {v['desc']}\nobserved: {v['message'][:3000]}\nreplay with: python3 bin/vp.py replay {rp}")
        print(f"VIOLATION property={pid} replay={rp}", flush=True)
        return 1
    print(f"[{pid}] held on {ran} executions ({wall:.1f} s)")
    return 0


def replay(path):
    v = json.load(open(path))
    binary = vpbuild.build(v["harness"], HARNESSES[v["harness"]])
    work = tempfile.mkdtemp(prefix="vscratch_replay_")
    try:
        R = Run(binary, v["args"], v["thorough"], 60, work)
        if "shard" in v:
            j = R.start("again", ["--shard", v["shard"]])
            (_, st, rc), = R.wait([j], 180)
            print(st, open(j["log"]).read()[-3000:], open(j["out"]).read()[-2000:] if os.path.exists(j["out"]) else "")
            return 0
        r = R.single(v["case"])
        print(open(f"{work}/single.log").read()[-6000:])
        print(r)
        return 1 if r[0] == "fail" else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "check":
            return check(a[1])
        if a[0] == "replay":
            return replay(a[1])
        if a[0] == "build":
            for h in a[1:] or HARNESSES:
                print(vpbuild.build(h, HARNESSES[h]))
            return 0
        if a[0] == "setup":
            for h in HARNESSES:
                t = time.time()
                try:
                    vpbuild.build(h, HARNESSES[h])
                except RuntimeError as e:
                    print(f"setup: {h}: {e}")
                    return 1
                print(f"setup: {h} {time.time() - t:.1f} s", flush=True)
            return 0
        if a[0] == "list":
            for k, c in CHECKS.items():
                print(k, c["level"], [s["harness"] for s in c["stages"]])
            return 0
    except RuntimeError as e:
        print(str(e)[-8000:], file=sys.stderr)
        return 3
    return 2


sys.exit(main())
