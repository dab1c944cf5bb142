"""Content-addressed incremental build of /repo's sources (working tree) and of the harnesses.

An object is identified by the hash of its flags, its source and every header the
compiler reported for it, so neither time stamps nor git state matter."""
import hashlib, json, os, subprocess, sys, glob, concurrent.futures as cf, time, shlex

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "_build")
INC = ["-I" + VERIF + "/lib", "-I" + VERIF + "/shim"] + ["-I" + REPO + "/" + d for d in (
    "include", "rdf3x/include", "rapidjson/include", "snap", "snap/glib-core", "snap/snap-core")]
BASE = "-include cstdint -fPIC -fsigned-char -std=c++11 -w -DNDEBUG -DSERVER=1 -DSPARQL=1 -DANALYTICS=1 -DML=1 -DTRIDENT_VERIF=1 -pthread".split()
VARIANTS = {
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "plain": ["-O1", "-g1"],
    "race": ["-O1", "-g1", "-fsanitize=thread", "-include", VERIF + "/lib/racemem.h"],
    "fast": ["-O2", "-g1"],
}
_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def groups():
    R = REPO
    g = {}
    g["core"] = sorted(sum((glob.glob(f"{R}/src/trident/{d}/*.cpp") for d in
                            ("binarytables", "files", "iterators", "kb", "model", "tests", "tree", "utils")), []))
    g["sparql"] = sorted(glob.glob(f"{R}/src/trident/sparql/*.cpp") + glob.glob(f"{R}/src/layers/*.cpp")
                         + glob.glob(f"{R}/rdf3x/src/cts/*.cpp") + glob.glob(f"{R}/rdf3x/src/rts/*.cpp")
                         + glob.glob(f"{R}/rdf3x/src/infra/*.cpp"))
    g["server"] = sorted(glob.glob(f"{R}/src/trident/server/*.cpp"))
    g["ml"] = sorted(p for p in glob.glob(f"{R}/src/trident/ml/*.cpp") if not p.endswith("main_ml.cpp"))
    g["analytics"] = sorted(p for p in glob.glob(f"{R}/src/snap/*.cpp"))
    g["snap"] = [f"{R}/snap/snap-core/Snap.cpp"]
    g["shim"] = [f"{VERIF}/shim/kshim.cpp"]
    g["vh"] = [f"{VERIF}/lib/vh.cpp"]
    g["sched"] = [f"{VERIF}/lib/sched.cpp"]
    g["net"] = [f"{VERIF}/lib/net.cpp"]
    g["race"] = [f"{VERIF}/lib/race.cpp"]
    return g


def compile_one(src, flags, log):
    rel = src.replace("/", "_")
    fkey = hashlib.sha256(" ".join(flags).encode()).hexdigest()[:12]
    depf = f"{B}/deps/{rel}.{fkey}.json"
    def key(deps):
        h = hashlib.sha256()
        h.update(" ".join(flags).encode())
        for d in deps:
            h.update((d + fhash(d)).encode())
        return h.hexdigest()[:32]
    try:
        with open(depf) as f:
            for deps in json.load(f):
                o = f"{B}/obj/{key(deps)}.o"
                if os.path.exists(o):
                    return o
    except (OSError, ValueError):
        pass
    tmp = f"{B}/tmp/{rel}.{fkey}.{os.getpid()}"
    cmd = ["g++"] + flags + ["-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO)
    if r.returncode:
        raise RuntimeError(f"compiling {src} failed:\n{r.stdout[-6000:]}")
    log.append(src)
    with open(tmp + ".d") as f:
        t = f.read().replace("\\\n", " ")
    deps = sorted({os.path.normpath(d) for d in t.split(":", 1)[1].split()
                   if d.startswith(REPO + "/") or d.startswith(VERIF + "/") or not d.startswith("/")} | {src})
    o = f"{B}/obj/{key(deps)}.o"
    os.replace(tmp + ".o", o)
    os.unlink(tmp + ".d")
    old = []
    try:
        with open(depf) as f:
            old = [x for x in json.load(f) if x != deps][:3]
    except (OSError, ValueError):
        pass
    with open(depf + f".{os.getpid()}", "w") as f:
        json.dump([deps] + old, f)
    os.replace(depf + f".{os.getpid()}", depf)
    return o


def build(name, spec, quiet=False):
    """spec: dict(src=[harness files], libs=[groups], variant=, flags=[], link=[])"""
    for d in ("obj", "deps", "tmp", "bin"):
        os.makedirs(f"{B}/{d}", exist_ok=True)
    g = groups()
    var = VARIANTS[spec.get("variant", "asan")]
    jobs = []
    excl = spec.get("exclude", [])
    for s in spec["src"]:
        jobs.append((f"{VERIF}/{s}", BASE + var + INC + spec.get("flags", [])))
    for lib in ["vh"] + spec.get("libs", []):
        for s in g[lib]:
            if any(s.endswith(e) for e in excl):
                continue
            v = var
            if lib == "snap" and "-O2" not in var:
                v = [x if x != "-O1" else "-O0" for x in var]
            if lib == "snap":
                v = v + ["-fpermissive"]
            if lib in ("vh", "sched", "net", "race", "shim") and spec.get("variant") == "race":
                v = VARIANTS["plain"]
            jobs.append((s, BASE + v + INC + (spec.get("libflags", []))))
    for s in spec.get("repo", []):
        jobs.append((f"{REPO}/{s}", BASE + var + INC + spec.get("libflags", [])))
    seen, uniq = set(), []
    for j in jobs:
        k = (j[0], tuple(j[1]))
        if k not in seen:
            seen.add(k)
            uniq.append(j)
    # biggest sources first
    uniq.sort(key=lambda j: -(10**9 if j[0].endswith("Snap.cpp") else os.path.getsize(j[0])))
    log = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        objs = list(ex.map(lambda j: compile_one(j[0], j[1], log), uniq))
    link = spec.get("link", [])
    h = hashlib.sha256((" ".join(sorted(objs)) + " ".join(link) + " ".join(var)).encode()).hexdigest()[:16]
    out = f"{B}/bin/{name}-{h}"
    if not os.path.exists(out):
        cmd = ["g++"] + [f for f in var if (f.startswith("-fsan") and "thread" not in f) or f.startswith("-O")] + objs + link + ["-llz4", "-lz", "-ltbb" if "tbb" in link else "-lm", "-pthread", "-o", out + ".tmp"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError(f"linking {name} failed:\n{r.stdout[-6000:]}")
        os.replace(out + ".tmp", out)
        for p in glob.glob(f"{B}/bin/{name}-*"):
            if p != out and len(glob.glob(f"{B}/bin/{name}-*")) > 3 and time.time() - os.path.getmtime(p) > 60:
                os.unlink(p)
    if not quiet and log:
        print(f"[build] {name}: compiled {len(log)} of {len(uniq)} units", flush=True)
    return out
