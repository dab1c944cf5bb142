#!/usr/bin/env python3
"""mutate.py N SEED [file-regex]: plants N single-line mutations in a copy of /repo (/tmp/mt/wt) and runs the checks
mapped to the file, from a copy of /verif (/tmp/mt/verif); results in /tmp/mt/results.jsonl"""
import sys, os, re, random, subprocess, json, shutil, time
B = os.environ.get("MT", "/tmp/mt")
MAP = [
 (r"kb/(diffindex|updat)|iterators/diff", ["C04"]),
 (r"kb/dictmgmt", ["C13", "C04"]),
 (r"kb/(loader|permsorter|inserter|partial)", ["C14", "C12", "C01", "C11", "C13"]),
 (r"kb/(querier|kb\b|kb\.|kbconfig|cacheidx)", ["C01", "C02", "C03", "C13", "C05", "C04"]),
 (r"kb/memoryopt|files/", ["C01", "C14"]),
 (r"tree/stringbuffer", ["C10", "C11"]),
 (r"tree/", ["C09", "C13"]),
 (r"binarytables/", ["C01", "C03", "C02"]),
 (r"iterators/", ["C03", "C02", "C01", "C05"]),
 (r"utils/parallel", ["C11"]),
 (r"utils/httpserver", ["C17"]), (r"utils/httpclient", ["C18"]), (r"utils/json|server/", ["C19"]),
 (r"utils/tridentutils", ["C01", "C10", "C18"]),
 (r"sparql/(nesmeritr|joinplan|hashjoinitr|sparqloperators|tplan|joins|plan|query)|tuplekbiterator", ["C22"]),
 (r"src/trident/sparql|rdf3x/", ["C05", "C06", "C07", "C08"]),
 (r"kb/kbbatch|ml/(batch|feedback)", ["C20"]), (r"ml/subgraph", ["C23"]), (r"ml/|utils/fft", ["C21"]),
 (r"snap|analytics|tnode|tsnap", ["C15", "C16"]),
]
SKIP = re.compile(r"LOG|^\s*//|^\s*\*|^\s*#|throw|cout|cerr|duration|steady|system_clock|assert|^\s*(else|return;|public|private|protected)|^\s*[{}]*\s*$|fprintf|printf|^\s*using|^\s*delete|namespace")
def muts(l):
    out = []
    def sub(pat, rep, c=None):
        for m in re.finditer(pat, l):
            out.append(l[:m.start()] + m.expand(rep) + l[m.end():])
    sub(r" < ", " <= "); sub(r" > ", " >= "); sub(r" <= ", " < "); sub(r" >= ", " > ")
    sub(r" == ", " != "); sub(r" != ", " == "); sub(r" && ", " || "); sub(r" \|\| ", " && ")
    sub(r" \+ 1\b", ""); sub(r" - 1\b", ""); sub(r" \+ ", " - "); sub(r"\btrue\b", "false"); sub(r"\bfalse\b", "true")
    sub(r"(= |\()0([;,)])", r"\g<1>1\2"); sub(r"(= |\()1([;,)])", r"\g<1>0\2")
    if re.match(r"^\s*[A-Za-z_][\w.\->\[\]]* (=|\+=|-=) [^;]*;\s*$", l) or re.match(r"^\s*[A-Za-z_][\w.\->\[\]]*\([^;]*\);\s*$", l) or re.match(r"^\s*([\w.\->]+(\+\+|--)|break|continue);\s*$", l) or re.match(r"^\s*(\+\+|--)[\w.\->]+;\s*$", l):
        out.append(re.match(r"^\s*", l).group(0) + ";")
    return out
def main():
    n, seed, rx = int(sys.argv[1]), int(sys.argv[2]), (sys.argv[3] if len(sys.argv) > 3 else ".")
    if not os.path.exists(B):
        os.makedirs(B)
        subprocess.run(["cp", "-a", "/repo", B + "/wt"], check=True)
        subprocess.run(["cp", "-a", "/verif", B + "/verif"], check=True)
    wt = B + "/wt"
    subprocess.run("git checkout -q -- .", shell=True, cwd=wt)
    cov = json.load(open("/tmp/covlines.json")) if os.path.exists("/tmp/covlines.json") else {}
    fs = subprocess.run("git ls-files include src rdf3x", shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout.split()
    cand = []
    for f in fs:
        if not re.search(r"\.(cpp|h|hpp)$", f) or not re.search(rx, f) or re.search(r"tests/|java|mining|main", f): continue
        ch = next((c for p, c in MAP if re.search(p, f)), None)
        if not ch: continue
        for i, l in enumerate(open(wt + "/" + f, errors="replace").read().split("\n")):
            if SKIP.search(l): continue
            if "sparql/" not in f and len(cov.get(f, [])) > 5 and i + 1 not in cov[f]: continue
            for m in muts(l):
                cand.append((f, i, l, m, ch))
    random.Random(seed).shuffle(cand)
    print(len(cand), "candidates", flush=True)
    env = dict(os.environ, VERIF_REPO=wt)
    done = 0
    for f, i, l, m, ch in cand:
        if done >= n: break
        p = wt + "/" + f
        t = open(p, errors="replace").read().split("\n")
        if t[i] != l: continue
        t[i] = m
        open(p, "w").write("\n".join(t))
        t0 = time.time(); caught = None; note = ""
        try:
            for c in ch:
                r = subprocess.run(f"timeout 600 python3 bin/vp.py check {c}", shell=True, cwd=B + "/verif", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1 and "VIOLATION" in r.stdout: caught = c; break
                if r.returncode != 0:
                    note += f"{c}:rc{r.returncode} {r.stdout[-200:]}"
                    break
        finally:
            subprocess.run("git checkout -q -- .", shell=True, cwd=wt)
        if "rror" in note and caught is None and "rc" in note and ("ompil" in note or "build" in note): continue
        done += 1
        rec = dict(file=f, line=i + 1, old=l.strip(), new=m.strip(), caught=caught, note=note, s=round(time.time() - t0))
        open(B + "/results.jsonl", "a").write(json.dumps(rec) + "\n")
        print(json.dumps(rec), flush=True)
main()
