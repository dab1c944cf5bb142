#!/usr/bin/env python3
# tryedits.py FILE [ids]: FILE defines E = [(id, prop, file, old, new)]; does the property's check catch each edit?
import sys, subprocess, os, time
ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
W = f"/tmp/tryed.{os.getpid()}"
def sh(c, cwd=W, t=1500, env=None):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t, env=env)
sh(f"cp -a /repo {W}", "/")
try:
    for i, p, f, o, n in ns["E"]:
        if want and i not in want: continue
        s = open(f"{W}/{f}").read()
        if s.count(o) != 1: print(i, "OCCURS", s.count(o), flush=True); continue
        open(f"{W}/{f}", "w").write(s.replace(o, n))
        for q in p.split(","):
            t = time.time()
            r = sh(f"python3 /verif/bin/vp.py check {q}", env=dict(os.environ, VERIF_REPO=W))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print(i, q, "CAUGHT" if r.returncode == 1 and v else f"MISSED rc={r.returncode} {r.stdout[-200:] if r.returncode else ''}", f"{time.time()-t:.0f}s", flush=True)
        open(f"{W}/{f}", "w").write(s)
finally:
    subprocess.run(["/bin/rm", "-rf", W])
