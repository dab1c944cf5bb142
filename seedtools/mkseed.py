#!/usr/bin/env python3
"""mkseed.py ID PROPERTY 'needs' 'breaks' --edit FILE OLD NEW ... --demo demo.cpp [--conf text]
Builds seeded/ID from a textual edit and a demo, and confirms it in a scratch worktree."""
import sys, os, subprocess, shutil, json, tempfile
V = "/verif"
def sh(c, cwd, t=900):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=t)
def main(spec):
    d = f"{V}/seeded/{spec['id']}"
    wt = tempfile.mkdtemp(prefix="seedwt.", dir="/tmp")
    try:
        assert sh(f"cp -a /repo/. {wt}/", "/").returncode == 0
        sh("git checkout -q -- .", wt)
        for f, o, n in spec["edits"]:
            p = f"{wt}/{f}"
            t = open(p).read()
            assert t.count(o) == 1, (f, "occurrences:", t.count(o))
            open(p, "w").write(t.replace(o, n))
        diff = sh("git diff", wt).stdout
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        # blame: changed lines must stem from the base commit
        base = sh("git rev-list --max-parents=0 HEAD", "/repo").stdout.strip()
        import re
        f = None; pos = 0; bad = []
        for l in diff.splitlines():
            if l.startswith("--- a/"): f = l[6:]
            m = re.match(r"@@ -(\d+)", l)
            if m: pos = int(m.group(1)); continue
            if l.startswith("---") or l.startswith("+++"): continue
            if l.startswith("-"):
                b = sh(f"git blame -s --abbrev=40 -L {pos},{pos} -- {f}", "/repo").stdout
                if base[:30] not in b[:60]: bad.append((f, pos, b[:60]))
                pos += 1
            elif l.startswith(" "): pos += 1
        if bad: print("NOT ORIGINAL LINES:", bad)
        open(f"{d}/demo.cpp", "w").write(spec["demo"])
        if spec.get("conf"): open(f"{d}/demo.conf", "w").write(spec["conf"])
        shutil.copy(f"{V}/seedtools/demo.sh", d); shutil.copy(f"{V}/seedtools/vh.h", d)
        shutil.copy(f"{V}/lib/kbutil.h", d); shutil.copy(f"{V}/lib/iterx.h", d)
        shutil.rmtree(f"{d}/shim", ignore_errors=True); shutil.copytree(f"{V}/shim", f"{d}/shim")
        json.dump(dict(property=spec["property"], needs=spec["needs"], what_it_breaks=spec["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        g = sh(f"bash {d}/demo.sh", "/repo")
        b = sh(f"bash {d}/demo.sh", wt)
        print(spec["id"], "unchanged rc", g.returncode, g.stdout[-300:], "| patched rc", b.returncode, b.stdout[-300:])
        shutil.copytree(wt, wt + ".b") if False else None
        return g.returncode == 0 and b.returncode not in (0, 3) and not bad
    finally:
        subprocess.run(["/bin/rm", "-rf", wt])
if __name__ == "__main__":
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    import concurrent.futures as cf
    todo = [s for s in ns["SEEDS"] if not want or s["id"] in want]
    for s in todo:
        try:
            print("OK" if main(s) else "BAD", s["id"])
        except Exception as e:
            print("BAD", s["id"], repr(e))
