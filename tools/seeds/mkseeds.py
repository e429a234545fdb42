#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in seed_defs*.py.
usage: mkseeds.py [id-substring]...   (makes and validates the matching ones; all by default)
Validation runs in a scratch copy of /repo: builds, stable tests, demo on clean and on patched."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "..", "seeded")
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))
for f in sorted(glob.glob(HERE + "/seed_defs*.py")):
    exec(compile(open(f).read(), f, "exec"))
def sh(cmd, cwd=None, timeout=400):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
base = json.load(open("/opt/vp/BASELINE.json"))
want = sys.argv[1:]
tmp = tempfile.mkdtemp(prefix="mkseeds.")
sc = tmp + "/repo"
sh(f"cp -a /repo {sc}")
bad = []
ids = [s["id"] for s in SEEDS]
assert len(ids) == len(set(ids)), "duplicate id"
def tests():
    r = sh(". /opt/vp/env.sh; go test -json -vet=off -count=1 $(go list -e -f '{{if ne .ImportPath \"github.com/zellyn/diskii\"}}{{.ImportPath}}{{end}}' ./...)", cwd=sc)
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e["Action"] == "pass": ok.add(e["Package"] + "/" + e["Test"])
    return ok
def base_lines(diff):
    """Number of lines of the original repository that the patch removes or inserts next to."""
    n, path, old = 0, None, 0
    blame = {}
    for l in diff.splitlines():
        if l.startswith("--- "): path = l[6:]
        elif l.startswith("@@"): old = int(re.match(r"@@ -(\d+)", l).group(1))
        elif path and l[:1] in (" ", "-", "+") and not l.startswith("+++"):
            if path not in blame:
                blame[path] = sh(f"git -C /repo blame -s HEAD -- {path}").stdout.splitlines()
            if l[0] != "+":
                if l[0] == "-" and blame[path][old-1].startswith("^"): n += 1
                old += 1
            elif blame[path][old-2].startswith("^"): n += 1
    return n
clean_ok = tests()
try:
    for s in SEEDS:
        if want and not any(w in s["id"] for w in want): continue
        sh("git checkout -q -- .", cwd=sc)
        err = None
        for path, old, new in s["edits"]:
            p = os.path.join(sc, path); t = open(p).read()
            if t.count(old) != 1: err = f"edit {path}: {t.count(old)} matches for {old!r}"; break
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(OUT, s["id"])
        if not err:
            sh("gofmt -l . ", cwd=sc)
            diff = sh("git diff", cwd=sc).stdout
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            foreign = base_lines(diff)
            if not foreign: print("NOTE", s["id"], "changes no line of the original repository")
            imp = ""
            open(d + "/demo.go", "w").write(open(HERE + "/prelude.go").read() + s["demo"].strip("\n") + "\n")
            shutil.copy(HERE + "/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            r = sh(". /opt/vp/env.sh; go build ./...", cwd=sc)
            if r.returncode: err = "build: " + r.stdout[-500:]
        if not err:
            lost = clean_ok - tests()
            if lost: err = f"tests lost: {sorted(lost)}"
        if not err:
            r = sh(f"bash {d}/demo.sh", cwd=sc)
            pt = r.stdout.strip()[-160:]
            if r.returncode == 0: err = "demo passes with the patch"
            elif r.returncode in (3, 4, 5): err = "demo does not build: " + r.stdout[-600:]
            sh("git checkout -q -- .", cwd=sc)
            r = sh(f"bash {d}/demo.sh", cwd=sc)
            if r.returncode: err = (err or "") + " demo fails on clean: " + r.stdout[-600:]
        if err:
            bad.append(s["id"]); print("BAD ", s["id"], err)
            shutil.rmtree(d, ignore_errors=True)
        else:
            print("ok  ", s["id"], "|", pt.replace("\n", " / "))
        sys.stdout.flush()
finally:
    shutil.rmtree(tmp)
print(len(bad), "bad", bad)
