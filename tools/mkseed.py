#!/usr/bin/env python3
"""mkseed.py SPEC.py      makes /verif/seeded/<id> from a spec and verifies it in a scratch copy of /repo
mkseed.py --check ID...  applies each seed to /repo, runs its property's check and undoes it

A spec sets ID, PROP, PKG, EDITS = [(file, old, new)], TEST (a Go test file with TestDemo), NEEDS, BREAKS."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])
DEMO = '''#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds for the demonstrated case.
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off PATH=/opt/veriftools/go1.27.3/bin:$PATH
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export TMPDIR=$t
echo '{"Replace":{"'"$PWD"'/%s/zz_demo_test.go":"'"$d"'/demo_test.go"}}' > "$t/overlay.json"
go test %s-overlay "$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' ./%s
'''

def sh(cmd, cwd, ok=True, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=E, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if ok and r.returncode:
        raise SystemExit(f"{cmd}: {r.returncode}\n{r.stdout[-4000:]}")
    return r

def make(path):
    s = {}
    exec(open(path).read(), s)
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = tmp + "/repo"
    try:
        sh(["git", "clone", "-q", "/repo", repo], "/")
        final = os.path.join(ROOT, "seeded", s["ID"])
        out = tmp + "/out"
        os.makedirs(out)
        with open(out + "/demo_test.go", "w") as f:
            f.write(s["TEST"].lstrip("\n"))
        with open(out + "/demo.sh", "w") as f:
            f.write(DEMO % (s["PKG"], "-race " if s.get("RACE") else "", s["PKG"]))
        os.chmod(out + "/demo.sh", 0o755)
        for n in range(3):
            sh(["bash", out + "/demo.sh"], repo)
        for f, old, new in s["EDITS"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            if t.count(old) != 1:
                raise SystemExit(f"{f}: {t.count(old)} matches of {old!r}")
            open(p, "w").write(t.replace(old, new))
        sh("gofmt -l . | (! grep .)", repo, ok=False)
        d = sh(["git", "diff"], repo).stdout
        with open(out + "/patch.diff", "w") as f:
            f.write(d)
        sh("go build ./... && go vet ./%s" % s["PKG"], repo, ok=False)
        sh("go build ./...", repo)
        for n in range(2):
            sh("go test -vet=off -count=1 ./...", repo)
        for n in range(3):
            r = sh(["bash", out + "/demo.sh"], repo, ok=False)
            if r.returncode == 0:
                raise SystemExit("the demonstration passes with the patch")
        base = sh(["git", "show", "9f083ed:" + s["EDITS"][0][0]], repo).stdout
        for f, old, new in s["EDITS"]:
            b = sh(["git", "show", "9f083ed:" + f], repo).stdout
            gone = [l for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
            if not any(l[1:] in b.splitlines() for l in gone) and gone:
                print("WARNING: no removed line is an original one", f)
        with open(out + "/meta.json", "w") as f:
            json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, f, indent=1)
            f.write("\n")
        if os.path.exists(final):
            shutil.rmtree(final)
        shutil.copytree(out, final)
        print(s["ID"], "ok:", r.stdout.strip().splitlines()[:3])
    finally:
        shutil.rmtree(tmp)

def check(ids, tier="quick"):
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        prop = json.load(open(d + "/meta.json"))["property"]
        sh(["git", "apply", d + "/patch.diff"], "/repo")
        try:
            r = sh([ROOT + "/check", prop, tier], ROOT, ok=False)
        finally:
            sh(["git", "checkout", "--", "."], "/repo")
        print(i, prop, "CAUGHT" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout else "MISSED rc=%d" % r.returncode)
        print("   ", "\n    ".join(r.stdout[-700:].splitlines()), flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "--check":
        check(sys.argv[2:] or sorted(os.listdir(os.path.join(ROOT, "seeded"))))
    else:
        for p in sys.argv[1:]:
            make(p)
