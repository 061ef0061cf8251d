"""plant.py ID PROPERTY PKG [race] < spec

Makes and confirms one planted bug. The specification on standard input has
sections: '@@ needs', '@@ breaks', any number of '@@ edit FILE' with the old
text, a line '====' and the new text, and '@@ demo' with the Go test file.
Everything is confirmed in a scratch copy of /repo: builds, passes the stable
tests, the demonstration fails with the change and passes without it.
"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
           GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="0", GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build")
DEMO = '''#!/bin/bash
# Run in /repo after the build: exit 0 when the property holds.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build CGO_ENABLED=%s
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 1
trap 'rm -rf "$scratch"' EXIT
printf '{"Replace":{"%%s/pkg/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$scratch/overlay.json"
go test %s-overlay "$scratch/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./pkg/%s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tests(repo):
    pk = [p for p in sh(["go", "list", "./..."], repo).stdout.split() if not p.endswith("/dag")]
    p = sh(["go", "test", "-json", "-vet=off", "-count=1"] + pk, repo)
    passed = set()
    for l in p.stdout.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            passed.add(e["Package"] + "/" + e["Test"])
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in stable if t not in passed]

def main():
    bug, prop, pkg = sys.argv[1:4]
    race = "race" in sys.argv[4:]
    sec, cur = [], None
    for l in sys.stdin.read().splitlines(True):
        if l.startswith("@@ "):
            cur = [l[3:].strip(), ""]
            sec.append(cur)
        else:
            cur[1] += l
    d = "%s/seeded/%s" % (V, bug)
    shutil.rmtree(d, True)
    os.makedirs(d)
    work = tempfile.mkdtemp(prefix="plant-")
    try:
        repo = work + "/repo"
        shutil.copytree("/repo", repo, symlinks=True)
        meta = {"property": prop}
        for k, t in sec:
            if k == "needs":
                meta["needs"] = t.strip()
            elif k == "breaks":
                meta["what_it_breaks"] = t.strip()
            elif k == "demo":
                open(d + "/demo_test.go", "w").write(t)
            elif k.startswith("edit "):
                f = repo + "/" + k[5:]
                s = open(f).read()
                old, new = t.split("====\n")
                if s.count(old) != 1:
                    sys.exit("%s: %d places match\n%s" % (k, s.count(old), old))
                open(f, "w").write(s.replace(old, new))
        json.dump(meta, open(d + "/meta.json", "w"), indent=1)
        open(d + "/demo.sh", "w").write(DEMO % ("1" if race else "0", pkg, "-race " if race else "", pkg))
        os.chmod(d + "/demo.sh", 0o755)
        sh(["gofmt", "-l", "-w", "pkg"], repo) if False else None
        diff = sh(["git", "diff"], repo).stdout
        open(d + "/patch.diff", "w").write(diff)
        b = sh(["go", "build", "./..."], repo)
        if b.returncode:
            sys.exit("does not build:\n" + b.stdout)
        t = tests(repo)
        if t:
            sys.exit("tests fail: %s" % t[:5])
        a = sh(["bash", d + "/demo.sh"], repo)
        if a.returncode == 0:
            sys.exit("the demonstration passes with the change:\n" + a.stdout[-2000:])
        sh(["git", "checkout", "--", "."], repo)
        c = sh(["bash", d + "/demo.sh"], repo)
        if c.returncode:
            sys.exit("the demonstration fails without the change:\n" + c.stdout[-2000:])
        print("%s planted; with the change the demonstration says:\n%s" % (bug, a.stdout[-700:]))
    finally:
        shutil.rmtree(work, True)

main()
