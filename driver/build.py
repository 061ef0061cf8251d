"""Builds the simulator around the code in /repo's working tree."""
import json
import os
import re
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.27.3/bin/go"
PARTICIPLE = "github.com/alecthomas/participle/v2"
ETXE = "github.com/hexbee-net/etxe"
SIM = "verif.local/sim"
# Compiled without race instrumentation: the simulator and its stand-ins for
# synchronisation, whose own memory accesses must not order or race with
# anything, and the harness.
PLAIN = ["simrt", "ssync", "stime", "scontext", "simrun"]


class BuildError(Exception):
    pass


def go_env():
    env = dict(os.environ)
    env.update(
        HOME=env.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
        GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=env.get("VERIF_GOCACHE", "/root/.cache/go-build"),
        CGO_ENABLED="1", GOTELEMETRY="off",
    )
    env["PATH"] = os.path.dirname(GO) + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return env


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise BuildError("%s (in %s) failed:\n%s" % (" ".join(cmd), cwd, p.stdout[-6000:]))
    return p.stdout


def module_version(repo, mod):
    for line in open(os.path.join(repo, "go.mod")):
        m = re.match(r"\s*(?:require\s+)?(\S+)\s+(v\S+)", line)
        if m and m.group(1) == mod:
            return m.group(2)
    raise BuildError("go.mod of /repo does not name " + mod)


def copy_go(src, dst, skip=()):
    """Copies the non-test Go files of a module, and what they may embed."""
    def ignore(d, names):
        out = []
        for n in names:
            p = os.path.join(d, n)
            if n.endswith("_test.go") or n.startswith(".") or n in ("testdata", "node_modules"):
                out.append(n)
            elif d == src and n in skip:
                out.append(n)
            elif os.path.islink(p) and not os.path.exists(p):
                out.append(n)
        return out
    shutil.copytree(src, dst, ignore=ignore, copy_function=shutil.copyfile)
    for d, _, _ in os.walk(dst):
        os.chmod(d, 0o755)


def build(work, race, repo=None):
    """Builds the simulator in directory work; returns the path of the binary
    and a report of what was rewritten."""
    repo = repo or REPO
    env = go_env()
    if not os.path.isdir(os.path.join(env["GOMODCACHE"], "cache")):
        raise BuildError("no module cache")
    ver = module_version(repo, PARTICIPLE)
    ws = os.path.join(work, "ws")
    os.makedirs(ws)
    copy_go(repo, ws + "/etxe", skip=("cmd", "docs"))
    copy_go(os.path.join(env["GOMODCACHE"], "github.com/alecthomas/participle", "v2@" + ver), ws + "/participle",
            skip=("_examples", "cmd", "bin"))
    gm = open(ws + "/participle/go.mod").read()
    open(ws + "/participle/go.mod", "w").write(re.sub(r"(?m)^go 1\.1[0-7]$", "go 1.18", gm))
    shutil.copytree(VERIF + "/sim", ws + "/sim")
    etxe_mod = open(ws + "/etxe/go.mod").read()
    reqs = dict(re.findall(r"(?m)^\s*(?:require\s+)?((?:[\w.-]+\.[a-z]+)/\S+)\s+(v\S+)", etxe_mod))
    reqs[ETXE] = "v0.0.0"
    mod = "module %s\n\ngo 1.25\n\nrequire (\n%s)\n\nreplace %s => ../etxe\nreplace %s => ../participle\n" % (
        SIM, "".join("\t%s %s\n" % kv for kv in sorted(reqs.items())), ETXE, PARTICIPLE)
    open(ws + "/sim/go.mod", "w").write(mod)
    if os.path.exists(ws + "/etxe/go.sum"):
        shutil.copyfile(ws + "/etxe/go.sum", ws + "/sim/go.sum")
    run([GO, "build", "-o", work + "/instr", "."], VERIF + "/instr", dict(env, CGO_ENABLED="0"))
    goroot = run([GO, "env", "GOROOT"], work, env).strip()
    cmd = [work + "/instr", "-sim", ws + "/sim", "-stmt", ETXE, "-func", PARTICIPLE, "-report", work + "/instr.json"]
    if race:
        cmd.append("-race")
    report_out = run(cmd + packages(ws, env), ws + "/sim", env)
    out = work + "/simrun"
    cmd = [GO, "build", "-trimpath", "-o", out]
    if race:
        # Otherwise code compiled without instrumentation allocates in a way that
        # the race detector does not notice, and memory that is used again looks
        # like a race.
        env = dict(env, GOEXPERIMENT="nosizespecializedmalloc")
        over = work + "/overlay.json"
        json.dump({"Replace": {goroot + "/src/sync/pool.go": VERIF + "/sim/overlay/pool.go.txt"}}, open(over, "w"))
        cmd += ["-race", "-overlay", over]
        for p in PLAIN:
            cmd.append("-gcflags=%s/%s=-race=false" % (SIM, p))
    run(cmd + ["./simrun"], ws + "/sim", env)
    rep = json.load(open(work + "/instr.json"))
    if report_out.strip():
        rep["messages"] = report_out.strip()[-2000:]
    return out, rep


def packages(ws, env):
    """The packages whose code is put under the simulator: everything the
    targets need from the two modules."""
    out = run([GO, "list", "-deps", "-f", "{{if .Module}}{{.ImportPath}} {{.Module.Path}}{{end}}", ETXE + "/pkg/dag", ETXE + "/pkg/etx"],
              ws + "/sim", env)
    return [l.split()[0] for l in out.splitlines() if l.split()[1] in (ETXE, PARTICIPLE)]
