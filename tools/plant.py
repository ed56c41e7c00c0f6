#!/usr/bin/env python3
"""Plant bugs: plant.py SPEC.py [ID...] — make, confirm and keep the changes a spec file describes.

SPEC.py calls seed(id, property, file, edits, needs, breaks, cases=..., setup=..., demo=..., files=...), where
edits are (old, new) pairs applied to the file in a scratch copy of /repo and cases are
(arguments, standard input) run through the command; what the unchanged tree prints becomes
what the demonstration expects.  `demo` replaces the generated demonstration."""
import os, re, shlex, shutil, subprocess, sys, json
SCRATCH = "/tmp/seed"
OUT = "/verif/seeded"
seeds = []
def seed(id, prop, file, edits, needs, breaks, cases=(), setup="", demo=None, files=None, env=""):
    seeds.append(locals())
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, executable="/bin/bash", **k)
HEAD = '''#!/bin/bash
# Run in /repo after the build: 0 if the command behaves as it should, 1 if not.
. /opt/vp/env.sh
cargo build --offline -q --bin seam || exit 2
seam="$PWD/target/debug/seam"
export TZ=UTC NO_COLOR=1
dir=$(mktemp -d) || exit 2
trap 'rm -rf -- "$dir"' EXIT
cd "$dir" || exit 2
bad=0
# expect EXIT-STATUS OUTPUT INPUT ARGUMENT...
expect() {
    local status="$1" output="$2" input="$3" got rc; shift 3
    got=$(printf '%s' "$input" | "$seam" "$@" 2>/dev/null; rc=$?; printf x; exit $rc); rc=$?
    got="${got%x}"
    if [ "$rc" -ne "$status" ] || [ "$got" != "$output" ]; then
        printf 'for %q %s\\nexpected %s: %q\\ngot %s: %q\\n' "$input" "$*" "$status" "$output" "$rc" "$got"; bad=1
    fi
}
'''
def run(cases, setup):
    res = []
    d = "/tmp/seed-run"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    e = dict(os.environ, TZ="UTC", NO_COLOR="1")
    subprocess.run(["bash", "-c", setup], cwd=d, env=e)
    for args, inp in cases:
        try:
            p = subprocess.run([f"{SCRATCH}/target/debug/seam", *shlex.split(args)], input=inp.encode(), cwd=d, capture_output=True, env=e, timeout=20)
            res.append((p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")))
        except subprocess.TimeoutExpired: res.append((124, "", "timeout"))
    shutil.rmtree(d); return res
def sq(s): return "$'" + s.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r") + "'"
def build():
    return sh(f". /opt/vp/env.sh; cd {SCRATCH} && cargo build --offline -q --bin seam 2>&1")
def tests():
    r = sh(f". /opt/vp/env.sh; cd {SCRATCH} && cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1")
    base = json.load(open("/opt/vp/BASELINE.json"))
    return r.returncode == 0 or "test result: FAILED" not in r.stdout, r.stdout
def demo_rc(d):
    # The demonstration runs in the scratch copy, from a folder of its own.
    t = "/tmp/seed-demo"; shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    r = sh(f"cd {SCRATCH} && bash {t}/demo.sh", timeout=300)
    shutil.rmtree(t); return r.returncode, (r.stdout + r.stderr)[-600:]
def main():
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), globals())
    only = sys.argv[2:]
    for s in seeds:
        if only and s["id"] not in only: continue
        sh(f"git -C {SCRATCH} checkout -q -- . ; git -C {SCRATCH} fetch -q /repo master 2>/dev/null; git -C {SCRATCH} reset -q --hard $(git -C /repo rev-parse HEAD)")
        print("==", s["id"], s["prop"])
        assert build().returncode == 0
        base = run(s["cases"], s["setup"])
        f = f"{SCRATCH}/{s['file']}"
        edits = s["edits"]
        text = open(f).read(); ok = True
        for e in edits:
            g, (old, new) = (f, e) if len(e) == 2 else (f"{SCRATCH}/{e[0]}", e[1:])
            t = open(g).read()
            n = t.count(old)
            if n != 1: print("  FAIL: old text occurs", n, "times:", old[:70]); ok = False; break
            open(g, "w").write(t.replace(old, new))
        if not ok: continue
        diff = sh(f"git -C {SCRATCH} diff").stdout
        # Only lines of the original repository may be changed.
        bad = []
        names = set(re.findall(r"^--- a/(.*)$", diff, re.M))
        for name in names:
            orig = set(sh(f"git -C /repo show 3cf576a:{name}").stdout.split("\n"))
            blame = {}
            part = sh(f"git -C {SCRATCH} diff -- {name}").stdout
            for l in part.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig: bad.append(l)
        if bad: print("  FAIL: not original:", *bad[:4], sep="\n    "); continue
        if not any(l.startswith("-") and not l.startswith("---") for l in diff.split("\n")): print("  note: nothing original is changed")
        b = build()
        if b.returncode: print("  FAIL build:", b.stdout[-900:]); continue
        got = run(s["cases"], s["setup"])
        d = f"{OUT}/{s['id']}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if s["demo"] is None:
            text = HEAD
            if s["setup"]: text += s["setup"].rstrip() + "\n"
            for (args, inp), (rc, out, err), (rc2, out2, _) in zip(s["cases"], base, got):
                mark = "" if (rc, out) == (rc2, out2) else "  <--"
                print("   ", repr(inp), args, "\n      base", rc, repr(out), (repr(err[-100:]) if rc else ""), "\n      bug ", rc2, repr(out2), mark)
                text += f"expect {rc} {sq(out)} {sq(inp)} {args}\n"
            text += "exit $bad\n"
        else: text = s["demo"]
        open(f"{d}/demo.sh", "w").write(text)
        for n, c in (s["files"] or {}).items(): open(f"{d}/{n}", "w").write(c)
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        t, out = tests()
        rc1, o1 = demo_rc(d)
        sh(f"git -C {SCRATCH} checkout -q -- .")
        rc0, o0 = demo_rc(d)
        if t and rc1 not in (0,) and rc0 == 0: print("  kept")
        else:
            print("  NOT KEPT: tests", t, "demo with the change", rc1, "without", rc0, o0 if rc0 else "", "" if t else out[-800:]); shutil.rmtree(d)
main()
