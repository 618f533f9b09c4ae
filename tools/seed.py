#!/usr/bin/env python3
"""seed.py FILE: writes the planted bugs that FILE defines to seeded/ after confirming each one.

FILE defines SEEDS = [dict(id, prop, subs=[(file, old, new)...], needs, breaks, main=Go program)]."""
import json, os, shutil, subprocess, sys
V = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
cp "$here/main.go" "$t/main.go"
cp "$repo/go.sum" "$t/go.sum"
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/nlpodyssey/spago v0.0.0\\n\\nrequire github.com/google/flatbuffers v23.5.26+incompatible // indirect\\n\\nreplace github.com/nlpodyssey/spago => %s\\n' "$repo" > "$t/go.mod"
cd "$t" || exit 3
go build -o demo . || exit 4
timeout 200 ./demo
'''


def sh(cmd, cwd, timeout=600):
    p = subprocess.run(["bash", "-c", cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


STD = {"fmt", "os", "sync", "sync/atomic", "time", "math", "errors", "context", "runtime", "bytes", "strings", "io", "math/rand", "reflect", "sort", "path/filepath"}


def imp(*pkgs):
    """The head of a demonstration that imports the given packages, fmt and os."""
    return "package main\n\nimport (\n" + "".join('\t"%s"\n' % (p if p in STD else "github.com/nlpodyssey/spago/" + p) for p in ("fmt", "os") + pkgs) + \
        ")\n\nfunc fail(a ...any) {\n\tfmt.Println(a...)\n\tos.Exit(1)\n}\n"


def main():
    ns = dict(imp=imp)
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for s in ns["SEEDS"]:
        if only and s["id"] not in only:
            continue
        d = "/tmp/seedtree"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree("/repo", d, symlinks=True)
        out = os.path.join(V, s["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/main.go", "w").write(s["main"].lstrip("\n"))
        subprocess.run(["/opt/veriftools/go1.27.3/bin/gofmt", "-w", out + "/main.go"])
        ok = True
        for k in range(2):
            rc, o = sh("bash %s/demo.sh" % out, d)
            if rc:
                print(s["id"], "DEMO FAILS ON THE UNCHANGED TREE", rc, o[-600:])
                ok = False
                break
        for f, a, b in s["subs"]:
            p = os.path.join(d, f)
            t = open(p).read()
            if a not in t:
                print(s["id"], "no such text in", f, a[:60])
                ok = False
                break
            open(p, "w").write(t.replace(a, b, 1))
        if ok:
            # the lines that are taken away have to be those of the original repository
            _, o = sh("git diff -U0 | grep -E '^(---|@@)'", d)
            for line in o.splitlines():
                if line.startswith("---"):
                    f = line[6:]
                else:
                    at, n = (line.split()[1][1:] + ",1").split(",")[:2]
                    if int(n):
                        _, bl = sh("git blame -s -L %s,+%s HEAD -- %s | grep -v -E '^\\^'" % (at, n, f), d)
                        if bl.strip():
                            print(s["id"], "NOTE: not an original line:", bl.strip())
        if ok:
            rc, o = sh(". /opt/vp/env.sh; gofmt -w $(git diff --name-only); git diff > %s/patch.diff; go build ./... && go vet ./... 2>&1 | tail -3" % out, d)
            rc, o = sh(". /opt/vp/env.sh; go build ./... && go test -timeout 100s ./... 2>&1 | grep -E '^(---|FAIL|panic)' | head -5", d)
            if o.strip():
                print(s["id"], "TESTS FAIL", o)
                ok = False
        if ok:
            for k in range(3):
                rc, o = sh("bash %s/demo.sh" % out, d)
                if rc in (0, 3, 4):
                    print(s["id"], "DEMO DOES NOT FAIL WITH THE CHANGE", rc, o[-300:])
                    ok = False
                    break
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
        if not ok:
            shutil.rmtree(out)
        else:
            print(s["id"], "kept:", o.strip()[:150])
        shutil.rmtree(d, ignore_errors=True)


main()
