#!/usr/bin/env python3
"""Make or refresh a planted bug: tools/seed.py DEF.py...  Each DEF.py sets
ID, PROP, FILE, EDITS=[(old,new)] (or EDITS of (file,old,new)), NEEDS, BREAKS and MAIN (a Go program: exit 0 good, 1 bad)."""
import sys, os, json, subprocess, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = r'''#!/bin/bash
# Exits 0 when the property holds for the history in main.go, 1 when it is broken.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/bin:/bin
export GO111MODULE=on GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOSUMDB=off GOENV=off CGO_ENABLED=0 GOFLAGS=
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
printf 'module github.com/golang/freetype\n\ngo 1.26.0\n\nrequire golang.org/x/image v0.47.0\n' > "$W/freetype.mod"
echo "{\"Replace\":{\"$PWD/go.mod\":\"$W/freetype.mod\"}}" > "$W/overlay.json"
mkdir "$W/m" && cp "$D/main.go" "$W/m/" || exit 2
printf 'module demo\n\ngo 1.26.0\n\nrequire (\n\tgithub.com/golang/freetype v0.0.0\n\tgolang.org/x/image v0.47.0\n)\n\nreplace github.com/golang/freetype => %s\n' "$PWD" > "$W/m/go.mod"
( cd "$W/m" && go build -mod=mod -overlay="$W/overlay.json" -buildvcs=false -o "$W/demo" . ) || exit 3
timeout 200 "$W/demo"
'''
for d in sys.argv[1:]:
    ns = {}
    exec(open(d).read(), ns)
    out = os.path.join(ROOT, "seeded", ns["ID"])
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp()
    files = {}
    for e in ns["EDITS"]:
        f, old, new = e if len(e) == 3 else (ns["FILE"],) + tuple(e)
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (d, f, s.count(old), old)
        files[f] = s.replace(old, new)
    patch = ""
    for f, s in files.items():
        os.makedirs(os.path.dirname(f"{tmp}/a/{f}"), exist_ok=True)
        os.makedirs(os.path.dirname(f"{tmp}/b/{f}"), exist_ok=True)
        shutil.copy("/repo/" + f, f"{tmp}/a/{f}")
        open(f"{tmp}/b/{f}", "w").write(s)
        p = subprocess.run(["diff", "-u", f"--label=a/{f}", f"--label=b/{f}", f"a/{f}", f"b/{f}"], cwd=tmp, capture_output=True, text=True)
        patch += p.stdout
    shutil.rmtree(tmp)
    open(f"{out}/patch.diff", "w").write(patch)
    open(f"{out}/main.go", "w").write(ns["MAIN"].lstrip())
    open(f"{out}/demo.sh", "w").write(DEMO)
    os.chmod(f"{out}/demo.sh", 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(f"{out}/meta.json", "w"), indent=1)
    print("wrote", out)
