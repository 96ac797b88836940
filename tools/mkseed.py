#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the planted bugs below: mkseed.py [ID...]. Each is confirmed in a scratch copy of /repo:
it builds, passes the repository's tests, its demonstration fails with it and passes without it."""
import difflib, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL, P, PR, ST = "mqtt/client.go", "mqtt/packets/", "mqtt/packets/primitives/", "mqtt/storage/memory/memory.go"

HEAD = '''package mqtt_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/waj334/tinygo-mqtt/mqtt"
	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"
)

var _ = fmt.Sprint
var _ = strings.Repeat
var _ = bytes.Equal
var _ = errors.Is
var _ = os.Exit
var _ sync.Mutex
var _ = time.Now
var _ context.Context
var _ mqtt.ReasonCode
var _ packets.QoS
var _ primitives.PrimitiveUint16
var _ storage.Storage
var _ = memory.NewStorage

func TestDemo(t *testing.T) {
'''
DEMO = '''#!/bin/bash
# Runs demo_test.go against the code in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat >"$tmp/o.json" <<X
{"Replace": {"$PWD/mqtt/zz_demo_test.go": "$here/demo_test.go", "$PWD/mqtt/zz_peer_test.go": "$here/peer_test.go"}}
X
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local
go test %s-count=1 -timeout 120s -overlay "$tmp/o.json" -run '^TestDemo$' ./mqtt
'''

bugs = []
def bug(id, prop, needs, breaks, edits, demo, race=False):
    bugs.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, race=race))

exec(open(os.path.join(here, "tools", "seed", "bugs.py")).read())

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main():
    want = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="mkseed.")
    bad = 0
    try:
        repo = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", "/repo", repo], "/")
        for b in bugs:
            if want and b["id"] not in want:
                continue
            d = os.path.join(here, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            sh(["git", "checkout", "-q", "--", "."], repo)
            with open(os.path.join(d, "demo_test.go"), "w") as f:
                f.write(HEAD + b["demo"].strip("\n") + "\n}\n")
            shutil.copy(os.path.join(here, "tools", "seed", "peer_test.go"), d)
            with open(os.path.join(d, "demo.sh"), "w") as f:
                f.write(DEMO % ("-race " if b["race"] else ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            with open(os.path.join(d, "meta.json"), "w") as f:
                json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), f, indent=1)
                f.write("\n")
            fmtd = sh(["gofmt", "-l", d], "/")
            ok0 = sh(["bash", os.path.join(d, "demo.sh")], repo)
            msgs = []
            if ok0.returncode != 0:
                msgs.append("demo fails on the clean tree:\n" + ok0.stdout[-1500:])
            for (fn, old, new) in b["edits"]:
                p = os.path.join(repo, fn)
                s = open(p).read()
                if s.count(old) != 1:
                    msgs.append("edit matches %d times: %s" % (s.count(old), old[:60]))
                open(p, "w").write(s.replace(old, new))
            sh(["gofmt", "-w"] + sorted({fn for (fn, _, _) in b["edits"]}), repo)
            diff = sh(["git", "diff"], repo).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            # lines of the original repository that are changed or removed
            sh(["git", "stash", "-q"], repo)
            orig = 0
            for fn in sorted({fn for (fn, _, _) in b["edits"]}):
                blame = [l.startswith("^") for l in sh(["git", "blame", "-s", "HEAD", "--", fn], repo).stdout.splitlines()]
                old = open(os.path.join(repo, fn)).read().splitlines()
                new = sh(["git", "show", "stash@{0}:" + fn], repo).stdout.splitlines()
                for tag, i1, i2, _, _ in difflib.SequenceMatcher(None, old, new, autojunk=False).get_opcodes():
                    if tag in ("replace", "delete"):
                        orig += sum(blame[k] and old[k].strip() != "" for k in range(i1, i2))
            sh(["git", "stash", "pop", "-q"], repo)
            if orig == 0:
                msgs.append("removes no line of the original repository")
            g = sh(["gofmt", "-l", "mqtt"], repo).stdout.split()
            v = sh(["go", "vet", "./mqtt/..."], repo)
            if v.returncode != 0:
                msgs.append("vet: " + v.stdout[-800:])
            tr = sh(["go", "test", "-count=1", "./mqtt/..."], repo)
            if tr.returncode != 0:
                msgs.append("tests fail: " + tr.stdout[-800:])
            ok1 = sh(["bash", os.path.join(d, "demo.sh")], repo)
            if ok1.returncode == 0:
                msgs.append("demo passes with the bug")
            print(b["id"], b["prop"], "BAD" if msgs else "ok", "orig lines", orig, "gofmt " + str(g) if g else "")
            for m in msgs:
                print("   ", m)
            if not msgs:
                fl = [l for l in ok1.stdout.split("\n") if "demo_test" in l or "panic" in l or "RACE" in l]
                print("    ", (fl or [ok1.stdout[-200:]])[0].strip()[:160])
            bad += bool(msgs)
    finally:
        shutil.rmtree(tmp)
    return bad
sys.exit(main())
