#!/usr/bin/env python3
"""plant.py SPECFILE...: turn bug descriptions into /verif/seeded/<id>/ after confirming them.

A description is a Python file defining ID, PROP, EDITS=[(file, old, new)], PKG, TEST (Go test source),
NEEDS, BREAKS.  Confirms in a scratch copy: builds, stable tests pass, the demonstration passes
without the change and fails with it."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
GO = "/opt/veriftools/go1.27.3/bin"
DEMO = """#!/bin/sh
# run with cwd /repo; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
export PATH=%s:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
T=$(mktemp -d) || exit 3
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
go test %s-count=1 -timeout 250s -overlay "$T/o.json" -run '^TestZZDemo' ./%s
rc=$?
rm -rf "$T"
exit $rc
"""
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
AUTO = """package core_test

import (
	"bytes"
	"encoding/base64"
	"testing"

	"github.com/kpfaulkner/jxl-go/core"
)

const file = "%s"

const want = "%s"

func TestZZDemo(t *testing.T) {
	b, err := base64.StdEncoding.DecodeString(file)
	if err != nil {
		t.Fatal(err)
	}
	got := func() (s string) {
		defer func() {
			if e := recover(); e != nil {
				s = "panic"
			}
		}()
		return describe(b)
	}()
	if got != want {
		t.Fatalf("%%d bytes decode to %%.300s, want %%.300s", len(b), got, want)
	}
}

%s
"""
DESCRIBE = """// describe decodes a file and tells the outcome
func describe(b []byte) string {
	img, err := core.NewJXLDecoder(bytes.NewReader(b), nil).Decode()
	if err != nil || img == nil {
		return "error"
	}
	s := fmt.Sprint(img.Width, "x", img.Height)
	for i := range img.Buffer {
		c := &img.Buffer[i]
		if c.IsFloat() {
			for _, row := range c.FloatBuffer {
				s += "/"
				for _, v := range row {
					s += fmt.Sprintf(" %.4f", v)
				}
			}
		} else {
			s += fmt.Sprint(" ", c.IntBuffer)
		}
	}
	return s
}"""
def auto(ns, w):
    """a demonstration from a generated file that decodes differently with the change"""
    sh("cp -a /verif/harness %s/h" % w)
    env = "export PATH=%s:$PATH GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off; " % GO
    open(w + "/h/zz.go", "w").write("package main\n\nimport (\n\t\"bytes\"\n\t\"fmt\"\n\t\"os\"\n\n\t\"github.com/kpfaulkner/jxl-go/core\"\n)\n\nfunc init() {\n\tif len(os.Args) > 2 && os.Args[1] == \"describe\" {\n\t\tb, _ := os.ReadFile(os.Args[2])\n\t\tfmt.Print(describe(b))\n\t\tos.Exit(0)\n\t}\n}\n\n" + DESCRIBE)
    for nm, rp in (("a", "/repo"), ("b", w + "/repo")):
        r = sh(env + "sed -i 's#jxl-go => .*#jxl-go => %s#' go.mod && go build -o %s/vh-%s ." % (rp, w, nm), w + "/h")
        assert r.returncode == 0, r.stderr[-1500:]
    for kind, n in ns["AUTO"]:
        for seed in (5001, 5002, 5003):
            L = []
            for nm in "ab":
                r = sh("%s/vh-%s gen -kind %s -n %d -seed %d -out %s/%s.nd" % (w, nm, kind, n, seed, w, nm), t=900)
                assert r.returncode == 0, r.stderr[-1500:]
                L.append(open("%s/%s.nd" % (w, nm)).read().splitlines())
            best = None
            for x, y in zip(*L):
                if x != y:
                    b = bytes(json.loads(x)["bytes"])
                    if best is None or len(b) < len(best):
                        open(w + "/f.jxl", "wb").write(b)
                        o = [sh("%s/vh-%s describe %s/f.jxl" % (w, nm, w)).stdout for nm in "ab"]
                        if o[0] != o[1] and o[0] and sh("%s/vh-a describe %s/f.jxl" % (w, w)).stdout == o[0]: best, want = b, o[0]
            if best is not None:
                import base64
                print("   %s: smallest of the differing files has %d bytes" % (kind, len(best)))
                return AUTO.replace('"encoding/base64"\n', '"encoding/base64"\n\t"fmt"\n') % (base64.b64encode(best).decode(), want, DESCRIBE)
    assert False, "no generated file decodes differently"
def main(f):
    ns = {}
    exec(open(f).read(), ns)
    i = ns["ID"]; d = os.path.join(V, "seeded", i)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix="plant-")
    try:
        for fn, a, b in ns["EDITS"]:
            p = os.path.join("/repo", fn); s = open(p).read()
            assert s.count(a) == 1, (fn, s.count(a), a)
        if "AUTO" in ns:
            ns["PKG"] = "core"
            sh("cp -a /repo %s/repo" % w)
            for fn, a, b in ns["EDITS"]:
                p = os.path.join(w, "repo", fn); s = open(p).read(); open(p, "w").write(s.replace(a, b))
            ns["TEST"] = auto(ns, w)
            shutil.rmtree(w + "/repo")
        open(d + "/demo_test.go", "w").write(ns["TEST"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO % (GO, ns["PKG"], "-race " if ns.get("RACE") else "", ns["PKG"]))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        assert sh("git status --porcelain", "/repo").stdout == "", "repo not clean"
        r = sh(d + "/demo.sh", "/repo")
        assert r.returncode == 0, "demo fails on unchanged tree:\n" + r.stdout[-3000:] + r.stderr[-2000:]
        sh("cp -a /repo %s/repo" % w)
        R = w + "/repo"
        for fn, a, b in ns["EDITS"]:
            p = os.path.join(R, fn); s = open(p).read(); open(p, "w").write(s.replace(a, b))
        for fn, a, b in ns["EDITS"]: assert sh("gofmt -l " + fn, R).stdout == "", "gofmt: " + sh("gofmt -d " + fn, R).stdout[:800]
        diff = sh("git diff", R).stdout
        open(d + "/patch.diff", "w").write(diff)
        try:
            assert sh("git apply " + d + "/patch.diff", "/repo").returncode == 0
            b = sh("bash /opt/vp/build.sh"); assert b.returncode == 0, b.stdout + b.stderr
            t = sh("bash /opt/vp/test.sh %s/t.json" % w)
            base = json.load(open("/opt/vp/BASELINE.json"))["stable"]; ps = set(json.load(open(w + "/t.json"))["passed"])
            miss = [x for x in base if x not in ps]
            assert not miss, "tests notice: %s" % miss[:5]
            r = sh(d + "/demo.sh", "/repo")
            assert r.returncode != 0, "demo passes with the change"
            print("%s OK: %s" % (i, [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][:3]))
        finally:
            sh("git checkout -- .", "/repo")
    except AssertionError as e:
        print("%s FAILED: %s" % (i, e)); shutil.rmtree(d, ignore_errors=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
for f in sys.argv[1:]: main(f)
