#!/usr/bin/env python3
"""seed.py FILE...: turns descriptions of planted bugs into /verif/seeded/<id>/.

A description:
  #id C05-foo
  #prop C05
  #needs what it needs to manifest
  #breaks what it breaks
  #edit symbolic/x.go
  OLD
  >>>>
  NEW
  #demo
  Go statements; fail("...") on wrong behaviour; must not panic on correct code
Each is kept only when it builds, passes the stable tests, and its demo
succeeds without and fails with the change."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = "source /opt/vp/goenv.sh; "
DEMO_SH = '''#!/bin/bash
# run with cwd at the repository
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/goenv.sh
repo=$(pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go.txt" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
cat > "$d/go.mod" <<M
module demo

go 1.23.0

require (
	github.com/MatProGo-dev/SymbolicMath.go v0.0.0
	gonum.org/v1/gonum v0.16.0
)

replace github.com/MatProGo-dev/SymbolicMath.go => $repo
M
cd "$d" && go build -o demo . && ./demo
'''
PRE = '''package main

import (
	"fmt"
	"os"

	"github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

var _ = mat.NewDense
var _ symbolic.Expression

func fail(format string, a ...interface{}) {
	fmt.Printf("WRONG: "+format+"\\n", a...)
	os.Exit(1)
}

// panics reports whether f panics.
func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return false
}

// env makes an environment and n continuous variables.
func env(n int) []symbolic.Variable {
	e := symbolic.MakeBasicEnvironment("demo")
	out := []symbolic.Variable{}
	for i := 0; i < n; i++ {
		out = append(out, symbolic.NewVariable(&e))
	}
	return out
}

// value evaluates a scalar at a point by substituting numbers.
func value(e symbolic.Expression, pt map[symbolic.Variable]float64) float64 {
	switch x := e.(type) {
	case symbolic.K:
		return float64(x)
	case symbolic.Variable:
		return pt[x]
	case symbolic.Monomial:
		out := x.Coefficient
		for i, v := range x.VariableFactors {
			for k := 0; k < x.Exponents[i]; k++ {
				out *= pt[v]
			}
		}
		return out
	case symbolic.Polynomial:
		out := 0.0
		for _, m := range x.Monomials {
			out += value(m, pt)
		}
		return out
	}
	fail("not a scalar: %T", e)
	return 0
}

func main() {
	_ = value
	_ = panics
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, capture_output=True, text=True, **kw)

def tests(cwd):
    r = sh("go test -json -vet=off -count=1 ./...", cwd)
    ok = set()
    for l in r.stdout.split("\n"):
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
    return sorted(BASE - ok)

def one(text):
    f = {m[1]: m[2] for m in re.finditer(r"^#(id|prop|needs|breaks) (.*)$", text, re.M)}
    body, demo = text.split("\n#demo\n", 1)
    edits = re.findall(r"^#edit (\S+)\n(.*?)(?=^#edit |\Z)", body + "\n", re.M | re.S)
    w = tempfile.mkdtemp(prefix="seed-")
    try:
        c = os.path.join(w, "r")
        shutil.copytree("/repo", c, symlinks=True)
        for path, e in edits:
            old, new = re.split(r"^>>>>\n", e, maxsplit=1, flags=re.M)
            old, new = old.strip("\n"), new.strip("\n")
            p = os.path.join(c, path)
            s = open(p).read()
            if s.count(old) != 1:
                return f["id"], "edit of %s matches %d times: %s" % (path, s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new))
        patch = sh("git diff -- . ':!go.sum'", c).stdout
        r = sh("go build ./...", c)
        if r.returncode: return f["id"], "does not build: " + r.stderr[-600:]
        bad = tests(c)
        if bad: return f["id"], "tests notice: %s" % bad[:3]
        d = os.path.join(w, "d"); os.mkdir(d)
        imports = PRE
        open(os.path.join(d, "demo.go.txt"), "w").write(imports + demo.rstrip() + "\n\tfmt.Println(\"ok\")\n}\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        a = sh("bash %s/demo.sh" % d, "/repo")
        if a.returncode: return f["id"], "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-800:]
        b = sh("bash %s/demo.sh" % d, c)
        if b.returncode == 0: return f["id"], "demo does not notice"
        if "WRONG" not in b.stdout and "panic" not in b.stderr and "fatal error" not in b.stderr: return f["id"], "demo: " + (b.stdout + b.stderr)[-500:]
        # lines of the original repository only
        out = os.path.join(ROOT, "seeded", f["id"])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(os.path.join(out, "patch.diff"), "w").write(patch)
        json.dump({"property": f["prop"], "needs": f["needs"], "what_it_breaks": f["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        return f["id"], "KEPT " + b.stdout.strip()[:150]
    finally:
        shutil.rmtree(w, ignore_errors=True)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    texts = []
    for a in sys.argv[1:]:
        for t in re.split(r"^=====\n", open(a).read(), flags=re.M):
            if "#id" in t: texts.append(t)
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, texts): print(i, m)
