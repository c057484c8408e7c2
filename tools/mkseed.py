#!/usr/bin/env python3
"""mkseed.py FILE: writes /verif/seeded/<id>/ for every bug(...) in FILE (a scratch tool; edits are made in a temporary copy of /repo)."""
import sys, os, json, subprocess, tempfile, shutil, hashlib
SEED = "/verif/seeded"
DEMO = r'''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/opt/veriftools/go1.27.3/bin
export GOTOOLCHAIN=local GOWORK=off GOFLAGS=-mod=mod GOPROXY=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$here" > "$t/o.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/o.json" -run '^TestZZDemo$' .
'''
HEAD = '''package raml

import (
	"os"
	"path/filepath"
	"testing"
)

var _ = os.WriteFile
var _ = filepath.Join

// lib parses and unwraps a library; files are name, content pairs beside it.
func zzLib(t *testing.T, body string, files ...string) (*RAML, error) {
	d := t.TempDir()
	for i := 0; i < len(files); i += 2 {
		if err := os.WriteFile(filepath.Join(d, files[i]), []byte(files[i+1]), 0o600); err != nil {
			t.Fatal(err)
		}
	}
	return ParseFromString("#%RAML 1.0 Library\\n"+body, "lib.raml", d, OptWithUnwrap(), OptWithValidate())
}

func zzGet(t *testing.T, r *RAML, n string) *BaseShape {
	b, ok := r.EntryPoint().(*Library).Types.Get(n)
	if !ok {
		t.Fatal("no type", n)
	}
	return b
}

func zzMust(t *testing.T, body string, files ...string) *RAML {
	r, err := zzLib(t, body, files...)
	if err != nil {
		t.Fatal(err)
	}
	return r
}
'''
def bug(id, prop, edits, needs, breaks, demo, imports=""):
    w = tempfile.mkdtemp(prefix="mkseed.")
    try:
        subprocess.check_call(["cp", "-a", "/repo", w+"/repo"])
        for f, old, new in edits:
            p = w+"/repo/"+f
            s = open(p).read()
            n = s.count(old)
            if n != 1: print(id, "edit matches", n, "times in", f, ":", old[:60]); return
            open(p, "w").write(s.replace(old, new))
        d = os.path.join(SEED, id); os.makedirs(d, exist_ok=True)
        out = subprocess.check_output(["git", "-C", w+"/repo", "diff"])
        open(d+"/patch.diff", "wb").write(out)
        open(d+"/demo.sh", "w").write(DEMO); os.chmod(d+"/demo.sh", 0o755)
        h = HEAD
        for i in imports.split(): h = h.replace('\t"testing"\n', '\t"testing"\n\t"%s"\n' % i)
        open(d+"/demo_test.go.txt", "w").write(h + "\nfunc TestZZDemo(t *testing.T) {\n" + demo.strip("\n") + "\n}\n")
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d+"/meta.json", "w"), indent=1)
        print("wrote", id)
    finally:
        shutil.rmtree(w)
only = set(sys.argv[2:])
_bug = bug
def bug(id, *a, **k):
    if not only or id in only: _bug(id, *a, **k)
exec(open(sys.argv[1]).read())
