#!/usr/bin/env python3
"""Builds and validates the planted bugs of /verif/seeded from the bug lists of this folder.
usage: mk.py [-n] ID...   (-n: do not run the check)   mk.py -l: list
Every bug: in a scratch copy of /repo, apply, build, stable tests, demo (clean and patched), then the check
of its property on the patched copy (SYMGO_REPO)."""
import glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), "seeded")
H = os.path.join(os.path.dirname(os.path.dirname(HERE)), "harness", "h")
BASE = "576a77e"

def cut(name, end):
    return open(os.path.join(H, name)).read().split(end)[0]

def strip_sym(t):
    return re.sub(r'\n\t"github.com/steve-care-software/rodkina/verifh/sym"', "", t)

def helper(kind, pkg):
    if kind == "ast":
        t = strip_sym(cut("asts.go", "// the reference matcher"))
        t += '\n\nfunc run(g *gGram, data string) trees.Tree {\n\tt, err := ast.NewApplication().Execute(g.build(), []byte(data))\n\tif err != nil {\n\t\treturn nil\n\t}\n\treturn t\n}\n'
        t += MUST
    elif kind == "query":
        t = strip_sym(cut("queries.go", "// the reference evaluator"))
        t = t.replace("app \"github", "queryapp \"github")
        t += '\n\nfunc ask(q *qQuery, t trees.Tree) (string, bool, error) {\n\tins, ok, _, err := queryapp.NewApplication().Execute(q.build(), t)\n\tif err != nil || !ok {\n\t\treturn "", ok, err\n\t}\n\treturn string(ins.([]byte)), ok, nil\n}\n'
    elif kind == "interp":
        t = strip_sym(cut("interp.go", "// the reference interpreter"))
        t = t.replace('sym.Fail("a value of a program is one of its values")\n\treturn nil', 'panic("unknown value")')
        t = t.replace('programs/modules"', 'programs/modules"\n\t"github.com/steve-care-software/rodkina/libs/interpreters/domain/programs"').replace('\nvar errModule = errors.New("the module fails")\n', "").replace('\t"errors"\n\n', "")
        t = re.sub(r"\nvar pSpelled int\n.*?\n}\n", "\nfunc pSpell(name string) []byte {\n\treturn []byte(name)\n}\n", t, count=1, flags=re.S)
        t = re.sub(r"\n// module 0 and 1 return.*?\n}\n", "\n", t, flags=re.S)
        t += open(os.path.join(HERE, "interp_help.txt")).read() + MUST
    else:
        t = open(os.path.join(HERE, kind + "_help.txt")).read()
    return re.sub(r"^package \w+", "package " + pkg, t, count=1, flags=re.M)

MUST = '\nfunc must(err error, msg string) {\n\tif err != nil {\n\t\tpanic(msg + ": " + err.Error())\n\t}\n}\n'

DEMO = '''#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
{
	printf '{"Replace":{'
	sep=
	for f in "$here"/*_test.go.txt; do
		printf '%s"%s/{pkg}/zz_%s":"%s"' "$sep" "$PWD" "$(basename "$f" .txt)" "$f"
		sep=,
	done
	printf '}}'
} >"$tmp/overlay.json"
export TMPDIR="$tmp"
timeout 200 env GOFLAGS=-mod=vendor go test -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./{pkg}
'''

def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)

def load():
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, "bugs_*.py"))):
        spec = importlib.util.spec_from_file_location("b", f); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        for b in m.BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b
    return bugs

def pkgname(d):
    for f in sorted(glob.glob(d + "/*.go")):
        if not f.endswith("_test.go"):
            return re.search(r"^package (\w+)", open(f).read(), re.M).group(1)

def make(b, run):
    work = tempfile.mkdtemp(prefix="bug")
    repo = work + "/repo"
    try:
        sh("cp -a /repo %s" % repo, "/")
        sh("git checkout -- . && git clean -fdq -e vendor", repo)
        for (f, old, new) in b["edits"]:
            p = repo + "/" + f; t = open(p).read()
            n = t.count(old)
            if n != 1: return "EDIT: %d matches in %s of %r" % (n, f, old)
            # only lines of the original
            first = t[:t.index(old)].count("\n") + 1
            blame = sh("git blame -s %s" % f, repo).stdout.split("\n")
            open(p, "w").write(t.replace(old, new))
        d = sh("git diff -U0", repo).stdout
        cur = None; bl = None
        for line in d.split("\n"):
            if line.startswith("--- a/"):
                cur = line[6:]; bl = sh("git blame -s HEAD -- %s" % cur, repo).stdout.split("\n")
            m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
            if m:
                s, n = int(m.group(1)), int(m.group(2) or 1)
                if n == 0: print("  note: pure insertion at %s:%d" % (cur, s))
                for i in range(s, s + n):
                    if not bl[i-1].startswith("^" + BASE): return "NOT ORIGINAL %s:%d %s" % (cur, i, bl[i-1])
        patch = sh("git diff", repo).stdout
        r = sh("gofmt -l $(git diff --name-only)", repo)
        if r.stdout.strip(): print("  note: gofmt", r.stdout.strip())
        r = sh("GOFLAGS=-mod=vendor go build ./... && GOFLAGS=-mod=vendor go test ./...", repo)
        if r.returncode: return "BUILD/TESTS: " + "\n".join(l for l in (r.stdout + r.stderr).split("\n") if "no test files" not in l and not l.startswith("ok"))[-400:]
        dst = os.path.join(OUT, b["id"])
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(dst)
        open(dst + "/patch.diff", "w").write(patch)
        open(dst + "/demo.sh", "w").write(DEMO.replace("{pkg}", b["pkg"])); os.chmod(dst + "/demo.sh", 0o755)
        pkg = pkgname("/repo/" + b["pkg"]) + "_test"
        hs = b.get("help", [])
        for h in hs:
            open(dst + "/%s_help_test.go.txt" % h, "w").write(helper(h, pkg))
        body = b["demo"]
        open(dst + "/demo_test.go.txt", "w").write("package %s\n\nimport (\n%s)\n\n%s" % (pkg, "".join("\t%s\n" % (i if '"' in i else '"%s"' % i) for i in ["testing"] + b.get("imports", [])), body.strip("\n") + "\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(dst + "/meta.json", "w"), indent=1)
        iso = work + "/demo"; shutil.copytree(dst, iso); os.remove(iso + "/patch.diff"); os.remove(iso + "/meta.json")
        r = sh("bash %s/demo.sh" % iso, "/repo")
        if r.returncode: shutil.rmtree(dst); return "DEMO FAILS CLEAN: " + (r.stdout + r.stderr)[-900:]
        r = sh("bash %s/demo.sh" % iso, repo)
        if r.returncode == 0: shutil.rmtree(dst); return "DEMO PASSES PATCHED"
        if "--- FAIL: TestDemo" not in r.stdout and "panic" not in r.stdout and "fatal error" not in r.stdout: shutil.rmtree(dst); return "DEMO ODD: " + (r.stdout + r.stderr)[-600:]
        if not run: return "valid"
        res = []
        for prop in [b["prop"]] + b.get("also", []):
            r = sh("bash bin/symgo.sh check %s" % prop, os.path.dirname(OUT), {"SYMGO_REPO": repo, "VERIF_TIER": "quick"})
            hit = "VIOLATION property=%s" % prop in r.stdout
            res.append("%s:%s rc=%d" % (prop, "caught" if hit and r.returncode == 1 else "MISSED", r.returncode))
            if not (hit and r.returncode == 1): res.append(r.stdout[-400:])
        return " ".join(res)
    finally:
        shutil.rmtree(work)

if __name__ == "__main__":
    bugs = load(); a = sys.argv[1:]
    if a == ["-l"]:
        for b in bugs.values(): print(b["id"], b["prop"])
        sys.exit()
    run = "-n" not in a
    a = [x for x in a if x != "-n"]
    ids = [i for i in bugs if not a or i in a or bugs[i]["prop"] in a]
    for i in ids:
        print(i, make(bugs[i], run), flush=True)
