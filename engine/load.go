package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/steve-care-software/rodkina"
const base = modPath + "/verifh"

func isRepoPkg(path string) bool {
	return strings.HasPrefix(path, modPath+"/") && !strings.HasPrefix(path, base)
}

// Overlay maps virtual files under /repo to real files.
type Overlay struct {
	repo     string
	files    map[string]string
	contents map[string][]byte
	rewrites []string
	funcs    []string // harness functions
}

var envImports = map[string]string{
	"os":                     base + "/env/os",
	"path/filepath":          base + "/env/filepath",
	"io/ioutil":              base + "/env/ioutil",
	"github.com/juju/fslock": base + "/env/fslock",
}

var clockFuncs = map[string]bool{"Now": true, "Since": true, "Sleep": true, "Until": true}

// buildOverlay maps the harness into the repository and redirects the environment of its packages.
func buildOverlay(repo, harness, tmp string) (*Overlay, error) {
	ov := &Overlay{repo: repo, files: map[string]string{}, contents: map[string][]byte{}}
	re := regexp.MustCompile(`(?m)^func (H_\w+)\(\) \{`)
	err := filepath.Walk(harness, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harness, path)
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, "verifh", rel)
		ov.files[dst] = path
		ov.contents[dst] = data
		if strings.HasPrefix(rel, "h/") {
			for _, m := range re.FindAllStringSubmatch(string(data), -1) {
				ov.funcs = append(ov.funcs, m[1])
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	sort.Strings(ov.funcs)
	// native replay driver
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + base + "/h\"\n\t\"" + base + "/replay\"\n)\n\nfunc main() {\n\treplay.Main(map[string]func(){\n")
	for _, f := range ov.funcs {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", f, f)
	}
	sb.WriteString("\t})\n}\n")
	if err := ov.add(tmp, filepath.Join(repo, "verifh/cmd/main.go"), []byte(sb.String())); err != nil {
		return nil, err
	}
	// environment redirection
	err = filepath.Walk(repo, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			n := info.Name()
			if n == "vendor" || n == "guis" || n == "node_modules" || strings.HasPrefix(n, ".") || n == "verifh" {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		out, changed, err := rewriteEnv(path, src)
		if err != nil || !changed {
			return nil // not parseable: the build itself will tell
		}
		ov.rewrites = append(ov.rewrites, path)
		return ov.add(tmp, path, out)
	})
	return ov, err
}

func (ov *Overlay) add(tmp, dst string, data []byte) error {
	real := filepath.Join(tmp, "ov_"+strings.ReplaceAll(strings.TrimPrefix(dst, "/"), "/", "_"))
	if err := os.WriteFile(real, data, 0o644); err != nil {
		return err
	}
	ov.files[dst] = real
	ov.contents[dst] = data
	return nil
}

func (ov *Overlay) writeJSON(path string) error {
	b, err := json.Marshal(map[string]interface{}{"Replace": ov.files})
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func rewriteEnv(path string, src []byte) ([]byte, bool, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	type edit struct {
		off, end int
		text     string
	}
	var edits []edit
	timeName := ""
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r, ok := envImports[p]; ok {
			edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, strconv.Quote(r)})
		}
		if p == "time" {
			timeName = "time"
			if im.Name != nil {
				timeName = im.Name.Name
			}
		}
	}
	clock := false
	if timeName != "" {
		ast.Inspect(f, func(n ast.Node) bool {
			se, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, ok := se.X.(*ast.Ident)
			if !ok || id.Name != timeName || !clockFuncs[se.Sel.Name] {
				return true
			}
			clock = true
			edits = append(edits, edit{fset.Position(id.Pos()).Offset, fset.Position(id.End()).Offset, "verifclock"})
			return true
		})
	}
	if len(edits) == 0 {
		return src, false, nil
	}
	if clock {
		off := fset.Position(f.Name.End()).Offset
		edits = append(edits, edit{off, off, "; import verifclock \"" + base + "/env/clock\""})
		// keep the time import used
		src = append(append([]byte{}, src...), []byte("\nvar _ = "+timeName+".Unix\n")...)
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
	out := append([]byte{}, src...)
	for _, e := range edits {
		out = append(out[:e.off], append([]byte(e.text), out[e.end:]...)...)
	}
	return out, true, nil
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"GOFLAGS": "-mod=vendor", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off"}
	if os.Getenv("HOME") == "" {
		set["HOME"] = "/root"
	}
	var res []string
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		if _, ok := set[k]; !ok {
			res = append(res, e)
		}
	}
	for k, v := range set {
		res = append(res, k+"="+v)
	}
	return res
}

var redirects = map[string]string{
	"errors.Is":            "ErrorsIs",
	"sort.Slice":           "SortSlice",
	"sort.SliceStable":     "SortSlice",
	"crypto/sha512.New":    "NewSHA512",
	"crypto/sha512.Sum512": "Sum512",
}

func loadProgram(ov *Overlay) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: ov.repo, Env: goEnv(), Overlay: ov.contents, BuildFlags: []string{"-tags=math_big_pure_go"}}
	ps, err := packages.Load(cfg, "./verifh/h", "./verifh/shim")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, meths: map[methKey]*ssa.Function{}, redir: map[string]*ssa.Function{}, base: base}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for from, to := range redirects {
		P.redir[from] = P.fn(base+"/shim", to)
	}
	return P, nil
}
