package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Where things are.
var (
	verifDir string // /verif
	repoDir  = "/repo"
)

func goEnv() []string {
	env := []string{}
	for _, e := range os.Environ() {
		switch k := strings.SplitN(e, "=", 2)[0]; k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GORACE", "GODEBUG", "GOGC", "GOMAXPROCS", "GOMEMLIMIT", "GOOS", "GOARCH", "GOEXPERIMENT", "CGO_ENABLED":
		default:
			env = append(env, e)
		}
	}
	return append(env, "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=1")
}

// build is a worker made from the current tree.
type build struct {
	dir    string
	bin    string
	sites  string
	woven  *Woven
	race   bool
	took   time.Duration
	exprs  int
	engine string
}

// raceProps are the properties that need the race detector.
var raceProps = map[string]bool{"C01": true, "C02": true, "C13": true, "C14": true}

// buildWorker weaves and compiles the worker.
func buildWorker(dir string, race bool) (*build, error) {
	start := time.Now()
	if err := os.MkdirAll(filepath.Join(dir, "woven"), 0o755); err != nil {
		return nil, err
	}
	overlay, woven, err := instrument(repoDir, filepath.Join(dir, "woven"))
	if err != nil {
		return nil, err
	}
	b := &build{dir: dir, bin: filepath.Join(dir, "worker"), sites: filepath.Join(dir, "sites.json"), woven: woven, race: race}
	// the worker's visitor, made from the library's visitor interface
	gen := filepath.Join(dir, "zz_genvisitor.go")
	if err := os.WriteFile(gen, []byte(woven.visitor), 0o644); err != nil {
		return nil, err
	}
	overlay[filepath.Join(verifDir, "sim/worker/zz_genvisitor.go")] = gen
	if race {
		src, dst, err := patchPool(dir)
		if err != nil {
			return nil, err
		}
		overlay[src] = dst
	}
	if err := writeJSON(filepath.Join(dir, "overlay.json"), map[string]any{"Replace": overlay}); err != nil {
		return nil, err
	}
	hot, sus, fresh := []int{}, []int{}, []int{}
	for i, s := range woven.Sites {
		if s.Hot {
			hot = append(hot, i)
		}
		if s.New && !s.Sus {
			if os.Getenv("VERIF_SUS") != "" {
				fmt.Println("new", s.File, s.Line, s.Func)
			}
			fresh = append(fresh, i)
		}
		if s.Sus {
			sus = append(sus, i)
			if os.Getenv("VERIF_SUS") != "" { // susnames
				fmt.Println("suspect", s.File, s.Line, s.Func)
			}
		}
	}
	if err := writeJSON(b.sites, map[string]any{"n": len(woven.Sites), "hot": hot, "sus": sus, "new": fresh}); err != nil {
		return nil, err
	}
	args := []string{"build", "-overlay", filepath.Join(dir, "overlay.json"), "-o", b.bin}
	if race {
		args = append(args, "-race")
	}
	if args, err = withRepo(args, dir); err != nil {
		return nil, err
	}
	args = append(args, "./worker")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(verifDir, "sim")
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, out)
	}
	b.took = time.Since(start)
	return b, nil
}

// withRepo points a build of this module at repoDir, where that is not the
// place named in go.mod.
func withRepo(args []string, dir string) ([]string, error) {
	if repoDir == "/repo" {
		return args, nil
	}
	mod, err := os.ReadFile(filepath.Join(verifDir, "sim/go.mod"))
	if err != nil {
		return nil, err
	}
	if bytes.Count(mod, []byte("=> /repo")) != 1 {
		return nil, fmt.Errorf("sim/go.mod doesn't look as expected")
	}
	mod = bytes.Replace(mod, []byte("=> /repo"), []byte("=> "+repoDir), 1)
	file := filepath.Join(dir, "go.mod")
	return append(args, "-modfile", file), os.WriteFile(file, mod, 0o644)
}

// patchPool makes the standard library's sync.Pool, in the race build, drop
// every Put: a Get after a Put is a synchronisation edge that the code under
// test did not ask for, and which Puts are dropped is random otherwise.
func patchPool(dir string) (src, dst string, err error) {
	cmd := exec.Command("go", "env", "GOROOT")
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		return "", "", err
	}
	src = filepath.Join(strings.TrimSpace(string(out)), "src/sync/pool.go")
	data, err := os.ReadFile(src)
	if err != nil {
		return "", "", err
	}
	pat := []byte("if runtime_randn(4) == 0 {")
	if bytes.Count(data, pat) != 1 {
		return "", "", fmt.Errorf("%s doesn't look as expected", src)
	}
	data = bytes.Replace(data, pat, []byte("if runtime_randn(4) < 4 {"), 1)
	dst = filepath.Join(dir, "pool.go")
	return src, dst, os.WriteFile(dst, data, 0o644)
}

func writeJSON(path string, v any) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

// genVisitor writes a visitor that implements every method of the interface.
func genVisitor(pkg *types.Package) (string, error) {
	obj := pkg.Scope().Lookup("ASTVisitor")
	if obj == nil {
		return "", fmt.Errorf("the parser package has no ASTVisitor")
	}
	iface, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return "", fmt.Errorf("ASTVisitor is no interface")
	}
	var b strings.Builder
	b.WriteString("package main\n\nimport \"" + pkg.Path() + "\"\n\ntype genVisitor struct {\n\tf func(string, parser.Expr) error\n\tenter, leave func(parser.Expr)\n}\n\n")
	b.WriteString("func newGenVisitor(f func(string, parser.Expr) error, enter, leave func(parser.Expr)) parser.ASTVisitor {\n\treturn &genVisitor{f, enter, leave}\n}\n\n")
	qual := func(p *types.Package) string { return p.Name() }
	for i := 0; i < iface.NumMethods(); i++ {
		m := iface.Method(i)
		sig := m.Type().(*types.Signature)
		if sig.Params().Len() != 1 {
			return "", fmt.Errorf("ASTVisitor.%s has an unknown form", m.Name())
		}
		pt := types.TypeString(sig.Params().At(0).Type(), qual)
		switch {
		case m.Name() == "Enter" && sig.Results().Len() == 0:
			fmt.Fprintf(&b, "func (v *genVisitor) Enter(x %s) { v.enter(x) }\n", pt)
		case m.Name() == "Leave" && sig.Results().Len() == 0:
			fmt.Fprintf(&b, "func (v *genVisitor) Leave(x %s) { v.leave(x) }\n", pt)
		case sig.Results().Len() == 1:
			fmt.Fprintf(&b, "func (v *genVisitor) %s(x %s) error { return v.f(%q, x) }\n", m.Name(), pt, m.Name())
		default:
			return "", fmt.Errorf("ASTVisitor.%s has an unknown form", m.Name())
		}
	}
	return b.String(), nil
}
