package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// The instrumenter: reads the library packages of /repo, type-checks them, and
// writes copies in which the simulator's seams are woven in. Line numbers stay.

type listedPkg struct {
	Dir        string
	ImportPath string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
}

// Site is one preemption point.
type Site struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Hot  bool   `json:"hot,omitempty"` // touches a package-level variable
	Sus  bool   `json:"sus,omitempty"` // see suspect.go
	New  bool   `json:"new,omitempty"` // see change.go
}

// Woven describes what the instrumenter did.
type Woven struct {
	Sites    []Site         `json:"sites"`
	Seams    map[string]int `json:"seams"`
	Warnings []string       `json:"warnings,omitempty"`
	visitor  string
}

type edit struct {
	from, to int
	text     string
	seq      int
}

func listPackages(repo string) ([]listedPkg, error) {
	cmd := exec.Command("go", "list", "-json", "./...")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.Output()
	if err != nil {
		msg := ""
		if ee, ok := err.(*exec.ExitError); ok {
			msg = string(ee.Stderr)
		}
		return nil, fmt.Errorf("go list: %v %s", err, msg)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	var ps []listedPkg
	for dec.More() {
		var p listedPkg
		if err := dec.Decode(&p); err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
	return ps, nil
}

type modImporter struct {
	fset *token.FileSet
	std  types.Importer
	by   map[string]*listedPkg
	done map[string]*types.Package
	info map[string]*types.Info
	file map[string][]*ast.File
	warn []string
}

func (m *modImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.done[path]; ok {
		return p, nil
	}
	lp, ok := m.by[path]
	if !ok {
		return m.std.Import(path)
	}
	return m.check(lp)
}

func (m *modImporter) check(lp *listedPkg) (*types.Package, error) {
	if p, ok := m.done[lp.ImportPath]; ok {
		return p, nil
	}
	var files []*ast.File
	for _, f := range lp.GoFiles {
		af, err := parser.ParseFile(m.fset, filepath.Join(lp.Dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, af)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: m, Error: func(err error) { m.warn = append(m.warn, err.Error()) }}
	p, err := conf.Check(lp.ImportPath, m.fset, files, info)
	if err != nil {
		return nil, fmt.Errorf("type-checking %s: %v", lp.ImportPath, err)
	}
	m.done[lp.ImportPath] = p
	m.info[lp.ImportPath] = info
	m.file[lp.ImportPath] = files
	return p, nil
}

const simPath = "verifsim/zzsim"
const simName = "zzsim__"

// selector replacements: package path -> name -> replacement
var replace = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "Once": "Once", "WaitGroup": "WaitGroup", "Cond": "Cond", "NewCond": "NewCond",
		"Pool": "Pool", "Map": "Map", "OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"time":    {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After", "Timer": "Timer", "NewTimer": "NewTimer", "AfterFunc": "AfterFunc", "Ticker": "Ticker", "NewTicker": "NewTicker", "Tick": "Tick"},
	"context": {"WithCancel": "WithCancel", "WithDeadline": "WithDeadline", "WithTimeout": "WithTimeout"},
	"runtime": {"NumGoroutine": "NumThreads", "Gosched": "Yield", "NumCPU": "NumCPU", "GOMAXPROCS": "MaxProcs", "ReadMemStats": "ReadMemStats"},
	"maps":    {"Keys": "MapsKeys", "Values": "MapsValues", "All": "MapsAll"},
	"os": {
		"Getenv": "Getenv", "LookupEnv": "LookupEnv", "Environ": "Environ", "ExpandEnv": "ExpandEnv", "Getpid": "Getpid", "Getppid": "Getpid",
		"Hostname": "Hostname", "Getwd": "Getwd",
	},
	"strings": {
		"Index": "StringsIndex", "IndexByte": "StringsIndexByte", "IndexRune": "StringsIndexRune", "IndexAny": "StringsIndexAny", "IndexFunc": "StringsIndexFunc",
		"Contains": "StringsContains", "ContainsRune": "StringsContainsRune", "ContainsAny": "StringsContainsAny", "Count": "StringsCount",
		"LastIndex": "StringsLastIndex", "LastIndexByte": "StringsLastIndexByte", "LastIndexAny": "StringsLastIndexAny", "LastIndexFunc": "StringsLastIndexFunc",
		"Cut": "StringsCut",
	},
	"bytes":        {"Index": "BytesIndex", "IndexByte": "BytesIndexByte", "Contains": "BytesContains"},
	"hash/maphash": {"MakeSeed": "MakeSeed", "Seed": "HashSeed", "String": "HashString", "Bytes": "HashBytes", "Hash": "Hash", "Comparable": "HashComparable"},
	"crypto/rand":  {"Read": "CryptoRead", "Int": "CryptoInt", "Reader": "CryptoReader", "Text": "CryptoText"},
}

func init() {
	r := map[string]string{}
	for _, n := range strings.Fields("Int Intn Int31 Int31n Int63 Int63n Uint32 Uint64 Float32 Float64 Perm Shuffle NormFloat64 ExpFloat64 Read Seed") {
		r[n] = "Rand()." + n
	}
	replace["math/rand"] = r
	r2 := map[string]string{}
	for _, n := range strings.Fields("Int IntN Int32 Int32N Int64 Int64N Uint32 Uint64 Uint32N Uint64N UintN Float32 Float64 Perm Shuffle NormFloat64 ExpFloat64") {
		r2[n] = "RandV2()." + n
	}
	r2["N"] = "RandN"
	replace["math/rand/v2"] = r2
}

// scans are functions that go through the whole of an argument and may well
// allocate nothing: package path -> name -> index of the argument
var scans = map[string]map[string]int{}

func init() {
	for path, names := range map[string]string{
		"strings":      "ToUpper ToLower ToTitle Title Fields FieldsFunc Split SplitN SplitAfter Replace ReplaceAll ContainsFunc ToValidUTF8 Clone",
		"bytes":        "ToUpper ToLower ToTitle Title Fields FieldsFunc Split SplitN SplitAfter Replace ReplaceAll ContainsFunc ToValidUTF8 Clone Count Runes",
		"unicode/utf8": "RuneCount RuneCountInString Valid ValidString",
		"sort":         "Strings Ints Float64s StringsAreSorted IntsAreSorted",
		"slices":       "Sort SortFunc SortStableFunc Reverse Clone Max Min MaxFunc MinFunc Compact CompactFunc IsSorted",
		"hash/crc32":   "ChecksumIEEE Checksum",
	} {
		scans[path] = map[string]int{}
		for _, n := range strings.Fields(names) {
			scans[path][n] = 0
		}
	}
	scans["strings"]["Map"], scans["bytes"]["Map"] = 1, 1
}

// scanArg says which argument of a call is gone through, or nil, and whether
// it is a string.
func scanArg(info *types.Info, x *ast.CallExpr) (ast.Expr, bool) {
	i := -1
	switch f := x.Fun.(type) {
	case *ast.Ident:
		if b, ok := info.Uses[f].(*types.Builtin); ok && (b.Name() == "copy" || b.Name() == "append" && x.Ellipsis.IsValid()) {
			i = 1
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if pn, ok := info.Uses[id].(*types.PkgName); ok {
				if k, ok := scans[pn.Imported().Path()][f.Sel.Name]; ok {
					i = k
				}
			}
		}
	}
	if i < 0 || i >= len(x.Args) {
		return nil, false
	}
	tv, ok := info.Types[x.Args[i]]
	if !ok || tv.Value != nil || tv.IsNil() || tv.Type == nil {
		return nil, false
	}
	if _, ok := tv.Type.(*types.TypeParam); ok {
		return nil, false
	}
	switch t := tv.Type.Underlying().(type) {
	case *types.Basic:
		if t.Info()&types.IsString != 0 {
			return x.Args[i], true
		}
	case *types.Slice:
		return x.Args[i], false
	}
	return nil, false
}

// names kept in use so that imports stay used
var keep = map[string]string{"sync": "var _ %s.Locker", "time": "var _ %s.Time", "runtime": "var _ = %s.GC", "os": "var _ %s.File", "context": "var _ %s.Context", "maps": "var _ = %s.Clone[map[int]int]", "strings": "var _ %s.Builder", "bytes": "var _ %s.Buffer",
	"hash/maphash": "var _ %s.Hash", "crypto/rand": "var _ = %s.Prime", "math/rand": "var _ *%s.Rand", "math/rand/v2": "var _ *%s.Rand"}

// instrument writes woven copies under outDir and returns the overlay map.
func instrument(repo, outDir string) (map[string]string, *Woven, error) {
	pkgs, err := listPackages(repo)
	if err != nil {
		return nil, nil, err
	}
	for k, v := range map[string]string{"GOFLAGS": "-mod=mod -buildvcs=false", "GOPROXY": "off"} {
		os.Setenv(k, v)
	}
	fset := token.NewFileSet()
	m := &modImporter{fset: fset, std: importer.ForCompiler(fset, "source", nil), by: map[string]*listedPkg{},
		done: map[string]*types.Package{}, info: map[string]*types.Info{}, file: map[string][]*ast.File{}}
	for i := range pkgs {
		m.by[pkgs[i].ImportPath] = &pkgs[i]
	}
	w := &Woven{Seams: map[string]int{}}
	overlay := map[string]string{}
	woven := func(lp *listedPkg) bool { return lp.Name != "main" && len(lp.CgoFiles) == 0 }
	for i := range pkgs {
		lp := &pkgs[i]
		if lp.Name != "main" && !woven(lp) {
			w.Warnings = append(w.Warnings, lp.ImportPath+" uses cgo: not simulated")
		} else if woven(lp) {
			if _, err := m.check(lp); err != nil {
				return nil, nil, err
			}
		}
	}
	sus := newSuspects(m)
	var files []*ast.File
	for _, fs := range m.file {
		files = append(files, fs...)
	}
	fresh := loadBaseline().changes(fset, files)
	for i := range pkgs {
		lp := &pkgs[i]
		if !woven(lp) {
			continue
		}
		if lp.Name == "parser" && m.done[lp.ImportPath].Scope().Lookup("ASTVisitor") != nil {
			if w.visitor, err = genVisitor(m.done[lp.ImportPath]); err != nil {
				return nil, nil, err
			}
		}
		info := m.info[lp.ImportPath]
		for fi, af := range m.file[lp.ImportPath] {
			src := filepath.Join(lp.Dir, lp.GoFiles[fi])
			data, err := os.ReadFile(src)
			if err != nil {
				return nil, nil, err
			}
			out := weave(fset, af, data, info, m.done[lp.ImportPath], src, repo, w, m.by, sus[lp.ImportPath], fresh)
			dst := filepath.Join(outDir, strings.ReplaceAll(strings.TrimPrefix(src, "/"), "/", "__"))
			if err := os.WriteFile(dst, out, 0o644); err != nil {
				return nil, nil, err
			}
			overlay[src] = dst
		}
	}
	return overlay, w, nil
}

func weave(fset *token.FileSet, af *ast.File, data []byte, info *types.Info, pkg *types.Package, src, repo string, w *Woven, mod map[string]*listedPkg, sus *suspects, fresh map[ast.Stmt]bool) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(from, to int, text string) { edits = append(edits, edit{from, to, text, len(edits)}) }
	rel, _ := filepath.Rel(repo, src)
	keepIdents := map[string]string{}
	curFunc := ""

	isHot := func(s ast.Stmt) bool {
		hot := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.Ident:
				if v, ok := info.Uses[x].(*types.Var); ok && v.Pkg() != nil && mod[v.Pkg().Path()] != nil && v.Parent() == v.Pkg().Scope() {
					hot = true
				}
			}
			return true
		})
		return hot
	}
	site := func(p token.Pos, hot, sus, fresh bool) string {
		w.Sites = append(w.Sites, Site{rel, fset.Position(p).Line, curFunc, hot, sus, fresh})
		return simName + ".Y(" + strconv.Itoa(len(w.Sites)-1) + ");"
	}
	stmts := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			add(off(s.Pos()), off(s.Pos()), site(s.Pos(), isHot(s), sus.is(s), fresh[s]))
		}
	}
	isMap := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Map)
		return ok
	}
	isChan := func(e ast.Expr) bool {
		tv, ok := info.Types[e]
		if !ok || tv.Type == nil {
			return false
		}
		_, ok = tv.Type.Underlying().(*types.Chan)
		return ok
	}
	var selects []*ast.SelectStmt
	inSelect := map[ast.Node]bool{}
	visit := func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			stmts(x.List)
		case *ast.CaseClause:
			stmts(x.Body)
		case *ast.CommClause:
			stmts(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, site(x.Body.Lbrace, false, false, false))
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, site(x.Body.Lbrace, false, false, false))
			}
			if isChan(x.X) {
				w.Seams["channel"]++
				v, body := "zzV", ""
				if x.Key != nil {
					if t := string(data[off(x.Key.Pos()):off(x.Key.End())]); x.Tok != token.DEFINE {
						body = t + " = zzV;"
					} else if t != "_" {
						v = t
					}
				}
				add(off(x.For)+len("for"), off(x.X.Pos()), " zzR, "+v+" := "+simName+".Range(")
				add(off(x.X.End()), off(x.X.End()), "); zzR.Next(&"+v+");")
				if body != "" {
					add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, body)
				}
				break
			}
			if isMap(x.X) {
				w.Seams["range over map"]++
				if x.Key == nil {
					add(off(x.X.Pos()), off(x.X.Pos()), simName+".MapEntries(")
					add(off(x.X.End()), off(x.X.End()), ")")
					break
				}
				text := func(e ast.Expr) string { return string(data[off(e.Pos()):off(e.End())]) }
				op := "="
				if x.Tok == token.DEFINE {
					op = ":="
				}
				add(off(x.Key.Pos()), off(x.X.Pos()), "_, zzE := range "+simName+".MapEntries(")
				add(off(x.X.End()), off(x.X.End()), ")")
				body := "zzV, zzOK := zzE.Get(); if !zzOK { continue }; _ = zzV;"
				if k := text(x.Key); k != "_" {
					body += k + op + "zzE.K;"
				}
				if x.Value != nil {
					if v := text(x.Value); v != "_" {
						body += v + op + "zzV;"
					}
				}
				add(off(x.Body.Lbrace)+1, off(x.Body.Lbrace)+1, body)
			}
		case *ast.GoStmt:
			w.Seams["go statement"]++
			call := x.Call
			if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
				add(off(x.Pos()), off(fl.Pos()), simName+".Go(")
				add(off(call.Lparen), off(call.End()), ")")
				break
			}
			add(off(x.Pos()), off(call.Fun.Pos()), "{zzF := ")
			prev := off(call.Fun.End())
			names := []string{}
			for i, a := range call.Args {
				if tv, ok := info.Types[a]; ok && tv.IsNil() {
					add(prev, off(a.End()), "")
					names = append(names, "nil")
				} else {
					nm := "zzA" + strconv.Itoa(i)
					add(prev, off(a.Pos()), "; "+nm+" := ")
					names = append(names, nm)
				}
				prev = off(a.End())
			}
			dots := ""
			if call.Ellipsis.IsValid() {
				dots = "..."
			}
			add(prev, off(call.End()), "; "+simName+".Go(func() { zzF("+strings.Join(names, ", ")+dots+") })}")
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := info.Uses[id].(*types.Builtin); ok {
					add(off(id.Pos()), off(id.End()), simName+".Close")
					w.Seams["channel"]++
				}
			}
			if a, str := scanArg(info, x); a != nil {
				f := ".ScanSlice("
				if str {
					f = ".Scan("
				}
				add(off(a.Pos()), off(a.Pos()), simName+f)
				add(off(a.End()), off(a.End()), ")")
				w.Seams["scan"]++
			}
		case *ast.SelectStmt:
			selects = append(selects, x)
			for _, c := range x.Body.List {
				if cc := c.(*ast.CommClause); cc.Comm != nil {
					inSelect[commExpr(cc.Comm)] = true
				}
			}
		case *ast.SendStmt:
			if inSelect[x] {
				break
			}
			w.Seams["channel"]++
			add(off(x.Pos()), off(x.Pos()), simName+".SendTo(")
			add(off(x.Chan.End()), off(x.Value.Pos()), ")(")
			add(off(x.End()), off(x.End()), ")")
		case *ast.UnaryExpr:
			if x.Op != token.ARROW || inSelect[x] {
				break
			}
			w.Seams["channel"]++
			f := ".Recv("
			if tv, ok := info.Types[x]; ok {
				if _, two := tv.Type.(*types.Tuple); two {
					f = ".Recv2("
				}
			}
			add(off(x.Pos()), off(x.X.Pos()), simName+f)
			add(off(x.X.End()), off(x.End()), ")")
		case *ast.SelectorExpr:
			id, ok := x.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				break
			}
			path := pn.Imported().Path()
			if r, ok := replace[path][x.Sel.Name]; ok {
				w.Seams[path+"."+x.Sel.Name]++
				add(off(x.Pos()), off(x.End()), simName+"."+r)
				keepIdents[id.Name] = path
			}
		}
		return true
	}
	for _, d := range af.Decls {
		curFunc = "init"
		if fd, ok := d.(*ast.FuncDecl); ok {
			curFunc = fd.Name.Name
			if fd.Recv != nil && len(fd.Recv.List) > 0 {
				t := fd.Recv.List[0].Type
				if st, ok := t.(*ast.StarExpr); ok {
					t = st.X
				}
				if ix, ok := t.(*ast.IndexExpr); ok {
					t = ix.X
				}
				if id, ok := t.(*ast.Ident); ok {
					curFunc = id.Name + "." + curFunc
				}
			}
		}
		ast.Inspect(d, visit)
	}
	for i := len(selects) - 1; i >= 0; i-- {
		w.Seams["select"]++
		edits = weaveSelect(selects[i], data, off, edits)
	}
	add(off(af.Name.End()), off(af.Name.End()), "; import "+simName+" \""+simPath+"\"")
	tail := "\nvar _ = " + simName + ".Y\n"
	var ks []string
	for k := range keepIdents {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if f, ok := keep[keepIdents[k]]; ok {
			tail += fmt.Sprintf(f, k) + "\n"
		}
	}
	add(len(data), len(data), tail)
	return apply(data, edits)
}

// commExpr returns the operation of a case of a select: a send statement or a
// receive expression.
func commExpr(s ast.Stmt) ast.Node {
	var e ast.Expr
	switch x := s.(type) {
	case *ast.SendStmt:
		return x
	case *ast.ExprStmt:
		e = x.X
	case *ast.AssignStmt:
		e = x.Rhs[0]
	}
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// weaveSelect turns a select into a switch on what the simulator chose.
func weaveSelect(x *ast.SelectStmt, data []byte, off func(token.Pos) int, edits []edit) []edit {
	// the text of an expression with the edits in it, which go
	text := func(e ast.Expr) string {
		from, to := off(e.Pos()), off(e.End())
		var in, rest []edit
		for _, d := range edits {
			if d.from >= from && d.to <= to {
				d.from, d.to = d.from-from, d.to-from
				in = append(in, d)
			} else {
				rest = append(rest, d)
			}
		}
		edits = rest
		return string(apply(append([]byte(nil), data[from:to]...), in))
	}
	add := func(from, to int, text string) { edits = append(edits, edit{from, to, text, len(edits)}) }
	var names, makes []string
	def := false
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			def = true
			continue
		}
		k := len(names)
		n := "zzC" + strconv.Itoa(k)
		names = append(names, n)
		bind := ""
		switch op := commExpr(cc.Comm).(type) {
		case *ast.SendStmt:
			makes = append(makes, simName+".OnSend("+text(op.Chan)+")("+text(op.Value)+")")
		case *ast.UnaryExpr:
			makes = append(makes, simName+".OnRecv("+text(op.X)+")")
			if as, ok := cc.Comm.(*ast.AssignStmt); ok {
				bind = text(as.Lhs[0])
				if len(as.Lhs) > 1 {
					bind += ", " + text(as.Lhs[1])
				}
				bind += " " + as.Tok.String() + " " + n + ".V"
				if len(as.Lhs) > 1 {
					bind += ", " + n + ".OK"
				}
				bind += ";"
			}
		}
		// before what is put in front of the body
		add(off(cc.Comm.Pos()), off(cc.Colon)+1, strconv.Itoa(k)+":"+bind)
	}
	head := "switch "
	if len(names) > 0 {
		head += strings.Join(names, ", ") + " := " + strings.Join(makes, ", ") + "; "
	}
	head += simName + ".Select(" + strings.Join(append([]string{strconv.FormatBool(def)}, names...), ", ") + ") "
	add(off(x.Select), off(x.Body.Lbrace), head)
	if !def {
		add(off(x.Body.Rbrace), off(x.Body.Rbrace), "default: panic(\"select\");")
	}
	return edits
}

// apply applies edits; at one offset insertions come before replacements, in
// the order they were made.
func apply(data []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].from != edits[j].from {
			return edits[i].from < edits[j].from
		}
		ii, jj := edits[i].to == edits[i].from, edits[j].to == edits[j].from
		if ii != jj {
			return ii
		}
		return edits[i].seq < edits[j].seq
	})
	var out []byte
	pos := 0
	for _, e := range edits {
		if e.from > pos {
			out = append(out, data[pos:e.from]...)
			pos = e.from
		}
		out = append(out, e.text...)
		if e.to > pos {
			pos = e.to
		}
	}
	return append(out, data[pos:]...)
}
