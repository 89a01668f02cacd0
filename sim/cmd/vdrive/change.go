package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"verifsim/scn"
)

// What is new in the code, against the tree of corpus/baseline.json. Like
// suspect.go this steers the search towards it and nothing else: on the tree
// the baseline was made from, or without one, there is nothing to steer to.
type baseline struct {
	Funcs map[string]bool `json:"funcs"` // hashes of whole functions
	Stmts map[string]bool `json:"stmts"` // and of their statements without their blocks
	Vars  map[string]bool `json:"vars"`  // of declarations of constants and variables
	Lits  map[string]bool `json:"lits"`
}

func baselinePath() string { return filepath.Join(verifDir, "corpus", "baseline.json") }

func loadBaseline() *baseline {
	b, err := os.ReadFile(baselinePath())
	if err != nil {
		return nil
	}
	bl := &baseline{}
	if json.Unmarshal(b, bl) != nil {
		return nil
	}
	return bl
}

func newBaseline() *baseline {
	return &baseline{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
}

func textHash(fset *token.FileSet, n any) string {
	var b bytes.Buffer
	if printer.Fprint(&b, token.NewFileSet(), n) != nil { // no positions, so that layout and comments do not count
		return "?"
	}
	return fmt.Sprintf("%x", scn.HashStr(strings.Join(strings.Fields(b.String()), " ")))
}

var noBlock = &ast.BlockStmt{}

func stmtHash(fset *token.FileSet, s ast.Node) string {
	switch x := s.(type) {
	case *ast.BlockStmt:
		return "{"
	case *ast.IfStmt:
		y := *x
		y.Body, y.Else = noBlock, nil
		return textHash(fset, &y)
	case *ast.ForStmt:
		y := *x
		y.Body = noBlock
		return textHash(fset, &y)
	case *ast.RangeStmt:
		y := *x
		y.Body = noBlock
		return textHash(fset, &y)
	case *ast.SwitchStmt:
		y := *x
		y.Body = noBlock
		return textHash(fset, &y)
	case *ast.TypeSwitchStmt:
		y := *x
		y.Body = noBlock
		return textHash(fset, &y)
	case *ast.SelectStmt:
		return "select"
	case *ast.LabeledStmt:
		return "label"
	case *ast.CaseClause:
		y := *x
		y.Body = nil
		return textHash(fset, &y)
	case *ast.CommClause:
		y := *x
		y.Body = nil
		return textHash(fset, &y)
	}
	return textHash(fset, s)
}

// record puts a file into a baseline.
func (bl *baseline) record(fset *token.FileSet, af *ast.File) {
	bare(af)
	for _, d := range af.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			y := *x
			y.Doc = nil
			bl.Funcs[textHash(fset, &y)] = true
			if x.Body != nil {
				eachStmt(x.Body, func(s ast.Node) { bl.Stmts[stmtHash(fset, s)] = true })
			}
		case *ast.GenDecl:
			for _, sp := range x.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok {
					bl.Vars[specHash(fset, v)] = true
				}
			}
		}
	}
	ast.Inspect(af, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok {
			bl.Lits[l.Value] = true
		}
		return true
	})
}

func specHash(fset *token.FileSet, v *ast.ValueSpec) string {
	y := *v
	y.Doc, y.Comment = nil, nil
	return textHash(fset, &y)
}

// bare takes the comments from the declarations inside functions.
func bare(files ...*ast.File) {
	for _, af := range files {
		ast.Inspect(af, func(n ast.Node) bool {
			ds, ok := n.(*ast.DeclStmt)
			if !ok {
				return true
			}
			if g, ok := ds.Decl.(*ast.GenDecl); ok {
				g.Doc = nil
				for _, sp := range g.Specs {
					switch x := sp.(type) {
					case *ast.ValueSpec:
						x.Doc, x.Comment = nil, nil
					case *ast.TypeSpec:
						x.Doc, x.Comment = nil, nil
					}
				}
			}
			return true
		})
	}
}

func eachStmt(b ast.Node, f func(s ast.Node)) {
	ast.Inspect(b, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case ast.Stmt:
			if n != b {
				f(x)
			}
		}
		return true
	})
}

// changes finds the statements that are new, of all files together.
func (bl *baseline) changes(fset *token.FileSet, files []*ast.File) map[ast.Stmt]bool {
	fresh := map[ast.Stmt]bool{}
	if bl == nil {
		return fresh
	}
	bare(files...)
	names := map[string]bool{} // of changed declarations
	for _, af := range files {
		for _, d := range af.Decls {
			if x, ok := d.(*ast.GenDecl); ok {
				for _, sp := range x.Specs {
					if v, ok := sp.(*ast.ValueSpec); ok && !bl.Vars[specHash(fset, v)] {
						for _, n := range v.Names {
							names[n.Name] = true
						}
					}
				}
			}
		}
	}
	mentions := func(s ast.Node) bool {
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				return false
			case *ast.Ident:
				found = found || names[x.Name]
			}
			return !found
		})
		return found
	}
	for _, af := range files {
		for _, d := range af.Decls {
			x, ok := d.(*ast.FuncDecl)
			if !ok || x.Body == nil {
				continue
			}
			if len(names) > 0 {
				eachStmt(x.Body, func(s ast.Node) {
					if st, ok := s.(ast.Stmt); ok && mentions(s) {
						fresh[st] = true
					}
				})
			}
			y := *x
			y.Doc = nil
			if bl.Funcs[textHash(fset, &y)] {
				continue
			}
			some := false
			eachStmt(x.Body, func(s ast.Node) {
				if bl.Stmts[stmtHash(fset, s)] {
					return
				}
				some = true
				switch c := s.(type) {
				case *ast.CaseClause:
					for _, st := range c.Body {
						fresh[st] = true
					}
				case *ast.CommClause:
					for _, st := range c.Body {
						fresh[st] = true
					}
				case ast.Stmt:
					fresh[c] = true
				}
			})
			if !some { // something is gone or elsewhere
				eachStmt(x.Body, func(s ast.Node) {
					if st, ok := s.(ast.Stmt); ok {
						fresh[st] = true
					}
				})
			}
		}
	}
	return fresh
}

// literals are the texts and numbers that only the code of now has.
func (bl *baseline) literals(files []*ast.File) (texts []string, nums []int) {
	if bl == nil {
		return nil, nil
	}
	seen := map[string]bool{}
	for _, af := range files {
		ast.Inspect(af, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			l, ok := n.(*ast.BasicLit)
			if !ok || bl.Lits[l.Value] || seen[l.Value] {
				return true
			}
			seen[l.Value] = true
			switch l.Kind {
			case token.STRING:
				if s, err := strconv.Unquote(l.Value); err == nil && s != "" && len(s) < 200 {
					texts = append(texts, s)
				}
			case token.CHAR:
				if c, _, _, err := strconv.UnquoteChar(strings.TrimSuffix(l.Value[1:], "'"), '\''); err == nil {
					if c < 256 && strings.HasPrefix(l.Value, `'\x`) {
						texts = append(texts, string([]byte{byte(c)}))
					} else {
						texts = append(texts, string(c))
					}
				}
			case token.INT:
				if n, err := strconv.ParseInt(l.Value, 0, 32); err == nil {
					nums = append(nums, int(n))
				}
			}
			return true
		})
	}
	// 1<<k and the like
	for _, af := range files {
		ast.Inspect(af, func(n ast.Node) bool {
			b, ok := n.(*ast.BinaryExpr)
			if !ok || b.Op != token.SHL && b.Op != token.MUL {
				return true
			}
			x, ok1 := b.X.(*ast.BasicLit)
			y, ok2 := b.Y.(*ast.BasicLit)
			if !ok1 || !ok2 || bl.Lits[x.Value] && bl.Lits[y.Value] && x.Value != "1" {
				return true
			}
			i, err1 := strconv.ParseInt(x.Value, 0, 32)
			j, err2 := strconv.ParseInt(y.Value, 0, 32)
			if err1 != nil || err2 != nil {
				return true
			}
			if v := i * j; b.Op == token.MUL && v < 1<<30 {
				nums = append(nums, int(v))
			} else if b.Op == token.SHL && j < 30 {
				nums = append(nums, int(i<<j))
			}
			return true
		})
	}
	slices.Sort(nums)
	nums = slices.Compact(nums)
	return texts, nums
}

// writeBaseline makes corpus/baseline.json of the tree as it is.
func writeBaseline() int {
	bl := newBaseline()
	fset, files, err := parseRepo()
	if err != nil {
		die("%v", err)
	}
	for _, af := range files {
		bl.record(fset, af)
	}
	if err := writeJSON(baselinePath(), bl); err != nil {
		die("%v", err)
	}
	fmt.Println(len(bl.Funcs), "functions", len(bl.Stmts), "statements", len(bl.Lits), "literals")
	return 0
}

// parseRepo reads all the files of the repository that are built.
func parseRepo() (*token.FileSet, []*ast.File, error) {
	pkgs, err := listPackages(repoDir)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, p := range pkgs {
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return nil, nil, err
			}
			files = append(files, af)
		}
	}
	return fset, files, nil
}

// news are the literals only the code of now has.
func news() (texts []string, nums []int) {
	bl := loadBaseline()
	if bl == nil {
		return nil, nil
	}
	_, files, err := parseRepo()
	if err != nil {
		return nil, nil
	}
	return bl.literals(files)
}

// newDocs are documents with the words and numbers in them that only the code
// of now mentions, most at most.
func newDocs(c *scn.Corpus, seed uint64, maxLen, most int) []string {
	texts, nums := news()
	var out []string
	seen := map[string]bool{}
	scn.Dict(c, seed, texts, nums, maxLen, func(_, t string) {
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	})
	r := scn.NewRand(scn.Mix(seed, 0xd1c8))
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out[:min(len(out), most)]
}
