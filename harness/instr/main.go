// Instr rewrites sources of the compiler so that all sources of nondeterminism are controlled:
// goroutines and synchronization primitives are replaced with ones of package vsync,
// and iterations over maps get their order from it.
//
// Usage: instr repo outdir overlay.json (an existing overlay is extended).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	Module     *struct {
		Path string
		Main bool
	}
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(1)
}

type edit struct {
	pos, end int
	text     string
	seq      int
}

func main() {
	repo, out, ovFile := os.Args[1], os.Args[2], os.Args[3]
	cmd := exec.Command("go", "list", "-deps", "-export", "-json=ImportPath,Dir,GoFiles,Export,Standard,Module", "./cmd/fbdl", "./pkg/fbdl")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var pkgs []pkgInfo
	exports := map[string]string{}
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main {
			pkgs = append(pkgs, p)
		}
	}
	var ov struct{ Replace map[string]string }
	if b, err = os.ReadFile(ovFile); err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &ov); err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data of %s", path)
		}
		return os.Open(f)
	})
	stat := map[string]int{}
	for _, p := range pkgs {
		var files []*ast.File
		srcs := map[*ast.File][]byte{}
		for _, n := range p.GoFiles {
			fn := filepath.Join(p.Dir, n)
			src, err := os.ReadFile(fn)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			srcs[f] = src
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.23"}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("%v", err)
		}
		mod := p.Module.Path
		for _, f := range files {
			res := rewrite(fset, f, srcs[f], info, mod, stat)
			if res == nil {
				continue
			}
			fn := fset.File(f.Pos()).Name()
			rel, _ := filepath.Rel(repo, fn)
			o := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			if err := os.WriteFile(o, res, 0o644); err != nil {
				die("%v", err)
			}
			ov.Replace[fn] = o
		}
	}
	b, _ = json.MarshalIndent(ov, "", " ")
	if err := os.WriteFile(ovFile, b, 0o644); err != nil {
		die("%v", err)
	}
	b, _ = json.Marshal(stat)
	fmt.Println(string(b))
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, info *types.Info, mod string, stat map[string]int) []byte {
	vsync := strconv.Quote(mod + "/internal/verifx/vsync")
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(pos, end int, text string) {
		edits = append(edits, edit{pos, end, text, len(edits)})
	}
	used := false
	// Packages of maps functions.
	mapsUses := map[string]int{}
	pkgOf := func(e ast.Expr) (*ast.Ident, string) {
		id, ok := e.(*ast.Ident)
		if !ok {
			return nil, ""
		}
		pn, ok := info.Uses[id].(*types.PkgName)
		if !ok {
			return nil, ""
		}
		return id, pn.Imported().Path()
	}
	for id, o := range info.Uses {
		if pn, ok := o.(*types.PkgName); ok && id.Pos() >= f.FileStart && id.Pos() < f.FileEnd {
			mapsUses[pn.Imported().Path()]++
		}
	}
	changed := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			t := info.TypeOf(n.X)
			if t == nil {
				return true
			}
			switch u := t.Underlying().(type) {
			case *types.Map:
				add(off(n.X.Pos()), off(n.X.Pos()), "vsync.Range(")
				add(off(n.X.End()), off(n.X.End()), ")")
				used = true
				stat["map ranges"]++
			case *types.Chan:
				_ = u
				stat["channels"]++
			}
		case *ast.SendStmt, *ast.SelectStmt:
			stat["channels"]++
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				stat["channels"]++
			}
		case *ast.CallExpr:
			sel, ok := n.Fun.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			id, path := pkgOf(sel.X)
			if id == nil {
				return true
			}
			prefix := ""
			switch path {
			case "maps":
				prefix = "Std"
			case "golang.org/x/exp/maps":
				prefix = "Exp"
			default:
				return true
			}
			switch sel.Sel.Name {
			case "Keys", "Values", "All":
				add(off(sel.Pos()), off(sel.End()), "vsync."+prefix+sel.Sel.Name)
				mapsUses[path]--
				used = true
				stat["map functions"]++
			}
		case *ast.GoStmt:
			stat["go statements"]++
			used = true
			c := n.Call
			fl, lit := c.Fun.(*ast.FuncLit)
			if lit && len(c.Args) == 0 {
				_ = fl
				add(off(n.Pos()), off(c.Fun.Pos()), "vsync.Go(")
				add(off(c.Lparen), off(c.Rparen)+1, ")")
				return true
			}
			// { vxf := FUN; vxa0, vxa1 := ARG0, ARG1; vsync.Go(func() { vxf(vxa0, vxa1) }) }
			direct := false
			var name string
			switch fn := c.Fun.(type) {
			case *ast.Ident:
				_, direct = info.Uses[fn].(*types.Func)
				name = fn.Name
			case *ast.SelectorExpr:
				if id, _ := pkgOf(fn.X); id != nil {
					direct = true
					name = string(src[off(fn.Pos()):off(fn.End())])
				}
			}
			fun := "vxf"
			if direct {
				fun = name
				add(off(n.Pos()), off(c.Fun.End()), "{ ")
			} else {
				add(off(n.Pos()), off(c.Fun.Pos()), "{ vxf := ")
			}
			args := []string{}
			sep := ""
			if !direct {
				sep = "; "
			}
			if len(c.Args) == 0 {
				add(off(c.Lparen), off(c.Rparen)+1, sep+"vsync.Go(func() { "+fun+"() }) }")
				return true
			}
			prev := off(c.Lparen)
			for i, a := range c.Args {
				tv := info.Types[a]
				v := fmt.Sprintf("vxa%d", i)
				if tv.Value != nil || tv.IsNil() {
					args = append(args, string(src[off(a.Pos()):off(a.End())]))
					add(prev, off(a.End()), sep)
				} else {
					args = append(args, v)
					add(prev, off(a.Pos()), sep+v+" := ")
				}
				sep = "; "
				prev = off(a.End())
			}
			dots := ""
			if c.Ellipsis.IsValid() {
				dots = "..."
			}
			add(prev, off(c.Rparen)+1, "; vsync.Go(func() { "+fun+"("+strings.Join(args, ", ")+dots+") }) }")
		}
		return true
	})
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "sync":
			name := "sync"
			if im.Name != nil {
				name = im.Name.Name
			}
			add(off(im.Pos()), off(im.End()), name+" "+vsync)
			stat["sync imports"]++
			changed = true
		case "maps", "golang.org/x/exp/maps":
			if n, ok := mapsUses[path]; ok && n == 0 {
				add(off(im.Pos()), off(im.End()), "_ "+im.Path.Value)
			}
		}
	}
	if !used && !changed {
		return nil
	}
	if used {
		add(off(f.Name.End()), off(f.Name.End()), "; import vsync "+vsync)
	}
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].pos != edits[j].pos {
			return edits[i].pos < edits[j].pos
		}
		return edits[i].seq < edits[j].seq
	})
	var r bytes.Buffer
	p := 0
	for _, e := range edits {
		if e.pos < p {
			die("overlapping edits in %s", fset.Position(f.Pos()))
		}
		r.Write(src[p:e.pos])
		r.WriteString(e.text)
		p = e.end
	}
	r.Write(src[p:])
	return r.Bytes()
}
