// Check C23: discovery and import of packages.
package main

import (
	"encoding/json"
	"fmt"
	"path"
	"reflect"
	"sort"
	"strings"

	"github.com/Functional-Bus-Description-Language/go-fbdl/internal/verifx/lib"
)

// tree is a model of a file system.
type tree struct {
	files map[string]string // Path -> content.
	dirs  map[string]bool   // All directories, "" is the root.
	links map[string]string // Path -> target relative to the directory of the link.
}

func newTree() *tree {
	return &tree{files: map[string]string{}, dirs: map[string]bool{"": true}, links: map[string]string{}}
}

func parent(p string) string {
	d := path.Dir(p)
	if d == "." {
		return ""
	}
	return d
}

func (t *tree) mkdir(p string) bool {
	for p != "" {
		if _, ok := t.files[p]; ok {
			return false
		}
		if _, ok := t.links[p]; ok {
			return false
		}
		t.dirs[p] = true
		p = parent(p)
	}
	return true
}

func (t *tree) taken(p string) bool {
	_, f := t.files[p]
	_, l := t.links[p]
	return f || l || t.dirs[p]
}

// resolve follows links, the result is a physical path. False is returned if the path does not exist.
func (t *tree) resolve(p string, depth int) (string, bool) {
	if depth > 40 {
		return "", false
	}
	cur := ""
	els := strings.Split(p, "/")
	for i, e := range els {
		switch e {
		case "", ".":
			continue
		case "..":
			cur = parent(cur)
			continue
		}
		n := path.Join(cur, e)
		if l, ok := t.links[n]; ok {
			rest := strings.Join(els[i+1:], "/")
			to := cur + "/" + l
			if rest != "" {
				to += "/" + rest
			}
			return t.resolve(to, depth+1)
		}
		_, f := t.files[n]
		if !f && !t.dirs[n] {
			return "", false
		}
		if f && i < len(els)-1 {
			return "", false
		}
		cur = n
	}
	return cur, true
}

// entries lists names in the directory.
func (t *tree) entries(d string) []string {
	r := []string{}
	add := func(p string) {
		if p != "" && parent(p) == d {
			r = append(r, path.Base(p))
		}
	}
	for p := range t.files {
		add(p)
	}
	for p := range t.dirs {
		add(p)
	}
	for p := range t.links {
		add(p)
	}
	sort.Strings(r)
	return r
}

// pkg is a package expected to be found.
type pkg struct {
	name  string
	dir   string   // Physical path.
	files []string // Physical paths.
}

// discover returns all packages which can be reached from the roots.
func (t *tree) discover(roots []string) []pkg {
	seen := map[string]bool{}
	r := []pkg{}
	var visit func(d string)
	visit = func(d string) {
		if seen[d] {
			return
		}
		seen[d] = true
		p := pkg{name: strings.TrimPrefix(path.Base(d), "fbd-"), dir: d}
		for _, e := range t.entries(d) {
			x, ok := t.resolve(path.Join(d, e), 0)
			if !ok {
				continue
			}
			if t.dirs[x] {
				visit(x)
			} else if strings.HasSuffix(e, ".fbd") {
				p.files = append(p.files, x)
			}
		}
		if strings.HasPrefix(path.Base(d), "fbd-") && len(p.files) > 0 {
			r = append(r, p)
		}
	}
	for _, root := range roots {
		if d, ok := t.resolve(root, 0); ok && t.dirs[d] {
			visit(d)
		}
	}
	return r
}

type model struct {
	what   string
	reject bool
	said   string
	consts map[string]map[string]int64 // Package -> constants, if not nil.
	width  int64                       // Width of the config of the main bus, if not 0.
}

func (m *model) String() string { return m.what }

func eval(c *lib.Case, o *lib.Outcome) []lib.Viol {
	m := c.Meta.(*model)
	fam, _, _ := strings.Cut(m.what, ":")
	v := func(s, f string, a ...any) []lib.Viol {
		return []lib.Viol{{Sig: fam + ":" + s, Msg: m.what + ": " + fmt.Sprintf(f, a...)}}
	}
	if o.Kind != lib.OK && o.Kind != lib.Reject {
		return v(o.Kind.String(), "%s", o.Msg)
	}
	if m.reject {
		if o.Kind != lib.Reject {
			return v("accepted", "it is accepted")
		}
		if strings.TrimSpace(o.Msg) == "" {
			return v("silent", "there is no diagnostic")
		}
		return nil
	}
	if o.Kind != lib.OK {
		return v("rejected", "%s", o.Msg)
	}
	if m.consts != nil {
		var got map[string]struct {
			Consts struct{ Ints map[string]int64 }
		}
		if err := json.Unmarshal(o.CJSON, &got); err != nil {
			return v("constants", "%v", err)
		}
		for p := range m.consts {
			if _, ok := got[p]; !ok {
				return v("missing", "package %s is not found", p)
			}
		}
		for p, x := range got {
			w, ok := m.consts[p]
			if !ok {
				return v("unexpected", "package %s is found", p)
			}
			if len(w)+len(x.Consts.Ints) > 0 && !reflect.DeepEqual(w, x.Consts.Ints) {
				return v("contents", "constants of the package %s are %v, not %v", p, x.Consts.Ints, w)
			}
		}
	}
	if m.width != 0 {
		if len(o.Bus.Configs) == 0 || o.Bus.Configs[0].Width != m.width {
			return v("binding", "width of the config is not %d", m.width)
		}
	}
	return nil
}

func main() {
	lib.Main(&lib.Check{
		ID: "C23",
		Rule: "all directory trees made of up to given number of pieces (package directories, nested ones, other files and directories, links to directories and files, cyclic and broken links) " +
			"with settings of FBDPATH; import paths and aliases over trees; visibility of symbols over all placements of imports; reference model of the file system",
		Assume:   []string{"files and directories can be read", "paths of the working directory and of directories in FBDPATH do not contain links"},
		CLIEvery: 100,
		Gen: func(g *lib.Gen) {
			for _, f := range []func(*lib.Gen){imports, visibility, large, trees} {
				if f(g); g.Stopped() {
					return
				}
			}
		},
		Eval: eval,
	})
}
