package code

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"golang.org/x/mod/modfile"
	"pgregory.net/rapid"

	"github.com/blueprint-uservices/blueprint/plugins/golang/gogen"
	"verif/harness/h"
)

type srcModule struct {
	path, dir string
	files     map[string]string
	broken    string // why it cannot be added
}

type wsModule struct {
	path, dir string
	local     *srcModule
	files     map[string]string // generated files
	requires  map[string]string
}

// readTree reads all files below dir
func readTree(dir string) map[string]string {
	out := map[string]string{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			h.EnvError("%v", err)
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			if rel != "." {
				if es, _ := os.ReadDir(p); len(es) == 0 {
					out[rel+"/"] = ""
				}
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			h.EnvError("%v", err)
		}
		out[rel] = string(b)
		return nil
	})
	return out
}

var moduleNames = []string{"x.test/app/workflow", "x.test/other/workflow", "x.test/app/tests", "x.test/app", "x.test/app/workflow0", "x.test/b/proc", "x.test/c/proc", "proc", "x.test/c/proc/v2", "x.test/d/v2"}

func genSrcModule(t *rapid.T, i int, root string, names []string) *srcModule {
	m := &srcModule{path: rapid.SampledFrom(moduleNames).Draw(t, "path"), dir: filepath.Join(root, fmt.Sprintf("src%d", i)), files: map[string]string{}}
	var mod strings.Builder
	fmt.Fprintf(&mod, "module %s\n\ngo 1.%d\n", m.path, rapid.IntRange(20, 25).Draw(t, "go"))
	for _, n := range rapid.SliceOfNDistinct(rapid.SampledFrom(names), 0, 3, rapid.ID[string]).Draw(t, "requires") {
		if n == m.path {
			continue
		}
		v := "v0.0.0"
		if strings.HasSuffix(n, "/v2") {
			v = "v2.1.0"
		}
		fmt.Fprintf(&mod, "\nrequire %s %s\n", n, v)
		switch rapid.IntRange(0, 3).Draw(t, "replace") {
		case 0:
			fmt.Fprintf(&mod, "\nreplace %s => ../somewhere/else\n", n)
		case 1:
			fmt.Fprintf(&mod, "\nreplace %s %s => ../versioned\n", n, v)
		}
	}
	if rapid.Bool().Draw(t, "external") {
		mod.WriteString("\nrequire x.test/external/lib v1.2.3 // indirect\n\nreplace x.test/external/lib => x.test/fork/lib v1.2.4\n")
	}
	m.files["go.mod"] = mod.String()
	for _, f := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"a.go", "pkg/b.go", "pkg/deep/er/c.go", "README.md", "data.bin", ".hidden", "pkg/x_test.go", "testdata/in.txt", "empty.txt", "go.sum", "go.work", "pkg/go.mod.txt", ".git/config"}), 0, 6, rapid.ID[string]).Draw(t, "files") {
		content := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "content")
		switch {
		case strings.HasSuffix(f, ".go"):
			m.files[f] = "package p\n\n// " + fmt.Sprintf("%x", content) + "\n"
		case f == "empty.txt":
			m.files[f] = ""
		default:
			m.files[f] = string(content)
		}
	}
	switch rapid.IntRange(0, 14).Draw(t, "broken") {
	case 0:
		m.broken = "no go.mod"
		delete(m.files, "go.mod")
	case 1:
		m.broken = "invalid go.mod"
		m.files["go.mod"] = "modul x y z {{"
	}
	for f, s := range m.files {
		os.MkdirAll(filepath.Dir(filepath.Join(m.dir, f)), 0755)
		if err := os.WriteFile(filepath.Join(m.dir, f), []byte(s), 0644); err != nil {
			h.EnvError("%v", err)
		}
	}
	os.MkdirAll(m.dir, 0755)
	return m
}

func parseMod(c *h.Case, file string) *modfile.File {
	b, err := os.ReadFile(file)
	if err != nil {
		c.Failf("%v", err)
	}
	f, err := modfile.Parse(file, b, nil)
	if err != nil {
		c.Failf("%s is invalid: %v\n%s", file, err, b)
	}
	return f
}

func requires(f *modfile.File) string {
	var r []string
	for _, x := range f.Require {
		r = append(r, fmt.Sprintf("%s %s %v", x.Mod.Path, x.Mod.Version, x.Indirect))
	}
	sort.Strings(r)
	return strings.Join(r, "; ")
}

func TestC13_Workspace(t *testing.T) {
	h.Check(t, h.Opts{Quick: 250, Thorough: 6000,
		Rule: "a case is a history of up to 10 calls that add local and generated modules to one output workspace, followed by Finish; non-trivial when at least two modules were accepted"},
		func(t *rapid.T, c *h.Case) {
			root, done := h.TempDir()
			defer done()
			var srcs []*srcModule
			for i := rapid.IntRange(1, 4).Draw(t, "nsrc"); i > 0; i-- {
				srcs = append(srcs, genSrcModule(t, i, root, moduleNames))
			}
			before := map[*srcModule]map[string]string{}
			for _, m := range srcs {
				before[m] = readTree(m.dir)
			}
			out := filepath.Join(root, "out")
			if rapid.Bool().Draw(t, "outexists") {
				os.MkdirAll(out, 0755)
			}
			ws, err := gogen.NewWorkspaceBuilder(out)
			if err != nil {
				c.Failf("cannot create a workspace: %v", err)
			}
			var mods []*wsModule
			byPath := func(p string) *wsModule {
				for _, m := range mods {
					if m.path == p {
						return m
					}
				}
				return nil
			}
			builders := map[*wsModule]*gogen.ModuleBuilderImpl{}
			inUse := func(short string) bool {
				for _, m := range mods {
					if filepath.Base(m.dir) == short {
						return true
					}
				}
				return false
			}
			steps := rapid.IntRange(1, 10).Draw(t, "steps")
			for i := 0; i < steps; i++ {
				switch rapid.IntRange(0, 3).Draw(t, "op") {
				case 0, 1:
					s := rapid.SampledFrom(srcs).Draw(t, "src")
					short := filepath.Base(s.path)
					if rapid.IntRange(0, 3).Draw(t, "othershort") == 0 {
						short = rapid.SampledFrom([]string{"workflow", "proc", "proc0", "tests", "v2"}).Draw(t, "short")
					}
					dir, err := ws.AddLocalModule(short, s.dir)
					c.Logf("AddLocalModule(%s, %s at %s %s) -> %v", short, s.path, filepath.Base(s.dir), s.broken, err != nil)
					if err != nil {
						c.Label("rejected")
						if s.broken == "" && byPath(s.path) == nil && !inUse(short) {
							c.Failf("a valid module with a free directory was rejected: %v", err)
						}
						continue
					}
					if s.broken != "" {
						c.Failf("a module with %s was accepted", s.broken)
					}
					if m := byPath(s.path); m != nil {
						// the same module again: fine if it is the same source
						if m.dir != dir {
							c.Failf("module %s was first put in %s, now in %s", s.path, m.dir, dir)
						}
						if m.local != nil && m.local != s {
							c.Failf("a second source of module %s was accepted, but the workspace holds the first", s.path)
						}
						if m.local == nil {
							c.Failf("local module %s was accepted although a generated module of that name exists", s.path)
						}
						continue
					}
					mods = append(mods, &wsModule{path: s.path, dir: dir, local: s})
				default:
					name := rapid.SampledFrom(moduleNames).Draw(t, "name")
					mb, err := gogen.NewModuleBuilder(ws, name)
					c.Logf("NewModuleBuilder(%s) -> %v", name, err != nil)
					if err != nil {
						c.Label("rejected")
						if byPath(name) == nil {
							c.Failf("generated module %s was rejected although no other module has that name: %v", name, err)
						}
						continue
					}
					if byPath(name) != nil {
						c.Failf("generated module %s was accepted twice", name)
					}
					m := &wsModule{path: name, dir: mb.Info().Path, files: map[string]string{}, requires: map[string]string{}}
					mods = append(mods, m)
					builders[m] = mb
					if mb.Info().Name != name {
						c.Failf("module %s calls itself %s", name, mb.Info().Name)
					}
					for _, p := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"", "main", "ns", "ns/sub", "clients/x"}), 0, 3, rapid.ID[string]).Draw(t, "packages") {
						info, err := mb.CreatePackage(p)
						if err != nil {
							c.Failf("CreatePackage(%q): %v", p, err)
						}
						if again, err := mb.CreatePackage(p); err != nil || again != info {
							c.Failf("CreatePackage(%q) a second time: %v %v, first %v", p, again, err, info)
						}
						rel, _ := filepath.Rel(m.dir, info.Path)
						wantPkg := name
						if rel != "." {
							wantPkg = name + "/" + filepath.ToSlash(rel)
						}
						if info.PackageName != wantPkg || strings.HasPrefix(rel, "..") {
							c.Failf("package %q of %s is %s in directory %s", p, name, info.PackageName, rel)
						}
						f := filepath.Join(rel, fmt.Sprintf("g%d.go", i))
						m.files[f] = fmt.Sprintf("package %s\n\n// %s %d\n", info.ShortName, name, i)
						if err := os.WriteFile(filepath.Join(m.dir, f), []byte(m.files[f]), 0644); err != nil {
							c.Failf("cannot write into the package directory: %v", err)
						}
					}
				}
			}
			// a directory must hold the module it was reported for
			dirs := map[string]string{}
			for _, m := range mods {
				if o, dup := dirs[m.dir]; dup {
					c.Failf("modules %s and %s share directory %s", o, m.path, m.dir)
				}
				dirs[m.dir] = m.path
				if filepath.Dir(m.dir) != out {
					c.Failf("module %s is at %s, outside workspace %s", m.path, m.dir, out)
				}
			}
			c.NonTrivial(len(mods) > 1)
			if len(mods) == 0 {
				return
			}
			if err := ws.Finish(); err != nil {
				c.Failf("Finish: %v", err)
			}
			// go.work
			b, err := os.ReadFile(filepath.Join(out, "go.work"))
			if err != nil {
				c.Failf("%v", err)
			}
			work, err := modfile.ParseWork("go.work", b, nil)
			if err != nil {
				c.Failf("go.work: %v\n%s", err, b)
			}
			used := map[string]bool{}
			for _, u := range work.Use {
				d := filepath.Join(out, u.Path)
				if used[d] {
					c.Failf("go.work lists %s twice", u.Path)
				}
				used[d] = true
				if dirs[d] == "" {
					c.Failf("go.work lists %s, which is not a module of the workspace", u.Path)
				}
			}
			if len(used) != len(mods) {
				c.Failf("go.work lists %d of %d modules:\n%s", len(used), len(mods), b)
			}
			for _, m := range mods {
				f := parseMod(c, filepath.Join(m.dir, "go.mod"))
				if f.Module.Mod.Path != m.path {
					c.Failf("directory %s of module %s has the go.mod of %s", m.dir, m.path, f.Module.Mod.Path)
				}
				repl := map[string]string{}
				for _, r := range f.Replace {
					if r.Old.Version != "" && byPath(r.Old.Path) != nil {
						c.Failf("go.mod of %s: leftover replacement of %s %s by %s overrides the workspace's copy", m.path, r.Old.Path, r.Old.Version, r.New.Path)
					}
					if _, dup := repl[r.Old.Path]; dup {
						c.Failf("go.mod of %s replaces %s twice", m.path, r.Old.Path)
					}
					repl[r.Old.Path] = r.New.Path
				}
				for _, o := range mods {
					if o == m {
						continue
					}
					if got := repl[o.path]; filepath.Join(m.dir, got) != o.dir || filepath.IsAbs(got) {
						c.Failf("go.mod of %s redirects %s to %q, its copy is at %s", m.path, o.path, got, o.dir)
					}
				}
				if m.local != nil {
					orig, err := modfile.Parse("go.mod", []byte(m.local.files["go.mod"]), nil)
					if err != nil {
						h.EnvError("%v", err)
					}
					if requires(orig) != requires(f) || orig.Go.Version != f.Go.Version {
						c.Failf("requirements of %s were changed from %s (go %s) to %s (go %s)", m.path, requires(orig), orig.Go.Version, requires(f), f.Go.Version)
					}
					if strings.Contains(m.local.files["go.mod"], "x.test/fork/lib") && repl["x.test/external/lib"] != "x.test/fork/lib" {
						c.Failf("go.mod of %s lost its replacement of x.test/external/lib", m.path)
					}
					got := readTree(m.dir)
					delete(got, "go.mod")
					for name, s := range m.local.files {
						if name == "go.mod" {
							continue
						}
						g, ok := got[name]
						if !ok {
							c.Failf("file %s of module %s was not copied", name, m.path)
						}
						if !bytes.Equal([]byte(g), []byte(s)) {
							c.Failf("file %s of module %s was changed", name, m.path)
						}
						delete(got, name)
					}
					if len(got) > 0 {
						c.Failf("the copy of module %s has files the module does not: %s", m.path, keys(got))
					}
				} else {
					got := readTree(m.dir)
					for name, s := range m.files {
						if got[name] != s {
							c.Failf("generated file %s of module %s is now %q", name, m.path, got[name])
						}
						delete(got, name)
					}
					for name := range got {
						if strings.HasSuffix(name, ".go") {
							c.Failf("generated module %s has a file %s nobody generated there", m.path, name)
						}
					}
				}
				if d, ok := ws.GetLocalModule(m.path); !ok || filepath.Join(out, d) != m.dir {
					c.Failf("GetLocalModule(%s) = %s, %v; it is at %s", m.path, d, ok, m.dir)
				}
			}
			for _, s := range srcs {
				if fmt.Sprint(readTree(s.dir)) != fmt.Sprint(before[s]) {
					c.Failf("the source of module %s was changed", s.path)
				}
			}
		})
}
