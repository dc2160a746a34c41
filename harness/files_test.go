package cli_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/fstest"
	"time"

	cli "github.com/Carbonfrost/joe-cli"
)

// vfRecFS only records what it is asked.
type vfRecFS struct {
	log    []string
	exists map[string]bool
	fail   error
}

func (r *vfRecFS) rec(f string, a ...any) error {
	r.log = append(r.log, fmt.Sprintf(f, a...))
	return r.fail
}
func (r *vfRecFS) file() fs.File {
	f, _ := fstest.MapFS{"f": &fstest.MapFile{}}.Open("f")
	return f
}
func (r *vfRecFS) Open(n string) (fs.File, error) { return r.file(), r.rec("open %q", n) }
func (r *vfRecFS) Stat(n string) (fs.FileInfo, error) {
	r.rec("stat %q", n)
	if r.exists != nil && !r.exists[n] {
		return nil, &fs.PathError{Op: "stat", Path: n, Err: fs.ErrNotExist}
	}
	return nil, r.fail
}
func (r *vfRecFS) Chmod(n string, m fs.FileMode) error { return r.rec("chmod %q %o", n, m) }
func (r *vfRecFS) Chown(n string, u, g int) error      { return r.rec("chown %q %d %d", n, u, g) }
func (r *vfRecFS) Create(n string) (fs.File, error)    { return r.file(), r.rec("create %q", n) }
func (r *vfRecFS) Mkdir(n string, m fs.FileMode) error { return r.rec("mkdir %q %o", n, m) }
func (r *vfRecFS) MkdirAll(n string, m fs.FileMode) error {
	return r.rec("mkdirall %q %o", n, m)
}
func (r *vfRecFS) OpenFile(n string, flag int, m fs.FileMode) (fs.File, error) {
	return r.file(), r.rec("openfile %q %d %o", n, flag, m)
}
func (r *vfRecFS) Remove(n string) error    { return r.rec("remove %q", n) }
func (r *vfRecFS) RemoveAll(n string) error { return r.rec("removeall %q", n) }
func (r *vfRecFS) Chtimes(n string, a, m time.Time) error {
	return r.rec("chtimes %q %d %d", n, a.Unix(), m.Unix())
}
func (r *vfRecFS) Rename(o, n string) error { return r.rec("rename %q %q", o, n) }
func (r *vfRecFS) OpenContext(_ context.Context, n string) (fs.File, error) {
	return r.file(), r.rec("opencontext %q", n)
}

// vfPlainFS has nothing but Open.
type vfPlainFS struct{ m fstest.MapFS }

func (p vfPlainFS) Open(n string) (fs.File, error) { return p.m.Open(n) }

var vfFileNames = []string{"a", "b", "dir/a", "./a", "../x", "/abs/a", "-a", "a-", "--", "", ".", " ", "- ", "é", "a b", "-/a", "./-"}

func TestVerifC21Names(t *testing.T) {
	v := vfNew(t, "names", "a file value passes its name to its file system unchanged")
	defer v.done()
	boom := errors.New("boom")
	for _, name := range append([]string{"-"}, vfFileNames...) {
		for _, fail := range []error{nil, boom} {
			for _, op := range []struct {
				want string
				do   func(f *cli.File) error
			}{
				{"open %q", func(f *cli.File) error { _, err := f.Open(); return err }},
				{"opencontext %q", func(f *cli.File) error { _, err := f.OpenContext(context.Background()); return err }},
				{"openfile %q 1 600", func(f *cli.File) error { _, err := f.OpenFile(1, 0o600); return err }},
				{"create %q", func(f *cli.File) error { _, err := f.Create(); return err }},
				{"chmod %q 640", func(f *cli.File) error { return f.Chmod(0o640) }},
				{"chown %q 3 4", func(f *cli.File) error { return f.Chown(3, 4) }},
				{"chtimes %q 5 6", func(f *cli.File) error { return f.Chtimes(time.Unix(5, 0), time.Unix(6, 0)) }},
				{"rename %q \"new\"", func(f *cli.File) error { return f.Rename("new") }},
				{"remove %q", func(f *cli.File) error { return f.Remove() }},
				{"removeall %q", func(f *cli.File) error { return f.RemoveAll() }},
				{"mkdir %q 700", func(f *cli.File) error { return f.Mkdir(0o700) }},
				{"mkdirall %q 750", func(f *cli.File) error { return f.MkdirAll(0o750) }},
				{"stat %q", func(f *cli.File) error { _, err := f.Stat(); return err }},
			} {
				v.run(fmt.Sprintf("file %q, %s, failing %v", name, op.want, fail != nil), func() (string, string) {
					r := &vfRecFS{fail: fail}
					f := &cli.File{FS: r}
					if err := f.Set(name); err != nil || f.String() != name || f.Name != name {
						return "name " + name, fmt.Sprint(f, err)
					}
					err := op.do(f)
					want := fmt.Sprintf(op.want, name)
					if got := strings.Join(r.log, "; "); got != want {
						return want, got
					}
					if err != fail {
						return fmt.Sprint(fail), fmt.Sprint(err)
					}
					// through the file system that knows -
					if name == "-" {
						return "", ""
					}
					r.log = nil
					f.FS = cli.NewSysFS(r, strings.NewReader("in"), io.Discard)
					if err := op.do(f); err != fail {
						return fmt.Sprint(fail), fmt.Sprint(err)
					}
					want = strings.Replace(strings.Replace(want, "create ", "openfile ", 1), "open \"", "opencontext \"", 1)
					if strings.HasPrefix(want, "openfile") && strings.HasPrefix(op.want, "create") {
						want += " 578 666"
					}
					if got := strings.Join(r.log, "; "); got != want {
						// opening and creating may reach the underlying system by any of its ways to do so
						w, g := strings.Fields(want)[0], strings.Fields(got + " x")[0]
						if !(strings.HasPrefix(w, "open") && (strings.HasPrefix(g, "open") || g == "create") && len(r.log) == 1 && strings.Contains(got, fmt.Sprintf("%q", name))) {
							return "through NewSysFS: " + want, got
						}
					}
					return "", ""
				})
			}
		}
	}
}

func TestVerifC21Dash(t *testing.T) {
	v := vfNew(t, "dash", "the name - is standard input or output and never touches the file system")
	defer v.done()
	kinds := map[string]func(f fs.File) string{
		"reads": func(f fs.File) string {
			b, _ := io.ReadAll(f)
			return string(b)
		},
		"writes": func(f fs.File) string {
			w, ok := f.(io.Writer)
			if !ok {
				return "not a writer"
			}
			fmt.Fprint(w, "text")
			return ""
		},
	}
	for _, op := range []struct {
		name, kind string
		do         func(f cli.FS) (fs.File, error)
	}{
		{"Open", "reads", func(f cli.FS) (fs.File, error) { return f.Open("-") }},
		{"Open", "writes", func(f cli.FS) (fs.File, error) { return f.Open("-") }},
		{"OpenContext", "reads", func(f cli.FS) (fs.File, error) { return f.OpenContext(context.Background(), "-") }},
		{"OpenContext", "writes", func(f cli.FS) (fs.File, error) { return f.OpenContext(context.Background(), "-") }},
		{"Create", "writes", func(f cli.FS) (fs.File, error) { return f.Create("-") }},
		{"OpenFile read-only", "reads", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_RDONLY, 0) }},
		{"OpenFile read-only truncate", "reads", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_RDONLY|os.O_TRUNC, 0) }},
		{"OpenFile write-only", "writes", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_WRONLY, 0) }},
		{"OpenFile write-only create", "writes", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0o600) }},
		{"OpenFile append", "writes", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_RDWR|os.O_APPEND, 0) }},
		{"OpenFile create", "writes", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_RDWR|os.O_CREATE, 0) }},
		{"OpenFile create excl", "writes", func(f cli.FS) (fs.File, error) { return f.OpenFile("-", os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0) }},
	} {
		for _, how := range []string{"NewSysFS", "File", "app"} {
			v.run(op.name+" "+op.kind+" "+how, func() (string, string) {
				var out bytes.Buffer
				r := &vfRecFS{}
				sys := cli.NewSysFS(r, strings.NewReader("input"), &out)
				var f fs.File
				var err error
				switch how {
				case "NewSysFS":
					f, err = op.do(sys)
				case "File":
					if op.name != "Open" && op.name != "Create" {
						return "", ""
					}
					x := &cli.File{Name: "-", FS: sys}
					if op.name == "Open" {
						f, err = x.Open()
					} else {
						f, err = x.Create()
					}
				default:
					// with the app's own streams
					app := &cli.App{Name: "app", Stdin: strings.NewReader("input"), Stdout: &out,
						Args:   []*cli.Arg{{Name: "f", Value: new(cli.File)}},
						Action: func(c *cli.Context) { f, err = op.do(c.File("f").FS.(cli.FS)) }}
					if e := app.RunContext(context.Background(), []string{"app", "-"}); e != nil {
						return "no error", e.Error()
					}
				}
				if err != nil || f == nil {
					return "a file", fmt.Sprint(f, err)
				}
				got := kinds[op.kind](f)
				if len(r.log) > 0 {
					return "the file system is not touched", strings.Join(r.log, "; ")
				}
				if op.kind == "reads" && got != "input" {
					return "reads input", got
				}
				if op.kind == "writes" && out.String() != "text" {
					return "writes text", got + out.String()
				}
				return "", ""
			})
		}
	}
	v.run("Stat -", func() (string, string) {
		r := &vfRecFS{exists: map[string]bool{}}
		f := &cli.File{Name: "-", FS: cli.NewSysFS(r, os.Stdin, io.Discard)}
		if !f.Exists() || len(r.log) > 0 {
			return "exists, the file system is not touched", fmt.Sprint(f.Exists(), r.log)
		}
		return "", ""
	})
}

func TestVerifC21Rooted(t *testing.T) {
	v := vfNew(t, "rooted", "a rooted file system resolves a relative name to its root joined with the name")
	defer v.done()
	scratch := t.TempDir()
	cwd := filepath.Join(scratch, "cwd")
	root := filepath.Join(scratch, "root")
	for _, d := range []string{cwd, root, filepath.Join(root, "sub", "deep"), filepath.Join(scratch, "other")} {
		if err := os.MkdirAll(d, 0o755); err != nil {
			t.Fatal(err)
		}
	}
	for _, f := range []string{"root/a", "root/-", "root/sub/b", "root/sub/deep/c", "other/x", "cwd/a", "cwd/b", "cwd/sub"} {
		os.WriteFile(filepath.Join(scratch, f), []byte(f), 0o644)
	}
	t.Chdir(cwd)
	read := func(f fs.File, err error) string {
		if err != nil {
			return "error"
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		if err != nil {
			return "unreadable"
		}
		return string(b)
	}
	names := []string{"a", "b", "-", "sub/b", "sub/deep/c", "./a", "sub/../a", "../other/x", "sub", "", ".", "nosuch", "a/", filepath.Join(scratch, "other", "x"), filepath.Join(root, "a"), "sub//b"}
	for _, sub := range []string{"", ".", "sub", "sub/deep", filepath.Join(scratch, "other")} {
		for _, name := range names {
			v.run(fmt.Sprintf("sub %q name %q", sub, name), func() (string, string) {
				d := cli.DirFS(root)
				base := root
				if sub != "" {
					s, err := d.(fs.SubFS).Sub(sub)
					if err != nil {
						return "a sub file system", err.Error()
					}
					d = s.(cli.FS)
					base = filepath.Join(root, sub)
					if filepath.IsAbs(sub) {
						base = sub
					}
				}
				full := path.Join(base, name)
				if filepath.IsAbs(name) {
					full = name
				}
				wf, werr := os.Open(full)
				want := read(wf, werr)
				for how, got := range map[string]string{
					"Open":        read(d.Open(name)),
					"OpenContext": read(d.OpenContext(context.Background(), name)),
					"OpenFile":    read(d.OpenFile(name, os.O_RDONLY, 0)),
				} {
					if got != want {
						return how + " " + want, got
					}
				}
				wi, werr := os.Stat(full)
				gi, gerr := d.Stat(name)
				if (werr == nil) != (gerr == nil) || werr == nil && !os.SameFile(wi, gi) {
					return fmt.Sprint("Stat ", full, werr), fmt.Sprint(gerr)
				}
				if werr != nil && (&cli.File{Name: name, FS: d}).Exists() != !errors.Is(werr, fs.ErrNotExist) {
					return "does not exist", "exists"
				}
				return "", ""
			})
		}
	}
	at := func(p string) string {
		b, err := os.ReadFile(filepath.Join(root, p))
		if err != nil {
			return "missing"
		}
		return string(b)
	}
	for i, name := range []string{"n1", "sub/n2", "sub/deep/n3", "-n4", "./n5"} {
		v.run("change "+name, func() (string, string) {
			d := cli.DirFS(root)
			f, err := d.Create(name)
			if err != nil {
				return "created", err.Error()
			}
			fmt.Fprint(f.(io.Writer), i)
			f.Close()
			if at(name) != fmt.Sprint(i) {
				return "written below the root", at(name)
			}
			if err := d.Chmod(name, 0o600); err != nil {
				return "mode", err.Error()
			}
			if s, _ := os.Stat(filepath.Join(root, name)); s == nil || s.Mode().Perm() != 0o600 {
				return "mode 600", "another"
			}
			if err := d.Rename(name, name+"x"); err != nil || at(name+"x") != fmt.Sprint(i) || at(name) != "missing" {
				return "renamed", fmt.Sprint(err, at(name+"x"), at(name))
			}
			if err := d.Remove(name + "x"); err != nil || at(name+"x") != "missing" {
				return "removed", fmt.Sprint(err, at(name+"x"))
			}
			if err := d.Mkdir(name+"d", 0o700); err != nil {
				return "directory", err.Error()
			}
			if s, err := os.Stat(filepath.Join(root, name+"d")); err != nil || !s.IsDir() {
				return "directory below the root", fmt.Sprint(err)
			}
			return "", ""
		})
	}
}

func TestVerifC21Sets(t *testing.T) {
	v := vfNew(t, "filesets", "a file set holds the paths in order, walks each once up to the first error, and exists when each file does")
	defer v.done()
	for i, n := 0, v.n(2500, 40000); i < n && !v.timeUp(); i++ {
		var names []string
		for k := v.r.Intn(7); k > 0; k-- {
			names = append(names, vfPick(v.r, vfFileNames[:8]))
		}
		exists := map[string]bool{}
		for _, n := range names {
			if v.r.Intn(4) > 0 {
				exists[n] = true
			}
		}
		failing := v.r.Intn(len(names) + 2)
		v.run(fmt.Sprintf("files %q, exist %v, failing at %d", names, exists, failing), func() (string, string) {
			r := &vfRecFS{exists: exists}
			s := &cli.FileSet{FS: r}
			for _, n := range names {
				if err := s.Set(n); err != nil {
					return "set", err.Error()
				}
			}
			if got := fmt.Sprintf("%q", s.Files); got != fmt.Sprintf("%q", names) && len(names) > 0 {
				return fmt.Sprintf("%q", names), got
			}
			want := true
			for _, n := range names {
				want = want && exists[n]
			}
			if s.Exists() != want {
				return fmt.Sprint("exists ", want), fmt.Sprint(!want)
			}
			boom := errors.New("boom")
			var seen []string
			err := s.Do(func(f *cli.File, err error) error {
				seen = append(seen, f.Name)
				if f.FS != cli.FS(r) {
					return errors.New("another file system")
				}
				if len(seen)-1 == failing {
					return boom
				}
				return err
			})
			wn := names
			var werr error
			if failing < len(names) {
				wn, werr = names[:failing+1], boom
			}
			if fmt.Sprintf("%q", seen) != fmt.Sprintf("%q", wn) || err != werr {
				return fmt.Sprintf("visits %q, error %v", wn, werr), fmt.Sprintf("%q %v", seen, err)
			}
			seen = nil
			for f, err := range s.All() {
				if err != nil {
					return "no error", err.Error()
				}
				seen = append(seen, f.Name)
				if len(seen)-1 == failing {
					break
				}
			}
			if fmt.Sprintf("%q", seen) != fmt.Sprintf("%q", wn) {
				return fmt.Sprintf("all visits %q", wn), fmt.Sprintf("%q", seen)
			}
			s.Reset()
			if len(s.Files) != 0 || !s.Exists() || s.Do(func(*cli.File, error) error { return boom }) != nil {
				return "empty after Reset", fmt.Sprint(s.Files)
			}
			s.Set("z")
			if len(s.Files) != 1 || s.Files[0] != "z" {
				return "[z]", fmt.Sprint(s.Files)
			}
			return "", ""
		})
	}
	// recursion over a tree, in any file system
	for i, n := 0, v.n(600, 10000); i < n && !v.timeUp(); i++ {
		m := fstest.MapFS{}
		for k := 1 + v.r.Intn(6); k > 0; k-- {
			p := vfPick(v.r, []string{"x", "y"})
			for d := v.r.Intn(3); d > 0; d-- {
				p += "/" + vfPick(v.r, []string{"a", "b"})
			}
			m[p+"/f"+fmt.Sprint(v.r.Intn(3))] = &fstest.MapFile{}
		}
		var all []string
		fs.WalkDir(m, ".", func(p string, _ fs.DirEntry, _ error) error { all = append(all, p); return nil })
		var names []string
		for k := 1 + v.r.Intn(3); k > 0; k-- {
			names = append(names, vfPick(v.r, append(all, "nosuch")))
		}
		plain := v.r.Intn(2) == 0
		failing := v.r.Intn(len(all) * 2)
		v.run(fmt.Sprintf("tree %v, files %q, plain %v, failing %d", all, names, plain, failing), func() (string, string) {
			var want []string
			full := true
			for _, n := range names {
				if n == "nosuch" {
					want = append(want, "nosuch!")
					full = false
					continue
				}
				fs.WalkDir(m, n, func(p string, _ fs.DirEntry, _ error) error { want = append(want, p); return nil })
			}
			boom := errors.New("boom")
			var werr error
			if failing < len(want) {
				want, werr = want[:failing+1], boom
			}
			s := &cli.FileSet{Recursive: true, FS: m, Files: names}
			if plain {
				s.FS = vfPlainFS{m}
			}
			if s.Exists() != full {
				return fmt.Sprint("exists ", full), fmt.Sprint(!full)
			}
			var seen []string
			err := s.Do(func(f *cli.File, err error) error {
				x := f.Name
				if err != nil {
					x += "!"
				}
				seen = append(seen, x)
				if len(seen)-1 == failing {
					return boom
				}
				return nil
			})
			if fmt.Sprintf("%q", seen) != fmt.Sprintf("%q", want) || err != werr {
				return fmt.Sprintf("visits %q, error %v", want, werr), fmt.Sprintf("%q %v", seen, err)
			}
			seen = nil
			for f, err := range s.All() {
				x := f.Name
				if err != nil {
					x += "!"
				}
				seen = append(seen, x)
				if len(seen)-1 == failing {
					break
				}
			}
			if fmt.Sprintf("%q", seen) != fmt.Sprintf("%q", want) {
				return fmt.Sprintf("all visits %q", want), fmt.Sprintf("%q", seen)
			}
			return "", ""
		})
	}
	// reading the set from data
	for i, n := 0, v.n(1500, 20000); i < n && !v.timeUp(); i++ {
		var lines, want []string
		for k := v.r.Intn(6); k > 0; k-- {
			l := vfPick(v.r, []string{"a", "b c", "#x", ";y", "", "  ", "-", "a#b", "d;e", "../f"})
			if l != "" && strings.TrimSpace(l) != "" && l[0] != '#' && l[0] != ';' {
				want = append(want, l)
			}
			lines = append(lines, vfPick(v.r, []string{"", " ", "\t"})+l+vfPick(v.r, []string{"", " "}))
		}
		text := strings.Join(lines, vfPick(v.r, []string{"\n", "\r\n"}))
		if v.r.Intn(2) == 0 {
			text += "\n"
		}
		v.run(fmt.Sprintf("data %q", text), func() (string, string) {
			s := &cli.FileSet{Files: []string{"first"}}
			if err := s.SetData(strings.NewReader(text)); err != nil {
				return "no error", err.Error()
			}
			w := append([]string{"first"}, want...)
			if fmt.Sprintf("%q", s.Files) != fmt.Sprintf("%q", w) {
				return fmt.Sprintf("%q", w), fmt.Sprintf("%q", s.Files)
			}
			return "", ""
		})
	}
	_ = sort.Strings
}

// vfPart only opens; each of the types below can do one thing more.
type vfPart struct{ r *vfRecFS }

func (p vfPart) Open(n string) (fs.File, error) { return p.r.Open(n) }

type (
	vfPChmod     struct{ vfPart }
	vfPChown     struct{ vfPart }
	vfPCreate    struct{ vfPart }
	vfPMkdir     struct{ vfPart }
	vfPMkdirAll  struct{ vfPart }
	vfPOpenFile  struct{ vfPart }
	vfPRemove    struct{ vfPart }
	vfPRemoveAll struct{ vfPart }
	vfPChtimes   struct{ vfPart }
	vfPRename    struct{ vfPart }
)

func (p vfPChmod) Chmod(n string, m fs.FileMode) error       { return p.r.Chmod(n, m) }
func (p vfPChown) Chown(n string, u, g int) error            { return p.r.Chown(n, u, g) }
func (p vfPCreate) Create(n string) (fs.File, error)         { return p.r.Create(n) }
func (p vfPMkdir) Mkdir(n string, m fs.FileMode) error       { return p.r.Mkdir(n, m) }
func (p vfPMkdirAll) MkdirAll(n string, m fs.FileMode) error { return p.r.MkdirAll(n, m) }
func (p vfPOpenFile) OpenFile(n string, f int, m fs.FileMode) (fs.File, error) {
	return p.r.OpenFile(n, f, m)
}
func (p vfPRemove) Remove(n string) error                   { return p.r.Remove(n) }
func (p vfPRemoveAll) RemoveAll(n string) error             { return p.r.RemoveAll(n) }
func (p vfPChtimes) Chtimes(n string, a, m time.Time) error { return p.r.Chtimes(n, a, m) }
func (p vfPRename) Rename(o, n string) error                { return p.r.Rename(o, n) }

func TestVerifC21Partial(t *testing.T) {
	v := vfNew(t, "partial", "an operation reaches a file system that has it, with the same arguments, and is an error on one that does not")
	defer v.done()
	boom := errors.New("boom")
	systems := []struct {
		has string
		new func(p vfPart) fs.FS
	}{
		{"", func(p vfPart) fs.FS { return p }},
		{"chmod", func(p vfPart) fs.FS { return vfPChmod{p} }},
		{"chown", func(p vfPart) fs.FS { return vfPChown{p} }},
		{"create", func(p vfPart) fs.FS { return vfPCreate{p} }},
		{"mkdir", func(p vfPart) fs.FS { return vfPMkdir{p} }},
		{"mkdirall", func(p vfPart) fs.FS { return vfPMkdirAll{p} }},
		{"openfile", func(p vfPart) fs.FS { return vfPOpenFile{p} }},
		{"remove", func(p vfPart) fs.FS { return vfPRemove{p} }},
		{"removeall", func(p vfPart) fs.FS { return vfPRemoveAll{p} }},
		{"chtimes", func(p vfPart) fs.FS { return vfPChtimes{p} }},
		{"rename", func(p vfPart) fs.FS { return vfPRename{p} }},
	}
	for _, sys := range systems {
		for _, name := range []string{"a", "d/a", "", ".", "/a", "-", "é"} {
			for _, k := range []int{0, 1, 2, 3} {
				u, g := []int{0, 0, 7, -1}[k], []int{0, 3, 0, -1}[k]
				m := []fs.FileMode{0, 0o640, 0o777, 0o1}[k]
				at, mt := time.Unix([]int64{0, 5, 0, -9}[k], 0), time.Unix([]int64{0, 0, 6, 1 << 33}[k], 0)
				to := []string{"new", "", name, "x/y"}[k]
				flag := []int{0, os.O_WRONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE | os.O_EXCL}[k]
				ops := []struct {
					op, want string
					do       func(f *cli.File) error
				}{
					{"chmod", fmt.Sprintf("chmod %q %o", name, m), func(f *cli.File) error { return f.Chmod(m) }},
					{"chown", fmt.Sprintf("chown %q %d %d", name, u, g), func(f *cli.File) error { return f.Chown(u, g) }},
					{"create", fmt.Sprintf("create %q", name), func(f *cli.File) error { _, err := f.Create(); return err }},
					{"mkdir", fmt.Sprintf("mkdir %q %o", name, m), func(f *cli.File) error { return f.Mkdir(m) }},
					{"mkdirall", fmt.Sprintf("mkdirall %q %o", name, m), func(f *cli.File) error { return f.MkdirAll(m) }},
					{"openfile", fmt.Sprintf("openfile %q %d %o", name, flag, m), func(f *cli.File) error { _, err := f.OpenFile(flag, m); return err }},
					{"remove", fmt.Sprintf("remove %q", name), func(f *cli.File) error { return f.Remove() }},
					{"removeall", fmt.Sprintf("removeall %q", name), func(f *cli.File) error { return f.RemoveAll() }},
					{"chtimes", fmt.Sprintf("chtimes %q %d %d", name, at.Unix(), mt.Unix()), func(f *cli.File) error { return f.Chtimes(at, mt) }},
					{"rename", fmt.Sprintf("rename %q %q", name, to), func(f *cli.File) error { return f.Rename(to) }},
				}
				for _, o := range ops {
					for _, fail := range []error{nil, boom} {
						v.run(fmt.Sprintf("file system with %q, %s, failing %v", sys.has, o.want, fail != nil), func() (string, string) {
							r := &vfRecFS{fail: fail}
							f := &cli.File{FS: sys.new(vfPart{r}), Name: name}
							err := o.do(f)
							got := strings.Join(r.log, "; ")
							switch {
							case o.op == sys.has:
								if got != o.want || err != fail {
									return o.want + fmt.Sprint(" ", fail), got + fmt.Sprint(" ", err)
								}
							case o.op == "create" && sys.has == "openfile":
								want := fmt.Sprintf("openfile %q %d 666", name, os.O_RDWR|os.O_CREATE|os.O_TRUNC)
								if got != want || err != fail {
									return want + fmt.Sprint(" ", fail), got + fmt.Sprint(" ", err)
								}
							default:
								var pe *fs.PathError
								if got != "" || !errors.As(err, &pe) || pe.Path != name {
									return "an error about " + name + ", nothing done", got + fmt.Sprint(" ", err)
								}
							}
							return "", ""
						})
					}
				}
			}
		}
	}
}
