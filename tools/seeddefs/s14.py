from s1 import demo
OS = ['path/filepath']
SEEDS = [
 dict(id="C21-rename-target", prop="C21", file="file.go",
  old='''	new, err := d.path(newpath)
	if err != nil {
		return err
	}
	return os.Rename(old, new)''',
  new='''	return os.Rename(old, path.Join(path.Dir(old), newpath))''',
  needs="renaming a file that is in a subdirectory of a rooted file system",
  breaks="the new path is resolved against the old file's directory instead of the root of the file system",
  demo=demo('''	dir, _ := os.MkdirTemp("", "vf")
	defer os.RemoveAll(dir)
	os.MkdirAll(filepath.Join(dir, "a"), 0o755)
	os.WriteFile(filepath.Join(dir, "a", "x"), nil, 0o644)
	f := &cli.File{FS: cli.DirFS(dir), Name: "a/x"}
	_ = f
	if err := f.Rename("b"); err != nil {
		fail("%v", err)
	}
	if _, err := os.Stat(filepath.Join(dir, "b")); err != nil {
		fail("%v", err)
	}''', OS)),
 dict(id="C21-recursive-stop", prop="C21", file="file.go",
  old='''			if err != nil {
				return err
			}
		}
		return nil
	}

	for _, file := range f.Files {''',
  new='''			if err != nil && err != errStopWalk {
				return err
			}
		}
		return nil
	}

	for _, file := range f.Files {''',
  needs="a recursive file set with several files and an iteration over All that breaks early",
  breaks="the iteration goes on to the next named file after the loop body has stopped it (range function continued)",
  demo=demo('''	dir, _ := os.MkdirTemp("", "vf")
	defer os.RemoveAll(dir)
	os.WriteFile(filepath.Join(dir, "a"), nil, 0o644)
	os.WriteFile(filepath.Join(dir, "b"), nil, 0o644)
	fs := &cli.FileSet{FS: cli.DirFS(dir), Recursive: true, Files: []string{"a", "b"}}
	n := 0
	defer func() {
		if r := recover(); r != nil {
			fail("panic %v", r)
		}
	}()
	for range fs.All() {
		n++
		break
	}
	if n != 1 {
		fail("%d", n)
	}''', OS)),
 dict(id="C21-dash-append", prop="C21", file="file.go",
  old='if (flag & (os.O_APPEND | os.O_CREATE)) > 0 {', new='if flag&os.O_CREATE > 0 {',
  needs="opening - for reading and writing with O_APPEND but without O_CREATE",
  breaks="an error in place of the standard output",
  demo=demo('''	f := &cli.File{FS: cli.NewSysFS(cli.DirFS("."), os.Stdin, os.Stdout), Name: "-"}
	_ = filepath.Base
	if _, err := f.OpenFile(os.O_RDWR|os.O_APPEND, 0o644); err != nil {
		fail("%v", err)
	}''', OS)),
 dict(id="C21-chown-gid", prop="C21", file="file.go",
  old='''	}); ok {
		return s.Chown(name, uid, gid)''',
  new='''	}); ok && uid != 0 {
		return s.Chown(name, uid, gid)''',
  needs="a user's own file system (not the default), chown to root",
  breaks="changing the owner to user 0 is refused as not supported though the file system supports it",
  demo=demo('''	m := &mfs{}
	f := &cli.File{FS: m, Name: "x"}
	if err := f.Chown(0, 3); err != nil || m.s != "x 0 3" {
		fail("%v %q", err, m.s)
	}
}

type mfs struct{ s string }

func (m *mfs) Open(n string) (fs.File, error) { return nil, fs.ErrNotExist }
func (m *mfs) Chown(n string, u, g int) error {
	m.s = fmt.Sprint(n, " ", u, " ", g)
	return nil''', ['io/fs'])),
]
