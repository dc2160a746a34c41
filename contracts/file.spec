// ---- C21: file values resolve inside their file system and honour - --------------------------------

// what was asked of the operating system: how many calls, the last one's name and path(s)
ghost osN int
ghost osOp string
ghost osPath string
ghost osPath2 string
ghost osErr error

pkg path
smtfun pathJoined(string, string) string
assume Join(elem) (r)
  why documented behaviour of the standard library: a function of the two parts
  requires len(elem) == 2
  ensures r == pathJoined(elem[0], elem[1])

pkg os
assume Stat(name) (i, err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "stat"
  effect osPath = name
  effect osErr = err
assume Open(name) (f, err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "open"
  effect osPath = name
  effect osErr = err
assume Create(name) (f, err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "create"
  effect osPath = name
  effect osErr = err
assume OpenFile(name, flag, perm) (f, err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "openfile"
  effect osPath = name
  effect osErr = err
assume Chmod(name, mode) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "chmod"
  effect osPath = name
  effect osErr = err
assume Chtimes(name, atime, mtime) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "chtimes"
  effect osPath = name
  effect osErr = err
assume Chown(name, uid, gid) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "chown"
  effect osPath = name
  effect osErr = err
assume Rename(oldpath, newpath) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "rename"
  effect osPath = oldpath
  effect osPath2 = newpath
  effect osErr = err
assume Remove(name) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "remove"
  effect osPath = name
  effect osErr = err
assume RemoveAll(name) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "removeall"
  effect osPath = name
  effect osErr = err
assume Mkdir(name, perm) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "mkdir"
  effect osPath = name
  effect osErr = err
assume MkdirAll(name, perm) (err)
  why the operating system: which call is made, and on which path, is what counts
  effect osN = old(osN) + 1
  effect osOp = "mkdirall"
  effect osPath = name
  effect osErr = err

pkg .

define rooted(d string, name string) string = if prefixof("/", name) :: name else pathJoined(d, name)
define asked(n int, op string, p string) bool = osN == n + 1 && osOp == op && osPath == p

func (d dirFS) path(name) (r, err)
  props C21
  nopanic
  pure
  ensures [rooted] err == nil && r == rooted(d, name)

assume wrapContextFile(ctx, f) (r)
  why wraps an open file to observe the context; opens nothing
  ensures r != nil

func (d dirFS) Stat(name) (i, err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "stat", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Open(name) (f, err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "open", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Create(name) (f, err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "create", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Chmod(name, mode) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "chmod", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Chtimes(name, atime, mtime) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "chtimes", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Chown(name, uid, gid) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "chown", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Remove(name) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "remove", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) RemoveAll(name) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "removeall", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Mkdir(name, mode) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "mkdir", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) MkdirAll(name, mode) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "mkdirall", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) OpenFile(name, flag, perm) (f, err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "openfile", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) OpenContext(c, name) (f, err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osErr
  ensures [path] asked(old(osN), "open", rooted(d, name))
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Rename(oldpath, newpath) (err)
  props C21
  modifies ghost osN, ghost osOp, ghost osPath, ghost osPath2, ghost osErr
  ensures [path] asked(old(osN), "rename", rooted(d, oldpath)) && osPath2 == rooted(d, newpath)
  ensures [result] (err == nil) <==> (osErr == nil)

func (d dirFS) Sub(name) (r, err)
  props C21
  ensures [sub] err == nil && typeis(r, dirFS) && unbox(r, dirFS) == (if name == "." :: d else rooted(d, name))

// ---- the name - -----------------------------------------------------------------------------------
// what was asked of an underlying file system
ghost fsN int
ghost fsOp string
ghost fsName string
ghost fsSelf any
ghost fsX int
ghost fsY int
ghost fsS string
ghost fsT time.Time
ghost fsU time.Time

define inOf(s *stdFile) fs.File = if typeis(s.in, *os.File) :: s.in else box(s)
define outOf(s *stdFile) fs.File = if typeis(s.out, *os.File) :: s.out else box(s)
define dash(d defaultFS, name string) bool = name == "-" && d.std != nil

assume FS.Stat(self, name) (i, err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Stat"
  effect fsName = name
  effect fsSelf = self
  ensures err == statErr(self, name)

assume FS.OpenFile(self, name, flag, perm) (f, err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "OpenFile"
  effect fsName = name
  effect fsSelf = self
  effect fsX = flag
  effect fsY = perm

assume FS.OpenContext(self, c, name) (f, err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "OpenContext"
  effect fsName = name
  effect fsSelf = self

assume FS.Open(self, name) (f, err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Open"
  effect fsName = name
  effect fsSelf = self

assume FS.Create(self, name) (f, err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Create"
  effect fsName = name
  effect fsSelf = self

assume FS.Chmod(self, name, mode) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Chmod"
  effect fsName = name
  effect fsSelf = self
  effect fsX = mode

assume FS.Chown(self, name, uid, gid) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Chown"
  effect fsName = name
  effect fsSelf = self
  effect fsX = uid
  effect fsY = gid

assume FS.Chtimes(self, name, atime, mtime) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Chtimes"
  effect fsName = name
  effect fsSelf = self
  effect fsT = atime
  effect fsU = mtime

assume FS.Rename(self, name, newpath) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Rename"
  effect fsName = name
  effect fsSelf = self
  effect fsS = newpath

assume FS.Remove(self, name) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Remove"
  effect fsName = name
  effect fsSelf = self

assume FS.RemoveAll(self, name) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "RemoveAll"
  effect fsName = name
  effect fsSelf = self

assume FS.Mkdir(self, name, mode) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Mkdir"
  effect fsName = name
  effect fsSelf = self
  effect fsX = mode

assume FS.MkdirAll(self, name, mode) (err)
  why the underlying file system: which call is made, and on which name, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "MkdirAll"
  effect fsName = name
  effect fsSelf = self
  effect fsX = mode

func (d defaultFS) Open(name) (f, err)
  props C21
  requires d.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [dash] dash(d, name) && true ==> fsN == old(fsN)
  ensures [other] !dash(d, name) ==> fsN == old(fsN) + 1 && fsOp == "OpenContext" && fsName == name && fsSelf == d.FS
  ensures [std] dash(d, name) ==> err == nil && typeis(f, *stdFile) && unbox(f, *stdFile) == d.std

func (d defaultFS) OpenContext(c, name) (f, err)
  props C21
  requires d.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [dash] dash(d, name) && true ==> fsN == old(fsN)
  ensures [other] !dash(d, name) ==> fsN == old(fsN) + 1 && fsOp == "OpenContext" && fsName == name && fsSelf == d.FS
  ensures [std] dash(d, name) ==> err == nil && typeis(f, *stdFile) && unbox(f, *stdFile) == d.std

func (d defaultFS) Stat(name) (i, err)
  props C21
  requires d.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [dash] dash(d, name) && true ==> fsN == old(fsN)
  ensures [other] !dash(d, name) ==> fsN == old(fsN) + 1 && fsOp == "Stat" && fsName == name && fsSelf == d.FS

func (d defaultFS) OpenFile(name, flag, perm) (f, err)
  props C21
  requires d.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [dash] dash(d, name) && flag & 3 != 3 ==> fsN == old(fsN)
  ensures [in] dash(d, name) && flag & 3 == 0 ==> err == nil && f == inOf(d.std)
  ensures [out] dash(d, name) && flag & 3 == 1 ==> err == nil && f == outOf(d.std)
  ensures [append] dash(d, name) && flag & 3 == 2 ==> (if flag & 1088 > 0 :: err == nil && f == outOf(d.std) else err != nil)
  ensures [other] !dash(d, name) ==> fsN == old(fsN) + 1 && fsOp == "OpenFile" && fsName == name && fsSelf == d.FS && fsX == flag && fsY == perm

func (d defaultFS) Create(name) (f, err)
  props C21
  requires d.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [dash] dash(d, name) ==> fsN == old(fsN)
  ensures [other] !dash(d, name) ==> fsN == old(fsN) + 1 && fsOp == "OpenFile" && fsName == name && fsSelf == d.FS
  ensures [out] dash(d, name) ==> err == nil && f == outOf(d.std)

pkg io/fs
assume FS.Open(self, name) (f, err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Open"
  effect fsName = name
  effect fsSelf = self

pkg .
// ---- file systems that can do some of it ---------------------------------------------------------
type CanCreate = interface{ Create(string) (fs.File, error) }
assume CanCreate.Create(self, name) (f, err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Create"
  effect fsName = name
  effect fsSelf = self

func (w fsExtensionWrapper) Create(name) (f, err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanCreate) ==> fsN == old(fsN) + 1 && fsOp == "Create" && fsName == name && fsSelf == w.FS
  ensures [falls-back] !implements(w.FS, CanCreate) && implements(w.FS, CanOpenFile) ==> fsN == old(fsN) + 1 && fsOp == "OpenFile" && fsName == name && fsSelf == w.FS && fsX == 578 && fsY == 438
  ensures [refused] !implements(w.FS, CanCreate) && !implements(w.FS, CanOpenFile) ==> fsN == old(fsN) && err != nil

type CanChmod = interface{ Chmod(string, fs.FileMode) error }
assume CanChmod.Chmod(self, name, mode) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Chmod"
  effect fsName = name
  effect fsSelf = self
  effect fsX = mode

func (w fsExtensionWrapper) Chmod(name, mode) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanChmod) ==> fsN == old(fsN) + 1 && fsOp == "Chmod" && fsName == name && fsSelf == w.FS && fsX == mode
  ensures [refused] !implements(w.FS, CanChmod) ==> fsN == old(fsN) && err != nil

type CanChown = interface{ Chown(string, int, int) error }
assume CanChown.Chown(self, name, uid, gid) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Chown"
  effect fsName = name
  effect fsSelf = self
  effect fsX = uid
  effect fsY = gid

func (w fsExtensionWrapper) Chown(name, uid, gid) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanChown) ==> fsN == old(fsN) + 1 && fsOp == "Chown" && fsName == name && fsSelf == w.FS && fsX == uid && fsY == gid
  ensures [refused] !implements(w.FS, CanChown) ==> fsN == old(fsN) && err != nil

type CanChtimes = interface{ Chtimes(string, time.Time, time.Time) error }
assume CanChtimes.Chtimes(self, name, atime, mtime) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Chtimes"
  effect fsName = name
  effect fsSelf = self
  effect fsT = atime
  effect fsU = mtime

func (w fsExtensionWrapper) Chtimes(name, atime, mtime) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanChtimes) ==> fsN == old(fsN) + 1 && fsOp == "Chtimes" && fsName == name && fsSelf == w.FS && fsT == atime && fsU == mtime
  ensures [refused] !implements(w.FS, CanChtimes) ==> fsN == old(fsN) && err != nil

type CanRename = interface{ Rename(string, string) error }
assume CanRename.Rename(self, name, newpath) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Rename"
  effect fsName = name
  effect fsSelf = self
  effect fsS = newpath

func (w fsExtensionWrapper) Rename(name, newpath) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanRename) ==> fsN == old(fsN) + 1 && fsOp == "Rename" && fsName == name && fsSelf == w.FS && fsS == newpath
  ensures [refused] !implements(w.FS, CanRename) ==> fsN == old(fsN) && err != nil

type CanRemove = interface{ Remove(string) error }
assume CanRemove.Remove(self, name) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Remove"
  effect fsName = name
  effect fsSelf = self

func (w fsExtensionWrapper) Remove(name) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanRemove) ==> fsN == old(fsN) + 1 && fsOp == "Remove" && fsName == name && fsSelf == w.FS
  ensures [refused] !implements(w.FS, CanRemove) ==> fsN == old(fsN) && err != nil

type CanRemoveAll = interface{ RemoveAll(string) error }
assume CanRemoveAll.RemoveAll(self, name) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "RemoveAll"
  effect fsName = name
  effect fsSelf = self

func (w fsExtensionWrapper) RemoveAll(name) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanRemoveAll) ==> fsN == old(fsN) + 1 && fsOp == "RemoveAll" && fsName == name && fsSelf == w.FS
  ensures [refused] !implements(w.FS, CanRemoveAll) ==> fsN == old(fsN) && err != nil

type CanMkdir = interface{ Mkdir(string, fs.FileMode) error }
assume CanMkdir.Mkdir(self, name, mode) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "Mkdir"
  effect fsName = name
  effect fsSelf = self
  effect fsX = mode

func (w fsExtensionWrapper) Mkdir(name, mode) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanMkdir) ==> fsN == old(fsN) + 1 && fsOp == "Mkdir" && fsName == name && fsSelf == w.FS && fsX == mode
  ensures [refused] !implements(w.FS, CanMkdir) ==> fsN == old(fsN) && err != nil

type CanMkdirAll = interface{ MkdirAll(string, fs.FileMode) error }
assume CanMkdirAll.MkdirAll(self, name, mode) (err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "MkdirAll"
  effect fsName = name
  effect fsSelf = self
  effect fsX = mode

func (w fsExtensionWrapper) MkdirAll(name, mode) (err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanMkdirAll) ==> fsN == old(fsN) + 1 && fsOp == "MkdirAll" && fsName == name && fsSelf == w.FS && fsX == mode
  ensures [refused] !implements(w.FS, CanMkdirAll) ==> fsN == old(fsN) && err != nil

type CanOpenFile = interface{ OpenFile(string, int, fs.FileMode) (fs.File, error) }
assume CanOpenFile.OpenFile(self, name, flag, perm) (f, err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "OpenFile"
  effect fsName = name
  effect fsSelf = self
  effect fsX = flag
  effect fsY = perm

func (w fsExtensionWrapper) OpenFile(name, flag, perm) (f, err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanOpenFile) ==> fsN == old(fsN) + 1 && fsOp == "OpenFile" && fsName == name && fsSelf == w.FS && fsX == flag && fsY == perm
  ensures [refused] !implements(w.FS, CanOpenFile) ==> fsN == old(fsN) && err != nil

type CanOpenContext = interface{ OpenContext(context.Context, string) (fs.File, error) }
assume CanOpenContext.OpenContext(self, c, name) (f, err)
  why the underlying file system: which call is made, and with which arguments, is what counts
  effect fsN = old(fsN) + 1
  effect fsOp = "OpenContext"
  effect fsName = name
  effect fsSelf = self

func (w fsExtensionWrapper) OpenContext(c, name) (f, err)
  props C21
  requires w.FS != nil
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] implements(w.FS, CanOpenContext) ==> fsN == old(fsN) + 1 && fsOp == "OpenContext" && fsName == name && fsSelf == w.FS
  ensures [opens] !implements(w.FS, CanOpenContext) ==> fsN == old(fsN) + 1 && fsOp == "Open" && fsName == name && fsSelf == w.FS

// ---- the values ---------------------------------------------------------------------------------
define given(f *File) bool = f != nil && implements(f.FS, FS)

func wrapFS(f) (r)
  props C21
  pure
  ensures [same] implements(f, FS) ==> r == f
  ensures [wrapped] f != nil && !implements(f, FS) ==> typeis(r, fsExtensionWrapper)

func (f *File) Set(arg) (err)
  props C21
  requires f != nil
  modifies f.Name
  nopanic
  ensures err == nil && f.Name == arg

func (f *File) Stat() (i, err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Stat" && fsName == f.Name && fsSelf == f.FS
  ensures [result] err == statErr(f.FS, f.Name)

func (f *File) OpenFile(flag, perm) (r, err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "OpenFile" && fsName == f.Name && fsSelf == f.FS && fsX == flag && fsY == perm

func (f *File) OpenContext(c) (r, err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "OpenContext" && fsName == f.Name && fsSelf == f.FS

func (f *File) Open() (r, err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Open" && fsName == f.Name && fsSelf == f.FS

func (f *File) Create() (r, err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Create" && fsName == f.Name && fsSelf == f.FS

func (f *File) Chmod(mode) (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Chmod" && fsName == f.Name && fsSelf == f.FS && fsX == mode

func (f *File) Chown(uid, gid) (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Chown" && fsName == f.Name && fsSelf == f.FS && fsX == uid && fsY == gid

func (f *File) Chtimes(atime, mtime) (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Chtimes" && fsName == f.Name && fsSelf == f.FS && fsT == atime && fsU == mtime

func (f *File) Rename(newpath) (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Rename" && fsName == f.Name && fsSelf == f.FS && fsS == newpath

func (f *File) Remove() (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Remove" && fsName == f.Name && fsSelf == f.FS

func (f *File) RemoveAll() (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "RemoveAll" && fsName == f.Name && fsSelf == f.FS

func (f *File) Mkdir(mode) (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "Mkdir" && fsName == f.Name && fsSelf == f.FS && fsX == mode

func (f *File) MkdirAll(mode) (err)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [asked] fsN == old(fsN) + 1 && fsOp == "MkdirAll" && fsName == f.Name && fsSelf == f.FS && fsX == mode

pkg errors
smtfun isError(error, error) bool
assume Is(err, target) (r)
  why documented behaviour of the standard library; a function of the errors here
  ensures r <==> isError(err, target)
  ensures err == nil ==> (r <==> target == nil)

pkg .
smtfun statErr(any, string) error

func (f *FileSet) Set(arg) (err)
  props C21
  requires f != nil
  modifies f.Files, f.Files[*]
  nopanic
  ensures [added] err == nil && len(f.Files) == old(len(f.Files)) + 1 && f.Files[old(len(f.Files))] == arg
  ensures [kept] forall i int :: 0 <= i && i < old(len(f.Files)) ==> f.Files[i] == old(f.Files[i])

func (f *FileSet) Reset()
  props C21
  requires f != nil
  modifies f.Files
  nopanic
  ensures len(f.Files) == 0

func fileNotExists(err) (r)
  props C21
  ensures r <==> isError(err, fs.ErrNotExist)

func (f *File) Exists() (r)
  props C21
  requires given(f)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [exists] r <==> statErr(f.FS, f.Name) == nil || !isError(statErr(f.FS, f.Name), fs.ErrNotExist)

func (f *FileSet) Exists() (r)
  props C21
  requires f != nil && implements(f.FS, FS)
  modifies ghost fsN, ghost fsOp, ghost fsName, ghost fsSelf, ghost fsX, ghost fsY, ghost fsS, ghost fsT, ghost fsU
  ensures [each] r <==> forall i int :: 0 <= i && i < len(f.Files) ==> !isError(statErr(f.FS, f.Files[i]), fs.ErrNotExist)
  inv [iter int ::] forall i int :: 0 <= i && i < iter + 1 ==> !isError(statErr(f.FS, f.Files[i]), fs.ErrNotExist)

// visiting the files: walkN of the files in walkA[walkO..walkO+walkL) have been visited, the last with walkErr
ghost walkA gmap[int]string
ghost walkO int
ghost walkL int
ghost walkN int
ghost walkErr error
assume functype:func_cli_File_error_error(self, file, e) (err)
  why the caller's function; the obligation is that it is given the next file, and none after an error
  requires [next] 0 <= walkN && walkN < walkL && file != nil && file.Name == walkA[walkO+walkN] && e == nil
  requires [stopped] walkErr == nil
  effect walkN = old(walkN) + 1
  effect walkErr = err

assume walkFile(ff, name, fn) (err)
  why walks the tree at name with the standard library; the obligation is that it is given the next file, and none after an error
  requires [next] 0 <= walkN && walkN < walkL && name == walkA[walkO+walkN]
  requires [stopped] walkErr == nil
  effect walkN = old(walkN) + 1
  effect walkErr = err

func (f *FileSet) Do(fn) (err)
  props C21
  requires f != nil && fn != nil && implements(f.FS, FS)
  requires walkA == elems(f.Files) && walkO == off(f.Files) && walkL == len(f.Files) && walkN == 0 && walkErr == nil
  modifies ghost walkN, ghost walkErr
  ensures [result] err == walkErr
  ensures [all] err == nil ==> walkN == len(f.Files)
  inv [iter int ::] walkN == iter + 1 && walkErr == nil

