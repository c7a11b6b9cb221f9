package drv

import (
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"pgregory.net/rapid"
)

// op is one operation on the driver.
type op struct {
	desc string
	// model performs it on the model, or returns the acceptable errors.
	model func(m *model) []error
	run   func() error
	// check looks at the results of an operation that succeeded.
	check func(m *model)
	// needs tells what the image must be mounted with for the operation to be
	// allowed; 0 if it doesn't change anything.
	needs func(m *model) disko.MountFlags
	// touches tells if the object at this physical path may be affected by the
	// operation failing halfway. nil means none.
	touches func(p string) bool
}

func errs(e ...error) []error { return e }

// unspecified is returned for operations whose outcome isn't specified, except
// that they don't change anything.
var unspecified = errs(errors.New("unspecified"))

func (f found) missing() []error {
	if f.err != nil {
		return errs(f.err)
	}
	if f.n == nil {
		return errs(disko.ErrNotFound)
	}
	return nil
}

func (f found) path() string {
	if f.dir == nil {
		return "/"
	}
	p := pathOf(f.dir)
	if p == "/" {
		return p + f.name
	}
	return p + "/" + f.name
}

// clone copies a model.
func (m *model) clone() *model {
	seen := map[*mnode]*mnode{}
	var cp func(n *mnode) *mnode
	cp = func(n *mnode) *mnode {
		if seen[n] != nil {
			return seen[n]
		}
		k := *n
		seen[n] = &k
		if n.kids != nil {
			k.kids = make(map[string]*mnode, len(n.kids))
			for name, kid := range n.kids {
				kk := cp(kid)
				if kk.kind == 'd' {
					kk.parent = seen[n]
				}
				k.kids[name] = kk
			}
		}
		seen[n] = &k
		return &k
	}
	root := cp(m.root)
	return &model{root: root, cwd: m.cwd}
}

func never(*model) disko.MountFlags { return 0 }
func always(f disko.MountFlags) func(*model) disko.MountFlags {
	return func(*model) disko.MountFlags { return f }
}

const (
	needWrite  = disko.MountFlagsAllowWrite
	needInsert = disko.MountFlagsAllowInsert
	needDelete = disko.MountFlagsAllowDelete
	needAdmin  = disko.MountFlagsAllowAdminister
)

// run performs an operation on the driver and the model, and compares them.
func (w *world) run(o op) {
	m2 := w.m.clone()
	want := o.model(m2)
	var err error
	w.fs.calls = 0
	w.c.Call(o.desc, func() { err = o.run() })
	if len(want) == 1 && want[0] == unspecified[0] {
		w.c.AddDesc("; %s", o.desc)
		w.compare(o.desc)
		return
	}
	w.expect(o.desc, err, want...)
	if len(want) == 0 {
		w.m = m2
		if o.check != nil {
			o.check(m2)
		}
	}
	w.compare(o.desc)
}

var permBits = []os.FileMode{0, 0o644, 0o755, 0o777, 0o400, 0o012, os.ModeSetuid | 0o711, os.ModeSticky | 0o1}

func (w *world) perm() os.FileMode {
	if pbt.Int(0, 2).Draw(w.c.T, "any perm") == 0 {
		perm := os.FileMode(pbt.Int(0, 0o777).Draw(w.c.T, "perm"))
		for _, special := range []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky} {
			if pbt.Int(0, 3).Draw(w.c.T, "special") == 0 {
				perm |= special
			}
		}
		return perm
	}
	return rapid.SampledFrom(permBits).Draw(w.c.T, "perm")
}

// typeBits are mode bits that operations must ignore where they know the type.
func (w *world) typeBits() os.FileMode {
	if pbt.Int(0, 3).Draw(w.c.T, "type bits") > 0 {
		return 0
	}
	return rapid.SampledFrom([]os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeNamedPipe}).Draw(w.c.T, "type")
}

func (w *world) opMkdir() op {
	p, perm := w.path(), w.perm()
	given := perm | w.typeBits()
	return op{
		desc: fmt.Sprintf("Mkdir(%q, %o)", p, given),
		model: func(m *model) []error {
			return m.mkdir(m.norm(p), perm)
		},
		run:   func() error { return w.drv.Mkdir(p, given) },
		needs: always(needInsert),
	}
}

func (m *model) mkdir(abs string, perm os.FileMode) []error {
	f := m.noFollow(abs)
	if f.err != nil {
		return errs(f.err)
	}
	if f.n != nil {
		return errs(disko.ErrExists)
	}
	f.dir.kids[f.name] = &mnode{kind: 'd', kids: map[string]*mnode{}, parent: f.dir, name: f.name, perm: perm, uid: 1, gid: 1}
	return nil
}

func (m *model) mkdirAll(abs string, perm os.FileMode) []error {
	f := m.follow(abs)
	if f.n != nil {
		if f.n.kind != 'd' {
			return errs(disko.ErrNotADirectory)
		}
		return nil
	}
	if f.err != nil && f.err != disko.ErrNotFound {
		return errs(f.err)
	}
	parts := comps(abs)
	up := "/"
	for _, p := range parts[:len(parts)-1] {
		up = refNormalize(up, p)
	}
	if e := m.mkdirAll(up, perm); e != nil {
		return e
	}
	return m.mkdir(abs, perm)
}

func (w *world) opMkdirAll() op {
	p, perm := w.path(), w.perm()
	if pbt.Int(0, 2).Draw(w.c.T, "deeper") > 0 {
		p += "/" + w.name() + "/" + w.name()
		if pbt.Int(0, 19).Draw(w.c.T, "much deeper") == 19 {
			for i := pbt.Int(1, 10).Draw(w.c.T, "levels"); i > 0; i-- {
				p += "/" + w.name()
			}
		}
	}
	abs := w.m.norm(p)
	given := perm | w.typeBits()
	return op{
		desc:  fmt.Sprintf("MkdirAll(%q, %v)", p, given),
		model: func(m *model) []error { return m.mkdirAll(abs, perm) },
		run:   func() error { return w.drv.MkdirAll(p, given) },
		needs: func(m *model) disko.MountFlags {
			if m.follow(abs).n != nil {
				return 0
			}
			return needInsert
		},
		touches: func(q string) bool { return w.m.noFollow(q).n == nil },
	}
}

// open is the effect of opening a file.
func (m *model) open(abs string, flags disko.IOFlags, perm os.FileMode) (*mnode, []error) {
	f := m.follow(abs)
	if flags&disko.O_NOFOLLOW != 0 {
		if f = m.noFollow(abs); f.n != nil && f.n.kind == 'l' {
			if flags&disko.O_CREATE != 0 && flags&disko.O_EXCL != 0 {
				return nil, errs(disko.ErrExists)
			}
			return nil, errs(disko.ErrLinkCycleDetected)
		}
	}
	if f.n != nil {
		if flags&disko.O_CREATE != 0 && flags&disko.O_EXCL != 0 {
			return nil, errs(disko.ErrExists)
		}
		if f.n.kind == 'd' {
			if canWrite(flags) || flags&(disko.O_CREATE|disko.O_TRUNC) != 0 {
				return nil, errs(disko.ErrIsADirectory)
			}
			return f.n, nil
		}
		if f.n.kind == 's' {
			return nil, errs(anyError)
		}
		if flags&disko.O_TRUNC != 0 {
			f.n.data = nil
		}
		return f.n, nil
	}
	nf := m.noFollow(abs)
	if f.err == disko.ErrLinkCycleDetected && nf.n != nil && flags&disko.O_CREATE != 0 && flags&disko.O_EXCL != 0 {
		return nil, errs(disko.ErrLinkCycleDetected, disko.ErrExists)
	}
	if f.err != nil && f.err != disko.ErrNotFound {
		return nil, errs(f.err)
	}
	if flags&disko.O_CREATE == 0 {
		return nil, errs(disko.ErrNotFound)
	}
	if nf.err != nil {
		return nil, errs(nf.err)
	}
	if nf.n != nil { // a link leading nowhere
		if flags&disko.O_EXCL != 0 {
			return nil, errs(disko.ErrExists)
		}
		return nil, errs(disko.ErrNotFound)
	}
	n := &mnode{kind: 'f', perm: perm, uid: 1, gid: 1}
	nf.dir.kids[nf.name] = n
	return n, nil
}

func openNeeds(m *model, abs string, flags disko.IOFlags) disko.MountFlags {
	if m.follow(abs).n != nil || flags&disko.O_NOFOLLOW != 0 && m.noFollow(abs).n != nil {
		if canWrite(flags) || flags&disko.O_TRUNC != 0 {
			return needWrite
		}
		return 0
	}
	if flags&disko.O_CREATE != 0 {
		return needInsert
	}
	return 0
}

// touched gives the touches function of an operation on a single file.
func (w *world) touched(abs string) func(string) bool {
	p := ""
	if f := w.m.follow(abs); f.n != nil {
		p = f.path()
	} else if nf := w.m.noFollow(abs); nf.err == nil {
		p = nf.path()
	}
	return func(q string) bool { return q == p }
}

func canWrite(flags disko.IOFlags) bool {
	mode := flags & disko.O_ACCMODE
	return mode == disko.O_WRONLY || mode == disko.O_RDWR
}

func canRead(flags disko.IOFlags) bool { return flags&disko.O_ACCMODE != disko.O_WRONLY }

func (w *world) openFlags() disko.IOFlags {
	flags := rapid.SampledFrom([]disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR}).Draw(w.c.T, "access")
	flags |= rapid.SampledFrom([]disko.IOFlags{0, disko.O_CREATE, disko.O_CREATE, disko.O_CREATE | disko.O_EXCL, disko.O_EXCL}).Draw(w.c.T, "create")
	if pbt.Int(0, 5).Draw(w.c.T, "no follow") == 0 {
		flags |= disko.O_NOFOLLOW
	}
	if canWrite(flags) {
		flags |= rapid.SampledFrom([]disko.IOFlags{0, 0, disko.O_TRUNC, disko.O_APPEND, disko.O_APPEND, disko.O_SYNC,
			disko.O_APPEND | disko.O_TRUNC, disko.O_APPEND | disko.O_SYNC, disko.O_TRUNC | disko.O_SYNC}).Draw(w.c.T, "mode")
	}
	return flags
}

func flagNames(f disko.IOFlags) string {
	out := "RDONLY"
	if canWrite(f) {
		out = "WRONLY"
		if canRead(f) {
			out = "RDWR"
		}
	}
	for _, n := range []struct {
		f disko.IOFlags
		s string
	}{{disko.O_CREATE, "CREATE"}, {disko.O_EXCL, "EXCL"}, {disko.O_TRUNC, "TRUNC"}, {disko.O_APPEND, "APPEND"}, {disko.O_SYNC, "SYNC"}, {disko.O_NOFOLLOW, "NOFOLLOW"}} {
		if f&n.f != 0 {
			out += "|" + n.s
		}
	}
	return out
}

func (w *world) opOpen() op {
	p, flags, perm := w.path(), w.openFlags(), w.perm()
	given := perm | w.typeBits()
	abs := w.m.norm(p)
	o := op{
		desc:    fmt.Sprintf("OpenFile(%q, %s, %v)", p, flagNames(flags), given),
		needs:   func(m *model) disko.MountFlags { return openNeeds(m, abs, flags) },
		touches: w.touched(abs),
	}
	mode := pbt.Int(0, 5).Draw(w.c.T, "opener")
	switch mode {
	case 0:
		flags, perm = disko.O_RDWR|disko.O_CREATE|disko.O_EXCL, 0
		o.desc = fmt.Sprintf("Create(%q)", p)
	case 1:
		flags, perm = disko.O_RDONLY, 0
		o.desc = fmt.Sprintf("Open(%q)", p)
	}
	o.model = func(m *model) []error {
		_, e := m.open(abs, flags, perm)
		return e
	}
	o.run = func() (err error) {
		var f driver.File
		switch mode {
		case 0:
			f, err = w.drv.Create(p)
		case 1:
			f, err = w.drv.Open(p)
		default:
			f, err = w.drv.OpenFile(p, flags, given)
		}
		if err != nil {
			return err
		}
		return f.Close()
	}
	return o
}

// opOpenDir opens what is most likely a directory, and lists it or makes it the
// working directory.
func (w *world) opOpenDir() op {
	c := w.c
	p := w.pathTo('d')
	chdir := pbt.Int(0, 3).Draw(c.T, "chdir") == 0
	how := rapid.SampledFrom([]string{"ReadDir", "Readdir", "Readdirnames"}).Draw(c.T, "how")
	limit := pbt.Int(-1, 4).Draw(c.T, "limit")
	o := op{desc: fmt.Sprintf("Open(%q).%s(%d)", p, how, limit), needs: never}
	if chdir {
		o.desc = fmt.Sprintf("Open(%q).Chdir", p)
	}
	o.model = func(m *model) []error {
		f := m.follow(m.norm(p))
		if e := f.missing(); e != nil {
			return e
		}
		switch f.n.kind {
		case 's':
			return errs(anyError)
		case 'f':
			return errs(disko.ErrNotADirectory)
		}
		if chdir {
			m.cwd = f.path()
		}
		return nil
	}
	var entries []disko.DirectoryEntry
	names := map[string]bool{}
	o.run = func() error {
		entries, names = nil, map[string]bool{}
		f, err := w.drv.Open(p)
		if err != nil {
			return err
		}
		defer f.Close()
		if chdir {
			return f.Chdir()
		}
		if info, err := f.Stat(); err != nil {
			return err
		} else if !info.IsDir() {
			_, err = f.ReadDir(limit)
			return err
		}
		for {
			page := []string{}
			switch how {
			case "ReadDir":
				var es []os.DirEntry
				es, err = f.ReadDir(limit)
				for _, e := range es {
					page = append(page, e.Name())
					entries = append(entries, e.(disko.DirectoryEntry))
				}
			case "Readdir":
				var is []os.FileInfo
				is, err = f.Readdir(limit)
				for _, i := range is {
					page = append(page, i.Name())
					entries = append(entries, i.(disko.DirectoryEntry))
				}
			default:
				page, err = f.Readdirnames(limit)
			}
			for _, name := range page {
				if names[name] {
					c.Fatalf("%s delivers %q twice", o.desc, name)
				}
				names[name] = true
			}
			if limit > 0 && len(page) > limit {
				c.Fatalf("%s delivers %q", o.desc, page)
			}
			if err == io.EOF && limit > 0 && len(page) == 0 {
				return nil
			}
			if err == io.EOF || err == nil && limit > 0 && len(page) == 0 {
				c.Fatalf("%s delivers %d entries and %v", o.desc, len(page), err)
			}
			if err != nil || limit <= 0 {
				return err
			}
		}
	}
	o.check = func(m *model) {
		f := m.follow(m.norm(p))
		if chdir {
			if got, err := w.drv.Getwd(); err != nil || got != m.cwd {
				c.Fatalf("after %s, Getwd() = %q, %v instead of %q", o.desc, got, err, m.cwd)
			}
			return
		}
		if entries != nil || how != "Readdirnames" {
			w.checkEntries(o.desc, f.n, f.path(), entries)
			return
		}
		for name := range names {
			if f.n.kids[name] == nil {
				c.Fatalf("%s lists %q, which isn't there", o.desc, name)
			}
		}
		if len(names) != len(f.n.kids) {
			c.Fatalf("%s lists %d of %d entries", o.desc, len(names), len(f.n.kids))
		}
	}
	return o
}

func (w *world) opWriteFile() op {
	p, perm := w.pathTo('f'), w.perm()
	given := perm | w.typeBits()
	data := w.drawData("data", 4*w.fs.bs)
	abs := w.m.norm(p)
	return op{
		desc: fmt.Sprintf("WriteFile(%q, %d bytes, %v)", p, len(data), given),
		model: func(m *model) []error {
			n, e := m.open(abs, disko.O_WRONLY|disko.O_CREATE|disko.O_TRUNC, perm)
			if e == nil {
				n.data = append([]byte{}, data...)
			}
			return e
		},
		run: func() error { return w.drv.WriteFile(p, data, given) },
		needs: func(m *model) disko.MountFlags {
			return openNeeds(m, abs, disko.O_WRONLY|disko.O_CREATE|disko.O_TRUNC)
		},
		touches: w.touched(abs),
	}
}

func (w *world) opReadFile() op {
	p := w.pathTo('f')
	var got []byte
	return op{
		desc: fmt.Sprintf("ReadFile(%q)", p),
		model: func(m *model) []error {
			f := m.follow(m.norm(p))
			if f.n != nil && (f.n.kind == 'd' || f.n.kind == 's') {
				return unspecified
			}
			return f.missing()
		},
		run: func() (err error) { got, err = w.drv.ReadFile(p); return },
		check: func(m *model) {
			if want := m.follow(m.norm(p)).n.data; w.cmp.contents && string(got) != string(want) {
				w.c.Fatalf("ReadFile(%q) = %s instead of %s", p, pbt.Short(got), pbt.Short(want))
			}
		},
		needs: never,
	}
}

func (w *world) opTruncate() op {
	p := w.pathTo('f')
	abs := w.m.norm(p)
	return op{
		desc: fmt.Sprintf("Truncate(%q)", p),
		model: func(m *model) []error {
			f := m.follow(abs)
			if e := f.missing(); e != nil {
				return e
			}
			if f.n.kind == 'd' {
				return errs(disko.ErrIsADirectory)
			}
			if f.n.kind == 's' {
				return unspecified
			}
			f.n.data = nil
			return nil
		},
		run:     func() error { return w.drv.Truncate(p) },
		needs:   always(needWrite),
		touches: w.touched(abs),
	}
}

func (w *world) opRemove() op {
	p := w.path()
	abs := w.m.norm(p)
	return op{
		desc: fmt.Sprintf("Remove(%q)", p),
		model: func(m *model) []error {
			if abs == "/" {
				return errs(anyError)
			}
			f := m.noFollow(abs)
			if e := f.missing(); e != nil {
				return e
			}
			if len(f.n.kids) > 0 {
				return errs(disko.ErrDirectoryNotEmpty)
			}
			if f.n.kind == 's' {
				return errs(disko.ErrInvalidArgument) // on purpose, unlike in the os package
			}
			delete(f.dir.kids, f.name)
			return nil
		},
		run:   func() error { return w.drv.Remove(p) },
		needs: always(needDelete),
	}
}

func (w *world) opRemoveAll() op {
	p := w.pathTo('d')
	abs := w.m.norm(p)
	prefix := w.m.noFollow(abs).pathOr(abs)
	return op{
		desc: fmt.Sprintf("RemoveAll(%q)", p),
		model: func(m *model) []error {
			if abs == "/" {
				return errs(anyError)
			}
			f := m.noFollow(abs)
			if f.err == disko.ErrNotFound || f.err == nil && f.n == nil {
				return unspecified // os.RemoveAll would succeed
			}
			if f.err != nil {
				return errs(f.err)
			}
			if f.n.kind != 'd' {
				return errs(disko.ErrNotADirectory)
			}
			delete(f.dir.kids, f.name)
			return nil
		},
		run:   func() error { return w.drv.RemoveAll(p) },
		needs: always(needDelete),
		touches: func(q string) bool {
			return abs != "/" && (q == prefix || len(q) > len(prefix) && q[:len(prefix)+1] == prefix+"/")
		},
	}
}

func (f found) pathOr(def string) string {
	if f.err != nil {
		return def
	}
	return f.path()
}

// statOf is what the implementation says about a node.
func (w *world) statOf(n *node) disko.FileStat {
	return (&handle{fs: w.fs, n: n}).Stat()
}

func (w *world) opStat() op {
	p := w.path()
	follow := rapid.Bool().Draw(w.c.T, "follow")
	var got disko.FileStat
	o := op{
		desc:  fmt.Sprintf("Stat(%q)", p),
		run:   func() (err error) { got, err = w.drv.Stat(p); return },
		needs: never,
	}
	if !follow {
		o.desc = fmt.Sprintf("Lstat(%q)", p)
		o.run = func() (err error) { got, err = w.drv.Lstat(p); return }
	}
	look := func(m *model) found { return m.look(m.norm(p), follow, map[*mnode]bool{}) }
	o.model = func(m *model) []error { return look(m).missing() }
	o.check = func(m *model) {
		f := look(m)
		want := w.statOf(w.nodeAt(f.path()))
		if !w.cmp.contents {
			got.Size, got.NumBlocks = want.Size, want.NumBlocks
		}
		if got != want {
			w.c.Fatalf("%s = %+v instead of %+v", o.desc, got, want)
		}
		if got.IsDir() != (f.n.kind == 'd') || got.IsFile() != (f.n.kind == 'f') || got.IsSymlink() != (f.n.kind == 'l') {
			w.c.Fatalf("%s: directory %v, file %v, link %v; expected %c", o.desc, got.IsDir(), got.IsFile(), got.IsSymlink(), f.n.kind)
		}
	}
	return o
}

func (w *world) opReadlink() op {
	p := w.pathTo('l')
	var got string
	return op{
		desc: fmt.Sprintf("Readlink(%q)", p),
		model: func(m *model) []error {
			if !w.fs.features.HasSymbolicLinks {
				return errs(disko.ErrNotSupported)
			}
			f := m.noFollow(m.norm(p))
			if e := f.missing(); e != nil {
				return e
			}
			if f.n.kind != 'l' {
				return errs(disko.ErrInvalidArgument)
			}
			return nil
		},
		run: func() (err error) { got, err = w.drv.Readlink(p); return },
		check: func(m *model) {
			if want := m.noFollow(m.norm(p)).n.text; got != want {
				w.c.Fatalf("Readlink(%q) = %q instead of %q", p, got, want)
			}
		},
		needs: never,
	}
}

func (w *world) opReadDir() op {
	p := w.pathTo('d')
	var got []disko.DirectoryEntry
	return op{
		desc: fmt.Sprintf("ReadDir(%q)", p),
		model: func(m *model) []error {
			f := m.follow(m.norm(p))
			if e := f.missing(); e != nil {
				return e
			}
			if f.n.kind != 'd' {
				return errs(anyError)
			}
			return nil
		},
		run: func() (err error) { got, err = w.drv.ReadDir(p); return },
		check: func(m *model) {
			f := m.follow(m.norm(p))
			w.checkEntries(fmt.Sprintf("ReadDir(%q)", p), f.n, f.path(), got)
		},
		needs: never,
	}
}

// checkEntries compares directory entries with what is in the directory.
func (w *world) checkEntries(what string, dir *mnode, dirPath string, got []disko.DirectoryEntry) {
	c := w.c
	odir := w.nodeAt(dirPath)
	seen := map[string]bool{}
	for _, e := range got {
		name := e.Name()
		if dir.kids[name] == nil {
			c.Fatalf("%s lists %q, which isn't there", what, name)
		}
		if seen[name] {
			c.Fatalf("%s lists %q twice", what, name)
		}
		seen[name] = true
		want := w.statOf(odir.kids[name])
		info, err := e.Info()
		if err != nil {
			c.Fatalf("%s: Info of %q: %v", what, name, err)
		}
		if e.Stat() != want {
			c.Fatalf("%s: Stat of %q = %+v instead of %+v", what, name, e.Stat(), want)
		}
		isDir := dir.kids[name].kind == 'd'
		if e.IsDir() != isDir || info.IsDir() != isDir || e.Type() != want.ModeFlags&os.ModeType || info.Mode() != want.ModeFlags {
			c.Fatalf("%s: %q is listed as a directory: %v %v, type %s %s; expected %s", what, name, e.IsDir(), info.IsDir(), e.Type(), info.Mode(), want.ModeFlags)
		}
		if info.Name() != name || info.Size() != want.Size || !info.ModTime().Equal(want.LastModified) {
			c.Fatalf("%s: Info of %q: name %q, size %d, modified %s; expected %+v", what, name, info.Name(), info.Size(), info.ModTime(), want)
		}
		if info.Sys() != any(want) {
			c.Fatalf("%s: Sys of %q: %v instead of %+v", what, name, info.Sys(), want)
		}
	}
	for _, e := range got {
		if len(w.infos) < 40 {
			info, _ := e.Info()
			w.infos = append(w.infos, savedInfo{info, odir.kids[e.Name()], "the entry " + e.Name() + " of " + what})
		}
	}
	for name := range dir.kids {
		if !seen[name] {
			c.Fatalf("%s doesn't list %q", what, name)
		}
	}
}

func (w *world) opChdir() op {
	p := w.pathTo('d')
	return op{
		desc: fmt.Sprintf("Chdir(%q)", p),
		model: func(m *model) []error {
			f := m.follow(m.norm(p))
			if e := f.missing(); e != nil {
				return e
			}
			if f.n.kind != 'd' {
				return errs(disko.ErrNotADirectory)
			}
			m.cwd = f.path()
			return nil
		},
		run: func() error { return w.drv.Chdir(p) },
		check: func(m *model) {
			if got, err := w.drv.Getwd(); err != nil || got != m.cwd {
				w.c.Fatalf("after Chdir(%q), Getwd() = %q, %v instead of %q", p, got, err, m.cwd)
			}
		},
		needs: never,
	}
}

func (w *world) opLink() op {
	p, q := w.pathTo('f'), w.newPath()
	return op{
		desc: fmt.Sprintf("Link(%q, %q)", p, q),
		model: func(m *model) []error {
			if w.linkless {
				return errs(disko.ErrNotSupported)
			}
			f, t := m.follow(m.norm(p)), m.noFollow(m.norm(q))
			e := f.missing()
			if e == nil && f.n.kind == 'd' {
				e = errs(disko.ErrNotPermitted)
			}
			if t.err != nil {
				e = append(e, t.err)
			} else if t.n != nil {
				e = append(e, disko.ErrExists)
			}
			if e == nil {
				t.dir.kids[t.name] = f.n
			}
			return e
		},
		run:   func() error { return w.drv.Link(p, q) },
		needs: always(needInsert),
	}
}

var stamps = []time.Time{{}, time.Unix(0, 0).UTC(), time.Date(1984, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(1999, 12, 31, 1, 2, 3, 4, time.FixedZone("x", 3600))}

// stamp draws a timestamp to set, or that it's left alone.
func (w *world) stamp(what string) time.Time {
	if pbt.Int(0, 3).Draw(w.c.T, what+" kind") > 0 {
		return rapid.SampledFrom(stamps).Draw(w.c.T, what)
	}
	return time.Unix(int64(pbt.Int(-5000000000, 9000000000).Draw(w.c.T, what)), int64(pbt.Int(0, 999999999).Draw(w.c.T, what+" ns")))
}

// own changes the owner; an ID of -1 isn't changed.
func (n *mnode) own(uid, gid int) {
	if uid != -1 {
		n.uid = uid
	}
	if gid != -1 {
		n.gid = gid
	}
}

// id draws the number of a user or group, or -1.
func (w *world) id(what string) int {
	switch pbt.Int(0, 3).Draw(w.c.T, what+" kind") {
	case 1:
		return -1
	case 0:
		return rapid.SampledFrom([]int{0, 1, 255, 256, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 2}).Draw(w.c.T, what)
	}
	return pbt.Int(0, 70000).Draw(w.c.T, what)
}

func (w *world) opAttr() op {
	c := w.c
	p := w.path()
	abs := w.m.norm(p)
	kind := rapid.SampledFrom([]string{"Chmod", "Chown", "Lchown", "Chtimes"}).Draw(c.T, "attribute")
	o := op{needs: always(needAdmin)}
	mode := w.perm()
	if pbt.Int(0, 3).Draw(c.T, "type bits") == 0 {
		mode |= rapid.SampledFrom([]os.FileMode{os.ModeDir, os.ModeSymlink, os.ModeAppend}).Draw(c.T, "type")
	}
	uid, gid := w.id("uid"), w.id("gid")
	at, mt := w.stamp("atime"), w.stamp("mtime")
	look := func(m *model) found { return m.look(abs, kind != "Lchown", map[*mnode]bool{}) }
	o.model = func(m *model) []error {
		f := look(m)
		if e := f.missing(); e != nil {
			return e
		}
		if !w.fs.attrs {
			return errs(anyError)
		}
		switch kind {
		case "Chmod":
			f.n.perm = mode &^ os.ModeType &^ os.ModeAppend
		case "Chtimes":
			if !at.IsZero() && w.fs.features.HasAccessedTime {
				f.n.atime = at
			}
			if !mt.IsZero() && w.fs.features.HasModifiedTime {
				f.n.mtime = mt
			}
		default:
			f.n.own(uid, gid)
		}
		return nil
	}
	switch kind {
	case "Chmod":
		o.desc = fmt.Sprintf("Chmod(%q, %o)", p, uint32(mode))
		o.run = func() error { return w.drv.Chmod(p, mode) }
	case "Chown":
		o.desc = fmt.Sprintf("Chown(%q, %d, %d)", p, uid, gid)
		o.run = func() error { return w.drv.Chown(p, uid, gid) }
	case "Lchown":
		o.desc = fmt.Sprintf("Lchown(%q, %d, %d)", p, uid, gid)
		o.run = func() error { return w.drv.Lchown(p, uid, gid) }
	case "Chtimes":
		o.desc = fmt.Sprintf("Chtimes(%q, %s, %s)", p, at, mt)
		o.run = func() error { return w.drv.Chtimes(p, at, mt) }
		o.needs = always(needWrite)
	}
	return o
}

// one picks an operation; weights gives how often each kind occurs.
func (w *world) one(kinds ...func(*world) op) op {
	return rapid.SampledFrom(kinds).Draw(w.c.T, "op")(w)
}

// countLinks notes what the symbolic links in a path lead to.
func (w *world) countLinks(abs string) {
	nf := w.m.noFollow(abs)
	f := w.m.follow(abs)
	switch {
	case f.err == disko.ErrLinkCycleDetected:
		w.cycles++
	case nf.n != nil && nf.n.kind == 'l' && f.n == nil:
		w.dangling++
	case f.n != nil && f.path() != abs:
		w.viaLink++
	}
}
