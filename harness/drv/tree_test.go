package drv

import (
	"fmt"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"pgregory.net/rapid"
)

var treeOps = []func(*world) op{
	(*world).opMkdir, (*world).opMkdir, (*world).opMkdirAll, (*world).opOpen, (*world).opOpen, (*world).opWriteFile,
	(*world).opReadFile, (*world).opTruncate, (*world).opRemove, (*world).opRemove, (*world).opRemoveAll, (*world).opStat,
	(*world).opReadDir, (*world).opChdir, (*world).opChdir, (*world).opOpenDir,
}

func TestD01_Normalize(t *testing.T) {
	pbt.Check(t, 60000, 1500000, "Paths of up to 12 pieces (names with and without dots, '.', '..', slashes, arbitrary strings), some repeated up to 1500 times, from working directories up to 5 levels deep: NormalizePath gives what walking the components gives, "+
		"which is absolute and stays the same when normalized again. Non-trivial: '..' was involved.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll})
		dir, odir := w.m.root, w.fs.root
		for i := pbt.Int(0, 5).Draw(c.T, "depth of the working directory"); i > 0; i-- {
			name := w.name()
			w.plant(dir, odir, name, &mnode{kind: 'd', perm: 0o755})
			dir, odir = dir.kids[name], odir.kids[name]
		}
		w.run(op{
			desc:  "Chdir",
			model: func(m *model) []error { m.cwd = pathOf(dir); return nil },
			run:   func() error { return w.drv.Chdir(pathOf(dir)) },
		})
		for i := pbt.Int(1, 4).Draw(c.T, "paths"); i > 0; i-- {
			pieces := rapid.SliceOfN(rapid.OneOf(
				rapid.SampledFrom([]string{"/", "/", "/", "..", "..", ".", "a", "b.c", "...", "..a", "a..", ".b", "a b", "é", "\\", "C:"}),
				rapid.String()), 1, 12).Draw(c.T, "pieces")
			p := strings.Join(pieces, "")
			if pbt.Int(0, 1).Draw(c.T, "joined") == 0 {
				p = strings.Join(pieces, "/")
			}
			if pbt.Int(0, 49).Draw(c.T, "long") == 49 {
				p = strings.Repeat(p, pbt.Int(2, 1500).Draw(c.T, "times"))
			}
			if p == "" {
				continue
			}
			want := w.m.norm(p)
			var got, again string
			c.Call("NormalizePath", func() { got = w.drv.NormalizePath(p); again = w.drv.NormalizePath(got) })
			c.AddDesc(" %.100q", p)
			if len(p) > 100 {
				c.AddDesc("... (%d bytes)", len(p))
			}
			c.AddDesc(" in %q", w.m.cwd)
			if len(p) > 1000 {
				c.Label("paths of over 1000 bytes")
			}
			if got != want {
				c.Fatalf("NormalizePath(%q) = %q instead of %q, in %q", p, got, want, w.m.cwd)
			}
			if again != got {
				c.Fatalf("NormalizePath(%q) = %q", got, again)
			}
			c.NonTrivial(strings.Contains(p, ".."))
		}
	})
}

const treeRule = "A generated tree of up to 12 objects, then up to 20 operations with paths in all spellings, relative ones included. "

func TestD02_Namespace(t *testing.T) {
	pbt.Check(t, 12000, 300000, treeRule+"Creating, opening, removing, listing, stat and changing the working directory: outcome (and kind of error) and the tree afterwards compared with a model of the POSIX semantics, "+
		"all objects compared by identity. Non-trivial: some operations succeeded and some failed.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{perms: true, links: true}})
		w.populate(12, false)
		for i := pbt.Int(1, 20).Draw(c.T, "steps"); i > 0; i-- {
			w.run(w.one(treeOps...))
		}
		c.NonTrivial(w.succeeded > 0 && w.failed > 0)
	})
}

func TestD04_Symlinks(t *testing.T) {
	pbt.Check(t, 15000, 400000, "A generated tree of up to 14 objects, half of them symbolic links: absolute, relative and dangling ones, chains and cycles. Up to 20 operations on paths through and ending in links. "+
		"Outcomes and the tree compared with a model that resolves paths as POSIX does; the calls to the implementation are limited. Non-trivial: a link was followed, dangling or found to be part of a cycle.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{links: true, owners: true, contents: true}})
		w.populate(14, true)
		ops := append([]func(*world) op{(*world).opReadlink, (*world).opReadlink, (*world).opStat, (*world).opStat, (*world).opAttr,
			(*world).opReadFile}, treeOps...)
		for i := pbt.Int(1, 20).Draw(c.T, "steps"); i > 0; i-- {
			for _, p := range w.m.paths() {
				w.countLinks(p)
			}
			w.run(w.one(ops...))
		}
		c.LabelIf(w.viaLink > 0, "links that lead to an object")
		c.LabelIf(w.dangling > 0, "dangling links")
		c.LabelIf(w.cycles > 0, "cycles")
		c.NonTrivial(w.viaLink+w.dangling+w.cycles > 0)
	})
}

// Every link is asked for in every way.
func TestD04_Lookups(t *testing.T) {
	pbt.Check(t, 15000, 400000, "As above, with up to 20 objects, three quarters of them links: every object, and up to 10 other paths, are looked up with Stat, Lstat, Readlink, ReadFile, ReadDir and Chdir. Non-trivial: as above.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{links: true, contents: true}})
		w.fs.features.HasSymbolicLinks = pbt.Int(0, 9).Draw(c.T, "symbolic links") > 0
		w.populate(20, true)
		for _, p := range w.m.paths() {
			w.countLinks(p)
		}
		looks := []func(*world) op{(*world).opStat, (*world).opReadlink, (*world).opReadFile, (*world).opReadDir, (*world).opChdir, (*world).opStat, (*world).opOpen, (*world).opOpenDir}
		for i := pbt.Int(5, 40).Draw(c.T, "lookups"); i > 0; i-- {
			w.run(w.one(looks...))
		}
		c.LabelIf(w.viaLink > 0, "links that lead to an object")
		c.LabelIf(w.dangling > 0, "dangling links")
		c.LabelIf(w.cycles > 0, "cycles")
		c.NonTrivial(w.viaLink+w.dangling+w.cycles > 0)
	})
}

func TestD05_MountFlags(t *testing.T) {
	pbt.Check(t, 15000, 400000, treeRule+"The image is mounted with one of the 16 combinations of write, insert, delete and administer permission (and any higher bits, which have no meaning). "+
		"What needs a permission that is missing fails as read-only and changes nothing at all; what doesn't behaves as in the model. Non-trivial: something was refused and something allowed.", func(c *pbt.C) {
		flags := disko.MountFlagsAllowRead
		for _, f := range []disko.MountFlags{needWrite, needInsert, needDelete, needAdmin} {
			if rapid.Bool().Draw(c.T, "flag") {
				flags |= f
			}
		}
		extra := rapid.SampledFrom([]disko.MountFlags{0, 0, disko.MountFlagsCustomStart, disko.MountFlagsCustomStart << 3, disko.MountFlagsPreserveTimestamps}).Draw(c.T, "extra")
		w := newWorld(c, options{flags: flags | extra, cmp: aspects{true, true, true, true, true}})
		c.AddDesc(" mounted with %#x", int(flags|extra))
		w.populate(12, pbt.Int(0, 3).Draw(c.T, "links") == 0)
		refused, allowed := 0, 0
		ops := append([]func(*world) op{(*world).opAttr, (*world).opAttr, (*world).opLink, (*world).opFileAttr}, treeOps...)
		for i := pbt.Int(1, 20).Draw(c.T, "steps"); i > 0; i-- {
			o := w.one(ops...)
			need := o.needs(w.m)
			if need&^flags == 0 {
				allowed++
				w.run(o)
				continue
			}
			if strings.HasPrefix(o.desc, "Chtimes") && flags&needAdmin != 0 {
				continue // not clear from the documentation
			}
			refused++
			ok := o.model(w.m.clone()) == nil
			w.run(op{
				desc: o.desc,
				model: func(m *model) []error {
					if ok {
						return errs(disko.ErrReadOnlyFileSystem)
					}
					return errs(anyError)
				},
				run: func() error {
					err := o.run()
					if err == nil && strings.HasPrefix(o.desc, "RemoveAll") && !ok {
						return disko.ErrNotFound // os.RemoveAll succeeds if there's nothing to remove
					}
					return err
				},
			})
			c.LabelIf(ok, "refused "+strings.SplitN(o.desc, "(", 2)[0])
		}
		c.NonTrivial(refused > 0 && allowed > 0)
	})
}

// opFileAttr changes attributes of an open file.
func (w *world) opFileAttr() op { return w.fileAttr("") }

// opFileAttrs does so after something else may have changed them as well, while
// the file was open.
func (w *world) opFileAttrs() op {
	return w.fileAttr(rapid.SampledFrom([]string{"", "Chmod", "Chown"}).Draw(w.c.T, "between"))
}

func (w *world) fileAttr(between string) op {
	c := w.c
	p := w.pathTo(rapid.SampledFrom([]byte{'f', 'f', 'd'}).Draw(c.T, "of"))
	abs := w.m.norm(p)
	chmod := rapid.Bool().Draw(c.T, "chmod")
	mode := w.perm()
	uid, gid := w.id("uid"), w.id("gid")
	mode2, uid2, gid2 := mode, uid, gid
	switch between {
	case "Chmod":
		mode2 = w.perm()
	case "Chown":
		uid2, gid2 = w.id("uid between"), w.id("gid between")
	}
	o := op{needs: always(needAdmin)}
	o.model = func(m *model) []error {
		n, e := m.open(abs, disko.O_RDONLY, 0)
		if e != nil {
			return e
		}
		if !w.fs.attrs {
			return errs(anyError)
		}
		switch between {
		case "Chmod":
			n.perm = mode2
		case "Chown":
			n.own(uid2, gid2)
		}
		if chmod {
			n.perm = mode
		} else {
			n.own(uid, gid)
		}
		return nil
	}
	o.desc = fmt.Sprintf("File.Chown(%q, %d, %d)", p, uid, gid)
	if chmod {
		o.desc = fmt.Sprintf("File.Chmod(%q, %o)", p, uint32(mode))
	}
	switch between {
	case "Chmod":
		o.desc += fmt.Sprintf(" after Chmod(%o) while it's open", uint32(mode2))
	case "Chown":
		o.desc += fmt.Sprintf(" after Chown(%d, %d) while it's open", uid2, gid2)
	}
	o.run = func() error {
		f, err := w.drv.Open(p)
		if err != nil {
			return err
		}
		early := rapid.Bool().Draw(c.T, "stat before")
		if early {
			f.Stat()
		}
		switch between {
		case "Chmod":
			err = w.drv.Chmod(p, mode2)
		case "Chown":
			err = w.drv.Chown(p, uid2, gid2)
		}
		if err != nil {
			f.Close()
			return err
		}
		if chmod {
			err = f.Chmod(mode | rapid.SampledFrom([]os.FileMode{0, 0, os.ModeDir, os.ModeAppend}).Draw(c.T, "type bits"))
		} else {
			err = f.Chown(uid, gid)
		}
		if err == nil {
			// The file knows about it.
			info, e := f.Stat()
			if e != nil {
				c.Fatalf("%s: Stat: %v", o.desc, e)
			}
			st, ok := info.Sys().(disko.FileStat)
			if !ok || chmod && (info.Mode() != st.ModeFlags || st.ModeFlags&^os.ModeType != mode) || !chmod && (uid != -1 && st.Uid != uint32(uid) || gid != -1 && st.Gid != uint32(gid)) {
				c.Fatalf("after %s: Stat = %s %+v", o.desc, info.Mode(), st)
			}
		}
		if e := f.Close(); err == nil {
			err = e
		}
		return err
	}
	return o
}

// whileOpen performs an operation while a file is open, whose Stat then tells the
// same as that of its path.
func whileOpen(inner func(*world) op) func(*world) op {
	return func(w *world) op {
		c := w.c
		p := w.pathTo('f')
		o := inner(w)
		run := o.run
		o.desc += fmt.Sprintf(" while %q is open", p)
		o.run = func() error {
			f, noFile := w.drv.Open(p)
			early := noFile == nil && rapid.Bool().Draw(c.T, "stat before")
			var before disko.FileStat
			if noFile == nil {
				before, noFile = w.drv.Stat(p)
			}
			if early {
				f.Stat()
			}
			err := run()
			if noFile == nil {
				now, e := w.drv.Stat(p)
				if e == nil && now.InodeNumber == before.InodeNumber {
					info, e := f.Stat()
					if e != nil {
						c.Fatalf("after %s: Stat of the file: %v", o.desc, e)
					}
					if st, ok := info.Sys().(disko.FileStat); !ok || st != now || info.Mode() != now.ModeFlags || !info.ModTime().Equal(now.LastModified) {
						c.Fatalf("after %s: File.Stat gives %+v, Stat gives %+v", o.desc, info.Sys(), now)
					}
				}
				if e := f.Close(); e != nil {
					c.Fatalf("%s: Close: %v", o.desc, e)
				}
			}
			return err
		}
		return o
	}
}

func TestD08_Recursive(t *testing.T) {
	pbt.Check(t, 15000, 400000, "A generated tree of up to 20 objects, a third of them symbolic links, then up to 8 MkdirAll and RemoveAll calls: exactly the missing directories are created, exactly the directory and everything in it is removed "+
		"(never what links in it lead to), or nothing at all if that's not possible; everything compared by identity. Non-trivial: something that wasn't a single directory was created or removed.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{contents: true, perms: true, links: true}})
		w.populate(20, rapid.Bool().Draw(c.T, "links"))
		for i := pbt.Int(1, 8).Draw(c.T, "steps"); i > 0; i-- {
			before := len(w.m.paths())
			w.run(w.one((*world).opMkdirAll, (*world).opRemoveAll, (*world).opMkdirAll, (*world).opRemoveAll, (*world).opChdir))
			d := len(w.m.paths()) - before
			c.LabelIf(d > 1, "created several directories")
			c.LabelIf(d < -1, "removed several objects")
			c.NonTrivial(d > 1 || d < -1)
		}
	})
}

func TestD09_HardLinks(t *testing.T) {
	pbt.Check(t, 15000, 400000, "A generated tree of up to 10 objects, then up to 25 operations, a third of them hard links (also to directories, to links, onto existing names, on file systems that don't support them): "+
		"both names are the same object, with the same contents and stat, until the last one is removed. Non-trivial: a file had several names.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{true, true, true, true, true}, linkless: pbt.Int(0, 9).Draw(c.T, "linkless") == 0})
		w.populate(10, pbt.Int(0, 2).Draw(c.T, "links") == 0)
		ops := append([]func(*world) op{(*world).opLink, (*world).opLink, (*world).opLink, (*world).opLink, (*world).opWriteFile, (*world).opAttr,
			(*world).opSameFile, (*world).opSameFile, (*world).opReadDir, whileOpen((*world).opLink), whileOpen((*world).opAttr), whileOpen((*world).opRemove)}, treeOps...)
		for i := pbt.Int(1, 25).Draw(c.T, "steps"); i > 0; i-- {
			w.run(w.one(ops...))
			names := map[*mnode]int{}
			for _, p := range w.m.paths() {
				n := w.m.noFollow(p).n
				names[n]++
				if names[n] > 1 {
					c.NonTrivial(true)
				}
			}
		}
	})
}

// savedInfo is a FileInfo that was obtained earlier, and the object it was for.
type savedInfo struct {
	fi os.FileInfo
	n  *node
	p  string
}

// foreignInfo is file information that doesn't come from the file system.
type foreignInfo struct {
	os.FileInfo
	sys any
}

func (i foreignInfo) Sys() any { return i.sys }

// foreignInfo makes file information like another, but for an object that isn't
// in the file system.
func (w *world) foreignInfo(like os.FileInfo) os.FileInfo {
	c := w.c
	st := like.Sys().(disko.FileStat)
	switch rapid.SampledFrom([]string{"real", "empty", "pointer", "device", "device", "name"}).Draw(c.T, "foreign") {
	case "real":
		info, err := os.Stat(".")
		if err != nil {
			c.Fatalf("os.Stat: %v", err)
		}
		return info
	case "empty":
		return foreignInfo{like, nil}
	case "pointer":
		return foreignInfo{like, &syscall.Stat_t{Ino: st.InodeNumber}}
	case "name":
		return foreignInfo{like, like.Name()}
	}
	st.DeviceID = rapid.SampledFrom([]uint64{0, 1, st.DeviceID + 1, st.DeviceID | 1<<32, st.DeviceID | 1<<63}).Draw(c.T, "device")
	return foreignInfo{like, st}
}

// opSameFile compares two objects using the results of Stat of open files, now
// or before some of the other operations, and of directory listings.
func (w *world) opSameFile() op {
	c := w.c
	p := w.pathTo(rapid.SampledFrom([]byte{'f', 'f', 'd'}).Draw(c.T, "of"))
	q := savedInfo{p: "of all objects seen so far"}
	fresh := savedInfo{p: p}
	if len(w.infos) > 0 && pbt.Int(0, 3).Draw(c.T, "with") > 0 {
		q = rapid.SampledFrom(w.infos).Draw(c.T, "older")
	}
	return op{
		desc: "SameFile of " + p + " and " + q.p,
		model: func(m *model) []error {
			_, e := m.open(m.norm(p), disko.O_RDONLY, 0)
			return e
		},
		run: func() error {
			f, err := w.drv.Open(p)
			if err != nil {
				return err
			}
			defer f.Close()
			fresh.fi, err = f.Stat()
			return err
		},
		check: func(m *model) {
			fresh.n = w.nodeAt(m.follow(m.norm(p)).path())
			fresh.p = "the former " + p
			with := []savedInfo{q}
			if q.fi == nil {
				with = append([]savedInfo{fresh}, w.infos...)
			}
			for _, x := range with {
				var same, other bool
				c.Call("SameFile", func() { same, other = w.drv.SameFile(fresh.fi, x.fi), w.drv.SameFile(x.fi, fresh.fi) })
				if want := fresh.n == x.n; same != want || other != want {
					c.Fatalf("SameFile of %s and %s is %v, the other way round %v", p, x.p, same, other)
				}
				c.LabelIf(fresh.n == x.n && fresh.fi.Sys() != x.fi.Sys(), "same file, different Stat")
			}
			w.infos = append(w.infos, fresh)
			foreign := w.foreignInfo(fresh.fi)
			var same, other bool
			c.Call("SameFile", func() { same, other = w.drv.SameFile(fresh.fi, foreign), w.drv.SameFile(foreign, fresh.fi) })
			if same || other {
				c.Fatalf("SameFile of %s and file information from elsewhere (%T %+v) is %v, the other way round %v", p, foreign.Sys(), foreign.Sys(), same, other)
			}
		},
		needs: never,
	}
}

func TestD10_Attributes(t *testing.T) {
	pbt.Check(t, 15000, 400000, "A generated tree of up to 14 objects, some of them links, on file systems that support various attributes and timestamps or none. Up to 15 Chmod, Chown, Lchown, Chtimes and File.Chmod/Chown calls: "+
		"the right object (links followed except by Lchown) gets exactly these values, nothing else changes, unsupported operations fail. Non-trivial: an attribute was changed.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{true, true, true, true, true}})
		w.fs.attrs = pbt.Int(0, 5).Draw(c.T, "attributes") > 0
		w.fs.features.HasAccessedTime = rapid.Bool().Draw(c.T, "atime")
		w.fs.features.HasModifiedTime = rapid.Bool().Draw(c.T, "mtime")
		w.fs.features.HasChangedTime = rapid.Bool().Draw(c.T, "ctime")
		w.populate(14, true)
		for i := pbt.Int(1, 15).Draw(c.T, "steps"); i > 0; i-- {
			o := w.one((*world).opAttr, (*world).opAttr, (*world).opFileAttrs, (*world).opChdir, whileOpen((*world).opAttr))
			w.fs.chtimes = nil
			n := len(w.fs.breaches)
			w.run(o)
			if got := w.drv.GetFSFeatures(); !reflect.DeepEqual(got, w.fs.features) {
				c.Fatalf("GetFSFeatures() = %+v, but the file system has %+v", got, w.fs.features)
			}
			for i, ts := range w.fs.chtimes {
				if i != 1 && i != 2 && !ts.IsZero() {
					c.Fatalf("%s sets timestamp %d to %s", o.desc, i, ts)
				}
			}
			if len(w.fs.breaches) > n {
				c.Fatalf("%s: %s", o.desc, w.fs.breaches[n])
			}
		}
		c.NonTrivial(w.succeeded > 0)
	})
}
