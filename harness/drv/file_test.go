package drv

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"strconv"
	"strings"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"pgregory.net/rapid"
)

// openFile is an open file and what it must contain.
type openFile struct {
	w       *world
	f       *driver.File
	o       *node
	path    string
	flags   disko.IOFlags
	data    []byte
	pos     int64
	dirty   bool // the file system may not have everything yet
	wrote   bool
	changed bool // in this step
}

// open opens a file that isn't open, or returns nil.
func (w *world) open(abs string, flags disko.IOFlags) *openFile {
	m2 := w.m.clone()
	n, want := m2.open(abs, flags, 0o640)
	desc := fmt.Sprintf("OpenFile(%q, %s)", abs, flagNames(flags))
	var f driver.File
	var err error
	w.c.Call(desc, func() { f, err = w.drv.OpenFile(abs, flags, 0o640) })
	w.expect(desc, err, want...)
	if want != nil {
		return nil
	}
	w.m = m2
	of := &openFile{w: w, f: &f, o: w.nodeAt(w.m.follow(abs).path()), path: abs, flags: flags, data: append([]byte{}, n.data...), dirty: flags&disko.O_TRUNC != 0}
	if n.kind == 'd' {
		of.data = append([]byte{}, of.o.contents()...)
	}
	return of
}

func (of *openFile) modelWrite(data []byte, at int64) {
	if end := at + int64(len(data)); end > int64(len(of.data)) && len(data) > 0 {
		of.data = append(of.data, make([]byte, end-int64(len(of.data)))...)
	}
	if len(data) > 0 {
		copy(of.data[at:], data)
		of.dirty, of.wrote, of.changed = true, true, true
	}
}

func (of *openFile) modelTruncate(size int64) {
	if size <= int64(len(of.data)) {
		of.data = of.data[:size:size]
	} else {
		of.data = append(of.data, make([]byte, size-int64(len(of.data)))...)
	}
	of.dirty, of.wrote, of.changed = true, true, true
}

// synced checks what the file system has after everything was written out.
func (of *openFile) synced(after string) {
	if !bytes.Equal(of.o.contents(), of.data) {
		of.w.c.Fatalf("after %s, the file system has %s instead of %s", after, pbt.Short(of.o.contents()), pbt.Short(of.data))
	}
	w := of.w
	w.m.follow(of.path).n.data = append([]byte{}, of.data...)
	of.dirty = false
}

// errFor tells if an operation may fail, and does.
func (of *openFile) failed(desc string, err error, allowed bool) bool {
	w := of.w
	if !allowed {
		w.c.AddDesc("; %s", desc)
		if !errors.Is(err, disko.ErrNotPermitted) {
			w.c.Fatalf("%s on a file opened with %s: %v instead of an error", desc, flagNames(of.flags), err)
		}
		return true
	}
	if w.fs.delivered != "" {
		if err != nil {
			w.c.AddDesc("; %s fails (%s)", desc, w.fs.delivered)
			if !errors.Is(err, errInjected) {
				w.c.Fatalf("%s reports %v instead of the injected error of %s", desc, err, w.fs.delivered)
			}
			return true
		}
		w.c.Fatalf("%s succeeded although %s failed", desc, w.fs.delivered)
	}
	w.expect(desc, err)
	return false
}

// step does one thing with an open file.
func (of *openFile) step() {
	w, c := of.w, of.w.c
	bs := w.fs.bs
	of.changed = false
	w.fs.calls = 0
	readable, writable := canRead(of.flags), canWrite(of.flags)
	at := int64(pbt.Int(0, len(of.data)+2*bs).Draw(c.T, "at"))
	switch rapid.SampledFrom([]string{"write", "write", "write", "writeat", "writeat", "writestring", "readfrom", "read", "read", "readat", "seek", "seek",
		"truncate", "truncate", "stat", "sync", "attribute"}).Draw(c.T, "step") {
	case "write", "writestring", "readfrom", "writeat":
		data := w.drawData("data", 3*bs+1)
		how := pbt.Int(0, 3).Draw(c.T, "how")
		pos := of.pos
		if of.flags&disko.O_APPEND != 0 {
			pos = int64(len(of.data))
		}
		var n int
		var err error
		desc := fmt.Sprintf("%d.Write(%d at %d)", of.o.id, len(data), pos)
		c.Call(desc, func() {
			switch how {
			case 0:
				n, err = of.f.WriteString(string(data))
			case 1:
				desc = fmt.Sprintf("%d.ReadFrom(%d at %d)", of.o.id, len(data), pos)
				var n64 int64
				n64, err = of.f.ReadFrom(struct{ io.Reader }{bytes.NewReader(data)})
				n = int(n64)
			case 2:
				if of.flags&disko.O_APPEND != 0 {
					n, err = of.f.Write(data)
					break
				}
				desc = fmt.Sprintf("%d.WriteAt(%d at %d)", of.o.id, len(data), at)
				pos = at
				n, err = of.f.WriteAt(data, at)
			default:
				n, err = of.f.Write(data)
			}
		})
		fail := of.failed(desc, err, writable)
		if n < 0 || n > len(data) || !fail && n != len(data) {
			c.Fatalf("%s returned %d", desc, n)
		}
		if !writable {
			return
		}
		if how == 1 && fail {
			// What was read but couldn't be written is counted by ReadFrom, so
			// it can't be told what was written. Trust the size.
			if d := int(of.f.Size() - int64(len(of.data))); d >= 0 && pos == int64(len(of.data)) {
				n = min(n, d)
			} else {
				panic(giveUp{})
			}
		}
		of.modelWrite(data[:n], pos)
		if desc[0] != '?' && how != 2 || of.flags&disko.O_APPEND != 0 {
			if n > 0 || of.flags&disko.O_APPEND != 0 && !fail {
				of.pos = pos + int64(n)
			}
			if of.flags&disko.O_APPEND != 0 && fail {
				of.pos = of.f.Tell()
			}
		}
	case "read", "readat":
		buf := make([]byte, pbt.Int(0, 3*bs+1).Draw(c.T, "bytes"))
		positioned := rapid.Bool().Draw(c.T, "positioned")
		pos := of.pos
		if positioned {
			pos = at
		}
		desc := fmt.Sprintf("%d.Read(%d at %d)", of.o.id, len(buf), pos)
		var n int
		var err error
		c.Call(desc, func() {
			if positioned {
				n, err = of.f.ReadAt(buf, at)
			} else {
				n, err = of.f.Read(buf)
			}
		})
		want := min(len(buf), max(0, len(of.data)-int(pos)))
		if err == io.EOF && readable && w.fs.delivered == "" {
			if want == len(buf) && want > 0 {
				c.Fatalf("%s reports the end of the file after %d bytes", desc, n)
			}
			err = nil
		} else if err == nil && want < len(buf) && readable {
			c.Fatalf("%s doesn't report the end of the file", desc)
		}
		if of.failed(desc, err, readable) {
			if n != 0 && w.fs.delivered == "" {
				c.Fatalf("%s returned %d", desc, n)
			}
			return
		}
		if n != want || want > 0 && !bytes.Equal(buf[:n], of.data[pos:pos+int64(n)]) {
			c.Fatalf("%s = %s, expected %d bytes of %s", desc, pbt.Short(buf[:n]), want, pbt.Short(of.data))
		}
		if !positioned {
			of.pos += int64(n)
		}
	case "seek":
		whence := rapid.SampledFrom([]int{io.SeekStart, io.SeekCurrent, io.SeekEnd}).Draw(c.T, "whence")
		off := at - map[int]int64{io.SeekStart: 0, io.SeekCurrent: of.pos, io.SeekEnd: int64(len(of.data))}[whence]
		got, err := of.f.Seek(off, whence)
		desc := fmt.Sprintf("%d.Seek(%d, %d)", of.o.id, off, whence)
		w.expect(desc, err)
		if got != at {
			c.Fatalf("%s = %d instead of %d", desc, got, at)
		}
		of.pos = at
	case "truncate":
		desc := fmt.Sprintf("%d.Truncate(%d)", of.o.id, at)
		var err error
		c.Call(desc, func() { err = of.f.Truncate(at) })
		if of.failed(desc, err, writable) {
			if !writable || of.f.Size() != at {
				return
			}
		}
		of.modelTruncate(at)
	case "attribute":
		if w.faulty || !w.fs.attrs {
			return
		}
		if of.attribute(); w.fs.delivered != "" {
			return
		}
		fallthrough
	case "stat":
		of.stat()
	case "sync":
		var err error
		desc := fmt.Sprintf("%d.Sync()", of.o.id)
		c.Call(desc, func() { err = of.f.Sync() })
		if !of.failed(desc, err, true) {
			of.synced(desc)
		}
	}
	if of.flags&disko.O_SYNC != 0 && of.changed && w.fs.delivered == "" {
		of.synced("a change with O_SYNC")
	}
	if !of.w.faulty && of.f.Tell() != of.pos {
		c.Fatalf("the position is %d instead of %d", of.f.Tell(), of.pos)
	}
	of.pos = of.f.Tell()
}

// stat checks what Stat says.
func (of *openFile) stat() {
	w, c := of.w, of.w.c
	info, err := of.f.Stat()
	w.expect(fmt.Sprintf("%d.Stat()", of.o.id), err)
	if info.Size() != int64(len(of.data)) || of.f.Size() != int64(len(of.data)) {
		c.Fatalf("Stat().Size() = %d, Size() = %d instead of %d", info.Size(), of.f.Size(), len(of.data))
	}
	f := w.m.follow(of.path)
	name := f.name
	if f.dir == nil {
		name = "/"
	}
	if of.f.Name() != name || info.Mode() != of.o.mode || info.IsDir() != of.o.mode.IsDir() || !info.ModTime().Equal(of.o.mtime) {
		c.Fatalf("Name() = %q, mode %s, modified %s; expected %q, %s, %s", of.f.Name(), info.Mode(), info.ModTime(), name, of.o.mode, of.o.mtime)
	}
	if info.Name() != name {
		c.Fatalf("Stat().Name() = %q instead of %q", info.Name(), name)
	}
	if entry, ok := info.(disko.DirectoryEntry); ok {
		// Which is documented to be possible.
		again, err := entry.Info()
		if err != nil || again == nil || again.Size() != info.Size() || again.Mode() != info.Mode() || again.Name() != name || entry.Type()&os.ModeType != info.Mode()&os.ModeType ||
			entry.Stat() != info.Sys() {
			c.Fatalf("as a directory entry, Stat() is %v, %v, %s, %+v", again, err, entry.Type(), entry.Stat())
		}
	}
	want := w.statOf(of.o)
	st, ok := info.Sys().(disko.FileStat)
	want.Size, want.NumBlocks = int64(len(of.data)), st.NumBlocks
	if !ok || st != want {
		c.Fatalf("Stat().Sys() = %+v instead of %+v", info.Sys(), want)
	}
}

// attribute changes an attribute of the file, which Stat shows at once.
func (of *openFile) attribute() {
	w, c := of.w, of.w.c
	n := w.m.follow(of.path).n
	want, old := w.statOf(of.o), *n
	before := want
	mode, uid, gid := w.perm(), w.id("uid"), w.id("gid")
	at, mt := w.stamp("atime"), w.stamp("mtime")
	var desc string
	var run func() error
	switch rapid.SampledFrom([]string{"f.Chmod", "f.Chown", "Chmod", "Chown", "Chtimes"}).Draw(c.T, "attribute") {
	case "f.Chmod":
		n.perm, want.ModeFlags = mode, mode|want.ModeFlags&os.ModeType
		desc = fmt.Sprintf("%d.Chmod(%o)", of.o.id, uint32(mode))
		run = func() error { return of.f.Chmod(mode) }
	case "f.Chown":
		n.own(uid, gid)
		want.Uid, want.Gid = uint32(n.uid), uint32(n.gid)
		desc = fmt.Sprintf("%d.Chown(%d, %d)", of.o.id, uid, gid)
		run = func() error { return of.f.Chown(uid, gid) }
	case "Chmod":
		n.perm, want.ModeFlags = mode, mode|want.ModeFlags&os.ModeType
		desc = fmt.Sprintf("Chmod(%q, %o)", of.path, uint32(mode))
		run = func() error { return w.drv.Chmod(of.path, mode) }
	case "Chown":
		n.own(uid, gid)
		want.Uid, want.Gid = uint32(n.uid), uint32(n.gid)
		desc = fmt.Sprintf("Chown(%q, %d, %d)", of.path, uid, gid)
		run = func() error { return w.drv.Chown(of.path, uid, gid) }
	case "Chtimes":
		desc = fmt.Sprintf("Chtimes(%q, %s, %s)", of.path, at, mt)
		if !at.IsZero() && w.fs.features.HasAccessedTime {
			n.atime, want.LastAccessed = at, at
		}
		if !mt.IsZero() && w.fs.features.HasModifiedTime {
			n.mtime, want.LastModified = mt, mt
		}
		run = func() error { return w.drv.Chtimes(of.path, at, mt) }
	}
	var err error
	c.Call(desc, func() { err = run() })
	if of.failed(desc, err, true) {
		*n, want = old, before
	}
	if got := w.statOf(of.o); got != want {
		c.Fatalf("after %s: %+v instead of %+v", desc, got, want)
	}
}

// giveUp ends a case in which the outcome can't be known.
type giveUp struct{}

func (of *openFile) close() {
	w := of.w
	var err error
	desc := fmt.Sprintf("%d.Close()", of.o.id)
	w.fs.calls = 0
	if pbt.Int(0, 9).Draw(w.c.T, "close fails") == 0 {
		// What was written has arrived, but the implementation reports something.
		w.fs.failClose, w.fs.fault = true, errInjected
		w.c.Call(desc, func() { err = of.f.Close() })
		if !errors.Is(err, errInjected) {
			w.c.Fatalf("%s reports %v instead of the injected error", desc, err)
		}
		of.synced(desc)
		w.fs.delivered = ""
	} else if w.c.Call(desc, func() { err = of.f.Close() }); !of.failed(desc, err, true) {
		of.synced(desc)
	}
	// A file can be closed once only, even by another copy.
	if again := pbt.Int(0, 3).Draw(w.c.T, "close again"); again < 2 {
		f := of.f
		if again == 1 {
			copied := *f
			f = &copied
		}
		w.c.Call(desc+" again", func() { err = f.Close() })
		if !errors.Is(err, disko.ErrFileDescriptorBadState) {
			w.c.Fatalf("%s again: %v", desc, err)
		}
	}
}

func TestD03_Contents(t *testing.T) {
	pbt.Check(t, 15000, 400000, "Up to 5 files with generated contents on file systems with blocks of 1-512 bytes, which leave garbage in whatever isn't part of a file. Up to 30 operations: opening (up to 3 files at once) in all modes, "+
		"reading, writing, seeking, truncating, Sync, Stat, Close, and WriteFile, ReadFile, Truncate and Stat of files that aren't open. Everything read, counts, positions, and the exact bytes and sizes "+
		"that the file system has after Sync, Close and O_SYNC changes compared with byte slices. Non-trivial: an open file was written to and closed.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{contents: true}})
		names := nameAlphabet[:5]
		for _, name := range names {
			if rapid.Bool().Draw(c.T, "exists") {
				w.plant(w.m.root, w.fs.root, name, &mnode{kind: 'f', perm: 0o644, data: w.drawData("file", 4*w.fs.bs)})
			}
		}
		c.AddDesc(" %s", w.m)
		open := map[string]*openFile{}
		closeFile := func(of *openFile) {
			of.close()
			delete(open, of.path)
			c.NonTrivial(of.wrote)
		}
		for i := pbt.Int(1, 30).Draw(c.T, "steps"); i > 0; i-- {
			path := "/" + rapid.SampledFrom(names).Draw(c.T, "file")
			if len(open) > 0 && pbt.Int(0, 2).Draw(c.T, "one that's open") > 0 {
				path = rapid.SampledFrom(pbt.SortedKeys(open)).Draw(c.T, "open file")
			}
			of := open[path]
			switch {
			case of != nil && pbt.Int(0, 7).Draw(c.T, "close") == 0:
				closeFile(of)
			case of != nil:
				of.step()
			case len(open) < 3 && pbt.Int(0, 2).Draw(c.T, "open it") > 0:
				flags := w.openFlags()
				if pbt.Int(0, 1).Draw(c.T, "read and write") == 0 {
					flags = flags&^disko.O_ACCMODE | disko.O_RDWR
				}
				if of := w.open(path, flags); of != nil {
					open[path] = of
				}
			default:
				w.cmp.contents = false
				kind := rapid.SampledFrom([]func(*world, string) op{(*world).writeFile, (*world).readFile, (*world).truncate, (*world).stat}).Draw(c.T, "op")
				w.run(kind(w, path))
			}
			for _, name := range names {
				p := "/" + name
				n := w.m.root.kids[name]
				if of := open[p]; n == nil || of != nil && of.dirty {
					continue
				}
				if got := w.nodeAt(p).contents(); !bytes.Equal(got, n.data) {
					c.Fatalf("%s contains %s instead of %s", p, pbt.Short(got), pbt.Short(n.data))
				}
			}
		}
		for _, p := range pbt.SortedKeys(open) {
			closeFile(open[p])
		}
		w.cmp.contents = true
		w.compare("closing everything")
	})
}

// As above, with more blocks than 16 bits can count.
func TestD03_ManyBlocks(t *testing.T) {
	pbt.Check(t, 200, 5000, "A file of 50000-140000 blocks of 1-4 bytes is read, written to, extended and truncated in up to 8 operations, including WriteFile and ReadFile; compared with byte slices as above. "+
		"Non-trivial: it has more than 65536 blocks.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{contents: true}})
		w.fs.bs = rapid.SampledFrom([]int{1, 2, 4}).Draw(c.T, "small block size")
		w.fs.extraCalls = 2000000
		contents := func() []byte {
			out := make([]byte, pbt.Int(50000, 140000).Draw(c.T, "blocks")*w.fs.bs-pbt.Int(0, w.fs.bs-1).Draw(c.T, "unused"))
			seed := pbt.Byte().Draw(c.T, "fill")
			for i := range out {
				out[i] = seed + byte(i*3) + byte(i>>8) + byte(i>>16)*5
			}
			c.NonTrivial(len(out) > 65536*w.fs.bs)
			return out
		}
		w.plant(w.m.root, w.fs.root, "a", &mnode{kind: 'f', perm: 0o644, data: contents()})
		c.AddDesc(" bs=%d %s", w.fs.bs, w.m)
		for i := pbt.Int(1, 4).Draw(c.T, "rounds"); i > 0; i-- {
			switch pbt.Int(0, 3).Draw(c.T, "what") {
			case 0:
				w.run(w.readFile("/a"))
			case 1:
				w.run(w.writeData("/a", contents()))
			default:
				if of := w.open("/a", w.openFlags()); of != nil {
					for j := pbt.Int(1, 8).Draw(c.T, "steps"); j > 0; j-- {
						of.step()
					}
					of.close()
				}
			}
		}
		w.run(w.readFile("/a"))
		w.compare("everything")
	})
}

func (w *world) writeFile(p string) op {
	return w.writeData(p, w.drawData("data", 5*w.fs.bs))
}

func (w *world) writeData(p string, data []byte) op {
	return op{
		desc: fmt.Sprintf("WriteFile(%q, %d)", p, len(data)),
		model: func(m *model) []error {
			n, e := m.open(p, disko.O_WRONLY|disko.O_CREATE|disko.O_TRUNC, 0o600)
			if e == nil {
				n.data = append([]byte{}, data...)
			}
			return e
		},
		run: func() error { return w.drv.WriteFile(p, data, 0o600) },
	}
}

func (w *world) readFile(p string) op {
	var got []byte
	return op{
		desc:  fmt.Sprintf("ReadFile(%q)", p),
		model: func(m *model) []error { return m.follow(p).missing() },
		run:   func() (err error) { got, err = w.drv.ReadFile(p); return },
		check: func(m *model) {
			if want := m.follow(p).n.data; !bytes.Equal(got, want) {
				w.c.Fatalf("ReadFile(%q) = %s instead of %s", p, pbt.Short(got), pbt.Short(want))
			}
		},
	}
}

func (w *world) truncate(p string) op {
	return op{
		desc: fmt.Sprintf("Truncate(%q)", p),
		model: func(m *model) []error {
			f := m.follow(p)
			if f.n != nil {
				f.n.data = nil
			}
			return f.missing()
		},
		run: func() error { return w.drv.Truncate(p) },
	}
}

func (w *world) stat(p string) op {
	var got disko.FileStat
	return op{
		desc:  fmt.Sprintf("Stat(%q)", p),
		model: func(m *model) []error { return m.follow(p).missing() },
		run:   func() (err error) { got, err = w.drv.Stat(p); return },
		check: func(m *model) {
			if n := m.follow(p).n; got.Size != int64(len(n.data)) {
				w.c.Fatalf("Stat(%q).Size = %d instead of %d", p, got.Size, len(n.data))
			}
		},
	}
}

// opSession opens a file, does a few things with it and closes it.
func (w *world) opSession() string {
	f := w.m.norm(w.pathTo('f'))
	of := w.open(f, w.openFlags())
	if of == nil {
		return f
	}
	if of.o.mode.IsDir() {
		// What reading it gives isn't specified.
		of.stat()
		of.close()
		return f
	}
	for i := pbt.Int(0, 6).Draw(w.c.T, "accesses"); i > 0; i-- {
		of.step()
	}
	of.close()
	return f
}

var contractOps = append([]func(*world) op{(*world).opLink, (*world).opLink, (*world).opAttr, (*world).opAttr, (*world).opFileAttr, (*world).opReadlink}, treeOps...)

func TestD06_Contract(t *testing.T) {
	const finding = "getobject-nonexistent"
	pbt.Check(t, 12000, 300000, "A generated tree of up to 14 objects, links among them; up to 25 operations of all kinds including reading and writing files in all modes, on file systems with all sets of features. "+
		"The implementation gets only what its interface guarantees: its own handles, not closed, parents that are directories, names that are single components, creation only of what doesn't exist, block ranges inside "+
		"the object, whole blocks, no removal of directories that aren't empty, only permission bits, only timestamps it has. Non-trivial: objects were created, removed or written to.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll})
		ft := &w.fs.features
		for _, f := range []*bool{&ft.HasCreatedTime, &ft.HasAccessedTime, &ft.HasModifiedTime, &ft.HasChangedTime, &ft.HasDeletedTime, &ft.HasSymbolicLinks} {
			*f = rapid.Bool().Draw(c.T, "feature")
		}
		w.populate(14, rapid.Bool().Draw(c.T, "links"))
		for i := pbt.Int(1, 25).Draw(c.T, "steps"); i > 0; i-- {
			w.fs.missing = nil
			before := len(w.m.paths())
			var what string
			cwd := w.m.cwd
			if pbt.Int(0, 3).Draw(c.T, "session") == 0 {
				what = w.opSession()
				c.NonTrivial(true)
			} else {
				o := w.one(contractOps...)
				what = o.desc
				w.run(o)
			}
			c.NonTrivial(len(w.m.paths()) != before)
			if len(w.fs.breaches) > 0 {
				c.Fatalf("%s: %s", what, strings.Join(w.fs.breaches, "; "))
			}
			if len(w.fs.missing) > 0 {
				c.Label("GetObject of something nonexistent")
				// The finding is about components of the path that was given,
				// and of links on the way.
				where := what + " " + cwd
				for _, p := range w.m.paths() {
					where += " " + w.m.noFollow(p).n.text
				}
				for _, name := range w.fs.missing {
					if !pbt.Listed(finding) || !strings.Contains(where, name) && !strings.Contains(where, strings.Trim(strconv.Quote(name), `"`)) {
						c.Fatalf("%s: GetObject of %q, which doesn't exist", what, name)
					}
				}
				pbt.Known(finding)
			}
		}
	})
}

// dirFile is a directory's handle as a file of the driver needs it.
type dirFile struct {
	attrDirHandle
	path string
}

func (d dirFile) AbsolutePath() string { return d.path }

func TestD07_Paging(t *testing.T) {
	pbt.Check(t, 15000, 400000, "Directories of 0-12 objects, with and without '.' and '..', read through a file opened in various ways with a generated sequence of ReadDir, Readdir and Readdirnames calls with limits from -1 to 15: "+
		"every entry is delivered exactly once with the right information, no call returns more than asked for or nothing before the end, and the end is reported as io.EOF if and only if there was a limit. "+
		"Non-trivial: more than one call returned entries.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{links: true}})
		w.plant(w.m.root, w.fs.root, "d", &mnode{kind: 'd', perm: 0o755})
		dir, odir := w.m.root.kids["d"], w.fs.root.kids["d"]
		most := 12
		if pbt.Int(0, 49).Draw(c.T, "large") == 49 {
			most = 300
		}
		for i := pbt.Int(0, most).Draw(c.T, "objects"); i > 0; i-- {
			n := &mnode{kind: rapid.SampledFrom([]byte{'d', 'd', 'f', 'f', 'f', 'l', 's'}).Draw(c.T, "kind"), perm: w.perm(), data: w.drawData("file", 2*w.fs.bs)}
			if n.kind == 's' {
				n.typ = rapid.SampledFrom(specialTypes).Draw(c.T, "type")
			}
			n.text = "nowhere"
			w.plant(dir, odir, fmt.Sprintf("%s%d", w.name(), i), n)
		}
		// A directory has contents of its own, whatever they are.
		w.fs.setData(odir, make([]byte, pbt.Int(0, 100).Draw(c.T, "size")))
		var f driver.File
		var err error
		switch pbt.Int(0, 3).Draw(c.T, "opened with") {
		case 0:
			h := dirFile{w.fs.handleFor(odir, w.fs.root, "d").(attrDirHandle), "/d"}
			c.Call("NewFileFromObjectHandle", func() { f, err = driver.NewFileFromObjectHandle(w.drv, h, disko.O_RDONLY) })
		case 1:
			flags := w.openFlags() &^ (disko.O_ACCMODE | disko.O_CREATE | disko.O_TRUNC)
			c.Call("OpenFile", func() { f, err = w.drv.OpenFile("d", flags, 0) })
		case 2:
			w.plant(w.m.root, w.fs.root, "l", &mnode{kind: 'l', text: "d/."})
			c.Call("Open", func() { f, err = w.drv.Open("/l") })
		default:
			c.Call("Open", func() { f, err = w.drv.Open("/d") })
		}
		w.expect("open", err)
		total := len(dir.kids)
		left, pages := total, 0
		var got []disko.DirectoryEntry
		names := map[string]bool{}
		for {
			n := pbt.Int(-1, 4).Draw(c.T, "limit")
			if n == 4 {
				n = rapid.SampledFrom([]int{5, 8, 15, 64, 100, math.MaxInt, math.MinInt}).Draw(c.T, "large limit")
			}
			how := rapid.SampledFrom([]string{"ReadDir", "Readdir", "Readdirnames"}).Draw(c.T, "how")
			desc := fmt.Sprintf("%s(%d)", how, n)
			c.AddDesc(" %s", desc)
			page := []string{}
			c.Call(desc, func() {
				switch how {
				case "ReadDir":
					var es []os.DirEntry
					es, err = f.ReadDir(n)
					for _, e := range es {
						page = append(page, e.Name())
						de, ok := e.(disko.DirectoryEntry)
						if !ok {
							c.Fatalf("entry %q isn't a disko.DirectoryEntry", e.Name())
						}
						got = append(got, de)
					}
				case "Readdir":
					var is []os.FileInfo
					is, err = f.Readdir(n)
					for _, i := range is {
						page = append(page, i.Name())
						if k := dir.kids[i.Name()]; k != nil && (i.IsDir() != (k.kind == 'd') || i.Size() != w.fs.root.kids["d"].kids[i.Name()].size) {
							c.Fatalf("information about %q: directory %v, size %d", i.Name(), i.IsDir(), i.Size())
						}
					}
				default:
					page, err = f.Readdirnames(n)
				}
			})
			want := left
			if n > 0 {
				want = min(n, left)
			}
			if n > 0 && left == 0 {
				if err != io.EOF || len(page) > 0 {
					c.Fatalf("%s at the end returned %q and %v", desc, page, err)
				}
				break
			}
			if err != nil || len(page) != want {
				c.Fatalf("%s returned %d entries and %v with %d of %d left", desc, len(page), err, left, total)
			}
			for _, name := range page {
				if dir.kids[name] == nil || names[name] {
					c.Fatalf("%s returned %q, which isn't there or was returned before", desc, name)
				}
				names[name] = true
			}
			left -= len(page)
			if len(page) > 0 {
				pages++
			}
			if left == 0 && n <= 0 {
				break
			}
		}
		// What comes after the end isn't specified, except for this.
		for i := pbt.Int(0, 3).Draw(c.T, "more calls"); i > 0; i-- {
			n := pbt.Int(-1, 4).Draw(c.T, "limit")
			var more []string
			desc := fmt.Sprintf("Readdirnames(%d)", n)
			c.Call(desc, func() { more, err = f.Readdirnames(n) })
			if err != nil && (err != io.EOF || len(more) > 0) || n > 0 && len(more) > n {
				c.Fatalf("%s after the end returned %q and %v", desc, more, err)
			}
			for _, name := range more {
				if dir.kids[name] == nil {
					c.Fatalf("%s after the end returned %q", desc, name)
				}
			}
		}
		for _, e := range got {
			if e.Stat() != w.statOf(odir.kids[e.Name()]) || e.IsDir() != (dir.kids[e.Name()].kind == 'd') {
				c.Fatalf("%q: %+v instead of %+v", e.Name(), e.Stat(), w.statOf(odir.kids[e.Name()]))
			}
		}
		c.NonTrivial(pages > 1)
		c.Call("Close", func() { err = f.Close() })
		w.expect("Close", err)
		// The directory itself, all at once.
		w.run(op{
			desc:  "ReadDir",
			model: func(m *model) []error { return nil },
			run: func() error {
				es, err := w.drv.ReadDir("/d")
				if err == nil {
					w.checkEntries("ReadDir", w.m.root.kids["d"], "/d", es)
				}
				return err
			},
		})
	})
}

func TestD07_NotADirectory(t *testing.T) {
	pbt.Check(t, 3000, 30000, "ReadDir, Readdir and Readdirnames on a file, with limits from -1 to 3, fail. Non-trivial: all cases.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll})
		w.plant(w.m.root, w.fs.root, "f", &mnode{kind: 'f', perm: 0o644, data: w.drawData("file", 2*w.fs.bs)})
		of := w.open("/f", disko.O_RDONLY)
		n := pbt.Int(-1, 3).Draw(c.T, "limit")
		c.AddDesc(" %d", n)
		a, err1 := of.f.ReadDir(n)
		b, err2 := of.f.Readdir(n)
		d, err3 := of.f.Readdirnames(n)
		for _, e := range []error{err1, err2, err3} {
			if !errors.Is(e, disko.ErrNotADirectory) || len(a)+len(b)+len(d) > 0 {
				c.Fatalf("%v", []error{err1, err2, err3})
			}
		}
		c.NonTrivial(true)
		of.close()
	})
}
