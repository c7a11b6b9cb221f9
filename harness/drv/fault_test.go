package drv

import (
	"errors"
	"os"
	"slices"
	"strings"
	"testing"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"github.com/dargueta/disko/file_systems/common"
	"pgregory.net/rapid"
)

// fromFS makes a model of what the file system contains.
func (w *world) fromFS() *model {
	m := newModel()
	m.cwd = w.m.cwd
	seen := map[*node]*mnode{}
	var walk func(o *node, parent *mnode, name string) *mnode
	walk = func(o *node, parent *mnode, name string) *mnode {
		if seen[o] != nil {
			return seen[o]
		}
		n := &mnode{kind: 'f', uid: o.uid, gid: o.gid, parent: parent, name: name}
		seen[o] = n
		n.perm = permOf(o)
		n.atime, n.mtime = o.atime, o.mtime
		switch {
		case o.mode.IsDir():
			n.kind = 'd'
			n.kids = map[string]*mnode{}
			for _, k := range pbt.SortedKeys(o.kids) {
				n.kids[k] = walk(o.kids[k], n, k)
			}
		case isLink(o):
			n.kind, n.text = 'l', string(o.contents())
		case kindOf(o) == 's':
			n.kind, n.typ = 's', o.mode&os.ModeType
		default:
			n.data = append([]byte{}, o.contents()...)
		}
		return n
	}
	m.root = walk(w.fs.root, nil, "")
	return m
}

// faulted performs an operation during which an access may fail.
func (w *world) faulted(o op) {
	c := w.c
	before := w.m
	m2 := w.m.clone()
	want := o.model(m2)
	w.arm()
	w.fs.calls = 0
	var err error
	c.Call(o.desc, func() { err = o.run() })
	what := w.fs.delivered
	w.disarm()
	unspec := len(want) == 1 && want[0] == unspecified[0]
	if what == "" {
		c.AddDesc("; %s", o.desc)
	} else {
		c.AddDesc("; %s (%s fails)", o.desc, what)
		c.Label("failed " + what)
		c.NonTrivial(true)
	}
	switch {
	case err == nil && unspec:
	case err == nil:
		if len(want) > 0 {
			c.Fatalf("%s succeeded instead of failing with %q", o.desc, want[0])
		}
		// The effect must be the entire one, even if something failed that
		// wasn't needed.
		w.m = m2
		if o.check != nil {
			o.check(m2)
		}
	case what == "":
		if !unspec {
			w.expect(o.desc, err, want...)
		}
	default:
		ok := errors.Is(err, errInjected) || unspec
		for _, e := range want {
			ok = ok || e == anyError || errors.Is(err, e)
		}
		if !ok {
			c.Fatalf("%s reports %q instead of the failure of %s", o.desc, err, what)
		}
		after := w.fromFS()
		w.checkPartial(o, what, before, after)
		w.m = after
		// With the storage working again, so does the driver.
		w.run(o)
		return
	}
	w.compare(o.desc)
}

// checkPartial checks that a failed operation left alone what it has nothing to
// do with.
func (w *world) checkPartial(o op, what string, before, after *model) {
	c := w.c
	if got, err := w.drv.Getwd(); err != nil || got != before.cwd {
		c.Fatalf("%s (%s fails) changed the working directory to %q", o.desc, what, got)
	}
	paths := map[string]bool{}
	for _, p := range append(before.paths(), after.paths()...) {
		paths[p] = true
	}
	touched := map[*mnode]bool{} // files that may have changed, under all names
	for _, p := range before.paths() {
		if o.touches != nil && o.touches(p) {
			touched[before.noFollow(p).n] = true
		}
	}
	for _, p := range pbt.SortedKeys(paths) {
		if o.touches != nil && o.touches(p) {
			continue
		}
		a, b := before.noFollow(p).n, after.noFollow(p).n
		switch {
		case a == nil:
			c.Fatalf("%s (%s fails): there's now %s", o.desc, what, p)
		case b == nil:
			c.Fatalf("%s (%s fails): %s is gone", o.desc, what, p)
		case touched[a] && a.kind == 'f' && b.kind == 'f':
		case a.kind != b.kind || a.typ != b.typ || string(a.data) != string(b.data) || a.text != b.text || a.perm != b.perm || a.uid != b.uid || a.gid != b.gid:
			c.Fatalf("%s (%s fails): %s changed", o.desc, what, p)
		}
	}
}

// arm makes one of the next accesses fail, usually.
func (w *world) arm() {
	c := w.c
	w.fs.delivered = ""
	w.fs.fault = errInjected
	w.fs.failWhat = rapid.SampledFrom([]string{"", "", "", "", "ReadBlocks", "WriteBlocks", "Resize", "Unlink", "ListDir", "CreateObject", "GetObject", "CreateHardLink"}).Draw(c.T, "what fails")
	most := 8
	if w.fs.failWhat != "" {
		most = 3
	}
	w.fs.failIn = pbt.Int(0, most).Draw(c.T, "fails after")
}

func (w *world) disarm() {
	w.fs.failIn, w.fs.delivered = 0, ""
	w.faulty = false
}

var faultOps = append([]func(*world) op{(*world).opAttr, (*world).opFileAttr, (*world).opWriteFile, (*world).opReadFile, (*world).opReadlink,
	(*world).opRemoveAll, (*world).opMkdirAll, (*world).opLink}, treeOps...)

func TestD11_Faults(t *testing.T) {
	pbt.Check(t, 12000, 300000, "A generated tree of up to 14 objects, then up to 12 operations, during most of which a generated access of the implementation fails (any of GetObject, CreateObject, CreateHardLink, ListDir, ReadBlocks, "+
		"WriteBlocks, Resize, Unlink, Chmod, Chown, Chtimes). The operation reports that error, or has had its entire effect. Whatever it doesn't concern is unchanged; the same operation then works as in the model. "+
		"Non-trivial: a fault was delivered.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{contents: true, perms: true, owners: true, links: true}})
		w.populate(14, rapid.Bool().Draw(c.T, "links"))
		for i := pbt.Int(1, 12).Draw(c.T, "steps"); i > 0; i-- {
			o := w.one(faultOps...)
			if o.touches == nil && len(o.desc) > 5 && o.desc[:5] == "Link(" {
				// Later writes would concern all names of the file.
				w.linkedFault(o)
				continue
			}
			w.faulted(o)
		}
	})
}

// linkedFault is faulted for hard links, which it removes afterwards.
func (w *world) linkedFault(o op) {
	before := w.m.clone()
	w.faulted(o)
	gone := before.paths()
	have := map[string]bool{}
	for _, p := range gone {
		have[p] = true
	}
	for _, p := range w.m.paths() {
		if !have[p] {
			f := w.m.noFollow(p)
			delete(f.dir.kids, f.name)
			o := w.fs.root
			for _, part := range comps(pathOf(f.dir)) {
				o = o.kids[part]
			}
			o.kids[f.name].nlink--
			delete(o.kids, f.name)
			return
		}
	}
}

func TestD11_Files(t *testing.T) {
	pbt.Check(t, 12000, 300000, "A file of up to 4 blocks is opened for writing, then up to 15 reads, writes, seeks, truncations and syncs, during most of which a generated access fails. Reported, and once the storage works again, Sync succeeds and the file system has "+
		"exactly what it must: the old contents with all that was reported as done. Non-trivial: a fault was delivered.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll})
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(giveUp); !ok {
					panic(p)
				}
			}
		}()
		w.plant(w.m.root, w.fs.root, "f", &mnode{kind: 'f', perm: 0o644, data: w.drawData("file", 4*w.fs.bs)})
		flags := disko.O_RDWR | rapid.SampledFrom([]disko.IOFlags{0, 0, disko.O_APPEND, disko.O_SYNC}).Draw(c.T, "flags")
		of := w.open("/f", flags)
		for i := pbt.Int(1, 15).Draw(c.T, "steps"); i > 0; i-- {
			w.arm()
			of.step()
			if w.fs.delivered != "" {
				c.Label("failed " + w.fs.delivered)
				c.NonTrivial(true)
			}
			w.disarm()
		}
		err := of.f.Sync()
		w.expect("Sync", err)
		of.synced("Sync")
		of.close()
	})
}

func TestD12_Handles(t *testing.T) {
	pbt.Check(t, 12000, 300000, "A generated tree of up to 14 objects, then up to 20 operations of all kinds, including ones that fail because of what is asked for and because a generated access of the implementation fails. "+
		"After each, all handles that the driver was given are closed, once, except those of open files. Non-trivial: operations failed.", func(c *pbt.C) {
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, linkless: pbt.Int(0, 5).Draw(c.T, "linkless") == 0})
		if pbt.Int(0, 5).Draw(c.T, "restricted") == 0 {
			w.mount(disko.MountFlags(pbt.Int(0, 31).Draw(c.T, "flags")))
		}
		w.fs.attrs = pbt.Int(0, 5).Draw(c.T, "attributes") > 0
		w.populate(14, rapid.Bool().Draw(c.T, "links"))
		type file struct {
			close func() error
			write func([]byte) (int, error)
		}
		open, closed := []file{}, []file{}
		for i := pbt.Int(1, 20).Draw(c.T, "steps"); i > 0; i-- {
			var desc string
			var err error
			switch k := pbt.Int(0, 7).Draw(c.T, "kind"); {
			case k == 0:
				p, flags := w.pathTo('f'), w.openFlags()
				desc = "OpenFile of " + p
				w.arm()
				c.Call(desc, func() {
					f, e := w.drv.OpenFile(p, flags, 0o644)
					err = e
					if e == nil {
						open = append(open, file{f.Close, f.Write})
					}
				})
			case k == 1 && len(open) > 0:
				desc = "Close"
				w.arm()
				if pbt.Int(0, 1).Draw(c.T, "at once") == 0 {
					w.fs.failWhat, w.fs.failIn = "", 1
				}
				c.Call(desc, func() { err = open[0].close() })
				c.LabelIf(err != nil, "Close failed")
				open, closed = open[1:], append(closed, open[0])
			case k == 2 && len(open) > 0:
				desc = "Write"
				if pbt.Int(0, 2).Draw(c.T, "fault") == 0 {
					w.arm()
				}
				c.Call(desc, func() { _, err = open[0].write(w.drawData("data", 2*w.fs.bs)) })
			case (k == 1 || k == 3) && len(closed) > 0:
				desc = "Close of a closed file"
				f := closed[len(closed)-1]
				if k == 1 {
					f = rapid.SampledFrom(closed).Draw(c.T, "closed")
				}
				c.Call(desc, func() { err = f.close() })
				if !errors.Is(err, disko.ErrFileDescriptorBadState) {
					c.Fatalf("%s: %v", desc, err)
				}
				c.Label("closed again")
			default:
				o := w.one(contractOps...)
				desc = o.desc
				if pbt.Int(0, 1).Draw(c.T, "fault") == 0 {
					w.arm()
				}
				c.Call(desc, func() { err = o.run() })
			}
			w.c.AddDesc("; %s", desc)
			if w.fs.delivered != "" {
				c.Label("failed " + w.fs.delivered)
				c.AddDesc(" (%s fails)", w.fs.delivered)
			}
			w.disarm()
			c.NonTrivial(err != nil)
			w.m = w.fromFS()
			if cwd, e := w.drv.Getwd(); e == nil {
				w.m.cwd = cwd
			}
			if len(w.fs.open) != len(open) {
				for h := range w.fs.open {
					c.Logf("open: %s", h)
				}
				c.Fatalf("after %s (error: %v), %d handles are open with %d files open", desc, err, len(w.fs.open), len(open))
			}
			for _, b := range w.fs.breaches {
				if isHandleBreach(b) {
					c.Fatalf("%s (error: %v): %s", desc, err, b)
				}
			}
		}
	})
}

// bareHandle is a handle without any implementation of its own.
type bareHandle struct{ driver.NopObjectHandle }

// checkBare calls a method of a handle that doesn't implement anything.
func checkBare(c *pbt.C) string {
	var h any = bareHandle{}
	if rapid.Bool().Draw(c.T, "pointer") {
		h = &bareHandle{}
	}
	oh, ok := h.(disko.ObjectHandle)
	if !ok {
		c.Fatalf("a handle that embeds NopObjectHandle isn't an ObjectHandle")
	}
	num := func(what string) int { return pbt.Int(0, 1<<40).Draw(c.T, what) }
	stamp := func(what string) time.Time { return time.Unix(int64(num(what)), 0) }
	buf := make([]byte, pbt.Int(0, 3).Draw(c.T, "blocks")*512)
	method := rapid.SampledFrom([]string{"Stat", "Name", "SameAs", "Resize", "ReadBlocks", "WriteBlocks", "ZeroOutBlocks", "Unlink", "Close", "ListDir", "Chmod", "Chown", "Chtimes"}).Draw(c.T, "method")
	var err error = disko.ErrNotImplemented
	c.Call(method+" of a NopObjectHandle", func() {
		switch method {
		case "Stat":
			if st := oh.Stat(); st != (disko.FileStat{}) {
				c.Fatalf("Stat = %+v", st)
			}
		case "Name":
			if name := oh.Name(); name != "" {
				c.Fatalf("Name = %q", name)
			}
		case "SameAs":
			if oh.SameAs(&bareHandle{}) {
				c.Fatalf("SameAs another handle")
			}
		case "Resize":
			err = oh.Resize(uint64(num("size")))
		case "ReadBlocks":
			err = oh.ReadBlocks(common.LogicalBlock(num("block")), buf)
		case "WriteBlocks":
			err = oh.WriteBlocks(common.LogicalBlock(num("block")), buf)
		case "ZeroOutBlocks":
			err = oh.ZeroOutBlocks(common.LogicalBlock(num("block")), uint(num("count")))
		case "Unlink":
			err = oh.Unlink()
		case "Close":
			err = oh.Close()
		case "ListDir":
			var names []string
			if x, ok := h.(disko.SupportsListDirHandle); ok {
				names, err = x.ListDir()
			}
			if len(names) > 0 {
				c.Fatalf("ListDir = %q", names)
			}
		case "Chmod":
			if x, ok := h.(disko.SupportsChmodHandle); ok {
				err = x.Chmod(os.FileMode(num("mode") & 0o777))
			}
		case "Chown":
			if x, ok := h.(disko.SupportsChownHandle); ok {
				err = x.Chown(num("uid"), num("gid"))
			}
		case "Chtimes":
			x, ok := h.(disko.SupportsChtimesHandle)
			if !ok {
				c.Fatalf("NopObjectHandle has no Chtimes as implementations do")
			}
			err = x.Chtimes(stamp("created"), stamp("accessed"), stamp("modified"), stamp("changed"), stamp("deleted"))
		}
	})
	if !errors.Is(err, disko.ErrNotImplemented) {
		c.Fatalf("%s of a NopObjectHandle reports %v", method, err)
	}
	for _, b := range buf {
		if b != 0 {
			c.Fatalf("%s of a NopObjectHandle changes the buffer", method)
		}
	}
	return method
}

func TestD13_Partial(t *testing.T) {
	pbt.Check(t, 15000, 400000, "Calls of the methods of handles that are nothing but a NopObjectHandle. A generated tree of up to 12 objects on a file system whose handles have a generated set of 1-4 methods from NopObjectHandle, then up to 15 operations of all kinds: "+
		"those that don't need any of these methods work as usual, all others are reported as not implemented, leave alone what they have nothing to do with, and nothing panics. Non-trivial: a missing method was needed.", func(c *pbt.C) {
		for i := pbt.Int(1, 4).Draw(c.T, "bare calls"); i > 0; i-- {
			c.AddDesc(" bare %s", checkBare(c))
		}
		w := newWorld(c, options{flags: disko.MountFlagsAllowAll, cmp: aspects{true, true, true, true, true}})
		w.populate(12, rapid.Bool().Draw(c.T, "links"))
		w.fs.missingMethods = map[string]bool{}
		for i := pbt.Int(1, 4).Draw(c.T, "missing methods"); i > 0; i-- {
			w.fs.missingMethods[rapid.SampledFrom([]string{"Resize", "ReadBlocks", "WriteBlocks", "ZeroOutBlocks", "Unlink", "Close", "ListDir", "Chmod", "Chown", "Chtimes"}).Draw(c.T, "missing")] = true
		}
		c.AddDesc(" without %q", pbt.SortedKeys(w.fs.missingMethods))
		for i := pbt.Int(1, 15).Draw(c.T, "steps"); i > 0; i-- {
			o := w.one(contractOps...)
			before, m2 := w.m, w.m.clone()
			want := o.model(m2)
			w.fs.nopCalls, w.fs.calls = nil, 0
			var err error
			c.Call(o.desc, func() { err = o.run() })
			needed := ""
			for _, m := range w.fs.nopCalls {
				if m != "Close" {
					needed = m
				}
			}
			unspec := len(want) == 1 && want[0] == unspecified[0]
			if needed == "" && slices.Contains(w.fs.nopCalls, "Close") && errors.Is(err, disko.ErrNotImplemented) {
				needed = "Close" // may be reported, but needn't be
			}
			if needed == "" {
				c.AddDesc("; %s", o.desc)
				if !unspec {
					w.expect(o.desc, err, want...)
				}
				if err == nil && !unspec {
					w.m = m2
					if o.check != nil {
						o.check(m2)
					}
				}
				w.compare(o.desc)
				continue
			}
			c.AddDesc("; %s (no %s)", o.desc, needed)
			c.Label("missing " + needed)
			c.NonTrivial(true)
			ok := errors.Is(err, disko.ErrNotImplemented) || unspec
			for _, e := range want {
				ok = ok || err != nil && (e == anyError || errors.Is(err, e))
			}
			if !ok {
				c.Fatalf("%s reports %v although there's no %s", o.desc, err, needed)
			}
			if needed == "Close" {
				// By then everything was done.
				if len(want) == 0 {
					w.m = m2
				}
				w.compare(o.desc)
				continue
			}
			after := w.fromFS()
			w.checkPartial(o, "no "+needed+", which", before, after)
			w.m = after
		}
	})
}

func permOf(o *node) os.FileMode { return o.mode &^ os.ModeType }

// kindOf gives the kind that the model has for an object.
func kindOf(o *node) byte {
	switch o.mode & os.ModeType {
	case 0:
		return 'f'
	case os.ModeDir:
		return 'd'
	case os.ModeSymlink:
		return 'l'
	}
	return 's'
}

func isLink(o *node) bool { return o.mode&os.ModeSymlink != 0 }

func isHandleBreach(b string) bool { return strings.Contains(b, "closed") }
