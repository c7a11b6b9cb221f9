// Checks of the generic driver: put on a file system implementation that keeps
// exactly to the documented contract, it must behave like the os package.
package drv

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/driver"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// anyError stands for errors whose kind isn't specified.
var anyError = errors.New("any error")

var errInjected = disko.ErrIOFailed.WithMessage("injected fault")

// world is a driver on a memfs, and the model of what it must contain.
type world struct {
	c   *pbt.C
	fs  *memfs
	drv *driver.BaseDriver
	m   *model
	cmp aspects

	linkless bool // the implementation doesn't support hard links
	flags    disko.MountFlags
	// lenient: a fault may have been delivered, so errors are fine.
	faulty bool

	infos []savedInfo

	failed, succeeded, viaLink, cycles, dangling int
}

type options struct {
	linkless bool
	flags    disko.MountFlags
	cmp      aspects
}

func newWorld(c *pbt.C, o options) *world {
	bs := rapid.SampledFrom([]int{1, 4, 16, 64, 512}).Draw(c.T, "block size")
	if pbt.Int(0, 29).Draw(c.T, "large blocks") == 29 {
		bs = rapid.SampledFrom([]int{1000, 2048, 4096}).Draw(c.T, "large block size")
	}
	w := &world{c: c, fs: newMemfs(c, bs), m: newModel(), cmp: o.cmp, linkless: o.linkless, flags: o.flags}
	w.fs.dots = rapid.SampledFrom([][]string{nil, {".", ".."}, {"..", "."}, {".."}, {"."}}).Draw(c.T, "dots")
	w.fs.inodes = pbt.Int(0, 3).Draw(c.T, "inodes")
	w.mount(o.flags)
	c.Describe("bs=%d", bs)
	return w
}

func (w *world) mount(flags disko.MountFlags) {
	w.flags = flags
	if w.linkless {
		w.drv = driver.New(w.fs, flags)
	} else {
		w.drv = driver.New(linkfs{w.fs}, flags)
	}
}

var nameAlphabet = []string{"a", "b", "c", "dir", "long name with spaces", "x.y", "é", "...", "A"}

// oddNames are rarely used ones.
var oddNames = []string{"..x", "x..", ".hidden", ".a", "..a", "-", " ", "back\\slash", "*?", "a\nb", "\xff\xfe", "~", "C:", "%2f", "日本",
	strings.Repeat("n", 64), strings.Repeat("long", 70)}

var extraChars = []string{"\n", " ", "\t", "\r", "\r\n", ".", "..", "\\", "\"", "'", "\u00a0", "\ufeff", "\u0301"}

func (w *world) name() string {
	switch pbt.Int(0, 15).Draw(w.c.T, "odd") {
	case 14:
		return rapid.SampledFrom(oddNames).Draw(w.c.T, "odd name")
	case 15:
		// Something at an end that might be taken for insignificant.
		name := rapid.SampledFrom(nameAlphabet[:4]).Draw(w.c.T, "name")
		extra := rapid.SampledFrom(extraChars).Draw(w.c.T, "extra")
		if pbt.Int(0, 2).Draw(w.c.T, "in front") == 0 {
			return extra + name
		}
		return name + extra
	}
	return rapid.SampledFrom(nameAlphabet).Draw(w.c.T, "name")
}

// plant adds an object to file system and model without using the driver.
func (w *world) plant(dir *mnode, odir *node, name string, n *mnode) {
	var mode os.FileMode
	switch n.kind {
	case 'd':
		mode = os.ModeDir | n.perm
		n.kids = map[string]*mnode{}
		n.parent, n.name = dir, name
	case 'f':
		mode = n.perm
	case 's':
		mode = n.typ | n.perm
	case 'l':
		mode = os.ModeSymlink | 0o777
		n.perm = 0o777
	}
	n.uid, n.gid = 1, 1
	o := w.fs.newNode(mode, odir)
	if n.kind == 'l' {
		w.fs.setData(o, []byte(n.text))
	} else if n.kind == 'f' {
		w.fs.setData(o, n.data)
	} else if pbt.Int(0, 2).Draw(w.c.T, "has a size") == 0 {
		// That of a directory or special file means nothing to drivers.
		w.fs.setData(o, w.drawData("object", 2*w.fs.bs))
	}
	dir.kids[name] = n
	odir.kids[name] = o
}

// nodeAt finds the node of the file system at a path that exists, not
// following any links.
func (w *world) nodeAt(abs string) *node {
	n := w.fs.root
	for _, part := range comps(abs) {
		n = n.kids[part]
	}
	return n
}

func (w *world) drawData(what string, max int) []byte {
	n := pbt.Int(0, max).Draw(w.c.T, what+" size")
	if pbt.Int(0, 59).Draw(w.c.T, "many blocks") == 59 {
		n = pbt.Int(0, min(300*w.fs.bs, 200000)).Draw(w.c.T, what+" size in many blocks")
	}
	seed := pbt.Byte().Draw(w.c.T, what+" fill")
	out := make([]byte, n)
	for i := range out {
		out[i] = seed + byte(i*3) + byte(i>>8)
	}
	return out
}

// linkText makes the text of a symbolic link.
func (w *world) linkText() string {
	text := w.plainLinkText()
	if pbt.Int(0, 3).Draw(w.c.T, "dots") > 0 {
		return text
	}
	// Something that may lead elsewhere, if what's in front of it is a link.
	parts := strings.Split(text, "/")
	for i := pbt.Int(1, 3).Draw(w.c.T, "dots"); i > 0; i-- {
		at := pbt.Int(1, len(parts)).Draw(w.c.T, "at")
		detour := rapid.SampledFrom([][]string{{".."}, {".."}, {"."}, {""}, {"..", w.name()}, {w.name(), ".."}}).Draw(w.c.T, "detour")
		parts = append(append(append([]string{}, parts[:at]...), detour...), parts[at:]...)
	}
	for len(parts) > 1 && parts[len(parts)-1] == "" && parts[len(parts)-2] != "" || len(parts) > 2 && parts[len(parts)-1] == "" {
		parts = parts[:len(parts)-1] // What a slash at the end means isn't asserted.
	}
	return strings.Join(parts, "/")
}

// plainLinkText makes the text of a symbolic link, with ".." only in front.
func (w *world) plainLinkText() string {
	c := w.c
	existing := w.m.paths()
	var target string
	if len(existing) > 0 && pbt.Int(0, 4).Draw(c.T, "target") > 0 {
		target = rapid.SampledFrom(existing).Draw(c.T, "target path")
	} else {
		target = ""
		for i := pbt.Int(0, 3).Draw(c.T, "target depth"); i > 0; i-- {
			target += "/" + w.name()
		}
	}
	if pbt.Int(0, 3).Draw(c.T, "target suffix") == 0 {
		target += "/" + w.name()
	}
	switch pbt.Int(0, 3).Draw(c.T, "form") {
	case 0: // from here
		rel := strings.TrimPrefix(target, "/")
		if rel == "" {
			return "."
		}
		return rel
	case 1:
		rel := strings.Repeat("../", pbt.Int(1, 4).Draw(c.T, "up")) + strings.TrimPrefix(target, "/")
		if pbt.Int(0, 1).Draw(c.T, "slash") == 0 {
			rel = strings.TrimSuffix(rel, "/")
		}
		return rel
	}
	if target == "" {
		return "/"
	}
	return target
}

// specialTypes are the types of objects that are neither files, directories nor
// links.
var specialTypes = []os.FileMode{os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice}

// populate plants a generated tree.
func (w *world) populate(max int, links bool) {
	c := w.c
	type slot struct {
		m *mnode
		o *node
	}
	dirs := []slot{{w.m.root, w.fs.root}}
	if pbt.Int(0, 29).Draw(c.T, "deep") == 29 {
		deepest := 20
		if pbt.Int(0, 3).Draw(c.T, "very deep") == 3 {
			deepest = 64
		}
		for i := pbt.Int(deepest/3, deepest).Draw(c.T, "depth"); i > 0; i-- {
			d := dirs[len(dirs)-1]
			name := w.name()
			n := &mnode{kind: 'd', perm: 0o755}
			w.plant(d.m, d.o, name, n)
			dirs = append(dirs, slot{n, d.o.kids[name]})
		}
		dirs = dirs[len(dirs)-1:]
	}
	if links && pbt.Int(0, 29).Draw(c.T, "chain") == 29 {
		// A chain of links, each in terms of the next one, to whatever is there.
		d := rapid.SampledFrom(dirs).Draw(c.T, "chain in")
		longest := 25
		if pbt.Int(0, 2).Draw(c.T, "long chain") == 2 {
			longest = 70
		}
		total := pbt.Int(longest/5, longest).Draw(c.T, "length of the chain")
		for i := 0; i < total; i++ {
			text := fmt.Sprintf("chain%d", i+1)
			if i == total-1 {
				text = w.linkText()
			}
			w.plant(d.m, d.o, fmt.Sprintf("chain%d", i), &mnode{kind: 'l', text: text})
		}
	}
	for i := pbt.Int(0, max).Draw(c.T, "objects"); i > 0; i-- {
		d := rapid.SampledFrom(dirs).Draw(c.T, "in")
		name := w.name()
		if d.m.kids[name] != nil {
			continue
		}
		kinds := []byte{'d', 'd', 'd', 'd', 'd', 'd', 'f', 'f', 'f', 's'}
		if links {
			kinds = []byte{'d', 'd', 'd', 'd', 'f', 'f', 'l', 'l', 'l', 'l', 'l', 'l', 's'}
		}
		n := &mnode{kind: rapid.SampledFrom(kinds).Draw(c.T, "kind"), perm: 0o644}
		switch n.kind {
		case 'f':
			n.data = w.drawData("file", 3*w.fs.bs)
		case 'l':
			n.text = w.linkText()
		case 's':
			n.typ = rapid.SampledFrom(specialTypes).Draw(c.T, "type")
		}
		w.plant(d.m, d.o, name, n)
		if n.kind == 'd' {
			dirs = append(dirs, slot{n, d.o.kids[name]})
		}
	}
	c.AddDesc(" %s", w.m)
}

// path draws a path, in one of many spellings.
func (w *world) path() string {
	c := w.c
	var abs string
	existing := w.m.paths()
	kind := pbt.Int(0, 9).Draw(c.T, "path kind")
	if len(existing) > 0 && kind < 7 {
		abs = rapid.SampledFrom(existing).Draw(c.T, "existing")
	} else if kind == 9 && pbt.Int(0, 2).Draw(c.T, "root") == 0 {
		abs = "/"
	}
	if kind == 4 || kind == 5 || kind == 7 || kind == 8 {
		abs += "/" + w.name()
	}
	if kind == 5 || kind == 8 {
		abs += "/" + w.name()
	}
	if abs == "" {
		abs = "/" + w.name()
	}
	return w.spell("/" + strings.TrimLeft(abs, "/"))
}

// pathTo draws the path of an object of this kind, or (less often) any other.
func (w *world) pathTo(kind byte) string {
	if pbt.Int(0, 2).Draw(w.c.T, "any") > 0 {
		some := []string{}
		for _, p := range w.m.paths() {
			if w.m.noFollow(p).n.kind == kind {
				some = append(some, p)
			}
		}
		if len(some) > 0 {
			return w.spell(rapid.SampledFrom(some).Draw(w.c.T, "which"))
		}
	}
	return w.path()
}

// newPath draws the path of something that likely doesn't exist, in a directory
// that does.
func (w *world) newPath() string {
	if pbt.Int(0, 2).Draw(w.c.T, "any") > 0 {
		dirs := []string{""}
		for _, p := range w.m.paths() {
			if w.m.noFollow(p).n.kind == 'd' {
				dirs = append(dirs, p)
			}
		}
		return w.spell(rapid.SampledFrom(dirs).Draw(w.c.T, "directory") + "/" + w.name())
	}
	return w.path()
}

// spell writes a normalized path in another way.
func (w *world) spell(abs string) string {
	c := w.c
	parts := comps(abs)
	out := "/"
	style := pbt.Int(0, 7).Draw(c.T, "spelling")
	if style >= 4 { // relative
		cwd := comps(w.m.cwd)
		k := 0
		for k < len(cwd) && k < len(parts) && cwd[k] == parts[k] {
			k++
		}
		out = strings.Repeat("../", len(cwd)-k)
		parts = parts[k:]
	}
	noisy := style == 1 || style == 6
	for i, p := range parts {
		if noisy {
			out += rapid.SampledFrom([]string{"", "./", "/", "//", "nonsense/../", "a/./b/../../"}).Draw(c.T, "noise")
			if out != "" && out[0] == '/' && style == 6 {
				out = "." + out
			}
		}
		out += p
		if i < len(parts)-1 {
			out += "/"
		}
	}
	if style == 2 || style == 7 {
		out += "/"
		if len(out) > 1 && pbt.Int(0, 2).Draw(c.T, "final dot") == 0 {
			out += "."
		}
	}
	if out == "" || (style == 7 && out == "/") {
		out = "."
	}
	if style == 3 {
		out = "/.." + out
	}
	if got := w.m.norm(out); got != abs {
		panic("bad spelling " + out + " of " + abs + " gives " + got)
	}
	return out
}

// expect checks the outcome of an operation. want is empty if it must succeed,
// otherwise the acceptable errors.
func (w *world) expect(op string, err error, want ...error) {
	w.c.AddDesc("; %s", op)
	if w.fs.delivered != "" {
		w.faulty = true
	}
	if len(want) == 0 {
		w.succeeded++
		if err != nil {
			w.c.Fatalf("%s failed: %v\nin %s", op, err, w.m)
		}
		return
	}
	w.failed++
	if err == nil {
		w.c.Fatalf("%s succeeded instead of failing with %q\nin %s", op, want[0], w.m)
	}
	for _, e := range want {
		if e == anyError || errors.Is(err, e) {
			return
		}
	}
	w.c.Fatalf("%s failed with %q instead of %q\nin %s", op, err, want, w.m)
}

// compare checks that the file system contains what the model does.
func (w *world) compare(after string) {
	if d := w.m.diff(w.fs, w.cmp); d != "" {
		w.c.Fatalf("after %s: %s\nexpected %s", after, d, w.m)
	}
}

// cover counts what kinds of paths were met.
func (w *world) cover(f found) {
	if f.err == disko.ErrLinkCycleDetected {
		w.cycles++
	}
}
