package drv

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
)

// mnode is an object in the model: a directory, file, symbolic link, or a special
// object such as a device. Files can
// be in several directories.
type mnode struct {
	kind     byte        // 'd', 'f', 'l', 's'
	typ      os.FileMode // of special objects
	kids     map[string]*mnode
	parent   *mnode // of directories
	name     string // of directories
	data     []byte
	text     string // of links
	perm     os.FileMode
	uid, gid int
	atime    time.Time // zero: never set
	mtime    time.Time
}

type model struct {
	root *mnode
	cwd  string
}

func newModel() *model {
	return &model{root: &mnode{kind: 'd', kids: map[string]*mnode{}, perm: 0o755, uid: 1, gid: 1}, cwd: "/"}
}

// refNormalize is the reference for NormalizePath.
func refNormalize(cwd, path string) string {
	stack := []string{}
	if !strings.HasPrefix(path, "/") {
		path = cwd + "/" + path
	}
	for _, comp := range strings.Split(path, "/") {
		switch comp {
		case "", ".":
		case "..":
			if len(stack) > 0 {
				stack = stack[:len(stack)-1]
			}
		default:
			stack = append(stack, comp)
		}
	}
	return "/" + strings.Join(stack, "/")
}

func (m *model) norm(path string) string { return refNormalize(m.cwd, path) }

func comps(abs string) []string {
	if abs == "/" {
		return nil
	}
	return strings.Split(abs[1:], "/")
}

// found is the result of a lookup.
type found struct {
	n    *mnode // nil: missing
	dir  *mnode // the directory it is in, or would be in; nil for the root
	name string // its name there
	err  error  // why there's neither
}

// pathOf gives the physical path of a directory.
func pathOf(d *mnode) string {
	if d.parent == nil {
		return "/"
	}
	p := pathOf(d.parent)
	if p == "/" {
		return p + d.name
	}
	return p + "/" + d.name
}

// look resolves an absolute path as POSIX does.
func (m *model) look(abs string, follow bool, active map[*mnode]bool) found {
	return m.walk(m.root, abs, follow, active)
}

// walk resolves a path relative to a directory.
func (m *model) walk(base *mnode, path string, follow bool, active map[*mnode]bool) found {
	if strings.HasPrefix(path, "/") {
		base = m.root
	}
	here := func(d *mnode) found { return found{n: d, dir: d.parent, name: d.name} }
	f := here(base)
	parts := []string{}
	for _, part := range strings.Split(path, "/") {
		if part != "" {
			parts = append(parts, part)
		}
	}
	for i, part := range parts {
		if f.n == nil {
			return found{err: disko.ErrNotFound}
		}
		if f.n.kind != 'd' {
			return found{err: disko.ErrNotADirectory}
		}
		dir := f.n
		switch {
		case part == "." || part == ".." && dir.parent == nil:
			f = here(dir)
			continue
		case part == "..":
			f = here(dir.parent)
			continue
		}
		f = found{n: dir.kids[part], dir: dir, name: part}
		if f.n != nil && f.n.kind == 'l' && (follow || i < len(parts)-1) {
			if active[f.n] {
				return found{err: disko.ErrLinkCycleDetected}
			}
			active[f.n] = true
			next := m.walk(dir, f.n.text, true, active)
			delete(active, f.n)
			if next.err != nil {
				return next
			}
			if next.n == nil {
				// A dangling link: there, but leading nowhere.
				return found{err: disko.ErrNotFound}
			}
			f = next
		}
	}
	return f
}

func (m *model) follow(abs string) found   { return m.look(abs, true, map[*mnode]bool{}) }
func (m *model) noFollow(abs string) found { return m.look(abs, false, map[*mnode]bool{}) }

// paths lists the paths of all objects, in order.
func (m *model) paths() []string {
	out := []string{}
	var walk func(n *mnode, p string)
	walk = func(n *mnode, p string) {
		for _, name := range pbt.SortedKeys(n.kids) {
			kp := p + "/" + name
			out = append(out, kp)
			if k := n.kids[name]; k.kind == 'd' {
				walk(k, kp)
			}
		}
	}
	walk(m.root, "")
	return out
}

// what decides which aspects of the objects are compared.
type aspects struct{ contents, perms, owners, times, links bool }

// diff compares the model with what the file system holds.
func (m *model) diff(fs *memfs, a aspects) string {
	toModel := map[*node]*mnode{}
	toFS := map[*mnode]*node{}
	var walk func(n *mnode, o *node, p string) string
	walk = func(n *mnode, o *node, p string) string {
		at := p
		if at == "" {
			at = "/"
		}
		if old, seen := toModel[o]; a.links && (seen && old != n || toFS[n] != nil && toFS[n] != o) {
			return fmt.Sprintf("%s is another object than expected", at)
		}
		toModel[o], toFS[n] = n, o
		kind := kindOf(o)
		if kind != n.kind || kind == 's' && o.mode&os.ModeType != n.typ {
			return fmt.Sprintf("%s has type %c (%s) instead of %c", at, kind, o.mode, n.kind)
		}
		if kind == 'l' && string(o.contents()) != n.text {
			return fmt.Sprintf("the link %s has the text %q instead of %q", at, o.contents(), n.text)
		}
		if a.contents && kind == 'f' && string(o.contents()) != string(n.data) {
			return fmt.Sprintf("%s contains %s instead of %s", at, pbt.Short(o.contents()), pbt.Short(n.data))
		}
		if a.perms && kind != 'l' && o.mode&^os.ModeType != n.perm {
			return fmt.Sprintf("%s has the permissions %s instead of %s", at, o.mode&^os.ModeType, n.perm)
		}
		if a.owners && (o.uid != n.uid || o.gid != n.gid) {
			return fmt.Sprintf("%s has the owner %d:%d instead of %d:%d", at, o.uid, o.gid, n.uid, n.gid)
		}
		if a.times {
			orig := time.Date(2001, 2, 3, 4, 5, int(o.id), 0, time.UTC)
			for i, pair := range [][2]time.Time{{o.atime, n.atime}, {o.mtime, n.mtime}, {o.ctime, {}}} {
				want := pair[1]
				if want.IsZero() {
					want = orig
				}
				if !pair[0].Equal(want) {
					return fmt.Sprintf("%s has timestamp %d %s instead of %s", at, i, pair[0], want)
				}
			}
		}
		if kind == 'd' {
			names := map[string]bool{}
			for name := range n.kids {
				names[name] = true
			}
			for name := range o.kids {
				names[name] = true
			}
			sorted := pbt.SortedKeys(names)
			for _, name := range sorted {
				if n.kids[name] == nil {
					return fmt.Sprintf("%s/%s exists", p, name)
				}
				if o.kids[name] == nil {
					return fmt.Sprintf("%s/%s doesn't exist", p, name)
				}
				if d := walk(n.kids[name], o.kids[name], p+"/"+name); d != "" {
					return d
				}
			}
		}
		return ""
	}
	return walk(m.root, fs.root, "")
}

// String lists the tree.
func (m *model) String() string {
	out := []string{}
	var walk func(n *mnode, p string)
	walk = func(n *mnode, p string) {
		for _, name := range pbt.SortedKeys(n.kids) {
			k := n.kids[name]
			switch k.kind {
			case 'd':
				out = append(out, p+name+"/")
				walk(k, p+name+"/")
			case 'f':
				out = append(out, fmt.Sprintf("%s%s(%d)", p, name, len(k.data)))
			case 'l':
				out = append(out, fmt.Sprintf("%s%s->%s", p, name, k.text))
			case 's':
				out = append(out, fmt.Sprintf("%s%s(%s)", p, name, k.typ))
			}
		}
	}
	walk(m.root, "/")
	sort.Strings(out)
	return "{" + strings.Join(out, " ") + "}"
}
