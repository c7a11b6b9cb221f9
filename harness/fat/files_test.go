package fat

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"pgregory.net/rapid"
)

func newRand(c *pbt.C) *rand.Rand {
	return rand.New(rand.NewSource(int64(pbt.Int(0, 1<<40).Draw(c.T, "seed"))))
}

func pick(c *pbt.C, es []*entry) *entry { return es[pbt.Int(0, len(es)-1).Draw(c.T, "object")] }

func (v *volume) expectNoWrites(c *pbt.C) {
	if len(v.writes) > 0 {
		c.Fatalf("%s: the volume was modified: %v", c.String(), v.writes)
	}
}

func TestV07_ReadFile(t *testing.T) {
	pbt.Check(t, 2500, 30000, "volumes of all FAT versions with up to about 60 (rarely 500) files and directories, scattered over the disk; every file is read, by "+
		"differently written paths; non-trivial: a file of several clusters",
		func(c *pbt.C) {
			v := drawVolume(c)
			drv := v.driver(c)
			c.Describe("%s", v.describe())
			c.Label(fmt.Sprintf("FAT%d", v.version))
			results := map[*entry][]byte{}
			for _, e := range v.all() {
				path := e.path()
				if pbt.Int(0, 2).Draw(c.T, "disguise") == 0 {
					path = v.disguiseEntry(c, e)
				}
				var data []byte
				var err error
				c.Call(fmt.Sprintf("ReadFile(%q) on %s", path, v.describe()), func() { data, err = drv.ReadFile(path) })
				if e.dir {
					if !errors.Is(err, disko.ErrIsADirectory) {
						c.Fatalf("%s: ReadFile(%q): %v, expected %v", v.describe(), path, err, disko.ErrIsADirectory)
					}
					continue
				}
				c.NonTrivial(len(e.content) > int(v.clusterLen()))
				c.LabelIf(len(e.content) == 0 && len(e.chain) > 0, "empty with clusters")
				c.LabelIf(len(e.content) > 0 && len(e.chain) > (len(e.content)-1)/int(v.clusterLen())+1, "more clusters than needed")
				if err != nil || !bytes.Equal(data, e.content) {
					c.Fatalf("%s: ReadFile(%q) of %v = %s, %v, expected %s", v.describe(), path, e.chain, pbt.Short(data), err, pbt.Short(e.content))
				}
				results[e] = data
			}
			for e, data := range results {
				if !bytes.Equal(data, e.content) {
					c.Fatalf("%s: the result of ReadFile(%q) changed to %s, was %s", v.describe(), e.path(), pbt.Short(data), pbt.Short(e.content))
				}
			}
			v.expectNoWrites(c)
		})
}

func TestV07_Giant(t *testing.T) {
	pbt.Check(t, 100, 1500, "volumes with one file of up to 40 MiB or 150000 clusters, which is read; non-trivial: more than 1000 clusters or 1 MiB",
		func(c *pbt.C) {
			v, e := drawGiant(c)
			drv := v.driver(c)
			c.NonTrivial(len(e.chain) > 1000 || e.size > 1<<20)
			for _, f := range v.root.children {
				var data []byte
				var err error
				c.Call(c.String(), func() { data, err = drv.ReadFile(f.path()) })
				if err != nil || !bytes.Equal(data, f.content) {
					at := 0
					for at < min(len(data), len(f.content)) && data[at] == f.content[at] {
						at++
					}
					c.Fatalf("%s: ReadFile(%q) gives %d of %d bytes and is wrong at %d, %v", c.String(), f.path(), len(data), f.size, at, err)
				}
			}
			v.expectNoWrites(c)
		})
}

func TestV09_Giant(t *testing.T) {
	pbt.Check(t, 100, 1500, "volumes with one file of up to 40 MiB or 150000 clusters, which is removed; non-trivial: more than 1000 clusters",
		func(c *pbt.C) {
			v, e := drawGiant(c)
			drv := v.driver(c)
			c.NonTrivial(len(e.chain) > 1000)
			var err error
			c.Call(c.String(), func() { err = drv.Remove(e.path()) })
			if err != nil {
				c.Fatalf("%s: Remove: %v", c.String(), err)
			}
			v.expectFreed(c, e, true)
		})
}

func TestV06_Giant(t *testing.T) {
	pbt.Check(t, 100, 1500, "volumes with one file of up to 40 MiB or 150000 clusters, whose chain leads back to itself, ends early, or leaves the volume; "+
		"it is read and removed; non-trivial: more than 1000 clusters before the damage",
		func(c *pbt.C) {
			v, e := drawGiant(c)
			if len(e.chain) < 2 {
				c.Skip("a single cluster")
			}
			at := pbt.Int(0, len(e.chain)-2).Draw(c.T, "at")
			if rapid.Bool().Draw(c.T, "late") {
				at = len(e.chain) - 2 - pbt.Int(0, min(3, len(e.chain)-2)).Draw(c.T, "before the end")
			}
			kind := rapid.SampledFrom([]string{"cycle", "cycle", "end", "beyond"}).Draw(c.T, "damage")
			switch kind {
			case "cycle":
				v.fat[e.chain[at]] = uint32(e.chain[pbt.Int(0, at).Draw(c.T, "back to")])
			case "end":
				v.fat[e.chain[at]] = v.eoc()
			case "beyond":
				v.fat[e.chain[at]] = 1
			}
			c.AddDesc(", %s after %d", kind, at)
			c.Label(kind)
			c.NonTrivial(at > 1000)
			drv := v.driver(c)
			var data []byte
			var err error
			c.Call(c.String(), func() { data, err = drv.ReadFile(e.path()) })
			if !errors.Is(err, disko.ErrFileSystemCorrupted) {
				c.Fatalf("%s: ReadFile gives %d bytes, %v, expected %v", c.String(), len(data), err, disko.ErrFileSystemCorrupted)
			}
			v.expectNoWrites(c)
			c.Call(c.String(), func() { err = drv.Remove(e.path()) })
			v.expectFreed(c, e, false)
		})
}

// expectFreed checks that no clusters but those of a file have been released, none of
// them twice, and if all is set all of them.
func (v *volume) expectFreed(c *pbt.C, e *entry, all bool) {
	own := map[fat.ClusterID]bool{}
	for _, id := range e.chain {
		own[id] = true
	}
	for _, id := range v.freed {
		if !own[id] {
			c.Fatalf("%s: cluster %d is released twice or isn't the file's", c.String(), id)
		}
		delete(own, id)
	}
	if all && len(own) > 0 {
		c.Fatalf("%s: %d of %d clusters aren't released", c.String(), len(own), len(e.chain))
	}
}

// checkStat compares file information to what is on the volume.
func (v *volume) checkStat(c *pbt.C, e *entry, stat disko.FileStat, from string) {
	if e.parent == nil {
		if !stat.IsDir() {
			c.Fatalf("%s: %s of the root directory is %+v", v.describe(), from, stat)
		}
		return
	}
	if stat.IsDir() != e.dir || stat.InodeNumber != uint64(e.first()) || !e.dir && stat.Size != int64(e.size) ||
		stat.ModeFlags.Perm() != map[bool]os.FileMode{true: 0o555, false: 0o777}[e.raw[11]&1 != 0] {
		c.Fatalf("%s: %s of %q is %+v, expected directory %v, %d bytes at cluster %d, attributes %#02x",
			v.describe(), from, e.path(), stat, e.dir, e.size, e.first(), e.raw[11])
	}
	if modified := e.stamp(24, 22); !stat.LastModified.Equal(modified) {
		c.Fatalf("%s: %s of %q: last modified %s, expected %s", v.describe(), from, e.path(), stat.LastModified, modified)
	}
	created := e.stamp(16, 14).Add(time.Duration(e.raw[13]) * 10 * time.Millisecond)
	if !stat.CreatedAt.Equal(created) {
		c.Fatalf("%s: %s of %q: created %s, expected %s", v.describe(), from, e.path(), stat.CreatedAt, created)
	}
	// The date alone may be a day that doesn't begin at midnight.
	accessed := e.stamp(18, 0)
	if stat.LastAccessed.YearDay() != accessed.YearDay() || stat.LastAccessed.Year() != accessed.Year() {
		c.Fatalf("%s: %s of %q: last accessed %s, expected %s", v.describe(), from, e.path(), stat.LastAccessed, accessed)
	}
}

// stamp decodes a date, and a time if at is given, in the directory entry of an object.
func (e *entry) stamp(date, at int) time.Time {
	d, t := int(e.raw[date])|int(e.raw[date+1])<<8, 0
	if at > 0 {
		t = int(e.raw[at]) | int(e.raw[at+1])<<8
	}
	return time.Date(1980+d>>9, time.Month(d>>5&15), d&31, t>>11, t>>5&63, t&31*2, 0, time.Local)
}

func TestV08_Directories(t *testing.T) {
	pbt.Check(t, 2500, 30000, "volumes of all FAT versions with nested directories of up to several (rarely many) clusters, with deleted entries, and garbage after the "+
		"end; every object is listed, found, and compared, by differently written paths; and missing objects are looked for; "+
		"non-trivial: at least 5 objects, one of them in a subdirectory",
		func(c *pbt.C) {
			v := drawVolume(c)
			drv := v.driver(c)
			c.Describe("%s", v.describe())
			c.Label(fmt.Sprintf("FAT%d", v.version))
			all := v.all()
			nested := false
			infos := []os.FileInfo{}
			owners := []*entry{}
			for _, e := range all {
				path := e.path()
				nested = nested || e.parent != nil && e.parent.parent != nil
				if pbt.Int(0, 2).Draw(c.T, "disguise") == 0 {
					path = v.disguiseEntry(c, e)
				}
				what := fmt.Sprintf("(%q) on %s", path, v.describe())
				var stat, lstat disko.FileStat
				var list []os.FileInfo
				var err, lerr, derr error
				c.Call("Stat"+what, func() { stat, err = drv.Stat(path) })
				c.Call("Lstat"+what, func() { lstat, lerr = drv.Lstat(path) })
				c.Call("Readdir"+what, func() { list, derr = drv.Readdir(path) })
				if err != nil || lerr != nil {
					c.Fatalf("Stat or Lstat%s: %v, %v", what, err, lerr)
				}
				v.checkStat(c, e, stat, "Stat")
				if stat != lstat {
					c.Fatalf("Lstat%s = %+v, but Stat = %+v", what, lstat, stat)
				}
				if !e.dir {
					if !errors.Is(derr, disko.ErrNotADirectory) {
						c.Fatalf("Readdir%s: %v, expected %v", what, derr, disko.ErrNotADirectory)
					}
					continue
				}
				if derr != nil {
					c.Fatalf("Readdir%s: %v", what, derr)
				}
				c.LabelIf(e.parent != nil && len(e.children)*32%int(v.clusterLen()) == 0, "directory without end mark")
				c.LabelIf(len(e.chain) > 1, "directory of several clusters")
				byName := map[string]*entry{}
				want := []string{}
				for _, ch := range e.children {
					if ch.deleted {
						c.Label("deleted entry")
					} else {
						byName[ch.name] = ch
						want = append(want, ch.name)
					}
				}
				sort.Strings(want)
				got := sortedNames(list, func(i os.FileInfo) string { return i.Name() })
				if !reflect.DeepEqual(got, want) {
					c.Fatalf("Readdir%s lists %q, expected %q", what, got, want)
				}
				for _, info := range list {
					ch := byName[info.Name()]
					if at := ch.stamp(24, 22); !info.ModTime().Equal(at) {
						c.Fatalf("Readdir%s: %q was modified at %s, expected %s", what, info.Name(), info.ModTime(), at)
					}
					if info.IsDir() != ch.dir || info.Size() != int64(ch.size) || info.Mode().IsDir() != ch.dir {
						c.Fatalf("Readdir%s: %q has %d bytes, directory %v, expected %d, %v", what, info.Name(), info.Size(), info.IsDir(), ch.size, ch.dir)
					}
					sys, ok := info.Sys().(disko.FileStat)
					if !ok {
						c.Fatalf("Readdir%s: Sys() is a %T", what, info.Sys())
					}
					if ch.bulk {
						c.Label("directory of thousands of entries")
					} else if !ch.dots {
						v.checkStat(c, ch, sys, "Readdir")
						infos = append(infos, info)
						owners = append(owners, ch)
					}
				}
			}
			c.NonTrivial(len(all) > 5 && nested)
			pairs := [][2]int{}
			for a := range infos {
				for b := range infos {
					if len(infos) <= 40 || a == b || owners[a].first()&0xff == owners[b].first()&0xff {
						pairs = append(pairs, [2]int{a, b})
					}
				}
			}
			for i := 0; i < 10 && len(infos) > 40; i++ {
				pairs = append(pairs, [2]int{pbt.Int(0, len(infos)-1).Draw(c.T, "a"), pbt.Int(0, len(infos)-1).Draw(c.T, "b")})
			}
			for _, pair := range pairs[:min(len(pairs), 4000)] {
				a, b := pair[0], pair[1]
				var same bool
				c.Call("SameFile", func() { same = drv.SameFile(infos[a], infos[b]) })
				if a != b && same && len(owners[a].chain) == 0 && len(owners[b].chain) == 0 && pbt.Listed("samefile-empty") {
					pbt.Known("samefile-empty")
					continue
				}
				if same != (a == b) {
					c.Fatalf("%s: SameFile of %q and %q is %v", v.describe(), owners[a].path(), owners[b].path(), same)
				}
			}
			if len(infos) > 0 {
				info := infos[pbt.Int(0, len(infos)-1).Draw(c.T, "info")]
				real, err := os.Stat(".")
				if err != nil {
					c.Fatalf("os.Stat: %v", err)
				}
				for _, foreign := range []os.FileInfo{real, foreignInfo{info, nil}, foreignInfo{info, info.Name()}} {
					c.Call("SameFile", func() {
						if drv.SameFile(info, foreign) || drv.SameFile(foreign, info) || drv.SameFile(foreign, foreign) {
							c.Fatalf("%s: SameFile of %q and file information from elsewhere (%T) is true", v.describe(), info.Name(), foreign.Sys())
						}
					})
				}
			}
			for i := 0; i < 4; i++ {
				e := pick(c, all)
				name := drawName(c)
				if live := e.live(); e.dir && len(live) > 0 && rapid.Bool().Draw(c.T, "similar") {
					// Almost the name of something.
					name = pick(c, live).name
					switch pbt.Int(0, 5).Draw(c.T, "how") {
					case 0:
						name += " "
					case 1:
						name = " " + name
					case 2:
						name += rapid.SampledFrom([]string{"A", "1", ".A", "ABCDEFGHIJ"}).Draw(c.T, "more")
					case 3:
						name = rapid.SampledFrom([]string{"A", "1", "ABCDEFGHIJ"}).Draw(c.T, "more") + name
					case 4:
						name = name[:len(name)-1]
					case 5:
						stem, ext, _ := strings.Cut(name, ".")
						name = stem + ext
						if rapid.Bool().Draw(c.T, "space before the extension") && ext != "" {
							name = stem + " ." + ext
						}
					}
					if name == "" || name == "." || strings.HasSuffix(name, ".") {
						continue
					}
					c.Label("similar name")
				}
				want := error(disko.ErrNotFound)
				if e.dir {
					for _, ch := range e.live() {
						if ch.name == name {
							want = nil
						}
					}
				} else {
					want = disko.ErrNotADirectory
				}
				if want == nil {
					continue
				}
				path := strings.TrimSuffix(e.path(), "/") + "/" + name
				if rapid.Bool().Draw(c.T, "deeper") && e.dir {
					path += "/X"
				}
				ops := map[string]func() error{
					"Stat":     func() error { _, err := drv.Stat(path); return err },
					"Readdir":  func() error { _, err := drv.Readdir(path); return err },
					"ReadFile": func() error { _, err := drv.ReadFile(path); return err },
					"Remove":   func() error { return drv.Remove(path) },
					"Chmod":    func() error { return drv.Chmod(path, 0o777) },
					"Chtimes":  func() error { return drv.Chtimes(path, time.Now(), time.Now()) },
				}
				for _, op := range pbt.SortedKeys(ops) {
					var err error
					c.Call(op, func() { err = ops[op]() })
					if !errors.Is(err, want) {
						c.Fatalf("%s: %s(%q): %v, expected %v", v.describe(), op, path, err, want)
					}
				}
			}
			if _, err := drv.Stat(""); !errors.Is(err, disko.ErrInvalidArgument) {
				c.Fatalf("Stat of the empty path: %v", err)
			}
			v.expectNoWrites(c)
		})
}

func TestV06_DamagedChains(t *testing.T) {
	pbt.Check(t, 4000, 40000, "volumes where the cluster chain of a file or directory is damaged somewhere: leads back to itself, to a free, reserved, bad or "+
		"nonexistent cluster, or ends too early; non-trivial: before the last cluster that is needed",
		func(c *pbt.C) {
			v := drawVolume(c)
			var victims []*entry
			for _, e := range v.all() {
				if len(e.chain) > 0 && (e.dir || e.size > 0) {
					victims = append(victims, e)
				}
			}
			if len(victims) == 0 {
				c.Skip("nothing to damage")
			}
			// Prefer long chains.
			sort.SliceStable(victims, func(i, j int) bool { return len(victims[i].chain) > len(victims[j].chain) })
			e := victims[pbt.Int(0, min(len(victims), 4)-1).Draw(c.T, "victim")]
			per := int(v.clusterLen() / 32)
			need := (int(e.size) + int(v.clusterLen()) - 1) / int(v.clusterLen())
			if e.dir {
				// The end mark is needed too, unless the last cluster is full.
				need = min(len(e.chain), len(e.children)/per+1)
			}
			at := pbt.Int(0, len(e.chain)-1).Draw(c.T, "at")
			kind := rapid.SampledFrom([]string{"cycle", "free", "reserved", "bad", "beyond", "end", "first", "no name"}).Draw(c.T, "damage")
			next := uint32(0)
			switch kind {
			case "cycle":
				next = uint32(e.chain[pbt.Int(0, at).Draw(c.T, "back to")])
			case "free":
				next = 0
			case "reserved":
				next = 1
			case "bad":
				next = v.bad()
			case "beyond":
				next = uint32(v.clusters) + 2 + uint32(pbt.Int(0, 3).Draw(c.T, "by"))
				if next > v.bad() {
					kind = "end"
				}
			case "end":
				next = v.eoc()
			}
			c.Label(kind)
			path := e.path()
			tooShort := kind == "end" && at+1 < need
			if kind == "no name" && !e.dir {
				kind = "first"
			}
			if kind == "no name" {
				ch := pick(c, e.children)
				copy(ch.raw[:8], "        ")
				v.storeDir(e)
				c.Describe("%s: an entry in %q(%d) has no name", v.params, path, len(e.children))
			} else if kind == "first" {
				firsts := []fat.ClusterID{1, fat.ClusterID(v.bad()), fat.ClusterID(v.clusters + 2), 0, fat.ClusterID(v.eoc())}
				if e.dir {
					// Directories without a first cluster are the root directory, and those that begin with an end mark are empty.
					firsts = firsts[:3]
					if v.IsEndOfChain(firsts[2]) {
						firsts = firsts[:2]
					}
				}
				first := rapid.SampledFrom(firsts).Draw(c.T, "first")
				e.raw[26], e.raw[27], e.raw[20], e.raw[21] = byte(first), byte(first>>8), byte(first>>16), byte(first>>24)
				v.storeDir(e.parent)
				c.Describe("%s: first cluster of %q is %#x", v.params, path, first)
			} else {
				v.fat[e.chain[at]] = next
				c.Describe("%s: %s, %q(%d) %v continues with %#x after cluster %d", v.params, kind, path, e.size, e.chain, next, at)
			}
			c.LabelIf(e.dir, "directory")
			// Whether the damage is in a part that has to be read.
			must := at+1 < need || kind == "first" || kind == "no name"
			// After the last cluster of a directory without an end mark, the chain has to end.
			c.NonTrivial(must)
			drv := v.driver(c)
			if e.dir {
				var list []os.FileInfo
				var err error
				c.Call(c.String(), func() { list, err = drv.Readdir(path) })
				if must && kind != "end" && !errors.Is(err, disko.ErrFileSystemCorrupted) && (kind != "first" || err == nil) {
					c.Fatalf("%s: Readdir: %v, expected %v", c.String(), err, disko.ErrFileSystemCorrupted)
				}
				// A directory that ends early can't be told from a smaller one.
				if err == nil && !must {
					n := 0
					for _, ch := range e.children {
						if !ch.deleted {
							n++
						}
					}
					if len(list) != n {
						c.Fatalf("%s: Readdir lists %d entries, expected %d", c.String(), len(list), n)
					}
				}
				// The contents of a damaged directory can't be reached either, without running in circles.
				c.Call(c.String(), func() { _, err = drv.Stat(path + "/NO.SUC") })
				if err == nil {
					c.Fatalf("%s: a missing object was found", c.String())
				}
				return
			}
			var data []byte
			var err error
			c.Call(c.String(), func() { data, err = drv.ReadFile(path) })
			if err == nil && !bytes.Equal(data, e.content) || err == nil && must && kind != "end" {
				c.Fatalf("%s: ReadFile returned %s, expected %v", c.String(), pbt.Short(data), disko.ErrFileSystemCorrupted)
			}
			if (tooShort || must && kind != "first") && !errors.Is(err, disko.ErrFileSystemCorrupted) {
				c.Fatalf("%s: ReadFile: %v, expected %v", c.String(), err, disko.ErrFileSystemCorrupted)
			}
			// Other files are fine.
			for _, o := range v.all() {
				if o != e && !o.dir {
					c.Call(c.String(), func() { data, err = drv.ReadFile(o.path()) })
					if err != nil || !bytes.Equal(data, o.content) {
						c.Fatalf("%s: ReadFile(%q) = %s, %v", c.String(), o.path(), pbt.Short(data), err)
					}
				}
			}
			v.expectNoWrites(c)
			// Removing it must not release clusters that it doesn't have.
			var rmErr error
			c.Call(c.String(), func() { rmErr = drv.Remove(path) })
			own := map[fat.ClusterID]int{}
			for _, cl := range e.chain {
				own[cl]++
			}
			for _, cl := range v.freed {
				own[cl]--
				if own[cl] < 0 {
					c.Fatalf("%s: Remove released cluster %d, which is not the file's, or twice (%v)", c.String(), cl, rmErr)
				}
			}
			if kind == "cycle" && rmErr == nil {
				c.Fatalf("%s: Remove didn't report the damage", c.String())
			}
		})
}

func TestV09_Remove(t *testing.T) {
	pbt.Check(t, 2500, 30000, "volumes from which up to 8 files are removed, some of them repeatedly, as well as directories and missing objects; "+
		"non-trivial: at least two removed, one of them with several clusters",
		func(c *pbt.C) {
			v := drawVolume(c)
			drv := v.driver(c)
			c.Describe("%s, removing", v.describe())
			all := v.all()
			files := []*entry{}
			for _, e := range all {
				if !e.dir {
					files = append(files, e)
				}
			}
			removed, several := 0, false
			for i := pbt.Int(1, 8).Draw(c.T, "steps"); i > 0; i-- {
				e := pick(c, all)
				if len(files) > 0 && pbt.Int(0, 4).Draw(c.T, "file") > 0 {
					e = pick(c, files)
				}
				path := e.path()
				for p := e; p != nil; p = p.parent {
					if p.deleted && p != e {
						path = ""
					}
				}
				if path == "" {
					continue
				}
				if pbt.Int(0, 2).Draw(c.T, "disguise") == 0 {
					path = v.disguiseEntry(c, e)
				}
				odd := !e.dir && pbt.Int(0, 9).Draw(c.T, "odd") == 0
				if odd {
					// Neither refusing this nor accepting it is wrong.
					path += rapid.SampledFrom([]string{"/", "/.", "//"}).Draw(c.T, "end")
					c.Label("file with a slash at the end")
				}
				if !e.dir && !e.deleted && rapid.Bool().Draw(c.T, "read before") {
					data, err := drv.ReadFile(e.path())
					if err != nil || !bytes.Equal(data, e.content) {
						c.Fatalf("%s: before %q, ReadFile(%q) = %s, %v", c.String(), path, e.path(), pbt.Short(data), err)
					}
				}
				c.AddDesc(" %q", path)
				v.freed, v.deleted, v.writes, v.updated = nil, nil, nil, nil
				wasDeleted := e.deleted
				// Another one may have the same name.
				if wasDeleted {
					for _, ch := range e.parent.live() {
						if ch.name == e.name {
							e, wasDeleted = ch, false
						}
					}
				}
				before := map[fat.ClusterID]uint32{}
				for k, x := range v.fat {
					before[k] = x
				}
				var err error
				c.Call(c.String(), func() { err = drv.Remove(path) })
				switch {
				case e.dir:
					if !errors.Is(err, disko.ErrIsADirectory) {
						c.Fatalf("%s: Remove of a directory: %v, expected %v", c.String(), err, disko.ErrIsADirectory)
					}
					v.expectNoWrites(c)
					continue
				case wasDeleted:
					if !errors.Is(err, disko.ErrNotFound) && !(odd && err != nil) {
						c.Fatalf("%s: Remove of a missing file: %v, expected %v", c.String(), err, disko.ErrNotFound)
					}
					v.expectNoWrites(c)
					continue
				}
				if odd && err != nil {
					v.expectNoWrites(c)
					continue
				}
				if err != nil {
					c.Fatalf("%s: Remove: %v", c.String(), err)
				}
				removed++
				several = several || len(e.chain) > 1
				if len(v.deleted) != 1 || v.deleted[0] != e.path() || !e.deleted {
					c.Fatalf("%s: deleted the directory entries %q, expected that of %q", c.String(), v.deleted, e.path())
				}
				if len(v.writes) == 0 || v.writes[0] != "DeleteDirent" {
					c.Fatalf("%s: clusters were released before the directory entry was deleted: %v", c.String(), v.writes)
				}
				if got, want := fmt.Sprint(sortedIDs(v.freed)), fmt.Sprint(sortedIDs(e.chain)); got != want || len(v.updated) > 0 || len(v.writes) != 1+len(e.chain) {
					c.Fatalf("%s: released the clusters %v, expected %v (%v)", c.String(), got, want, v.writes)
				}
				if _, err := drv.Stat(path); !errors.Is(err, disko.ErrNotFound) {
					c.Fatalf("%s: still found: %v", c.String(), err)
				}
				if rapid.Bool().Draw(c.T, "reuse") {
					n := v.reuse(c, e)
					c.AddDesc(" (then %q in %v)", n.path(), n.chain)
					c.Label("clusters reused")
					all, files = append(all, n), append(files, n)
				}
			}
			c.NonTrivial(removed >= 2 && several)
			// Everything else is still there.
			for _, e := range v.all() {
				if !e.dir {
					data, err := drv.ReadFile(e.path())
					if err != nil || !bytes.Equal(data, e.content) {
						c.Fatalf("%s: afterwards, ReadFile(%q) = %s, %v", c.String(), e.path(), pbt.Short(data), err)
					}
				}
			}
		})
}

// reuse stores a new file in the place of a deleted directory entry, in some of
// the clusters that belonged to it, and others.
func (v *volume) reuse(c *pbt.C, e *entry) *entry {
	n := &entry{parent: e.parent, name: e.name}
	if rapid.Bool().Draw(c.T, "new name") {
		n.name = "REUSED." + fmt.Sprint(len(e.parent.children)%1000)
		for _, ch := range e.parent.live() {
			if ch.name == n.name {
				n.name = e.name
			}
		}
	}
	for _, id := range e.chain {
		if v.fat[id] == 0 && pbt.Int(0, 3).Draw(c.T, "keep") > 0 {
			v.fat[id] = 1
			n.chain = append(n.chain, id)
		}
	}
	if len(n.chain) > 1 && rapid.Bool().Draw(c.T, "turn") {
		n.chain[0], n.chain[len(n.chain)-1] = n.chain[len(n.chain)-1], n.chain[0]
	}
	if pbt.Int(0, 2).Draw(c.T, "more") == 0 {
		n.chain = append(n.chain, v.alloc(1, true)...)
	}
	v.link(n.chain)
	cl := int(v.clusterLen())
	if len(n.chain) > 0 {
		n.size = uint(len(n.chain)*cl - pbt.Int(0, cl-1).Draw(c.T, "unused"))
	}
	n.content = make([]byte, n.size)
	v.rng.Read(n.content)
	for k, id := range n.chain {
		data := make([]byte, cl)
		copy(data, n.content[k*cl:])
		v.storeCluster(id, data)
	}
	n.raw = rawEntry(v.rng, n.name, 32, n.first(), n.size)
	for i, ch := range e.parent.children {
		if ch == e {
			e.parent.children[i] = n
		}
	}
	v.storeDir(e.parent)
	return n
}

func sortedIDs(ids []fat.ClusterID) []fat.ClusterID {
	out := append([]fat.ClusterID{}, ids...)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func TestV10_Attributes(t *testing.T) {
	epoch := time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)
	pbt.Check(t, 2500, 30000, "volumes on which up to 10 times the permissions or timestamps of objects are changed, or something FAT doesn't support is "+
		"asked for; non-trivial: at least one change and one refusal",
		func(c *pbt.C) {
			v := drawVolume(c)
			drv := v.driver(c)
			c.Describe("%s:", v.describe())
			all := v.all()
			changed, refused := false, false
			for i := pbt.Int(1, 10).Draw(c.T, "steps"); i > 0; i-- {
				e := pick(c, all)
				if e.parent == nil {
					continue // it has no entry
				}
				path := v.disguiseEntry(c, e)
				v.writes, v.updated = nil, nil
				orig, err := drv.Stat(path)
				if err != nil {
					c.Fatalf("%s: Stat(%q): %v", c.String(), path, err)
				}
				op := rapid.SampledFrom([]string{"Chmod", "Chtimes", "Chmod", "Chtimes", "Chown", "Lchown", "Link", "Symlink", "Readlink"}).Draw(c.T, "op")
				c.AddDesc(" %s(%q", op, path)
				want := orig
				var wantErr error
				switch op {
				case "Chmod":
					mode := os.FileMode(pbt.Int(0, 0o777).Draw(c.T, "mode"))
					c.AddDesc(", %v", mode)
					c.Call(c.String(), func() { err = drv.Chmod(path, mode) })
					want.ModeFlags &^= 0o222
					if mode&0o222 != 0 {
						want.ModeFlags |= 0o222
					}
				case "Chtimes":
					at := func(name string) time.Time {
						if pbt.Int(0, 29).Draw(c.T, name+" zero") == 0 {
							return time.Time{}
						}
						if pbt.Int(0, 5).Draw(c.T, name+" too early") == 0 {
							return epoch.Add(-time.Duration(pbt.Int(1, 1e6).Draw(c.T, name)))
						}
						return epoch.Add(time.Duration(pbt.Int(0, 1<<40).Draw(c.T, name)) * time.Microsecond)
					}
					want.LastAccessed, want.LastModified = at("atime"), at("mtime")
					if want.LastAccessed.Before(epoch) || want.LastModified.Before(epoch) {
						wantErr = disko.ErrArgumentOutOfRange
					}
					c.AddDesc(", %v, %v", want.LastAccessed, want.LastModified)
					c.Call(c.String(), func() { err = drv.Chtimes(path, want.LastAccessed, want.LastModified) })
				default:
					wantErr = disko.ErrNotSupported
					c.Call(c.String(), func() {
						switch op {
						case "Chown":
							err = drv.Chown(path, 1, 2)
						case "Lchown":
							err = drv.Lchown(path, 1, 2)
						case "Link":
							err = drv.Link(path, "/NEW")
						case "Symlink":
							err = drv.Symlink(path, "/NEW")
						case "Readlink":
							_, err = drv.Readlink(path)
						}
					})
				}
				c.AddDesc(")")
				if wantErr != nil {
					refused = true
					if !errors.Is(err, wantErr) {
						c.Fatalf("%s: %v, expected %v", c.String(), err, wantErr)
					}
					v.expectNoWrites(c)
					continue
				}
				changed = true
				if err != nil {
					c.Fatalf("%s: %v", c.String(), err)
				}
				if len(v.writes) != 1 || len(v.updated) != 1 {
					c.Fatalf("%s: %v, expected only the directory entry to be updated", c.String(), v.writes)
				}
				d := v.updated[0]
				got := d.Stat()
				attr := int(e.raw[11])
				if op == "Chmod" {
					attr &^= fat.AttrReadOnly
					if want.ModeFlags&0o222 == 0 {
						attr |= fat.AttrReadOnly
					}
				}
				if d.AttributeFlags != attr || d.Mode() != want.ModeFlags {
					c.Fatalf("%s: the entry of %q gets the attributes %#x and the mode %v, expected %#x, %v",
						c.String(), e.name, d.AttributeFlags, d.Mode(), attr, want.ModeFlags)
				}
				if d.Name() != e.name || d.FirstCluster != e.first() || !sameStat(got, want) {
					c.Fatalf("%s: the entry of %q at %d becomes %q at %d with %+v, expected %+v", c.String(), e.name, e.first(), d.Name(), d.FirstCluster, got, want)
				}
			}
			c.NonTrivial(changed && refused)
		})
}

func sameStat(a, b disko.FileStat) bool {
	if !a.LastAccessed.Equal(b.LastAccessed) || !a.LastModified.Equal(b.LastModified) || !a.CreatedAt.Equal(b.CreatedAt) {
		return false
	}
	a.LastAccessed, a.LastModified, a.CreatedAt = b.LastAccessed, b.LastModified, b.CreatedAt
	return a == b
}

// foreignInfo is file information that doesn't come from the file system.
type foreignInfo struct {
	os.FileInfo
	sys any
}

func (i foreignInfo) Sys() any { return i.sys }

func TestV05_Failures(t *testing.T) {
	pbt.Check(t, 4000, 40000, "operations on volumes where the nth access to the disk, the FAT, the root directory or a directory entry fails, or where "+
		"the image is cut off; non-trivial: the failure concerned the operation",
		func(c *pbt.C) {
			v := drawVolume(c)
			drv := v.driver(c)
			all := v.all()
			e := pick(c, all)
			if e.parent == nil {
				e = pick(c, all)
			}
			path := e.path()
			op := rapid.SampledFrom([]string{"ReadFile", "ReadFile", "Readdir", "Stat", "Remove", "Remove", "Chmod", "Chtimes"}).Draw(c.T, "op")
			f := &fault{countdown: rapid.SampledFrom([]int{1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 10, 12, 15}).Draw(c.T, "which access")}
			if op != "Readdir" && e.dir {
				// Prefer files.
				for _, o := range all {
					if !o.dir && (e.dir || len(o.chain) > len(e.chain)) {
						e = o
					}
				}
				path = e.path()
			}
			if kinds := map[string][]string{
				"ReadFile": {"GetClusterAtIndex", "ReadAt"}, "Remove": {"DeleteDirent", "FreeCluster", "FreeCluster", "GetClusterAtIndex", "ReadAt"},
				"Chmod": {"UpdateDirent"}, "Chtimes": {"UpdateDirent"},
			}[op]; kinds != nil && rapid.Bool().Draw(c.T, "particular") {
				f.only = rapid.SampledFrom(kinds).Draw(c.T, "kind")
				f.countdown = pbt.Int(1, 3).Draw(c.T, "which of them")
			}
			f.err = rapid.SampledFrom([]error{errInjected, errInjected, disko.ErrIOFailed, disko.ErrNotFound, disko.ErrReadOnlyFileSystem,
				disko.ErrNotSupported, disko.ErrFileSystemCorrupted, disko.ErrInvalidArgument, io.EOF, io.ErrUnexpectedEOF}).Draw(c.T, "failure")
			f.partial = rapid.Bool().Draw(c.T, "partial")
			cut := pbt.Int(0, 2).Draw(c.T, "cut") == 0
			if cut {
				// Somewhere in the object's clusters, or those of its parent.
				chain := e.chain
				if e.parent != nil && rapid.Bool().Draw(c.T, "in the parent") {
					chain = e.parent.chain
				}
				if len(chain) == 0 {
					c.Skip("nothing to cut")
				}
				cl := chain[pbt.Int(0, len(chain)-1).Draw(c.T, "cluster")]
				v.disk.size = (int64(v.firstData())+int64(cl-2)*int64(v.spc))*int64(v.bps) + int64(pbt.Int(0, int(v.clusterLen())-1).Draw(c.T, "bytes"))
				f = nil
			}
			v.fault, v.disk.fault = f, f
			c.Describe("%s: %s(%q)", v.describe(), op, path)
			var data []byte
			var list []os.FileInfo
			var stat disko.FileStat
			var err error
			c.Call(c.String(), func() {
				switch op {
				case "ReadFile":
					data, err = drv.ReadFile(path)
				case "Readdir":
					list, err = drv.Readdir(path)
				case "Stat":
					stat, err = drv.Stat(path)
				case "Remove":
					err = drv.Remove(path)
				case "Chmod":
					err = drv.Chmod(path, 0o444)
				case "Chtimes":
					err = drv.Chtimes(path, time.Now(), time.Now())
				}
			})
			v.fault, v.disk.fault = nil, nil
			if f != nil {
				c.AddDesc(", access %d (%s) fails", f.countdown, f.where)
				c.Label(map[bool]string{true: "failing " + f.where, false: "fewer accesses"}[f.fired])
				c.NonTrivial(f.fired)
				c.AddDesc(" with %v", f.err)
				if f.fired && (err == nil || !errors.Is(err, f.err) && f.err != io.EOF) {
					c.Fatalf("%s: %v, expected %v", c.String(), err, f.err)
				}
				if f.fired && op == "Remove" {
					// As long as the directory entry is there, so are the clusters.
					if len(v.freed) > 0 && !e.deleted {
						c.Fatalf("%s: released clusters %v of a file that wasn't removed", c.String(), v.freed)
					}
					own := map[fat.ClusterID]bool{}
					for _, cl := range e.chain {
						own[cl] = true
					}
					for _, cl := range v.freed {
						if !own[cl] {
							c.Fatalf("%s: released cluster %d, which isn't the file's", c.String(), cl)
						}
						own[cl] = false
					}
					// What couldn't be released is still a chain.
					for i, cl := range e.chain {
						if own[cl] && i > 0 && !own[e.chain[i-1]] {
							c.Fatalf("%s: released %v, so that the rest of %v is lost", c.String(), v.freed, e.chain)
						}
					}
				}
			} else {
				c.AddDesc(", cut off after %d bytes", v.disk.size)
				c.Label("cut off")
				c.NonTrivial(err != nil)
			}
			if err != nil {
				return
			}
			// It worked, so what it gave has to be right.
			switch op {
			case "ReadFile":
				if !e.dir && !bytes.Equal(data, e.content) {
					c.Fatalf("%s: returned %s, expected %s", c.String(), pbt.Short(data), pbt.Short(e.content))
				}
			case "Readdir":
				if n := len(e.live()); e.dir && len(list) != n && len(list) != n+2 {
					c.Fatalf("%s: listed %d entries, expected %d", c.String(), len(list), n)
				}
			case "Stat":
				v.checkStat(c, e, stat, "Stat")
			}
			if cut {
				if !e.dir && op == "ReadFile" && int64(len(data)) > 0 {
					// All of its bytes have to be there.
					last := e.chain[(len(data)-1)/int(v.clusterLen())]
					if end := (int64(v.firstData()) + int64(last-2)*int64(v.spc)) * int64(v.bps); end >= v.disk.size {
						c.Fatalf("%s: returned %d bytes though its last cluster is missing", c.String(), len(data))
					}
				}
			}
		})
}
