// Checks of the FAT8 driver, on images in scratch files.
package fat8

import (
	"bytes"
	"errors"
	"fmt"
	"io/fs"
	"math"
	"os"
	"reflect"
	"strings"
	"testing"
	"time"
	"unsafe"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat8"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

const sector = 128

// layout is where everything is on an image, written down independently of the
// code from its documentation: the directory track is track 18 or 35, counted
// from 1; it has directory entries, the information sector, and the three FATs
// with one byte for each of the two clusters of every track, in this order.
type layout struct {
	sectors, perCluster, clusters uint
	dirStart, info, fat, fatLen   uint // sectors
	reserved                      uint // index in the FAT of the first of the two entries of the directory track
	files                         uint64
}

var layouts = []layout{
	{sectors: 640, perCluster: 8, clusters: 80, dirStart: 272, info: 284, fat: 285, fatLen: 1, reserved: 34, files: 96},
	{sectors: 1898, perCluster: 13, clusters: 146, dirStart: 884, info: 903, fat: 904, fatLen: 2, reserved: 68, files: 152},
	{sectors: 2002, perCluster: 13, clusters: 146, dirStart: 884, info: 903, fat: 904, fatLen: 2, reserved: 68, files: 152},
}

func drawLayout(c *pbt.C) layout {
	l := layouts[pbt.Int(0, 2).Draw(c.T, "layout")]
	c.Label(fmt.Sprintf("%d sectors", l.sectors))
	return l
}

func (l layout) emptyFAT() []byte {
	f := bytes.Repeat([]byte{0xff}, int(l.fatLen)*sector)
	f[l.reserved], f[l.reserved+1] = 0xfe, 0xfe
	return f
}

// image is what a freshly formatted image looks like with the given FAT.
func (l layout) image(fat []byte) []byte {
	img := make([]byte, l.sectors*sector)
	for i := l.dirStart * sector; i < l.info*sector; i++ {
		img[i] = 0xff
	}
	copy(img[l.fat*sector:], bytes.Repeat(fat, 3))
	return img
}

func (l layout) stat(fat []byte) disko.FSStat {
	free := 0
	for _, e := range fat[:l.clusters] {
		if e == 0xff {
			free++
		}
	}
	blocks := uint64(free) * uint64(l.perCluster)
	return disko.FSStat{BlockSize: sector, TotalBlocks: uint64(l.sectors), BlocksFree: blocks, BlocksAvailable: blocks,
		FilesFree: l.files, MaxNameLength: 10}
}

// disk is an image file with a driver on it.
type disk struct {
	file *os.File
	drv  fat8.FAT8Driver
}

func newDisk(c *pbt.C, dir string, contents []byte) (*disk, func()) {
	f, err := os.CreateTemp(dir, "image-")
	if err == nil {
		_, err = f.Write(contents)
	}
	if err != nil {
		panic(err)
	}
	return &disk{file: f, drv: fat8.NewDriverFromFile(f)}, func() {
		f.Close()
		os.Remove(f.Name())
	}
}

func (d *disk) contents() []byte {
	data, err := os.ReadFile(d.file.Name())
	if err != nil {
		panic(err)
	}
	return data
}

func (d *disk) poke(at int, b byte) {
	if _, err := d.file.WriteAt([]byte{b}, int64(at)); err != nil {
		panic(err)
	}
}

// diff says where two images differ.
func diff(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("the image has %d bytes, expected %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d of sector %d of the image is %#02x, expected %#02x", i%sector, i/sector, got[i], want[i])
		}
	}
	return ""
}

func expectImage(c *pbt.C, d *disk, want []byte, after string) {
	if got := d.contents(); !bytes.Equal(got, want) {
		c.Fatalf("after %s, %s", after, diff(got, want))
	}
}

// size is formatting options of just a size.
type size int64

func (s size) Metadata() any         { return nil }
func (s size) TotalSizeBytes() int64 { return int64(s) }

func TestT01_Format(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 3000, 48000, "formats of all valid sizes, given in different ways, of empty, short, exact and long files, blank or with any contents, "+
		"sometimes several times, with changes in between; and of invalid sizes; non-trivial: the file isn't empty, or the size is invalid",
		func(c *pbt.C) {
			l := drawLayout(c)
			total := int(l.sectors) * sector
			initial := rapid.SampledFrom([]int{0, 1, 128, total - 1, total, total + 1, total + 12800}).Draw(c.T, "initial")
			c.Describe("%d sectors, %d bytes", l.sectors, initial)
			before := make([]byte, initial)
			if rapid.Bool().Draw(c.T, "used") {
				c.AddDesc(", used")
				fill := pbt.Byte().Draw(c.T, "fill")
				for i := range before {
					before[i] = fill + byte(i*7+i>>8)
				}
			}
			d, done := newDisk(c, dir, before)
			defer done()
			if pbt.Int(0, 3).Draw(c.T, "invalid") == 0 {
				n := size(total + rapid.SampledFrom([]int{-128, 128, -1, 1, 64, 26 * 128, -total}).Draw(c.T, "off by"))
				c.AddDesc(", format as %d bytes", n)
				c.Label("invalid size")
				c.NonTrivial(true)
				var err error
				c.Call("FormatImage", func() { err = d.drv.FormatImage(n) })
				if err == nil {
					c.Fatalf("FormatImage accepted an image of %d bytes", n)
				}
				expectImage(c, d, before, "a failed format")
				return
			}
			c.NonTrivial(initial != 0)
			for i := pbt.Int(1, 2).Draw(c.T, "times"); i > 0; i-- {
				var err error
				if rapid.Bool().Draw(c.T, "as FSStat") {
					bs := rapid.SampledFrom([]uint{128, 1, 64, 256}).Draw(c.T, "block size")
					c.Call("FormatImage", func() {
						err = d.drv.FormatImage(disko.FSStat{BlockSize: bs, TotalBlocks: uint64(total) / uint64(bs)})
					})
				} else {
					c.Call("FormatImage", func() { err = d.drv.FormatImage(size(total)) })
				}
				if err != nil {
					c.Fatalf("FormatImage of %d sectors: %v", l.sectors, err)
				}
				expectImage(c, d, l.image(l.emptyFAT()), "formatting")
				if got, want := d.drv.FSStat(), l.stat(l.emptyFAT()); got != want {
					c.Fatalf("after formatting, FSStat() is %+v, expected %+v", got, want)
				}
				for j := pbt.Int(0, 5).Draw(c.T, "changes"); j > 0; j-- {
					d.poke(pbt.Int(0, total-1).Draw(c.T, "changed byte"), pbt.Byte().Draw(c.T, "value"))
				}
			}
		})
}

func drawFAT(c *pbt.C, l layout) []byte {
	f := l.emptyFAT()
	kind := pbt.Int(0, 3).Draw(c.T, "FAT")
	if pbt.Int(0, 2).Draw(c.T, "tail") == 0 {
		// What follows the entries is undefined.
		junk := pbt.Byte().Draw(c.T, "tail byte")
		for i := l.clusters; i < uint(len(f)); i++ {
			f[i] = junk + byte(i)
		}
	}
	for i := range f {
		if uint(i) == l.reserved || uint(i) == l.reserved+1 || uint(i) >= l.clusters {
			continue
		}
		switch kind {
		case 1: // nearly full
			f[i] = byte(pbt.Int(0, 255).Draw(c.T, "entry"))
		case 2: // full
			f[i] = 0xc8
		case 3: // sparse
			if pbt.Int(0, 9).Draw(c.T, "used") == 0 {
				f[i] = byte(pbt.Int(1, 0xcd).Draw(c.T, "entry"))
			}
		}
	}
	return f
}

func TestT02_MountedStat(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 3000, 48000, "images with random FATs, mounted and asked for their file system information several times; or "+
		"of a wrong size; non-trivial: some clusters are in use, or the size is wrong",
		func(c *pbt.C) {
			l := drawLayout(c)
			if pbt.Int(0, 4).Draw(c.T, "wrong size") == 0 {
				n := rapid.SampledFrom([]int{0, 1, 127, 128, 639, 641, 1897, 1899, 2001, 2003, 4004}).Draw(c.T, "size") * sector
				if pbt.Int(0, 2).Draw(c.T, "part of a sector is missing") == 0 {
					n = int(l.sectors)*sector - rapid.SampledFrom([]int{1, 2, 63, 64, 65, 127}).Draw(c.T, "bytes")
				}
				c.Describe("%d bytes", n)
				c.Label("wrong size")
				c.NonTrivial(true)
				d, done := newDisk(c, dir, make([]byte, n))
				defer done()
				var err error
				c.Call("Mount", func() { err = d.drv.Mount(disko.MountFlagsAllowAll) })
				if !errors.Is(err, disko.ErrFileSystemCorrupted) {
					c.Fatalf("mounting an image of %d bytes: %v, expected %v", n, err, disko.ErrFileSystemCorrupted)
				}
				expectImage(c, d, make([]byte, n), "a failed mount")
				return
			}
			f := drawFAT(c, l)
			want := l.stat(f)
			c.Describe("%d sectors, FAT %s", l.sectors, pbt.Short(f))
			c.NonTrivial(want.BlocksFree != l.stat(l.emptyFAT()).BlocksFree)
			d, done := newDisk(c, dir, l.image(f))
			defer done()
			var err error
			c.Call("Mount", func() { err = d.drv.Mount(disko.MountFlagsAllowAll) })
			if err != nil {
				c.Fatalf("mounting: %v", err)
			}
			for i := 0; i < 2; i++ {
				if got := d.drv.FSStat(); got != want {
					c.Fatalf("FSStat() is %+v, expected %+v", got, want)
				}
			}
			fat, err := d.drv.GetFAT()
			if err != nil || !bytes.Equal(fat, f) {
				c.Fatalf("GetFAT() = %s, %v, expected %s", pbt.Short(fat), err, pbt.Short(f))
			}
			expectImage(c, d, l.image(f), "mounting")
			if pbt.Int(0, 3).Draw(c.T, "again") == 0 {
				c.AddDesc(", again with another FAT")
				if err := d.drv.Unmount(); err != nil {
					c.Fatalf("Unmount: %v", err)
				}
				f = drawFAT(c, l)
				if _, err := d.file.WriteAt(l.image(f), 0); err != nil {
					panic(err)
				}
				c.Call("Mount", func() { err = d.drv.Mount(disko.MountFlagsAllowAll) })
				if err != nil {
					c.Fatalf("mounting again: %v", err)
				}
				if got, want := d.drv.FSStat(), l.stat(f); got != want {
					c.Fatalf("mounted again, FSStat() is %+v, expected %+v", got, want)
				}
			}
		})
}

// drawUint generates numbers around the given limit, and very large ones.
func drawUint(c *pbt.C, name string, limit uint) uint {
	switch pbt.Int(0, 4).Draw(c.T, name+" class") {
	case 0:
		n := int(limit) + pbt.Int(-2, 2).Draw(c.T, name)
		return uint(max(n, 0))
	case 1:
		return uint(pbt.Int(0, 3).Draw(c.T, name))
	case 2:
		if pbt.Int(0, 3).Draw(c.T, name+" huge") == 0 {
			if rapid.Bool().Draw(c.T, name+" with high bits") {
				// Something valid if the upper bits get lost.
				return uint(pbt.Int(0, int(limit)).Draw(c.T, name)) | 1<<pbt.Int(8, 63).Draw(c.T, name+" bit")
			}
			return rapid.SampledFrom([]uint{math.MaxUint, math.MaxUint - 1, 1 << 63, 1 << 62, 1 << 57, 1<<57 - 1, 1 << 32, math.MaxInt64}).Draw(c.T, name)
		}
	}
	return uint(pbt.Int(0, int(limit)).Draw(c.T, name))
}

func fill(c *pbt.C, n int) []byte {
	b := make([]byte, n)
	x := uint32(pbt.Int(1, math.MaxInt32).Draw(c.T, "data"))
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// prepared returns a disk ready for reading and writing, and what is on it.
func prepared(c *pbt.C, dir string, l layout) (*disk, []byte, func()) {
	model := l.image(drawFAT(c, l))
	for i := 0; i < int(l.dirStart)*sector; i += 97 {
		model[i] = byte(i / 97)
	}
	d, done := newDisk(c, dir, model)
	if err := d.drv.Mount(disko.MountFlagsAllowAll); err != nil {
		done()
		c.Fatalf("mounting: %v", err)
	}
	return d, model, done
}

// scribble changes data that is no longer the driver's business.
func scribble(data []byte) {
	for i := range data {
		data[i] += 0x33
	}
}

func TestT03_Blocks(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 2400, 48000, "up to 25 reads and writes of sectors and clusters at arbitrary places, in and out of bounds, against "+
		"a byte array; non-trivial: at least 3 writes and 3 reads succeeded",
		func(c *pbt.C) {
			l := drawLayout(c)
			d, model, done := prepared(c, dir, l)
			defer func() { done() }()
			c.Describe("%d: ", l.sectors)
			clusterLen := int(l.perCluster) * sector
			switch pbt.Int(0, 5).Draw(c.T, "preparation") {
			case 0:
				// A formatted image doesn't need to be mounted.
				c.Label("formatted")
				c.AddDesc("(formatted) ")
				done()
				model = l.image(l.emptyFAT())
				d, done = newDisk(c, dir, nil)
				if err := d.drv.FormatImage(size(l.sectors * sector)); err != nil {
					c.Fatalf("formatting: %v", err)
				}
			case 1:
				// The image doesn't end with the file.
				c.Label("more in the file")
				c.AddDesc("(longer file) ")
				more := fill(c, 20*sector)
				if _, err := d.file.WriteAt(more, int64(len(model))); err != nil {
					panic(err)
				}
				model = append(model, more...)
			}
			reads, writes := 0, 0
			// What was read stays as it was, and is the caller's to change.
			type result struct {
				what      string
				got, want []byte
			}
			results := []result{}
			keep := func(what string, got []byte) {
				if len(got) > 0 && pbt.Int(0, 2).Draw(c.T, "change the result") == 0 {
					got[pbt.Int(0, len(got)-1).Draw(c.T, "at")] ^= 0x5a
				}
				results = append(results, result{what, got, append([]byte{}, got...)})
			}
			unchanged := func() {
				for _, r := range results {
					if !bytes.Equal(r.got, r.want) {
						c.Fatalf("%s: the data returned by %s is now %s, was %s", c.String(), r.what, pbt.Short(r.got), pbt.Short(r.want))
					}
				}
			}
			for i := pbt.Int(1, 25).Draw(c.T, "steps"); i > 0; i-- {
				switch pbt.Int(0, 4).Draw(c.T, "op") {
				case 0:
					start, count := drawUint(c, "start", l.sectors), drawUint(c, "count", 6)
					if pbt.Int(0, 9).Draw(c.T, "long") == 0 {
						count = drawUint(c, "count", l.sectors)
						if rapid.Bool().Draw(c.T, "up to the end") && count <= l.sectors {
							start = l.sectors - count
						}
					}
					what := fmt.Sprintf("ReadDiskBlocks(%d, %d)", start, count)
					c.AddDesc("%s ", what)
					var data []byte
					var err error
					c.Call(what, func() { data, err = d.drv.ReadDiskBlocks(fat8.PhysicalBlock(start), count) })
					if start > l.sectors || count > l.sectors-start {
						c.Label("read out of bounds")
						if err == nil {
							c.Fatalf("%s of %d sectors succeeded", what, l.sectors)
						}
						break
					}
					reads++
					if err != nil || !bytes.Equal(data, model[start*sector:(start+count)*sector]) {
						c.Fatalf("%s = %s, %v, expected %s", what, pbt.Short(data), err, pbt.Short(model[start*sector:(start+count)*sector]))
					}
					keep(what, data)
				case 1:
					start := drawUint(c, "start", l.sectors)
					n := pbt.Int(0, 5).Draw(c.T, "sectors") * sector
					if pbt.Int(0, 9).Draw(c.T, "long") == 0 {
						n = pbt.Int(0, int(l.sectors)+1).Draw(c.T, "sectors") * sector
						if rapid.Bool().Draw(c.T, "up to the end") && n <= int(l.sectors)*sector {
							start = l.sectors - uint(n/sector)
						}
					}
					if pbt.Int(0, 5).Draw(c.T, "odd") == 0 {
						n += rapid.SampledFrom([]int{1, 64, 127}).Draw(c.T, "rest")
					}
					data := fill(c, n)
					what := fmt.Sprintf("WriteDiskBlocks(%d, %d bytes)", start, n)
					c.AddDesc("%s ", what)
					var err error
					c.Call(what, func() { err = d.drv.WriteDiskBlocks(fat8.PhysicalBlock(start), data) })
					if n%sector != 0 || start > l.sectors || uint(n/sector) > l.sectors-start {
						c.Label("write refused")
						if err == nil {
							c.Fatalf("%s on %d sectors succeeded", what, l.sectors)
						}
						break
					}
					if err != nil {
						c.Fatalf("%s: %v", what, err)
					}
					writes++
					copy(model[start*sector:], data)
					scribble(data)
				case 2:
					n := drawUint(c, "cluster", l.clusters)
					what := fmt.Sprintf("ReadAbsoluteCluster(%d)", n)
					c.AddDesc("%s ", what)
					valid := n >= 1 && n <= l.clusters
					if got := d.drv.IsValidCluster(fat8.PhysicalCluster(n)); got != valid {
						c.Fatalf("IsValidCluster(%d) = %v, expected %v", n, got, valid)
					}
					var data []byte
					var err error
					c.Call(what, func() { data, err = d.drv.ReadAbsoluteCluster(fat8.PhysicalCluster(n)) })
					if !valid {
						if err == nil {
							c.Fatalf("%s of %d clusters succeeded", what, l.clusters)
						}
						break
					}
					reads++
					want := model[int(n-1)*clusterLen : int(n)*clusterLen]
					if err != nil || !bytes.Equal(data, want) {
						c.Fatalf("%s = %s, %v, expected %s", what, pbt.Short(data), err, pbt.Short(want))
					}
					keep(what, data)
				case 3:
					n := drawUint(c, "cluster", l.clusters)
					length := clusterLen
					if pbt.Int(0, 5).Draw(c.T, "wrong length") == 0 {
						length = rapid.SampledFrom([]int{0, 1, clusterLen - 128, clusterLen - 1, clusterLen + 1, clusterLen + 128, 2 * clusterLen}).Draw(c.T, "length")
					}
					data := fill(c, length)
					what := fmt.Sprintf("WriteAbsoluteCluster(%d, %d bytes)", n, length)
					c.AddDesc("%s ", what)
					var err error
					c.Call(what, func() { err = d.drv.WriteAbsoluteCluster(fat8.PhysicalCluster(n), data) })
					if n < 1 || n > l.clusters || length != clusterLen {
						c.Label("write refused")
						if err == nil {
							c.Fatalf("%s on %d clusters of %d bytes succeeded", what, l.clusters, clusterLen)
						}
						break
					}
					if err != nil {
						c.Fatalf("%s: %v", what, err)
					}
					writes++
					copy(model[int(n-1)*clusterLen:], data)
					scribble(data)
				case 4:
					expectImage(c, d, model, c.String())
				}
			}
			expectImage(c, d, model, c.String())
			unchanged()
			c.NonTrivial(reads >= 3 && writes >= 3)
		})
}

func TestT05_DamagedFATs(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 3600, 60000, "images with random FATs of which some bytes in up to three copies are changed, the same or "+
		"differently, mounted, then repaired and mounted again; non-trivial: the copies differ",
		func(c *pbt.C) {
			l := drawLayout(c)
			f := drawFAT(c, l)
			model := l.image(f)
			copies := [3][]byte{}
			for i := range copies {
				at := (l.fat + uint(i)*l.fatLen) * sector
				copies[i] = model[at : at+l.fatLen*sector : at+l.fatLen*sector]
			}
			c.Describe("%d sectors", l.sectors)
			for i := pbt.Int(0, 2).Draw(c.T, "changes"); i > 0; i-- {
				at := pbt.Int(0, len(f)-1).Draw(c.T, "at")
				if rapid.Bool().Draw(c.T, "last used byte") {
					at = rapid.SampledFrom([]int{0, 127, len(f) - 1, int(l.clusters) - 1, len(f) / 2}).Draw(c.T, "edge")
				}
				which := pbt.Int(1, 7).Draw(c.T, "copies")
				b := pbt.Byte().Draw(c.T, "byte")
				for k := range copies {
					if which&(1<<k) != 0 {
						copies[k][at] = b
					}
				}
				c.AddDesc(", entry %d of copies %03b = %#02x", at, which, b)
			}
			same := bytes.Equal(copies[0], copies[1]) && bytes.Equal(copies[0], copies[2])
			c.NonTrivial(!same)
			d, done := newDisk(c, dir, model)
			defer done()
			var err error
			c.Call("Mount", func() { err = d.drv.Mount(disko.MountFlagsAllowAll) })
			expectImage(c, d, model, "mounting")
			if same {
				if err != nil {
					c.Fatalf("all copies of the FAT are equal, but mounting failed: %v", err)
				}
				if got := d.drv.FSStat(); got != l.stat(copies[0]) {
					c.Fatalf("FSStat() is %+v, expected %+v", got, l.stat(copies[0]))
				}
				return
			}
			if !errors.Is(err, disko.ErrFileSystemCorrupted) {
				c.Fatalf("the copies of the FAT differ, but mounting says %v", err)
			}
			// It isn't mounted now; once repaired, it can be.
			repaired := l.image(copies[0])
			if _, err := d.file.WriteAt(repaired, 0); err != nil {
				panic(err)
			}
			c.Call("Mount", func() { err = d.drv.Mount(disko.MountFlagsAllowAll) })
			if err != nil {
				c.Fatalf("mounting the repaired image: %v", err)
			}
			if got := d.drv.FSStat(); got != l.stat(copies[0]) {
				c.Fatalf("FSStat() of the repaired image is %+v, expected %+v", got, l.stat(copies[0]))
			}
			expectImage(c, d, repaired, "mounting the repaired image")
		})
}

func TestT06_Lifecycle(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 2400, 48000, "up to 30 formats, mounts, unmounts and flushes in any order, with data written to the image and its FAT "+
		"changed while it isn't mounted; non-trivial: mounted at least twice, with a refused operation",
		func(c *pbt.C) {
			l := drawLayout(c)
			model := []byte{}
			d, done := newDisk(c, dir, nil)
			defer done()
			mounted, mounts, refused := false, 0, 0
			valid := false
			c.Describe("%d: ", l.sectors)
			for i := pbt.Int(5, 30).Draw(c.T, "steps"); i > 0; i-- {
				op := rapid.SampledFrom([]string{"format", "mount", "mount", "mount", "unmount", "unmount", "flush", "flush", "change FAT", "change", "write"}).Draw(c.T, "op")
				c.AddDesc("%s ", op)
				var err error
				switch op {
				case "format":
					if !mounted {
						l = drawLayout(c)
						c.AddDesc("(%d) ", l.sectors)
					}
					c.Call(op, func() { err = d.drv.FormatImage(size(l.sectors * sector)) })
					if mounted {
						refused++
						if !errors.Is(err, disko.ErrBusy) {
							c.Fatalf("formatting a mounted image: %v, expected %v", err, disko.ErrBusy)
						}
						break
					}
					if err != nil {
						c.Fatalf("formatting: %v", err)
					}
					model = l.image(l.emptyFAT())
					valid = true
				case "mount":
					c.Call(op, func() { err = d.drv.Mount(disko.MountFlagsAllowAll) })
					switch {
					case mounted:
						refused++
						if !errors.Is(err, disko.ErrAlreadyInProgress) {
							c.Fatalf("mounting a mounted image: %v, expected %v", err, disko.ErrAlreadyInProgress)
						}
					case !valid:
						refused++
						if err == nil {
							c.Fatalf("mounting an empty image succeeded")
						}
					default:
						if err != nil {
							c.Fatalf("mounting: %v", err)
						}
						mounted = true
						mounts++
					}
				case "unmount":
					c.Call(op, func() { err = d.drv.Unmount() })
					if err != nil && mounted {
						c.Fatalf("unmounting: %v", err)
					}
					mounted = false
				case "flush":
					if !mounted {
						continue // never called otherwise
					}
					c.Call(op, func() { err = d.drv.Flush() })
					if err != nil {
						c.Fatalf("flushing: %v", err)
					}
				case "change FAT":
					if mounted || !valid {
						continue
					}
					// There is space behind the entries that isn't the driver's.
					at := pbt.Int(0, int(l.clusters)-1).Draw(c.T, "at")
					if pbt.Int(0, 2).Draw(c.T, "tail") == 0 {
						at = pbt.Int(int(l.clusters), int(l.fatLen)*sector-1).Draw(c.T, "tail at")
					}
					b := pbt.Byte().Draw(c.T, "byte")
					for k := 0; k < 3; k++ {
						p := int(l.fat+uint(k)*l.fatLen)*sector + at
						model[p] = b
						d.poke(p, b)
					}
				case "change":
					// Elsewhere on the directory track.
					if mounted || !valid {
						continue
					}
					p := pbt.Int(int(l.dirStart)*sector, int(l.fat)*sector-1).Draw(c.T, "at")
					if pbt.Int(0, 2).Draw(c.T, "default attributes") == 0 {
						p = int(l.info) * sector
					}
					model[p] = pbt.Byte().Draw(c.T, "byte")
					d.poke(p, model[p])
				case "write":
					if !mounted {
						continue
					}
					n := pbt.Int(1, int(l.reserved)).Draw(c.T, "cluster")
					data := fill(c, int(l.perCluster)*sector)
					c.Call(op, func() { err = d.drv.WriteAbsoluteCluster(fat8.PhysicalCluster(n), data) })
					if err != nil {
						c.Fatalf("writing cluster %d: %v", n, err)
					}
					copy(model[(n-1)*len(data):], data)
				}
				expectImage(c, d, model, c.String())
				if mounted {
					fat := model[l.fat*sector : (l.fat+l.fatLen)*sector]
					if got := d.drv.FSStat(); got != l.stat(fat) {
						c.Fatalf("after %s, FSStat() is %+v, expected %+v", c.String(), got, l.stat(fat))
					}
				}
			}
			c.NonTrivial(mounts >= 2 && refused > 0)
		})
}

// Printable characters without the period, which separates the extension.
var nameChars = func() []byte {
	chars := []byte{}
	for ch := byte('!'); ch <= '~'; ch++ {
		if ch != '.' {
			chars = append(chars, ch)
		}
	}
	return chars
}()

func drawPart(c *pbt.C, name string, lo, hi int) string {
	n := pbt.Int(lo, hi).Draw(c.T, name+" length")
	out := make([]byte, n)
	for i := range out {
		// Spaces are fine, except at the end where they can't be told from the padding.
		if i < n-1 && pbt.Int(0, 9).Draw(c.T, name+" space") == 0 {
			out[i] = ' '
		} else {
			out[i] = nameChars[pbt.Int(0, len(nameChars)-1).Draw(c.T, name)]
		}
	}
	return string(out)
}

func asciiUpper(s string) string {
	b := []byte(s)
	for i, ch := range b {
		if ch >= 'a' && ch <= 'z' {
			b[i] = ch - 32
		}
	}
	return string(b)
}

func TestT07_FileNames(t *testing.T) {
	type name struct {
		stem, ext string
		period    bool
	}
	draw := func(c *pbt.C, which string) name {
		n := name{stem: drawPart(c, which+" stem", 1, 9), ext: drawPart(c, which+" extension", 0, 5)}
		if n.ext != "" && pbt.Int(0, 9).Draw(c.T, which+" without a stem") == 0 {
			n.stem = ""
		}
		if n.ext != "" && pbt.Int(0, 5).Draw(c.T, which+" more periods") == 0 {
			e := []byte(n.ext)
			for i := range e {
				if rapid.Bool().Draw(c.T, which+" period") {
					e[i] = '.'
				}
			}
			n.ext = string(e)
		}
		n.period = n.ext != "" || pbt.Int(0, 5).Draw(c.T, which+" ends in a period") == 0
		return n
	}
	text := func(n name) string {
		if !n.period {
			return n.stem
		}
		return n.stem + "." + n.ext
	}
	pad := func(s string, n int) string { return s + strings.Repeat(" ", n-len(s)) }
	pbt.Check(t, 8000, 100000, "pairs of names of printable ASCII characters with stems of 0-9 and extensions of 0-5 characters, with or without more periods; "+
		"non-trivial: valid and with an extension, or too long",
		func(c *pbt.C) {
			n := draw(c, "first")
			if rapid.IntRange(0, 9).Draw(c.T, "too many spaces") == 0 {
				if rapid.Bool().Draw(c.T, "in the stem") {
					n.stem = pad(n.stem, max(len(n.stem), pbt.Int(7, 9).Draw(c.T, "stem length")))
				} else {
					n.ext, n.period = pad(n.ext, max(len(n.ext), pbt.Int(4, 6).Draw(c.T, "extension length"))), true
				}
			}
			s := text(n)
			c.Describe("%q", s)
			c.NonTrivial(n.ext != "" || len(n.stem) > 6)
			var raw []byte
			var err error
			c.Call("FilenameToBytes", func() { raw, err = fat8.FilenameToBytes(s) })
			if n.ext == "." {
				// There's no room for this, see below.
				c.Label("two periods at the end")
				if err == nil {
					c.Fatalf("FilenameToBytes(%q) = %q, expected an error", s, raw)
				}
				return
			}
			if len(n.stem) > 6 || len(n.ext) > 3 {
				c.Label("too long")
				if !errors.Is(err, disko.ErrNameTooLong) {
					c.Fatalf("FilenameToBytes(%q) = %q, %v, expected %v", s, raw, err, disko.ErrNameTooLong)
				}
				return
			}
			stored := n.ext
			if n.period && stored == "" {
				// Names may end in a period, though it's useless.
				c.Label("period at the end")
				stored = "."
			}
			want := asciiUpper(pad(n.stem, 6) + pad(stored, 3))
			if err != nil || string(raw) != want {
				c.Fatalf("FilenameToBytes(%q) = %q, %v, expected %q", s, raw, err, want)
			}
			back, err := fat8.BytesToFilename(raw)
			if err != nil || back != asciiUpper(s) {
				c.Fatalf("%q is stored as %q, which is read as %q, %v", s, raw, back, err)
			}
			again, err := fat8.FilenameToBytes(back)
			if err != nil || !bytes.Equal(raw, again) {
				c.Fatalf("%q is stored as %q, read as %q, and that stored as %q, %v", s, raw, back, again, err)
			}
			if string(raw) != want {
				c.Fatalf("reading a name changed its bytes to %q", raw)
			}
			// As directories have them, possibly in lower case.
			mixed := []byte(pad(n.stem, 6) + pad(stored, 3))
			if back, err := fat8.BytesToFilename(mixed); err != nil || back != asciiUpper(s) {
				c.Fatalf("%q is read as %q, %v, expected %q", mixed, back, err, asciiUpper(s))
			}
			// Different names remain different.
			m := draw(c, "second")
			if pbt.Int(0, 2).Draw(c.T, "similar") == 0 {
				m = n
				switch pbt.Int(0, 2).Draw(c.T, "how") {
				case 0: // the period somewhere else
					m = name{stem: n.stem + n.ext}
				case 1: // without it, or with an additional one at the end
					m.period = !n.period
					if n.ext != "" {
						m.ext += "."
					}
				case 2: // without what follows a second period
					before, _, _ := strings.Cut(n.ext, ".")
					m.ext, m.period = before, before != ""
				}
			}
			raw2, err := fat8.FilenameToBytes(text(m))
			if err == nil && bytes.Equal(raw, raw2) != (asciiUpper(text(m)) == asciiUpper(s)) {
				c.Fatalf("%q is stored as %q and %q as %q", s, raw, text(m), raw2)
			}
		})
}

func TestT07_OtherNames(t *testing.T) {
	pbt.Check(t, 4000, 60000, "names with characters other than ASCII, and of invalid UTF-8, which are refused or stored in nine bytes and read back; "+
		"stored names of other than nine bytes, which are refused; non-trivial: all but the empty one",
		func(c *pbt.C) {
			if rapid.Bool().Draw(c.T, "stored") {
				n := rapid.OneOf(rapid.IntRange(0, 8), rapid.IntRange(10, 20)).Draw(c.T, "bytes")
				raw := []byte(strings.Repeat("A", n))
				for i := range raw {
					raw[i] = rapid.SampledFrom([]byte("AZ09 .")).Draw(c.T, "byte")
				}
				c.Describe("stored %q", raw)
				c.NonTrivial(n > 0)
				c.Label("stored")
				var name string
				var err error
				c.Call("BytesToFilename", func() { name, err = fat8.BytesToFilename(raw) })
				if err == nil {
					c.Fatalf("BytesToFilename(%q) = %q, expected an error", raw, name)
				}
				return
			}
			piece := rapid.SampledFrom([]string{"A", "b", "\u00e9", "\u00df", "\u0131", "\u017f", "\u212a", "\u4e2d", "\U0001f4be", "\xff", "\xc3", "\u0149", "Z"})
			part := func(which string, n int) string {
				s := ""
				for i := pbt.Int(1, n).Draw(c.T, which); i > 0; i-- {
					s += piece.Draw(c.T, "character")
				}
				return s
			}
			s := part("stem", 6)
			if rapid.Bool().Draw(c.T, "extension") {
				s += "." + part("extension", 3)
			}
			c.Describe("%q", s)
			c.NonTrivial(true)
			var raw []byte
			var err error
			c.Call("FilenameToBytes", func() { raw, err = fat8.FilenameToBytes(s) })
			if err != nil {
				c.Label("refused")
				return
			}
			back, err := fat8.BytesToFilename(raw)
			if len(raw) != 9 || err != nil || !strings.EqualFold(back, s) {
				c.Fatalf("%q is stored as %q, which is read as %q, %v", s, raw, back, err)
			}
		})
}

func TestT07_EmptyName(t *testing.T) {
	pbt.Check(t, 20, 20, "the empty name", func(c *pbt.C) {
		c.Describe("empty")
		c.NonTrivial(true)
		if raw, err := fat8.FilenameToBytes(""); !errors.Is(err, disko.ErrInvalidArgument) {
			c.Fatalf("FilenameToBytes(\"\") = %q, %v", raw, err)
		}
	})
}

// fieldOfType finds the only field of the given type in the struct that p points
// to, exported or not, so that the checks don't depend on what it is called.
func fieldOfType[F any](p any) *F {
	v := reflect.ValueOf(p).Elem()
	var found *F
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeFor[F]() {
			if found != nil {
				return nil
			}
			found = (*F)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return found
}

// newEntry makes a directory entry of the given clusters, if there is a way to.
func newEntry(clusters []fat8.PhysicalCluster) (*fat8.DirectoryEntry, bool) {
	e := &fat8.DirectoryEntry{}
	p := fieldOfType[[]fat8.PhysicalCluster](e)
	if p == nil {
		return e, false
	}
	*p = clusters
	return e, true
}

func drawClusters(c *pbt.C, l layout) []fat8.PhysicalCluster {
	cs := []fat8.PhysicalCluster{}
	for i := uint(1); i <= l.clusters; i++ {
		if i-1 != l.reserved && i-1 != l.reserved+1 {
			cs = append(cs, fat8.PhysicalCluster(i))
		}
	}
	n := pbt.Int(0, 7).Draw(c.T, "number of clusters")
	if pbt.Int(0, 9).Draw(c.T, "many clusters") == 0 {
		n = pbt.Int(8, len(cs)).Draw(c.T, "number of clusters")
	}
	if pbt.Int(0, 2).Draw(c.T, "together") == 0 {
		// A few adjacent clusters, in any order.
		at := pbt.Int(0, len(cs)-n).Draw(c.T, "first")
		cs = cs[at : at+n]
	}
	return rapid.Permutation(cs).Draw(c.T, "clusters")[:n]
}

func TestT04_FileClusters(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 1500, 36000, "up to 15 reads and writes of the clusters of two files with scattered clusters; non-trivial: at least "+
		"one write and one read of a file with several clusters",
		func(c *pbt.C) {
			l := drawLayout(c)
			d, model, done := prepared(c, dir, l)
			defer done()
			all := drawClusters(c, l)
			split := pbt.Int(0, len(all)).Draw(c.T, "split")
			files := [][]fat8.PhysicalCluster{all[:split:split], all[split:]}
			c.Describe("%d: %v ", l.sectors, files)
			clusterLen := int(l.perCluster) * sector
			reads, writes := 0, 0
			for i := pbt.Int(1, 15).Draw(c.T, "steps"); i > 0; i-- {
				which := pbt.Int(0, 1).Draw(c.T, "file")
				entry, ok := newEntry(files[which])
				clusters := files[which]
				if !ok {
					clusters = nil
				}
				n := drawUint(c, "cluster", uint(len(clusters)))
				if n > math.MaxInt64 {
					n = 1 << 40
				}
				inside := n < uint(len(clusters))
				var err error
				if rapid.Bool().Draw(c.T, "write") {
					length := clusterLen
					if pbt.Int(0, 5).Draw(c.T, "wrong length") == 0 {
						length = rapid.SampledFrom([]int{0, 128, clusterLen - 1, clusterLen + 1}).Draw(c.T, "length")
					}
					data := fill(c, length)
					what := fmt.Sprintf("WriteFileCluster(%v, %d, %d bytes)", clusters, n, length)
					c.AddDesc("w%d.%d.%d ", which, n, length)
					c.Call(what, func() { err = d.drv.WriteFileCluster(entry, fat8.LogicalCluster(n), data) })
					if (err == nil) != (inside && length == clusterLen) {
						c.Fatalf("%s on clusters of %d bytes: %v", what, clusterLen, err)
					}
					if err == nil {
						writes++
						copy(model[int(clusters[n]-1)*clusterLen:], data)
					}
				} else {
					what := fmt.Sprintf("ReadFileCluster(%v, %d)", clusters, n)
					c.AddDesc("r%d.%d ", which, n)
					var data []byte
					c.Call(what, func() { data, err = d.drv.ReadFileCluster(entry, fat8.LogicalCluster(n)) })
					if (err == nil) != inside {
						c.Fatalf("%s: %v", what, err)
					}
					if err == nil {
						reads++
						at := int(clusters[n]-1) * clusterLen
						if !bytes.Equal(data, model[at:at+clusterLen]) {
							c.Fatalf("%s = %s, expected %s", what, pbt.Short(data), pbt.Short(model[at:at+clusterLen]))
						}
					}
				}
			}
			expectImage(c, d, model, c.String())
			_, ok := newEntry(nil)
			c.LabelIf(!ok, "no way to give files clusters")
			c.NonTrivial(len(all) > 1 && reads > 0 && writes > 0 || !ok)
		})
}

// info is file information of nothing but a name.
type info string

func (i info) Name() string       { return string(i) }
func (i info) Size() int64        { return 0 }
func (i info) Mode() fs.FileMode  { return 0 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() any           { return nil }

func randomCase(c *pbt.C, s string) string {
	b := []byte(s)
	for i, ch := range b {
		if rapid.Bool().Draw(c.T, "case") && (ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z') {
			b[i] = ch ^ 32
		}
	}
	return string(b)
}

func TestT08_FileStat(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 4800, 96000, "file systems with up to 6 binary and text files, asked for existing and missing files with names in "+
		"random case, with and without slash; non-trivial: an existing file with a partly used last cluster",
		func(c *pbt.C) {
			l := drawLayout(c)
			d, _, done := prepared(c, dir, l)
			defer done()
			table := fieldOfType[map[string]fat8.DirectoryEntry](&d.drv)
			names := []string{}
			entries := map[string]fat8.DirectoryEntry{}
			sizes := map[string]uint{}
			for i := pbt.Int(0, 6).Draw(c.T, "files"); i > 0; i-- {
				name := asciiUpper(drawPart(c, "stem", 1, 6))
				if ext := drawPart(c, "extension", 0, 3); ext != "" {
					name += "." + asciiUpper(ext)
				}
				if strings.HasPrefix(name, "/") {
					continue
				}
				clusters := drawClusters(c, l)
				e, ok := newEntry(clusters)
				if !ok || table == nil {
					break
				}
				e.IsBinary = pbt.Int(0, 4).Draw(c.T, "binary") > 0
				if len(clusters) > 0 {
					e.UnusedSectorsInLastCluster = uint(pbt.Int(0, int(l.perCluster)).Draw(c.T, "unused"))
				}
				if _, dup := entries[name]; !dup {
					names = append(names, name)
				}
				entries[name] = *e
				sizes[name] = uint(len(clusters))*l.perCluster - e.UnusedSectorsInLastCluster
			}
			if table != nil {
				*table = entries
			}
			c.Describe("%d: ", l.sectors)
			for i := 0; i < 4; i++ {
				name := asciiUpper(drawPart(c, "missing", 1, 6))
				if len(names) > 0 && i > 0 {
					name = names[pbt.Int(0, len(names)-1).Draw(c.T, "name")]
				}
				path := randomCase(c, name)
				if rapid.Bool().Draw(c.T, "slash") {
					path = "/" + path
				}
				e, exists := entries[name]
				if strings.HasPrefix(name, "/") {
					continue
				}
				c.AddDesc("%q(%v %d) ", path, e.IsBinary, sizes[name])
				var stat disko.FileStat
				var err error
				c.Call("Stat", func() { stat, err = d.drv.Stat(path) })
				switch {
				case !exists:
					if !errors.Is(err, disko.ErrNotFound) {
						c.Fatalf("Stat(%q) of a missing file: %+v, %v", path, stat, err)
					}
					c.NonTrivial(table == nil)
				case !e.IsBinary:
					// Either it isn't implemented yet, or the size is at most that of the sectors.
					if err == nil && uint(stat.Size) > sizes[name]*sector {
						c.Fatalf("Stat(%q): %d bytes in %d sectors", path, stat.Size, sizes[name])
					}
				default:
					c.NonTrivial(e.UnusedSectorsInLastCluster > 0)
					if err != nil {
						c.Fatalf("Stat(%q): %v", path, err)
					}
					if stat.Size != int64(sizes[name]*sector) || stat.NumBlocks != int64(sizes[name]) || stat.BlockSize != sector {
						c.Fatalf("Stat(%q): %d bytes, %d blocks of %d, expected %d sectors", path, stat.Size, stat.NumBlocks, stat.BlockSize, sizes[name])
					}
					if !stat.IsFile() || stat.Nlinks != 1 {
						c.Fatalf("Stat(%q) isn't that of a plain file: %+v", path, stat)
					}
				}
				other := asciiUpper(drawPart(c, "other", 1, 2))
				if !d.drv.SameFile(info(name), info(randomCase(c, name))) || d.drv.SameFile(info(name), info(other)) != (name == other) {
					c.Fatalf("SameFile is wrong for %q in other case, or for %q", name, other)
				}
			}
		})
}

func TestT09_Failures(t *testing.T) {
	dir := pbt.ScratchDir(t)
	pbt.Check(t, 2000, 20000, "up to 8 operations on images that can only be read, that get cut off, or that can't be accessed at all, before or after "+
		"mounting; non-trivial: at least one write and one read",
		func(c *pbt.C) {
			l := drawLayout(c)
			f := drawFAT(c, l)
			model := l.image(f)
			d, done := newDisk(c, dir, model)
			defer done()
			file, err := os.Open(d.file.Name())
			if err != nil {
				panic(err)
			}
			defer file.Close()
			drv := fat8.NewDriverFromFile(file)
			c.Describe("%d: ", l.sectors)
			mounted, closed := false, false
			reads, writes := 0, 0
			left := int(l.sectors) // in the file
			if rapid.Bool().Draw(c.T, "mount first") {
				if err := drv.Mount(disko.MountFlagsAllowRead); err != nil {
					c.Fatalf("mounting a read-only image: %v", err)
				}
				mounted = true
			}
			for i := pbt.Int(1, 8).Draw(c.T, "steps"); i > 0; i-- {
				op := rapid.SampledFrom([]string{"close", "cut", "format", "mount", "flush", "read sectors", "write sectors", "read cluster", "write cluster", "FAT"}).Draw(c.T, "op")
				if !mounted && op != "close" && op != "cut" && op != "format" && op != "mount" || mounted && (op == "format" || op == "mount") {
					continue
				}
				c.AddDesc("%s ", op)
				n := pbt.Int(1, int(l.clusters)).Draw(c.T, "where")
				var err error
				fails := closed
				c.Call(op, func() {
					switch op {
					case "close":
						file.Close()
						closed, fails = true, false
					case "cut":
						fails = false
						n := pbt.Int(0, left).Draw(c.T, "left")
						if n == 640 || n == 1898 {
							n-- // don't make it another valid image
						}
						c.AddDesc("to %d ", n)
						left = n
						model = model[:n*sector]
						err = d.file.Truncate(int64(n * sector))
					case "format":
						err = drv.FormatImage(size(l.sectors * sector))
						fails = true
						writes++
					case "mount":
						err = drv.Mount(disko.MountFlagsAllowRead)
						fails = closed || left < int(l.sectors)
						mounted = !fails
						reads++
					case "flush":
						err = drv.Flush()
						fails = true
						writes++
					case "read sectors":
						var got []byte
						got, err = drv.ReadDiskBlocks(fat8.PhysicalBlock(n), 2)
						fails = closed || n+2 > left
						if err == nil && !fails && !bytes.Equal(got, model[n*sector:(n+2)*sector]) {
							c.Fatalf("sectors %d and %d are read as %s, expected %s", n, n+1, pbt.Short(got), pbt.Short(model[n*sector:(n+2)*sector]))
						}
						reads++
					case "write sectors":
						err = drv.WriteDiskBlocks(fat8.PhysicalBlock(n), make([]byte, sector))
						fails = true
						writes++
					case "read cluster":
						_, err = drv.ReadAbsoluteCluster(fat8.PhysicalCluster(n))
						fails = closed || n*int(l.perCluster) > left
						reads++
					case "write cluster":
						err = drv.WriteAbsoluteCluster(fat8.PhysicalCluster(n), make([]byte, l.perCluster*sector))
						fails = true
						writes++
					case "FAT":
						var got []byte
						got, err = drv.GetFAT()
						fails = closed || int(l.fat+3*l.fatLen) > left
						if err == nil && !bytes.Equal(got, f) {
							c.Fatalf("GetFAT() = %s, expected %s", pbt.Short(got), pbt.Short(f))
						}
						reads++
					}
				})
				if fails && err == nil {
					c.Fatalf("%s: the last operation can't have succeeded, but reports no error", c.String())
				}
				if !fails && err != nil {
					c.Fatalf("%s: %v", c.String(), err)
				}
			}
			expectImage(c, d, model, c.String())
			c.LabelIf(closed, "closed")
			c.NonTrivial(reads > 0 && writes > 0)
		})
}
