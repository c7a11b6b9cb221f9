// Checks of the FAT driver, on generated volumes that are kept in memory.
package fat

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"testing"
	"unsafe"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var errInjected = errors.New("injected failure")

// params are the parameters of a volume, and what follows from them according
// to Microsoft's "FAT: General Overview of On-Disk Format", version 1.03.
type params struct {
	bps, spc, reserved, fats, rootEntries, total, spf uint
	wide                                              bool // use the 32-bit count of sectors even if the other is enough
	media                                             byte
	version                                           int
	clusters                                          uint
}

func (p params) rootSectors() uint { return (p.rootEntries*32 + p.bps - 1) / p.bps }
func (p params) firstData() uint   { return p.reserved + p.fats*p.spf + p.rootSectors() }
func (p params) clusterLen() uint  { return p.bps * p.spc }

// bootSector serializes the beginning of the boot sector.
func (p params) bootSector(junk *rand.Rand) []byte {
	b := make([]byte, p.bps)
	junk.Read(b)
	b = append(b, make([]byte, 64)...)
	le := binary.LittleEndian
	le.PutUint16(b[11:], uint16(p.bps))
	b[13] = byte(p.spc)
	le.PutUint16(b[14:], uint16(p.reserved))
	b[16] = byte(p.fats)
	le.PutUint16(b[17:], uint16(p.rootEntries))
	le.PutUint16(b[19:], 0)
	le.PutUint32(b[32:], 0)
	if p.total < 65536 && !p.wide {
		le.PutUint16(b[19:], uint16(p.total))
	} else {
		le.PutUint32(b[32:], uint32(p.total))
	}
	b[21] = p.media
	le.PutUint16(b[22:], 0)
	if p.version == 32 {
		le.PutUint32(b[36:], uint32(p.spf))
	} else {
		le.PutUint16(b[22:], uint16(p.spf))
		// There is something else at 36.
	}
	return b
}

// drawParams generates the parameters of a valid volume.
func drawParams(c *pbt.C) params {
	p := params{media: 0xf8}
	p.version = []int{12, 12, 16, 32}[pbt.Int(0, 3).Draw(c.T, "version")]
	p.bps = []uint{512, 512, 512, 1024, 2048, 4096}[pbt.Int(0, 5).Draw(c.T, "bytes per sector")]
	p.spc = []uint{1, 1, 1, 2, 2, 4, 8, 16, 32, 64, 128}[pbt.Int(0, 10).Draw(c.T, "sectors per cluster")]
	for p.bps*p.spc > 32768 {
		p.spc /= 2
	}
	p.fats = uint(pbt.Int(1, 2).Draw(c.T, "fats"))
	if pbt.Int(0, 19).Draw(c.T, "many FATs") == 0 {
		p.fats = uint(pbt.Int(3, 8).Draw(c.T, "fats"))
	}
	edge := pbt.Int(0, 4).Draw(c.T, "edge")
	switch p.version {
	case 12:
		p.clusters = uint(pbt.Int(30, 4084).Draw(c.T, "clusters"))
		if edge == 0 {
			p.clusters = 4084
		} else if edge < 4 {
			p.clusters = 30 + p.clusters%300
		}
		p.spf = ((p.clusters+2)*3/2 + 1 + p.bps - 1) / p.bps
	case 16:
		p.clusters = uint(pbt.Int(4085, 65524).Draw(c.T, "clusters"))
		if edge == 0 {
			p.clusters = 4085
		} else if edge == 1 {
			p.clusters = 65524
		}
		p.spf = ((p.clusters+2)*2 + p.bps - 1) / p.bps
	case 32:
		p.clusters = uint(pbt.Int(65525, 300000).Draw(c.T, "clusters"))
		if edge == 0 {
			p.clusters = 65525
		} else if edge == 1 {
			p.clusters = 1<<28 - 16
			for p.clusters*p.spc > 1<<32-1<<24 {
				p.clusters /= 2
			}
		}
		p.spf = ((p.clusters+2)*4 + p.bps - 1) / p.bps
	}
	if p.version == 32 {
		p.reserved = uint(pbt.Int(2, 64).Draw(c.T, "reserved"))
	} else {
		p.reserved = uint(pbt.Int(1, 9).Draw(c.T, "reserved"))
		p.rootEntries = uint(pbt.Int(1, 1024).Draw(c.T, "root entries"))
		if rapid.Bool().Draw(c.T, "whole sectors") {
			p.rootEntries = p.bps / 32 * uint(pbt.Int(1, 16).Draw(c.T, "root sectors"))
		}
	}
	// There may be sectors left at the end that aren't enough for another cluster.
	p.total = p.firstData() + p.clusters*p.spc + uint(pbt.Int(0, int(p.spc)-1).Draw(c.T, "rest"))
	if p.total >= 1<<32 {
		p.total = 1<<32 - 1
		p.clusters = (p.total - p.firstData()) / p.spc
	}
	p.wide = pbt.Int(0, 3).Draw(c.T, "wide") == 0
	return p
}

func (p params) String() string {
	return fmt.Sprintf("FAT%d %dx%d+%d FATs %dx%d root %d total %d", p.version, p.bps, p.spc, p.reserved, p.fats, p.spf, p.rootEntries, p.total)
}

// disk is a sparse image.
type disk struct {
	sectors map[int64][]byte
	bps     int64
	size    int64 // bytes there really are
	atEOF   bool  // return io.EOF along with the last bytes
	fault   *fault
}

// fault lets the nth access fail, counting those of every kind.
type fault struct {
	countdown int
	fired     bool
	where     string
	only      string // counts only these, unless empty
	err       error  // what the access fails with
	partial   bool   // a failing read gets some of the data
}

func (f *fault) hit(where string) error {
	if f == nil || f.only != "" && f.only != where {
		return nil
	}
	f.countdown--
	if f.countdown == 0 {
		f.fired, f.where = true, where
		if f.err != nil {
			return f.err
		}
		return errInjected
	}
	return nil
}

func (d *disk) ReadAt(p []byte, off int64) (int, error) {
	if err := d.fault.hit("ReadAt"); err != nil {
		if d.fault.partial {
			d.fault.partial = false
			n, _ := d.ReadAt(p[:len(p)/2], off)
			return n, err
		}
		return 0, err
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := 0
	for n < len(p) && off+int64(n) < d.size {
		at := off + int64(n)
		k := min(int64(len(p)-n), d.bps-at%d.bps, d.size-at)
		dst := p[n : n+int(k)]
		if s, ok := d.sectors[at/d.bps]; ok {
			copy(dst, s[at%d.bps:])
		} else {
			clear(dst)
		}
		n += int(k)
	}
	if n < len(p) || d.atEOF && off+int64(n) == d.size {
		return n, io.EOF
	}
	return n, nil
}

func (d *disk) WriteAt(p []byte, off int64) (int, error) {
	panic("the driver must leave writing to the file system implementation")
}

func (d *disk) put(sector int64, data []byte) {
	for i := int64(0); i*d.bps < int64(len(data)); i++ {
		s := make([]byte, d.bps)
		copy(s, data[i*d.bps:])
		d.sectors[sector+i] = s
	}
}

// entry is an object on the volume.
type entry struct {
	name     string
	raw      [32]byte
	dir      bool
	deleted  bool
	size     uint
	content  []byte
	chain    []fat.ClusterID
	children []*entry // of directories, in the order they are stored in, with everything deleted
	dots     bool     // "." or ".."
	parent   *entry
	bulk     bool // one of thousands, most of which aren't looked at one by one
}

func (e *entry) first() fat.ClusterID {
	if len(e.chain) == 0 {
		return 0
	}
	return e.chain[0]
}

// storedFirst is the first cluster according to the directory entry.
func (e *entry) storedFirst() fat.ClusterID {
	return fat.ClusterID(e.raw[20])<<16 | fat.ClusterID(e.raw[21])<<24 | fat.ClusterID(e.raw[26]) | fat.ClusterID(e.raw[27])<<8
}

func (e *entry) path() string {
	if e.parent == nil {
		return "/"
	}
	return strings.TrimSuffix(e.parent.path(), "/") + "/" + e.name
}

// live returns the entries that aren't deleted and aren't "." and "..".
func (e *entry) live() []*entry {
	out := []*entry{}
	for _, ch := range e.children {
		if !ch.deleted && !ch.dots {
			out = append(out, ch)
		}
	}
	return out
}

// volume is a FAT volume; it implements fat.FATDriverCommon.
type volume struct {
	params
	disk  *disk
	bs    *fat.FATBootSector
	fat   map[fat.ClusterID]uint32
	root  *entry
	rng   *rand.Rand
	fault *fault

	used    []fat.ClusterID // all that were reserved
	freed   []fat.ClusterID
	deleted []string
	updated []fat.Dirent
	writes  []string // modifying calls in order
}

var _ fat.FATDriverCommon = (*volume)(nil)

func (v *volume) GetBootSector() *fat.FATBootSector { return v.bs }

func (v *volume) eoc() uint32 {
	switch v.version {
	case 12:
		return 0xff8 + uint32(v.rng.Intn(8))
	case 16:
		return 0xfff8 + uint32(v.rng.Intn(8))
	}
	return 0x0ffffff8 + uint32(v.rng.Intn(8))
}

func (v *volume) bad() uint32 {
	return map[int]uint32{12: 0xff7, 16: 0xfff7, 32: 0x0ffffff7}[v.version]
}

func (v *volume) GetClusterAtIndex(index uint) (fat.ClusterID, error) {
	if err := v.fault.hit("GetClusterAtIndex"); err != nil {
		return 0, err
	}
	if index >= v.clusters+2 {
		return 0, disko.ErrInvalidArgument
	}
	return fat.ClusterID(v.fat[fat.ClusterID(index)]), nil
}

func (v *volume) SetClusterAtIndex(index uint, cluster fat.ClusterID) error {
	v.writes = append(v.writes, "SetClusterAtIndex")
	return disko.ErrNotImplemented
}

func (v *volume) GetNextClusterInChain(cluster fat.ClusterID) (fat.ClusterID, error) {
	return v.GetClusterAtIndex(uint(cluster))
}

func (v *volume) IsValidCluster(cluster fat.ClusterID) bool {
	return cluster >= 2 && uint(cluster) < v.clusters+2
}

func (v *volume) IsEndOfChain(cluster fat.ClusterID) bool {
	return uint32(cluster) > v.bad() // FAT32 entries are kept without their top 4 bits
}

func (v *volume) ListRootDirectory() ([]fat.Dirent, error) {
	if err := v.fault.hit("ListRootDirectory"); err != nil {
		return nil, err
	}
	out := []fat.Dirent{}
	for _, e := range v.root.children {
		raw, err := fat.NewRawDirentFromBytes(e.raw[:])
		if err != nil {
			return nil, err
		}
		d, err := fat.NewDirentFromRaw(v.bs, &raw)
		if err != nil {
			return nil, err
		}
		out = append(out, d)
	}
	return out, nil
}

func (v *volume) AllocateCluster(count uint) ([]fat.ClusterID, error) {
	v.writes = append(v.writes, "AllocateCluster")
	return nil, disko.ErrNotImplemented
}

func (v *volume) FreeCluster(cluster fat.ClusterID) error {
	if err := v.fault.hit("FreeCluster"); err != nil {
		return err
	}
	v.writes = append(v.writes, "FreeCluster")
	v.freed = append(v.freed, cluster)
	v.fat[cluster] = 0
	return nil
}

func (v *volume) UpdateDirent(d *fat.Dirent) error {
	if err := v.fault.hit("UpdateDirent"); err != nil {
		return err
	}
	v.writes = append(v.writes, "UpdateDirent")
	v.updated = append(v.updated, *d)
	return nil
}

// find returns the object that a directory entry in a directory stands for.
func (v *volume) find(d, parent *fat.Dirent) *entry {
	var in *entry
	var walk func(e *entry)
	walk = func(e *entry) {
		if e.dir && e.first() == parent.FirstCluster {
			in = e
		}
		for _, ch := range e.live() {
			walk(ch)
		}
	}
	walk(v.root)
	if in == nil || !parent.IsDir() {
		return nil
	}
	for _, ch := range in.live() {
		if ch.name == d.Name() && ch.storedFirst() == d.FirstCluster && !ch.deleted {
			return ch
		}
	}
	return nil
}

func (v *volume) DeleteDirent(d, parent *fat.Dirent) error {
	if err := v.fault.hit("DeleteDirent"); err != nil {
		return err
	}
	v.writes = append(v.writes, "DeleteDirent")
	e := v.find(d, parent)
	if e == nil {
		v.deleted = append(v.deleted, fmt.Sprintf("unknown %q in %q", d.Name(), parent.Name()))
		return disko.ErrNotFound
	}
	v.deleted = append(v.deleted, e.path())
	e.raw[13], e.raw[0] = e.raw[0], 0xe5
	e.deleted = true
	v.storeDir(e.parent)
	return nil
}

// storeDir writes the entries of a directory to the disk.
func (v *volume) storeDir(dir *entry) {
	if dir.parent == nil {
		return // ListRootDirectory takes care of it
	}
	per := int(v.clusterLen() / 32)
	for i, cl := range dir.chain {
		data := make([]byte, v.clusterLen())
		for k := 0; k < per; k++ {
			at := i*per + k
			switch {
			case at < len(dir.children):
				copy(data[k*32:], dir.children[at].raw[:])
			case at == len(dir.children):
				// The end. Whatever follows doesn't matter, as does the rest of this entry.
				v.rng.Read(data[k*32+1 : k*32+32])
			default:
				junk := rawEntry(v.rng, "JUNK", byte(v.rng.Intn(64)), 0, uint(v.rng.Intn(9000)))
				copy(data[k*32:], junk[:])
			}
		}
		v.storeCluster(cl, data)
	}
}

func (v *volume) storeCluster(cl fat.ClusterID, data []byte) {
	v.disk.put(int64(v.firstData())+int64(cl-2)*int64(v.spc), data)
}

// rawEntry encodes a directory entry with random times.
func rawEntry(rng *rand.Rand, name string, attr byte, first fat.ClusterID, size uint) [32]byte {
	var raw [32]byte
	stem, ext := name, ""
	if i := strings.LastIndexByte(name, '.'); i > 0 && name != ".." {
		stem, ext = name[:i], name[i+1:]
	}
	copy(raw[:11], "           ")
	copy(raw[:8], stem)
	copy(raw[8:11], ext)
	if raw[0] == 0xe5 {
		raw[0] = 0x05
	}
	raw[11] = attr
	raw[12] = byte(rng.Intn(256))
	raw[13] = byte(rng.Intn(200))
	date := func() uint16 { return uint16(rng.Intn(128)<<9 | (rng.Intn(12)+1)<<5 | (rng.Intn(28) + 1)) }
	clock := func() uint16 { return uint16(rng.Intn(24)<<11 | rng.Intn(60)<<5 | rng.Intn(30)) }
	le := binary.LittleEndian
	le.PutUint16(raw[14:], clock())
	le.PutUint16(raw[16:], date())
	le.PutUint16(raw[18:], date())
	le.PutUint16(raw[20:], uint16(first>>16))
	le.PutUint16(raw[22:], clock())
	le.PutUint16(raw[24:], date())
	le.PutUint16(raw[26:], uint16(first))
	le.PutUint32(raw[28:], uint32(size))
	return raw
}

const nameChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()-@^_`{}~"

// drawName generates a name in 8.3 format. There are few short names, so that
// the same ones occur in several directories.
func drawName(c *pbt.C) string {
	part := func(name string, lo, hi int) string {
		n := pbt.Int(lo, hi).Draw(c.T, name+" length")
		if pbt.Int(0, 1).Draw(c.T, "short") == 0 {
			n = min(n, 1)
			if n == 1 {
				return "ABC"[:1+pbt.Int(0, 2).Draw(c.T, name)]
			}
			return ""
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = nameChars[pbt.Int(0, len(nameChars)-1).Draw(c.T, name)]
			if i > 0 && i < n-1 && pbt.Int(0, 20).Draw(c.T, "space") == 0 {
				b[i] = ' '
			}
		}
		return string(b)
	}
	stem, ext := part("name", 1, 8), part("extension", 0, 3)
	if pbt.Int(0, 14).Draw(c.T, "e5") == 0 {
		stem = "\xe5" + stem[1:]
	}
	if ext != "" {
		return stem + "." + ext
	}
	return stem
}

// alloc reserves clusters, scattered or in a row.
func (v *volume) alloc(n int, scattered bool) []fat.ClusterID {
	out := []fat.ClusterID{}
	next := fat.ClusterID(2 + v.rng.Int63n(int64(v.clusters)))
	if v.rng.Intn(6) == 0 {
		next = fat.ClusterID(v.clusters + 1) // the last one
	} else if v.rng.Intn(6) == 0 {
		next = 2
	} else if len(v.used) > 0 && v.rng.Intn(4) == 0 {
		// One that can be confused with another one when only some bits of it are looked at.
		other := v.used[v.rng.Intn(len(v.used))] + 1<<(8+v.rng.Intn(20))
		if v.IsValidCluster(other) {
			next = other
		}
	}
	for len(out) < n {
		for v.fat[next] != 0 {
			next++
			if !v.IsValidCluster(next) {
				next = 2
			}
		}
		v.fat[next] = 1 // reserved until the chain is stored
		out = append(out, next)
		v.used = append(v.used, next)
		if scattered {
			next = fat.ClusterID(2 + v.rng.Int63n(int64(v.clusters)))
		}
	}
	return out
}

func (v *volume) link(chain []fat.ClusterID) {
	for i, cl := range chain {
		if i+1 < len(chain) {
			v.fat[cl] = uint32(chain[i+1])
		} else {
			v.fat[cl] = v.eoc()
		}
	}
}

// newVolume makes an empty volume.
func newVolume(c *pbt.C, p params) *volume {
	v := &volume{params: p, fat: map[fat.ClusterID]uint32{}}
	v.rng = rand.New(rand.NewSource(int64(pbt.Int(0, 1<<40).Draw(c.T, "seed"))))
	v.disk = &disk{sectors: map[int64][]byte{}, bps: int64(v.bps), size: int64(v.total) * int64(v.bps),
		atEOF: rapid.Bool().Draw(c.T, "EOF with the last bytes")}
	bs, err := fat.NewFATBootSectorFromStream(strings.NewReader(string(v.bootSector(v.rng))))
	if err != nil {
		c.Fatalf("%v: NewFATBootSectorFromStream: %v", v.params, err)
	}
	v.bs = bs
	// The two reserved entries hold the media byte and an end mark.
	v.fat[0] = v.bad()&^0xff | uint32(v.media)
	v.fat[1] = v.eoc()
	v.root = &entry{name: "/", dir: true}
	return v
}

// drawGiant generates a volume with one file of several MiB, or of tens of thousands
// of clusters, among a few small ones.
func drawGiant(c *pbt.C) (*volume, *entry) {
	p := drawParams(c)
	class := pbt.Int(0, 4).Draw(c.T, "length class")
	for i := 0; i < 30; i++ {
		if class == 4 && p.clusters > 90000 && p.bps*p.spc <= 512 || class < 4 && p.clusters*p.bps*p.spc >= 4<<20 {
			break
		}
		p = drawParams(c)
	}
	v := newVolume(c, p)
	cl := int(v.clusterLen())
	n := pbt.Int(1, 150000).Draw(c.T, "clusters of the file")
	switch class {
	case 0:
		n = 1<<pbt.Int(6, 17).Draw(c.T, "power") + pbt.Int(-2, 2).Draw(c.T, "offset")
	case 1: // size in bytes
		n = (1<<pbt.Int(17, 25).Draw(c.T, "power"))/cl + pbt.Int(0, 2).Draw(c.T, "offset")
	case 4: // more than 16 bits can count
		n = 65536 + pbt.Int(-2, 10000).Draw(c.T, "beyond 65536")
	}
	n = max(1, min(n, int(v.clusters)*3/4, 40<<20/cl))
	small := func(name string) {
		e := &entry{name: name, parent: v.root, content: make([]byte, cl), size: uint(cl)}
		v.rng.Read(e.content)
		e.chain = v.alloc(1, true)
		v.link(e.chain)
		v.storeCluster(e.chain[0], e.content)
		e.raw = rawEntry(v.rng, e.name, 32, e.first(), e.size)
		v.root.children = append(v.root.children, e)
	}
	small("BEFORE")
	e := &entry{name: "GIANT.BIN", parent: v.root}
	e.size = uint(n*cl - pbt.Int(0, cl-1).Draw(c.T, "unused"))
	e.content = make([]byte, e.size)
	e.chain = v.alloc(n, rapid.Bool().Draw(c.T, "scattered"))
	v.link(e.chain)
	// Not all of it, to save time.
	step := max(1, n/4000)
	for k := 0; k < n; k++ {
		if k%step == 0 || k > n-5 {
			data := make([]byte, cl)
			v.rng.Read(data)
			copy(e.content[k*cl:], data)
			v.storeCluster(e.chain[k], data)
		}
	}
	e.raw = rawEntry(v.rng, e.name, 32, e.first(), e.size)
	v.root.children = append(v.root.children, e)
	small("AFTER")
	v.storeDir(v.root)
	c.Describe("%v: %d bytes in %d clusters", v.params, e.size, n)
	c.Label(fmt.Sprintf("FAT%d", v.version))
	c.LabelIf(n > 65536, "more than 65536 clusters")
	c.LabelIf(e.size > 1<<24, "more than 16 MiB")
	return v, e
}

// drawVolume generates a volume with a tree of directories and files.
func drawVolume(c *pbt.C) *volume {
	v := newVolume(c, drawParams(c))
	budget := int(min(v.clusters, 60)) - 4 // clusters
	per := int(v.clusterLen() / 32)
	big := v.clusterLen() > 4096
	if big {
		budget = min(budget, 12)
	}
	maxEntries := rapid.SampledFrom([]int{0, 3, 6, 6, per, 2 * per, 40}).Draw(c.T, "entries per directory")
	maxEntries = min(maxEntries, 64)
	maxDepth, maxFile, maxObjects, bulk := 4, 4, 60, 0
	if v.clusterLen() <= 1024 && v.clusters > 1500 && pbt.Int(0, 24).Draw(c.T, "extent") == 0 {
		// Long chains, many entries or many levels.
		budget = 1400
		switch pbt.Int(0, 3).Draw(c.T, "what") {
		case 0:
			maxFile, maxEntries = 700, min(maxEntries, 6)
		case 1:
			maxEntries, maxObjects = 400, 500
		case 2:
			maxDepth, maxEntries = 40, 3
		case 3:
			bulk, maxEntries = pbt.Int(300, 6000).Draw(c.T, "many"), min(maxEntries, 6)
		}
	}
	objects := 0
	var fill func(dir *entry, depth int)
	fill = func(dir *entry, depth int) {
		names := map[string]bool{}
		n := pbt.Int(max(0, min(maxEntries, maxDepth-depth)), maxEntries).Draw(c.T, "entries")
		if objects > maxObjects {
			n = 0
		}
		if pbt.Int(0, 3).Draw(c.T, "full") == 0 && dir.parent != nil {
			// Exactly whole clusters, so that there is no entry marking the end.
			n = (len(dir.children)+n+per-1)/per*per - len(dir.children)
			if n > 70 {
				n = 1
			}
		}
		small := n > 8
		for i := 0; i < n; i++ {
			e := &entry{parent: dir}
			kind := pbt.Int(0, 9).Draw(c.T, "kind")
			if small && kind > 2 {
				kind = []int{2, 3, 9}[pbt.Int(0, 2).Draw(c.T, "small kind")]
			}
			e.name = drawName(c)
			if names[e.name] {
				e.name = fmt.Sprintf("%d.X%d", i, i%10)
			}
			names[e.name] = true
			attr := byte([]int{0, 1, 2, 4, 32, 33, 39}[pbt.Int(0, 6).Draw(c.T, "attributes")])
			switch {
			case kind <= 1: // deleted; the clusters belong to others by now, or are free
				e.deleted = true
				e.size = uint(pbt.Int(0, 100000).Draw(c.T, "size"))
				if rapid.Bool().Draw(c.T, "directory") {
					attr |= 16
				}
				first := fat.ClusterID(v.rng.Int63n(int64(v.clusters) + 2))
				if rapid.Bool().Draw(c.T, "same name") {
					// A deleted entry doesn't prevent another one with its name.
					delete(names, e.name)
				}
				e.raw = rawEntry(v.rng, e.name, attr, first, e.size)
				e.raw[13] = e.raw[0]
				if e.raw[13] == 5 {
					e.raw[13] = 0xe5
				}
				e.raw[0] = 0xe5
				dir.children = append(dir.children, e)
				continue
			case (kind <= 4 || depth > 3 && kind < 8) && depth < maxDepth && budget > 2 && !small: // directory
				e.dir = true
				attr |= 16
				e.chain = v.alloc(1, true)
				budget--
				dot := &entry{name: ".", dir: true, dots: true, parent: e}
				dot.raw = rawEntry(v.rng, ".", 16, e.first(), 0)
				dotdot := &entry{name: "..", dir: true, dots: true, parent: e}
				dotdot.raw = rawEntry(v.rng, "..", 16, dir.first(), 0)
				e.children = []*entry{dot, dotdot}
				objects++
				fill(e, depth+1)
				if bulk > 0 {
					// One directory with thousands of entries.
					for ; bulk > 0; bulk-- {
						ch := &entry{name: fmt.Sprintf("Z%d", bulk), parent: e, content: []byte{}, bulk: bulk%1000 != 1}
						ch.raw = rawEntry(v.rng, ch.name, 32, 0, 0)
						e.children = append(e.children, ch)
					}
				}
				// As many clusters as needed, and maybe some more.
				need := max(1, (len(e.children)+per-1)/per)
				extra := max(0, pbt.Int(-4, 1).Draw(c.T, "extra clusters"))
				e.chain = append(e.chain, v.alloc(need-1+extra, rapid.Bool().Draw(c.T, "scattered"))...)
				budget -= need - 1 + extra
				v.link(e.chain)
			default:
				cl := int(v.clusterLen())
				size := 0
				switch pbt.Int(0, 5).Draw(c.T, "size class") {
				case 0:
				case 1:
					size = cl * pbt.Int(1, maxFile-1).Draw(c.T, "whole clusters")
				case 2:
					size = cl*pbt.Int(0, maxFile-1).Draw(c.T, "clusters") + 1
				case 3:
					size = cl*pbt.Int(1, maxFile).Draw(c.T, "clusters") - 1
				default:
					size = pbt.Int(1, (maxFile-1)*cl).Draw(c.T, "size")
				}
				if (size+cl-1)/cl > budget || small {
					size = 0
				}
				e.size = uint(size)
				need := (size + cl - 1) / cl
				if need > 0 || pbt.Int(0, 3).Draw(c.T, "preallocated") == 0 && budget > 3 && !small {
					need += max(0, pbt.Int(-4, 2).Draw(c.T, "extra clusters"))
				}
				budget -= need
				e.chain = v.alloc(need, rapid.Bool().Draw(c.T, "scattered"))
				v.link(e.chain)
				e.content = make([]byte, size)
				v.rng.Read(e.content)
				for k, id := range e.chain {
					data := make([]byte, cl)
					v.rng.Read(data)
					if k*cl < size {
						copy(data, e.content[k*cl:])
					}
					v.storeCluster(id, data)
				}
			}
			objects++
			e.raw = rawEntry(v.rng, e.name, attr, e.first(), e.size)
			if e.dir {
				e.raw = rawEntry(v.rng, e.name, attr, e.first(), 0)
			}
			dir.children = append(dir.children, e)
		}
	}
	fill(v.root, 0)
	var store func(dir *entry)
	store = func(dir *entry) {
		v.storeDir(dir)
		for _, ch := range dir.live() {
			if ch.dir {
				store(ch)
			}
		}
	}
	store(v.root)
	return v
}

// disguiseEntry writes the path of an object in another way.
func (v *volume) disguiseEntry(c *pbt.C, e *entry) string {
	path := v.disguise(c, e.path())
	if e.dir {
		switch pbt.Int(0, 5).Draw(c.T, "end") {
		case 0:
			path += "/"
		case 1:
			path += "/."
		case 2:
			if live := e.live(); len(live) > 0 && live[0].dir {
				path = strings.TrimSuffix(path, "/") + "/" + live[0].name + "/.."
			}
		}
	}
	return path
}

// all returns all objects, beginning with the root directory.
func (v *volume) all() []*entry {
	out := []*entry{}
	var walk func(e *entry)
	walk = func(e *entry) {
		out = append(out, e)
		for _, ch := range e.live() {
			if !ch.bulk {
				walk(ch)
			}
		}
	}
	walk(v.root)
	return out
}

func (v *volume) describe() string {
	out := v.params.String()
	for _, e := range v.all()[1:] {
		if len(out) > 600 {
			out += " ..."
			break
		}
		out += fmt.Sprintf(" %q(%d)%v", e.path(), e.size, e.chain)
	}
	return out
}

// driver makes a driver for a volume. It has no constructor yet, so this finds the
// fields by what they can hold.
func (v *volume) driver(c *pbt.C) *fat.FATDriver {
	drv := &fat.FATDriver{}
	rv := reflect.ValueOf(drv).Elem()
	haveFS, haveDisk := false, false
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
		if f.Kind() != reflect.Interface {
			continue
		}
		if f.NumMethod() > 0 && reflect.TypeOf(v).Implements(f.Type()) {
			f.Set(reflect.ValueOf(v))
			haveFS = true
		} else if reflect.TypeOf(v.disk).Implements(f.Type()) {
			f.Set(reflect.ValueOf(v.disk))
			haveDisk = true
		}
	}
	if !haveFS || !haveDisk {
		panic("PBT: don't know how to make a FATDriver")
	}
	return drv
}

// disguise writes an absolute path in another way. Ways that are only right for
// directories aren't used, except for the root directory.
func (v *volume) disguise(c *pbt.C, path string) string {
	parts := strings.Split(strings.TrimPrefix(path, "/"), "/")
	if path == "/" {
		parts = nil
	}
	out := ""
	if rapid.Bool().Draw(c.T, "absolute") {
		out = "/"
	}
	dirs := []string{}
	for _, e := range v.root.live() {
		if e.dir {
			dirs = append(dirs, e.name)
		}
	}
	for i, p := range parts {
		switch pbt.Int(0, 7).Draw(c.T, "decoration") {
		case 0:
			out += "./"
		case 1:
			out += "/"
		case 2:
			if i == 0 && len(dirs) > 0 {
				out += dirs[pbt.Int(0, len(dirs)-1).Draw(c.T, "detour")] + "/../"
			}
		case 3:
			if i == 0 {
				out += "../" // there is nothing above the root directory
			}
		}
		out += p
		if i+1 < len(parts) {
			out += "/"
		}
	}
	if out == "" {
		out = "."
	}
	return out
}

func sortedNames[T any](xs []T, name func(T) string) []string {
	out := []string{}
	for _, x := range xs {
		out = append(out, name(x))
	}
	sort.Strings(out)
	return out
}
