package fat

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"pgregory.net/rapid"
)

// slowReader returns a few bytes at a time, and an error at the end.
type slowReader struct {
	data []byte
	step int
	end  error
	more []byte // what can be read after the error
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		err := r.end
		if r.more != nil {
			r.data, r.more, r.end = r.more, nil, io.EOF
		}
		return 0, err
	}
	n := copy(p[:min(len(p), r.step)], r.data)
	r.data = r.data[n:]
	return n, nil
}

func reader(c *pbt.C, data []byte, end error) *slowReader {
	return &slowReader{data: data, step: rapid.SampledFrom([]int{1, 2, 3, 7, 36, 40, 1 << 20}).Draw(c.T, "bytes per read"), end: end}
}

func TestV01_BootSector(t *testing.T) {
	pbt.Check(t, 15000, 300000, "boot sectors of valid FAT12, 16 and 32 volumes with sizes around the limits between them, read in pieces; "+
		"non-trivial: more than one sector per cluster, or more than 512 bytes per sector",
		func(c *pbt.C) {
			p := drawParams(c)
			p.media = pbt.Byte().Draw(c.T, "media")
			c.Describe("%v", p)
			c.NonTrivial(p.spc > 1 || p.bps > 512)
			raw := p.bootSector(rand.New(rand.NewSource(int64(pbt.Int(0, 1<<40).Draw(c.T, "seed")))))
			if le := binary.LittleEndian; le.Uint16(raw[19:]) != 0 && pbt.Int(0, 3).Draw(c.T, "both counts") == 0 {
				// The 32-bit count of sectors only matters if the other one is 0.
				le.PutUint32(raw[32:], uint32(p.total+uint(pbt.Int(0, 1<<20).Draw(c.T, "other count"))))
				c.Label("both counts of sectors")
			}
			var bs *fat.FATBootSector
			var err error
			c.Call("NewFATBootSectorFromStream", func() { bs, err = fat.NewFATBootSectorFromStream(reader(c, raw, io.EOF)) })
			if err != nil || bs == nil {
				c.Fatalf("%v: NewFATBootSectorFromStream: %v", p, err)
			}
			check := func(what string, got, want any) {
				if got != want {
					c.Fatalf("%v: %s is %v, expected %v", p, what, got, want)
				}
			}
			le := binary.LittleEndian
			check("JmpBoot", string(bs.JmpBoot[:]), string(raw[:3]))
			check("OEMName", string(bs.OEMName[:]), string(raw[3:11]))
			check("BytesPerSector", uint(bs.BytesPerSector), p.bps)
			check("SectorsPerCluster", uint(bs.SectorsPerCluster), p.spc)
			check("ReservedSectors", uint(bs.ReservedSectors), p.reserved)
			check("NumFATs", uint(bs.NumFATs), p.fats)
			check("RootEntryCount", uint(bs.RootEntryCount), p.rootEntries)
			check("TotalSectors16", bs.TotalSectors16, le.Uint16(raw[19:]))
			check("Media", bs.Media, p.media)
			check("SectorsPerFAT16", bs.SectorsPerFAT16, le.Uint16(raw[22:]))
			check("SectorsPerTrack", bs.SectorsPerTrack, le.Uint16(raw[24:]))
			check("NumHeads", bs.NumHeads, le.Uint16(raw[26:]))
			check("HiddenSectors", bs.HiddenSectors, le.Uint32(raw[28:]))
			check("TotalSectors32", bs.TotalSectors32, le.Uint32(raw[32:]))
			check("SectorsPerFAT", bs.SectorsPerFAT, p.spf)
			check("TotalFATSectors", bs.TotalFATSectors, p.fats*p.spf)
			check("RootDirSectors", bs.RootDirSectors, p.rootSectors())
			check("BytesPerCluster", bs.BytesPerCluster, p.clusterLen())
			check("TotalClusters", bs.TotalClusters, p.clusters)
			check("TotalDataSectors", bs.TotalDataSectors, p.total-p.firstData())
			check("FirstDataSector", uint(bs.FirstDataSector), p.firstData())
			check("FATVersion", bs.FATVersion, p.version)
			check("DirentsPerCluster", bs.DirentsPerCluster, int(p.clusterLen()/32))
		})
}

func TestV01_Version(t *testing.T) {
	pbt.Check(t, 4000, 20000, "numbers of clusters, mostly around the limits between FAT versions; non-trivial: within 3 of a limit",
		func(c *pbt.C) {
			n := pbt.Int(0, 1<<28).Draw(c.T, "clusters")
			if pbt.Int(0, 3).Draw(c.T, "near") > 0 {
				n = rapid.SampledFrom([]int{4085, 65525, 3}).Draw(c.T, "limit") + pbt.Int(-3, 3).Draw(c.T, "offset")
				c.NonTrivial(true)
			}
			want := 32
			if n < 65525 {
				want = 16
			}
			if n < 4085 {
				want = 12
			}
			c.Describe("%d", n)
			if got := fat.DetermineFATVersion(uint(n)); got != want {
				c.Fatalf("DetermineFATVersion(%d) = %d, expected %d", n, got, want)
			}
		})
}

func TestV02_MalformedBootSectors(t *testing.T) {
	pbt.Check(t, 12000, 200000, "boot sectors of valid volumes with one field changed to an impossible value, ones that are cut off, and "+
		"ones that can't be read; and arbitrary bytes; non-trivial: all but the arbitrary ones",
		func(c *pbt.C) {
			p := drawParams(c)
			rng := rand.New(rand.NewSource(int64(pbt.Int(0, 1<<40).Draw(c.T, "seed"))))
			raw := p.bootSector(rng)
			le := binary.LittleEndian
			kind := rapid.SampledFrom([]string{"bytes per sector", "sectors per cluster", "cluster too large", "too many FATs",
				"too many reserved", "overflow", "too few sectors", "FAT32 root", "cut", "failing", "arbitrary"}).Draw(c.T, "kind")
			c.Label(kind)
			c.Describe("%v, %s", p, kind)
			c.NonTrivial(kind != "arbitrary")
			var end error = io.EOF
			var more []byte
			want := error(disko.ErrFileSystemCorrupted)
			switch kind {
			case "bytes per sector":
				n := rapid.SampledFrom([]uint16{0, 1, 128, 256, 511, 513, 768, 1023, 1536, 3072, 4095, 4097, 8192, 32768, 65535}).Draw(c.T, "value")
				le.PutUint16(raw[11:], n)
				c.AddDesc(" %d", n)
			case "sectors per cluster":
				n := pbt.Byte().Draw(c.T, "value")
				if n&(n-1) == 0 {
					n = rapid.SampledFrom([]byte{0, 3, 5, 6, 7, 9, 127, 129, 192, 255}).Draw(c.T, "edge")
				}
				raw[13] = n
				c.AddDesc(" %d", n)
			case "cluster too large":
				// Enough sectors that nothing else is wrong.
				bps := rapid.SampledFrom([]uint16{512, 1024, 2048, 4096}).Draw(c.T, "bps")
				if bps == 512 {
					bps = 1024
				}
				spc := byte(128)
				for uint(bps)*uint(spc) > 65536 && rapid.Bool().Draw(c.T, "less") {
					spc /= 2
				}
				q := params{bps: uint(bps), spc: uint(spc), reserved: 1, fats: 2, rootEntries: 512, spf: 12, version: 16, clusters: 5000}
				switch pbt.Int(0, 2).Draw(c.T, "version") {
				case 0:
					q.version, q.clusters, q.spf = 12, 1000, 3
				case 1:
					q.version, q.clusters, q.spf, q.rootEntries, q.reserved = 32, 70000, 550, 0, 32
				}
				q.total = q.firstData() + q.clusters*q.spc
				raw = q.bootSector(rng)
				c.AddDesc(" %v", q)
			case "too many FATs":
				// More FAT sectors than there are sectors at all.
				n := uint(pbt.Int(1, 255).Draw(c.T, "FATs"))
				q := params{bps: 512, spc: 1, reserved: 1, fats: n, version: 12, spf: 60000/n + 1, rootEntries: p.rootEntries}
				q.total = q.reserved + n*q.spf - 1
				raw = q.bootSector(rng)
				c.AddDesc(" %v", q)
			case "too many reserved":
				q := params{bps: 512, spc: 1, reserved: uint(pbt.Int(100, 65535).Draw(c.T, "reserved")), fats: uint(pbt.Int(0, 2).Draw(c.T, "FATs")), version: 12, spf: 9, rootEntries: 112 * uint(pbt.Int(0, 1).Draw(c.T, "root directory"))}
				q.total = q.firstData() - uint(pbt.Int(1, 90).Draw(c.T, "missing"))
				raw = q.bootSector(rng)
				c.AddDesc(" %v", q)
			case "overflow":
				// More sectors than fit into 32 bits, that is just a few if the rest is cut off.
				n := uint(pbt.Int(1, 255).Draw(c.T, "FATs"))
				q := params{bps: 512, spc: 1, reserved: uint(pbt.Int(1, 100).Draw(c.T, "reserved")), fats: n, version: 32, total: 100000, wide: true}
				times := uint(pbt.Int(1, int(n)).Draw(c.T, "times"))
				q.spf = min((times<<32+n-1)/n, 1<<32-1)
				if n*q.spf+q.reserved < 1<<32 {
					q.reserved = 1<<32 - n*q.spf + uint(pbt.Int(0, 100).Draw(c.T, "beyond"))
				}
				raw = q.bootSector(rng)
				c.AddDesc(" %v", q)
			case "too few sectors":
				q := p
				q.total = uint(pbt.Int(0, int(p.firstData())-1).Draw(c.T, "sectors"))
				if q.total == 0 {
					q.wide = true
				}
				raw = q.bootSector(rng)
				c.AddDesc(" %v", q)
			case "FAT32 root":
				q := p
				for q.version != 32 {
					q = params{bps: 512, spc: 1, reserved: 32, fats: 2, version: 32, clusters: 70000, spf: 550}
				}
				q.rootEntries = uint(pbt.Int(1, 2048).Draw(c.T, "root entries"))
				q.clusters = max(q.clusters, 66000)
				q.total = min(q.firstData()+q.clusters*q.spc, 1<<32-1)
				raw = q.bootSector(rng)
				c.AddDesc(" %v", q)
			case "cut":
				// The first 40 bytes are read.
				n := pbt.Int(0, 39).Draw(c.T, "length")
				raw = raw[:n]
				want = disko.ErrIOFailed
				c.AddDesc(" %d bytes", n)
			case "failing":
				n := pbt.Int(0, 39).Draw(c.T, "length")
				end = rapid.SampledFrom([]error{errInjected, errInjected, io.ErrClosedPipe}).Draw(c.T, "failure")
				if rapid.Bool().Draw(c.T, "transient") {
					more = bytes.Clone(raw[n:])
					c.AddDesc(" once")
				}
				raw = raw[:n]
				want = end
				c.AddDesc(" after %d bytes", n)
			case "arbitrary":
				raw = make([]byte, 64)
				rng.Read(raw)
				if rapid.Bool().Draw(c.T, "plausible") {
					le.PutUint16(raw[11:], 512)
					raw[13] = 1 << (raw[13] % 8)
					raw[16] %= 4
				}
				want = nil
			}
			var bs *fat.FATBootSector
			var err error
			c.Call("NewFATBootSectorFromStream", func() {
				r := reader(c, bytes.Clone(raw), end)
				r.more = more
				bs, err = fat.NewFATBootSectorFromStream(r)
			})
			if kind == "failing" && !errors.Is(err, disko.ErrIOFailed) {
				c.Fatalf("%s: NewFATBootSectorFromStream: %v, expected %v", c.String(), err, disko.ErrIOFailed)
			}
			if want != nil {
				if !errors.Is(err, want) {
					c.Fatalf("%s: NewFATBootSectorFromStream: %v, expected %v", c.String(), err, want)
				}
				if bs != nil {
					c.Fatalf("%s: NewFATBootSectorFromStream failed but returned %+v", c.String(), bs)
				}
				return
			}
			if err != nil {
				return
			}
			// Whatever is accepted has to make sense.
			c.Label("accepted")
			end2 := uint64(bs.FirstDataSector) + uint64(bs.TotalClusters)*uint64(bs.SectorsPerCluster)
			total := uint64(le.Uint16(raw[19:]))
			if total == 0 {
				total = uint64(le.Uint32(raw[32:]))
			}
			if end2 > total || bs.BytesPerCluster == 0 || bs.BytesPerCluster > 32768 || bs.DirentsPerCluster < 1 {
				c.Fatalf("accepted % x, which gives %+v", raw[:40], bs)
			}
		})
}
