package fat

import (
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/fat"
	"pgregory.net/rapid"
)

// stamp is a FAT date and time in its parts.
type stamp struct {
	year, month, day, hour, minute, second int
	centis                                 int // beyond the even second, 0-199
}

func drawStamp(c *pbt.C, name string) stamp {
	s := stamp{
		year: 1980 + pbt.Int(0, 127).Draw(c.T, name+" year"), month: pbt.Int(1, 12).Draw(c.T, name+" month"),
		hour: pbt.Int(0, 23).Draw(c.T, name+" hour"), minute: pbt.Int(0, 59).Draw(c.T, name+" minute"),
		second: 2 * pbt.Int(0, 29).Draw(c.T, name+" second"), centis: pbt.Int(0, 199).Draw(c.T, name+" hundredths"),
	}
	days := time.Date(s.year, time.Month(s.month)+1, 0, 12, 0, 0, 0, time.UTC).Day()
	s.day = pbt.Int(1, days).Draw(c.T, name+" day")
	if len(midnights) > 0 && pbt.Int(0, 19).Draw(c.T, name+" special day") == 0 {
		d := midnights[pbt.Int(0, len(midnights)-1).Draw(c.T, name+" which")]
		s.year, s.month, s.day = d.Year(), int(d.Month()), d.Day()
	}
	return s
}

// midnights are days without a midnight in the local time zone, at their noon.
var midnights = func() []time.Time {
	out := []time.Time{}
	for d := time.Date(1980, 1, 1, 12, 0, 0, 0, time.Local); d.Year() < 2108; d = d.AddDate(0, 0, 1) {
		if m := time.Date(d.Year(), d.Month(), d.Day(), 0, 0, 0, 0, time.Local); m.Hour() != 0 || m.Day() != d.Day() {
			out = append(out, d)
		}
	}
	return out
}()

func (s stamp) date() uint16 { return uint16((s.year-1980)<<9 | s.month<<5 | s.day) }
func (s stamp) time() uint16 { return uint16(s.hour<<11 | s.minute<<5 | s.second/2) }

// is tells whether t is the given local time, or one that doesn't exist.
func (s stamp) is(t time.Time, withTime, withCentis bool) bool {
	want := s
	if !withTime {
		want.hour, want.minute, want.second = 0, 0, 0
	}
	if !withCentis {
		want.centis = 0
	}
	sec := want.second + want.centis/100
	nsec := want.centis % 100 * int(10*time.Millisecond)
	ref := time.Date(want.year, time.Month(want.month), want.day, want.hour, want.minute, sec, nsec, time.Local)
	if ref.Hour() != want.hour || ref.Minute() != want.minute {
		return true // skipped by daylight saving time
	}
	t = t.In(time.Local)
	return t.Year() == want.year && int(t.Month()) == want.month && t.Day() == want.day && t.Hour() == want.hour &&
		t.Minute() == want.minute && t.Second() == sec && t.Nanosecond() == nsec
}

func TestV04_Timestamps(t *testing.T) {
	pbt.Check(t, 20000, 300000, "dates from 1980 to 2107 with times to the hundredth second, in four time zones; non-trivial: an odd second, "+
		"or a day without midnight",
		func(c *pbt.C) {
			s := drawStamp(c, "time")
			c.Describe("%+v", s)
			special := false
			for _, d := range midnights {
				if d.Year() == s.year && int(d.Month()) == s.month && d.Day() == s.day {
					special = true
					c.Label("day without midnight")
				}
			}
			c.NonTrivial(s.centis >= 100 || special)
			if got := fat.DateFromInt(s.date()); !s.is(got, false, false) {
				c.Fatalf("DateFromInt(%#04x) = %v, expected the date of %+v", s.date(), got, s)
			}
			if got := fat.TimestampFromParts(s.date(), s.time(), uint8(s.centis)); !s.is(got, true, true) {
				c.Fatalf("TimestampFromParts(%#04x, %#04x, %d) = %v, expected %+v", s.date(), s.time(), s.centis, got, s)
			}
			if got := fat.TimestampFromParts(s.date(), s.time(), 0); !s.is(got, true, false) {
				c.Fatalf("TimestampFromParts(%#04x, %#04x, 0) = %v, expected %+v", s.date(), s.time(), got, s)
			}
			if got := fat.TimestampFromParts(s.date(), 0, 0); !s.is(got, false, false) {
				c.Fatalf("TimestampFromParts(%#04x, 0, 0) = %v, expected the date of %+v", s.date(), got, s)
			}
			// The nanoseconds of a time.Time fit into a Timespec for all of these.
			ref := time.Date(s.year, time.Month(s.month), s.day, s.hour, s.minute, s.second, s.centis*1000, time.UTC)
			ts := fat.TimeToTimespec(ref)
			if int64(ts.Sec) != ref.Unix() || int(ts.Nsec) != ref.Nanosecond() {
				c.Fatalf("TimeToTimespec(%v) = %+v", ref, ts)
			}
		})
}

func decode(c *pbt.C, bs *fat.FATBootSector, b []byte) (fat.Dirent, error) {
	var d fat.Dirent
	var err error
	c.Call("decoding", func() {
		raw, e := fat.NewRawDirentFromBytes(b)
		if e != nil {
			c.Fatalf("NewRawDirentFromBytes of %d bytes: %v", len(b), e)
		}
		d, err = fat.NewDirentFromRaw(bs, &raw)
	})
	return d, err
}

func bootFor(c *pbt.C) *fat.FATBootSector {
	p := drawParams(c)
	bs := &fat.FATBootSector{BytesPerCluster: p.clusterLen(), FATVersion: p.version, TotalClusters: p.clusters, SectorsPerFAT: p.spf,
		DirentsPerCluster: int(p.clusterLen() / 32), FirstDataSector: fat.SectorID(p.firstData()), TotalFATSectors: p.fats * p.spf,
		RootDirSectors: p.rootSectors(), TotalDataSectors: p.total - p.firstData()}
	bs.BytesPerSector, bs.SectorsPerCluster, bs.ReservedSectors = uint16(p.bps), uint8(p.spc), uint16(p.reserved)
	bs.NumFATs, bs.RootEntryCount = uint8(p.fats), uint16(p.rootEntries)
	return bs
}

func TestV03_DirectoryEntries(t *testing.T) {
	pbt.Check(t, 12000, 200000, "directory entries with any name, attributes, times and sizes, live, deleted, free, and damaged, on volumes with "+
		"various cluster sizes; non-trivial: neither free nor damaged",
		func(c *pbt.C) {
			bs := bootFor(c)
			b := rapid.SliceOfN(pbt.Byte(), 32, 32).Draw(c.T, "junk")
			name := drawName(c)
			stem, ext, _ := strings.Cut(name, ".")
			copy(b, "           ")
			copy(b, stem)
			copy(b[8:], ext)
			odd := pbt.Int(0, 3).Draw(c.T, "odd name") == 0
			if odd {
				// Whatever else can be there.
				for i := range 11 {
					b[i] = byte(rapid.OneOf(rapid.IntRange(1, 255), rapid.SampledFrom([]int{' ', ' ', '.', 5, 0xe5})).Draw(c.T, "byte"))
				}
				if b[0] == ' ' || b[0] == 0xe5 {
					b[0] = 'A'
				}
				name = strings.TrimRight(string(b[:8]), " ")
				if b[0] == 5 {
					name = "\xe5" + name[1:]
				}
				if ext := strings.TrimRight(string(b[8:11]), " "); ext != "" {
					name += "." + ext
				}
				if b[0] == 5 {
					b[0] = 0xe5 // replaced below
				}
			}
			attr := pbt.Byte().Draw(c.T, "attributes")
			if attr&15 == 15 {
				attr &^= 8 // belongs to a long name
			}
			b[11] = attr
			created, accessed, modified := drawStamp(c, "created"), drawStamp(c, "accessed"), drawStamp(c, "modified")
			le := binary.LittleEndian
			b[13] = byte(created.centis)
			le.PutUint16(b[14:], created.time())
			le.PutUint16(b[16:], created.date())
			le.PutUint16(b[18:], accessed.date())
			le.PutUint16(b[22:], modified.time())
			le.PutUint16(b[24:], modified.date())
			first := uint32(pbt.Int(0, 0xffff).Draw(c.T, "cluster"))
			if bs.FATVersion == 32 {
				first = uint32(pbt.Int(0, 0x0fffffff).Draw(c.T, "cluster"))
			}
			le.PutUint16(b[20:], uint16(first>>16))
			le.PutUint16(b[26:], uint16(first))
			size := uint64(pbt.Int(0, 1<<32-1).Draw(c.T, "size"))
			switch pbt.Int(0, 3).Draw(c.T, "size class") {
			case 0:
				size %= 100000
			case 1:
				size = size / uint64(bs.BytesPerCluster) * uint64(bs.BytesPerCluster)
			case 2:
				size = min(1<<32-1, size/uint64(bs.BytesPerCluster)*uint64(bs.BytesPerCluster)+1)
			}
			le.PutUint32(b[28:], uint32(size))
			kind := rapid.SampledFrom([]string{"live", "live", "live", "deleted", "free", "no name"}).Draw(c.T, "kind")
			c.Label(kind)
			deleted := false
			switch kind {
			case "live":
				if b[0] == 0xe5 {
					b[0] = 0x05
				}
			case "deleted":
				deleted = true
				b[13] = b[0]
				b[0] = 0xe5
			case "free":
				b[0] = 0
			case "no name":
				copy(b, "        ")
			}
			c.Describe("%s %q % x on %d", kind, name, b, bs.BytesPerCluster)
			c.NonTrivial(kind == "live" || deleted)
			if rapid.Bool().Draw(c.T, "more than one") {
				// Only the first 32 bytes count.
				d, err := decode(c, bs, append(append([]byte{}, b...), 1, 2, 3))
				d2, err2 := decode(c, bs, b)
				if (err == nil) != (err2 == nil) || d.Name() != d2.Name() || d.Stat() != d2.Stat() {
					c.Fatalf("%s: what follows the entry changes it", c.String())
				}
			}
			d, err := decode(c, bs, b)
			switch kind {
			case "free":
				if !errors.Is(err, disko.ErrNotFound) {
					c.Fatalf("%s: %v, expected %v", c.String(), err, disko.ErrNotFound)
				}
				return
			case "no name":
				if !errors.Is(err, disko.ErrFileSystemCorrupted) {
					c.Fatalf("%s: %v, expected %v", c.String(), err, disko.ErrFileSystemCorrupted)
				}
				return
			}
			if err != nil {
				c.Fatalf("%s: %v", c.String(), err)
			}
			check := func(what string, got, want any) {
				if got != want {
					c.Fatalf("%s: %s is %v, expected %v", c.String(), what, got, want)
				}
			}
			if attr&8 == 0 { // what the name of a volume label looks like is open
				check("Name()", d.Name(), name)
			}
			check("Size()", d.Size(), int64(size))
			check("FirstCluster", uint32(d.FirstCluster), first)
			check("AttributeFlags", d.AttributeFlags, int(attr))
			for bit, flag := range []int{fat.AttrReadOnly, fat.AttrHidden, fat.AttrSystem, fat.AttrVolumeLabel, fat.AttrDirectory, fat.AttrArchived, fat.AttrDevice, fat.AttrReserved} {
				check(fmt.Sprintf("attribute %#x", 1<<bit), d.AttributeFlags&flag != 0, b[11]>>bit&1 != 0)
			}
			check("NTReserved", d.NTReserved, int(b[12]))
			mode := os.FileMode(0o777)
			if attr&1 != 0 {
				mode = 0o555
			}
			if attr&16 != 0 {
				mode |= os.ModeDir
			} else if attr&64 != 0 {
				mode |= os.ModeDevice | os.ModeCharDevice
			}
			check("Mode()", d.Mode(), mode)
			c.LabelIf(odd, "odd name")
			check("AttrFlagsToFileMode", fat.AttrFlagsToFileMode(attr), mode)
			check("IsDir()", d.IsDir(), attr&16 != 0)
			stat := d.Stat()
			if de, ok := any(d).(disko.DirectoryEntry); ok {
				var info os.FileInfo
				var typ os.FileMode
				c.Call("Type and Info", func() { typ = de.Type(); info, err = de.Info() })
				if err != nil || info == nil {
					c.Fatalf("%s: Info() = %v, %v", c.String(), info, err)
				}
				check("Type()", typ, mode.Type())
				check("Info()'s name", info.Name(), d.Name())
				check("Info()'s size", info.Size(), int64(size))
				check("Info()'s mode", info.Mode(), mode)
				check("Info()'s time", info.ModTime(), d.ModTime())
			}
			check("time of the last change", stat.LastChanged, disko.UndefinedTimestamp)
			check("time of the deletion", stat.DeletedAt, disko.UndefinedTimestamp)
			if sys, ok := d.Sys().(disko.FileStat); !ok || sys != stat {
				c.Fatalf("%s: Sys() is %+v, but Stat() is %+v", c.String(), d.Sys(), stat)
			}
			check("ModeFlags", stat.ModeFlags, mode)
			check("stat's Size", stat.Size, int64(size))
			check("BlockSize", stat.BlockSize, int64(bs.BytesPerCluster))
			check("NumBlocks", stat.NumBlocks, int64((size+uint64(bs.BytesPerCluster)-1)/uint64(bs.BytesPerCluster)))
			check("InodeNumber", stat.InodeNumber, uint64(first))
			check("Nlinks", stat.Nlinks, uint64(1))
			times := func(what string, s stamp, withTime, withCentis bool, ts ...time.Time) {
				for _, t := range ts {
					if !s.is(t, withTime, withCentis) {
						c.Fatalf("%s: %s is %v, expected %+v", c.String(), what, t, s)
					}
				}
			}
			times("the time of modification", modified, true, false, stat.LastModified, d.ModTime(), d.GetLastModifiedAt())
			times("the date of the last access", accessed, false, false, stat.LastAccessed, d.GetLastAccessedAt())
			at, err := d.GetCreatedAt()
			if deleted {
				if !errors.Is(err, disko.ErrNotFound) || !at.IsZero() {
					c.Fatalf("%s: GetCreatedAt() = %v, %v, expected %v", c.String(), at, err, disko.ErrNotFound)
				}
				check("the deleted entry's time of creation", stat.CreatedAt, disko.UndefinedTimestamp)
				if _, err := d.GetDeletedAt(); err != nil {
					c.Fatalf("%s: GetDeletedAt(): %v", c.String(), err)
				}
			} else {
				if err != nil {
					c.Fatalf("%s: GetCreatedAt(): %v", c.String(), err)
				}
				times("the time of creation", created, true, true, at, stat.CreatedAt)
				if at, err := d.GetDeletedAt(); !errors.Is(err, disko.ErrInvalidArgument) || !at.IsZero() {
					c.Fatalf("%s: GetDeletedAt() = %v, %v, expected %v", c.String(), at, err, disko.ErrInvalidArgument)
				}
			}
		})
}

func TestV03_ShortEntries(t *testing.T) {
	pbt.Check(t, 500, 5000, "too few bytes for a directory entry; non-trivial: all",
		func(c *pbt.C) {
			b := rapid.SliceOfN(pbt.Byte(), 0, 31).Draw(c.T, "bytes")
			c.Describe("% x", b)
			c.NonTrivial(true)
			var err error
			c.Call("NewRawDirentFromBytes", func() { _, err = fat.NewRawDirentFromBytes(b) })
			if !errors.Is(err, disko.ErrInvalidArgument) {
				c.Fatalf("NewRawDirentFromBytes of %d bytes: %v", len(b), err)
			}
		})
}

func TestV04_Setters(t *testing.T) {
	epoch := time.Date(1980, 1, 1, 0, 0, 0, 0, time.Local)
	pbt.Check(t, 6000, 100000, "up to 12 changes to the timestamps of a live or deleted entry, to times before and after 1980; non-trivial: "+
		"both accepted and refused ones",
		func(c *pbt.C) {
			bs := bootFor(c)
			raw := rawEntry(newRand(c), drawName(c), 32, 5, 100)
			deleted := rapid.Bool().Draw(c.T, "deleted")
			if deleted {
				raw[13], raw[0] = raw[0], 0xe5
			}
			d, err := decode(c, bs, raw[:])
			if err != nil {
				c.Fatalf("decoding % x: %v", raw, err)
			}
			c.Describe("deleted %v: ", deleted)
			model := d.Stat()
			modelName, modelMode := d.Name(), d.Mode()
			accepted, refused := false, false
			for i := pbt.Int(1, 12).Draw(c.T, "steps"); i > 0; i-- {
				at := epoch.Add(time.Duration(pbt.Int(-40, 127).Draw(c.T, "years")) * 365 * 24 * time.Hour)
				switch pbt.Int(0, 3).Draw(c.T, "near") {
				case 0:
					at = epoch.Add(time.Duration(pbt.Int(-2, 2).Draw(c.T, "offset")))
				case 1:
					at = epoch.Add(time.Duration(pbt.Int(-13, 13).Draw(c.T, "offset")) * time.Hour)
				}
				if rapid.Bool().Draw(c.T, "UTC") {
					at = at.UTC()
				}
				which := rapid.SampledFrom([]string{"accessed", "modified", "created", "deleted"}).Draw(c.T, "which")
				c.AddDesc("%s=%v ", which, at)
				var err, want error
				if at.Before(epoch) {
					want = disko.ErrArgumentOutOfRange
				} else if which == "created" && deleted {
					want = disko.ErrNotFound
				}
				c.Call(which, func() {
					switch which {
					case "accessed":
						err = d.SetLastAccessedAt(at)
					case "modified":
						err = d.SetLastModifiedAt(at)
					case "created":
						err = d.SetCreatedAt(at)
					case "deleted":
						err = d.SetDeletedAt(at)
					}
				})
				if want != nil {
					refused = true
					if !errors.Is(err, want) {
						c.Fatalf("%s: %v, expected %v", c.String(), err, want)
					}
				} else {
					accepted = true
					if err != nil {
						c.Fatalf("%s: %v", c.String(), err)
					}
					switch which {
					case "accessed":
						model.LastAccessed = at
					case "modified":
						model.LastModified = at
					case "created":
						model.CreatedAt = at
					case "deleted":
						model.DeletedAt = at
						deleted = true
					}
				}
				got := d.Stat()
				createdAt, errCreated := d.GetCreatedAt()
				deletedAt, errDeleted := d.GetDeletedAt()
				if !d.GetLastAccessedAt().Equal(model.LastAccessed) || !got.LastAccessed.Equal(model.LastAccessed) ||
					!d.GetLastModifiedAt().Equal(model.LastModified) || !got.LastModified.Equal(model.LastModified) ||
					!d.ModTime().Equal(model.LastModified) {
					c.Fatalf("%s: accessed %v, modified %v, expected %v, %v", c.String(), got.LastAccessed, got.LastModified, model.LastAccessed, model.LastModified)
				}
				if deleted {
					if !errors.Is(errCreated, disko.ErrNotFound) || errDeleted != nil || !deletedAt.Equal(model.DeletedAt) {
						c.Fatalf("%s: created %v %v, deleted %v %v, expected deletion at %v", c.String(), createdAt, errCreated, deletedAt, errDeleted, model.DeletedAt)
					}
				} else if errCreated != nil || !createdAt.Equal(model.CreatedAt) || !errors.Is(errDeleted, disko.ErrInvalidArgument) {
					c.Fatalf("%s: created %v %v, deleted %v %v, expected creation at %v", c.String(), createdAt, errCreated, deletedAt, errDeleted, model.CreatedAt)
				}
				if d.Name() != modelName || d.Mode() != modelMode || got.Size != model.Size || got.InodeNumber != model.InodeNumber {
					c.Fatalf("%s: other properties have changed: %+v", c.String(), got)
				}
			}
			c.NonTrivial(accepted && refused)
		})
}
