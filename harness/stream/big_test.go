package stream

import (
	"bytes"
	"fmt"
	"io"
	"runtime/debug"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"pgregory.net/rapid"
)

// bigFile is the model of a huge file: what was written, by position, and
// contents that depend on the position everywhere else.
type bigFile struct {
	size    int64
	written map[int64]byte
}

func bigByte(pos int64) byte { return byte(pos*7+pos>>9+pos>>17*3+pos>>31*5) | 1 }

func (f *bigFile) at(pos int64) byte {
	if b, ok := f.written[pos]; ok {
		return b
	}
	return bigByte(pos)
}

func (f *bigFile) put(pos int64, data []byte) {
	for ; f.size < pos; f.size++ {
		f.written[f.size] = 0
	}
	for i, b := range data {
		f.written[pos+int64(i)] = b
	}
	f.size = max(f.size, pos+int64(len(data)))
}

// TestS01_Giant has files of more than 4 GiB. Their memory is never touched
// except where the operations go, as long as the garbage collector doesn't
// hand it out again. For that, it must come first: files are sorted by name.
func TestS01_Giant(t *testing.T) {
	old := debug.SetGCPercent(-1)
	takeBack := pbt.AllowUntouched(1 << 40)
	defer func() {
		takeBack()
		debug.SetGCPercent(old)
		debug.FreeOSMemory()
	}()
	pbt.Check(t, 12, 60, "A file of 4.1 GiB in blocks of 32 or 64 KiB ending anywhere in its last blocks, whose storage can't be resized, and 4-12 reads, writes, seeks, copies and truncations of up to three blocks, mostly around 2 GiB, 4 GiB and its end. "+
		"Non-trivial: something beyond 2 GiB was read.", func(c *pbt.C) {
		t := c.T
		bpb := rapid.SampledFrom([]int64{32768, 65535, 65536}).Draw(t, "bytes per block")
		blocks := 1<<32/bpb + rapid.Int64Range(1, 40).Draw(t, "more blocks")
		disk := map[int64][]byte{}
		f := &bigFile{size: blocks*bpb - rapid.Int64Range(0, 3*bpb).Draw(t, "unused"), written: map[int64]byte{}}
		stored := func(b int64) []byte {
			p, ok := disk[b]
			if !ok {
				p = make([]byte, bpb)
				for i := range p {
					p[i] = bigByte(b*bpb + int64(i))
				}
				disk[b] = p
			}
			return p
		}
		cache := blockcache.New(uint(bpb), uint(blocks),
			func(i common.LogicalBlock, buf []byte) error { copy(buf, stored(int64(i))); return nil },
			func(i common.LogicalBlock, buf []byte) error { copy(stored(int64(i)), buf); return nil },
			nil)
		flags := rapid.SampledFrom([]disko.IOFlags{disko.O_RDWR, disko.O_RDWR, disko.O_RDWR | disko.O_APPEND}).Draw(t, "flags")
		s, err := basicstream.New(f.size, cache, flags)
		if err != nil {
			c.Fatalf("New(%d): %v", f.size, err)
		}
		c.Describe("%d blocks of %d, size %d, flags %#x:", blocks, bpb, f.size, int(flags))
		pos := int64(0)
		compare := func(what string, at int64, got []byte) {
			for i := range got {
				if want := f.at(at + int64(i)); got[i] != want {
					c.Fatalf("%s: byte %d of the file is %#x instead of %#x", what, at+int64(i), got[i], want)
				}
			}
			c.NonTrivial(len(got) > 0 && at > 1<<31)
			c.LabelIf(len(got) > 0 && at >= 1<<32, "beyond 4 GiB")
		}
		offset := func() int64 {
			edges := []int64{0, 1 << 31, 1 << 32, f.size, f.size, 1 << 16 * bpb}
			off := rapid.SampledFrom(edges).Draw(t, "edge") + int64(rapid.IntRange(-40, 40).Draw(t, "off"))*rapid.SampledFrom([]int64{1, 1, 1000}).Draw(t, "unit")
			if pbt.Int(0, 3).Draw(t, "anywhere") == 3 {
				off = rapid.Int64Range(0, f.size).Draw(t, "offset")
			}
			return max(0, min(off, blocks*bpb))
		}
		payload := func(at int64) []byte {
			n := min(int64(pbt.Int(0, int(2*bpb+2)).Draw(t, "length")), blocks*bpb-at)
			if rapid.Bool().Draw(t, "short") {
				n = min(n, 100)
			}
			return fill(int(max(0, n)), pbt.Byte().Draw(t, "fill"))
		}
		steps := pbt.Int(4, 12).Draw(t, "steps")
		for i := 0; i < steps; i++ {
			switch rapid.SampledFrom([]string{"ReadAt", "Read", "WriteAt", "Write", "ReadFrom", "Seek", "Seek", "WriteTo", "Truncate", "Sync"}).Draw(t, "op") {
			case "ReadAt", "Read":
				at, buf := pos, make([]byte, pbt.Int(0, int(2*bpb+2)).Draw(t, "length"))
				var n int
				var err error
				if rapid.Bool().Draw(t, "at") {
					at = offset()
					n, err = s.ReadAt(buf, at)
				} else {
					n, err = s.Read(buf)
					pos += int64(n)
				}
				c.AddDesc(" read %d+%d", at, len(buf))
				want := min(int64(len(buf)), max(0, f.size-at))
				if int64(n) != want || (err != nil) != (n < len(buf)) || err != nil && err != io.EOF {
					c.Fatalf("reading %d bytes at %d of %d: %d, %v", len(buf), at, f.size, n, err)
				}
				compare("read", at, buf[:n])
			case "WriteAt":
				if flags.Append() {
					continue
				}
				at := offset()
				data := payload(at)
				c.AddDesc(" WriteAt %d+%d", at, len(data))
				if n, err := s.WriteAt(data, at); n != len(data) || err != nil {
					c.Fatalf("WriteAt %d+%d of %d: %d, %v", at, len(data), f.size, n, err)
				}
				if len(data) > 0 {
					f.put(at, data)
				}
			case "Write", "ReadFrom":
				if flags.Append() {
					if _, err := s.Seek(0, io.SeekEnd); err != nil {
						c.Fatalf("Seek: %v", err)
					}
					pos = f.size
				}
				data := payload(pos)
				c.AddDesc(" write %d+%d", pos, len(data))
				if rapid.Bool().Draw(t, "copy") {
					if n, err := s.ReadFrom(bytes.NewReader(data)); n != int64(len(data)) || err != nil {
						c.Fatalf("ReadFrom of %d bytes at %d of %d: %d, %v", len(data), pos, f.size, n, err)
					}
				} else if n, err := s.Write(data); n != len(data) || err != nil {
					c.Fatalf("Write of %d bytes at %d of %d: %d, %v", len(data), pos, f.size, n, err)
				}
				if len(data) > 0 {
					f.put(pos, data)
					pos += int64(len(data))
				}
			case "Seek":
				target, whence := offset(), pbt.Int(0, 2).Draw(t, "whence")
				c.AddDesc(" seek %d", target)
				base := []int64{0, pos, f.size}[whence]
				if got, err := s.Seek(target-base, whence); got != target || err != nil {
					c.Fatalf("Seek(%d, %d) from %d of %d: %d, %v", target-base, whence, pos, f.size, got, err)
				}
				pos = target
			case "WriteTo":
				if f.size-pos > 3*bpb {
					continue
				}
				c.AddDesc(" WriteTo")
				var out bytes.Buffer
				n, err := s.WriteTo(&out)
				if want := max(0, f.size-pos); n != want || int64(out.Len()) != want || err != nil {
					c.Fatalf("WriteTo at %d of %d: %d, %v, %d bytes", pos, f.size, n, err, out.Len())
				}
				compare("WriteTo", pos, out.Bytes())
				pos += n
			case "Truncate":
				// A change of the number of blocks is a copy of everything.
				first := blocks*bpb - bpb + 1
				size := first + rapid.Int64Range(0, bpb-1).Draw(t, "new size")
				c.AddDesc(" Truncate %d", size)
				if err := s.Truncate(size); err != nil {
					c.Fatalf("Truncate(%d) of %d: %v", size, f.size, err)
				}
				f.put(size, nil)
				f.size = size
			case "Sync":
				c.AddDesc(" Sync")
				if err := s.Sync(); err != nil {
					c.Fatalf("Sync: %v", err)
				}
			}
			if s.Size() != f.size || s.Tell() != pos {
				c.Fatalf("size %d, position %d; expected %d, %d", s.Size(), s.Tell(), f.size, pos)
			}
		}
		if err := s.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		for _, b := range pbt.SortedKeys(disk) {
			p := disk[b]
			if got := min(bpb, f.size-b*bpb); got > 0 {
				compare(fmt.Sprintf("block %d on the disk", b), b*bpb, p[:got])
			}
		}
		for _, at := range pbt.SortedKeys(f.written) {
			want := f.written[at]
			if at < f.size && stored(at / bpb)[at%bpb] != want {
				c.Fatalf("byte %d is %#x on the disk instead of %#x", at, stored(at / bpb)[at%bpb], want)
			}
		}
	})
}
