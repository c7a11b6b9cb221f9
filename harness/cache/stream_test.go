package cache

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"pgregory.net/rapid"
)

// memStream is an image file: it grows when written past the end, reads may
// return fewer bytes than asked for, and each kind of access can fail.
type memStream struct {
	data     []byte
	pos      int64
	maxRead  int // 0 = no limit
	withEOF  bool
	failIn   int
	fault    error
	failed   bool
	accesses int
}

func (s *memStream) tick() error {
	s.accesses++
	if s.failIn > 0 {
		s.failIn--
		if s.failIn == 0 {
			s.failed = true
			return s.fault
		}
	}
	return nil
}

func (s *memStream) Read(p []byte) (int, error) {
	if err := s.tick(); err != nil {
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.pos >= int64(len(s.data)) {
		return 0, io.EOF
	}
	if s.maxRead > 0 && len(p) > s.maxRead {
		p = p[:s.maxRead]
	}
	n := copy(p, s.data[s.pos:])
	s.pos += int64(n)
	if s.withEOF && s.pos == int64(len(s.data)) {
		return n, io.EOF
	}
	return n, nil
}

func (s *memStream) Write(p []byte) (int, error) {
	if err := s.tick(); err != nil {
		return 0, err
	}
	if end := s.pos + int64(len(p)); end > int64(len(s.data)) {
		s.data = append(s.data, make([]byte, end-int64(len(s.data)))...)
	}
	copy(s.data[s.pos:], p)
	s.pos += int64(len(p))
	return len(p), nil
}

func (s *memStream) Seek(offset int64, whence int) (int64, error) {
	if err := s.tick(); err != nil {
		return s.pos, err
	}
	switch whence {
	case io.SeekCurrent:
		offset += s.pos
	case io.SeekEnd:
		offset += int64(len(s.data))
	}
	if offset < 0 {
		return s.pos, errors.New("negative position")
	}
	s.pos = offset
	return offset, nil
}

// truncStream can be resized in addition.
type truncStream struct{ *memStream }

func (s truncStream) Truncate(size int64) error {
	if err := s.tick(); err != nil {
		return err
	}
	if size <= int64(len(s.data)) {
		s.data = append([]byte{}, s.data[:size]...)
	} else {
		s.data = append(append([]byte{}, s.data...), make([]byte, size-int64(len(s.data)))...)
	}
	return nil
}

func pattern(n int, seed byte) []byte {
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*5+i/251) ^ seed | 1 // never null
	}
	return data
}

// streamCase makes a cache around an image and compares it with a flat array.
func streamCase(c *pbt.C, faults bool) {
	t := c.T
	bpb := rapid.SampledFrom([]int{1, 3, 16, 64, 128, 512}).Draw(t, "bytes per block")
	length := pbt.Int(0, 20*bpb).Draw(t, "image size")
	switch pbt.Int(0, 24).Draw(t, "scale") {
	case 23: // many blocks
		bpb = min(bpb, 16)
		length = pbt.Int(20*bpb, 400*bpb).Draw(t, "many blocks")
	case 24: // large blocks
		bpb = rapid.SampledFrom([]int{1000, 1024, 4096, 32768, 65536, 70001}).Draw(t, "large blocks")
		length = pbt.Int(0, 5*bpb).Draw(t, "size of large blocks")
	}
	if rapid.Bool().Draw(t, "whole blocks") {
		length -= length % bpb
	}
	raw := pattern(length, pbt.Byte().Draw(t, "contents"))
	how := rapid.SampledFrom([]string{"stream", "stream", "inferred", "slice"}).Draw(t, "how")
	if faults && how == "slice" {
		how = "stream"
	}
	allow := rapid.Bool().Draw(t, "allow resize")
	canTruncate := rapid.Bool().Draw(t, "can truncate")
	ms := &memStream{data: append([]byte{}, raw...), maxRead: rapid.SampledFrom([]int{0, 0, 1, 5, 100}).Draw(t, "max read"), withEOF: rapid.Bool().Draw(t, "with EOF")}
	ms.pos = int64(pbt.Int(0, length).Draw(t, "position"))
	var rws io.ReadWriteSeeker = ms
	if canTruncate {
		rws = truncStream{ms}
	}
	total := length / bpb
	var cache *blockcache.BlockCache
	slice := append([]byte{}, raw...)
	switch how {
	case "stream":
		total = pbt.Int(0, length/bpb+3).Draw(t, "blocks")
		cache = blockcache.WrapStream(rws, uint(bpb), uint(total), allow)
	case "inferred":
		cache = blockcache.WrapStreamWithInferredSize(rws, uint(bpb), allow)
	case "slice":
		cache = blockcache.WrapSlice(slice, uint(bpb))
		allow, canTruncate = false, false
	}
	c.Describe("%s of %d bytes as %d blocks of %d, resize %v truncate %v max read %d:", how, length, total, bpb, allow, canTruncate, ms.maxRead)
	c.Label(how)
	c.LabelIf(total*bpb > length, "stream shorter than the cache")
	c.LabelIf(total*bpb < length, "stream longer than the cache")
	image := func() []byte {
		if how == "slice" {
			return slice
		}
		return ms.data
	}
	model := make([]byte, total*bpb)
	copy(model, raw)
	expectImage := append([]byte{}, raw...) // what the image must contain after a flush
	dirty := map[int]bool{}
	same := func(what string, got, want []byte) {
		if !bytes.Equal(got, want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			c.Fatalf("%s: %d and %d bytes, first difference at %d", what, len(got), len(want), i)
		}
	}
	delivered := false
	faulty := func(what string, err error) bool {
		ms.failIn = 0
		if !ms.failed {
			if err != nil {
				c.Fatalf("%s: %v", what, err)
			}
			return false
		}
		ms.failed, delivered = false, true
		if err == nil {
			c.Fatalf("%s: the stream failed but no error was reported", what)
		}
		if !errors.Is(err, ms.fault) {
			c.Fatalf("%s: the stream failed with %q, reported as %v", what, ms.fault, err)
		}
		c.AddDesc("!")
		return true
	}
	flush := func() {
		if faulty("Flush", cache.Flush()) {
			return
		}
		for b := range dirty {
			if need := (b + 1) * bpb; need > len(expectImage) {
				expectImage = append(expectImage, make([]byte, need-len(expectImage))...)
			}
			copy(expectImage[b*bpb:(b+1)*bpb], model[b*bpb:])
		}
		dirty = map[int]bool{}
		same("image after Flush", image(), expectImage)
		c.NonTrivial(!faults && len(model) > 0)
	}
	sizes := func() {
		if cache.TotalBlocks() != uint(total) || cache.BytesPerBlock() != uint(bpb) || cache.Size() != int64(total*bpb) {
			c.Fatalf("cache has %d blocks of %d, %d bytes; want %d blocks of %d", cache.TotalBlocks(), cache.BytesPerBlock(), cache.Size(), total, bpb)
		}
	}
	sizes()
	steps := pbt.Int(1, 14).Draw(t, "steps")
	for i := 0; i < steps; i++ {
		if faults && rapid.Bool().Draw(t, "fail") {
			ms.failIn = pbt.Int(1, 5).Draw(t, "fail in")
			ms.fault = rapid.SampledFrom([]error{errInjected, disko.ErrIOFailed, io.ErrClosedPipe, io.ErrNoProgress}).Draw(t, "fault")
		}
		ops := []string{"resize"}
		if total > 0 {
			ops = []string{"read", "read", "write", "write", "flush", "resize"}
		}
		switch rapid.SampledFrom(ops).Draw(t, "op") {
		case "read":
			start := pbt.Int(0, total-1).Draw(t, "start")
			buf := make([]byte, pbt.Int(0, (total-start)*bpb).Draw(t, "bytes"))
			c.AddDesc(" read %d+%d", start, len(buf))
			n, err := cache.ReadAt(buf, common.LogicalBlock(start))
			if !faulty("ReadAt", err) {
				if n != len(buf) {
					c.Fatalf("ReadAt of %d bytes returned %d", len(buf), n)
				}
				same(fmt.Sprintf("ReadAt at block %d", start), buf, model[start*bpb:start*bpb+len(buf)])
			}
		case "write":
			start := pbt.Int(0, total-1).Draw(t, "start")
			buf := pattern(pbt.Int(0, (total-start)*bpb).Draw(t, "bytes"), pbt.Byte().Draw(t, "fill"))
			c.AddDesc(" write %d+%d", start, len(buf))
			n, err := cache.WriteAt(buf, common.LogicalBlock(start))
			if !faulty("WriteAt", err) {
				if n != len(buf) {
					c.Fatalf("WriteAt of %d bytes returned %d", len(buf), n)
				}
				copy(model[start*bpb:], buf)
				for b := start; b*bpb < start*bpb+len(buf); b++ {
					dirty[b] = true
				}
				if faults || len(image()) == len(expectImage) {
					continue
				}
				c.Fatalf("the image changed its size before the flush")
			}
		case "flush":
			c.AddDesc(" flush")
			flush()
		case "resize":
			n := pbt.Int(0, total+4).Draw(t, "new size")
			c.AddDesc(" resize %d", n)
			if !(allow && canTruncate) {
				want := disko.ErrNotPermitted
				if allow {
					want = disko.ErrNotSupported
				}
				if err := cache.Resize(uint(n)); !errors.Is(err, want) {
					c.Fatalf("Resize (allowed: %v, stream can: %v): %v", allow, canTruncate, err)
				}
				ms.failIn = 0
				break
			}
			if faulty("Resize", cache.Resize(uint(n))) {
				break
			}
			c.Label("resized")
			grown := make([]byte, n*bpb)
			copy(grown, model)
			cut := make([]byte, n*bpb)
			copy(cut, expectImage)
			for b := total; b < n; b++ {
				dirty[b] = true
			}
			for b := n; b < total; b++ {
				delete(dirty, b)
			}
			model, expectImage, total = grown, cut, n
			if len(image()) != n*bpb {
				c.Fatalf("after resizing to %d blocks of %d the image has %d bytes", n, bpb, len(image()))
			}
		}
		sizes()
	}
	ms.failIn = 0
	got, err := cache.Data()
	if err != nil {
		c.Fatalf("Data: %v", err)
	}
	same("Data", got, model)
	if faults {
		// Whatever a failed flush left behind: this one completes the job.
		if err := cache.Flush(); err != nil {
			c.Fatalf("Flush: %v", err)
		}
		want := append([]byte{}, model...)
		img := append(append([]byte{}, image()...), make([]byte, max(0, len(want)-len(image())))...)
		same("image after the last Flush", img[:len(want)], want)
		c.NonTrivial(delivered)
		return
	}
	flush()
}

const streamRule = "A cache around an in-memory stream or slice of any length (whole blocks or not, shorter or longer than the cache, short reads, any initial position), 1-14 operations. "

func TestB05_Streams(t *testing.T) {
	pbt.Check(t, 40000, 800000, streamRule+"Contents compared with a flat array, the image after each flush compared byte for byte; resizing follows the stream, or is refused as not permitted or not supported. Non-trivial: a flush of a cache with blocks.",
		func(c *pbt.C) { streamCase(c, false) })
}

func TestB05_Faults(t *testing.T) {
	pbt.Check(t, 30000, 600000, streamRule+"A generated read, write, seek or truncate of some operations fails: reported, contents unaffected, and a later flush completes. Non-trivial: a fault was delivered.",
		func(c *pbt.C) { streamCase(c, true) })
}

// sparseStream is a huge image of which only the written blocks are kept. The
// rest has contents that depend on the position.
type sparseStream struct {
	size, pos int64
	written   map[int64][]byte
	maxRead   int
}

func sparseByte(pos int64) byte { return byte(pos*7+pos>>9+pos>>17*3+pos>>31*5) | 1 }

func (s *sparseStream) at(pos int64) byte {
	if p, ok := s.written[pos>>10]; ok {
		return p[pos&1023]
	}
	return sparseByte(pos)
}

func (s *sparseStream) Read(p []byte) (int, error) {
	if s.pos >= s.size {
		return 0, io.EOF
	}
	p = p[:min(int64(len(p)), s.size-s.pos)]
	if s.maxRead > 0 {
		p = p[:min(len(p), s.maxRead)]
	}
	for i := range p {
		p[i] = s.at(s.pos + int64(i))
	}
	s.pos += int64(len(p))
	return len(p), nil
}

func (s *sparseStream) Write(p []byte) (int, error) {
	for i, b := range p {
		pos := s.pos + int64(i)
		page, ok := s.written[pos>>10]
		if !ok {
			page = make([]byte, 1024)
			for j := range page {
				page[j] = sparseByte(pos&^1023 + int64(j))
			}
			s.written[pos>>10] = page
		}
		page[pos&1023] = b
	}
	s.pos += int64(len(p))
	s.size = max(s.size, s.pos)
	return len(p), nil
}

func (s *sparseStream) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += s.pos
	case io.SeekEnd:
		offset += s.size
	}
	if offset < 0 {
		return s.pos, errors.New("negative position")
	}
	s.pos = offset
	return offset, nil
}

// farCase uses a few blocks of a cache around a huge image, preferably those
// around the places where numbers of 16, 31 or 32 bits end.
func farCase(c *pbt.C, bpb, total int) {
	t := c.T
	st := &sparseStream{size: int64(bpb)*int64(total) + int64(pbt.Int(0, bpb-1).Draw(t, "rest")), written: map[int64][]byte{}, maxRead: rapid.SampledFrom([]int{0, 0, 1000}).Draw(t, "max read")}
	st.pos = int64(pbt.Int(0, total).Draw(t, "position"))
	var cache *blockcache.BlockCache
	if rapid.Bool().Draw(t, "inferred") {
		cache = blockcache.WrapStreamWithInferredSize(st, uint(bpb), false)
	} else {
		cache = blockcache.WrapStream(st, uint(bpb), uint(total), false)
	}
	c.Describe("%d blocks of %d:", total, bpb)
	if cache.TotalBlocks() != uint(total) || cache.Size() != int64(total)*int64(bpb) {
		c.Fatalf("the cache has %d blocks, %d bytes; want %d of %d", cache.TotalBlocks(), cache.Size(), total, bpb)
	}
	edges := []int{0, total, 1 << 15, 1 << 16, 1 << 31 / bpb, 1 << 32 / bpb}
	model := map[int64][]byte{} // blocks that were written
	block := func(b int64) []byte {
		if p, ok := model[b]; ok {
			return p
		}
		p := make([]byte, bpb)
		for i := range p {
			p[i] = sparseByte(b*int64(bpb) + int64(i))
		}
		return p
	}
	check := func(what string, first int64, got []byte) {
		for b := first; len(got) > 0; b++ {
			n := min(len(got), bpb)
			for i, want := range block(b)[:n] {
				if got[i] != want {
					c.Fatalf("%s: byte %d of block %d is %#x instead of %#x", what, i, b, got[i], want)
				}
			}
			got = got[n:]
		}
	}
	steps := pbt.Int(2, 8).Draw(t, "steps")
	for i := 0; i < steps; i++ {
		at := pbt.Int(0, total-1).Draw(t, "block")
		if rapid.IntRange(0, 3).Draw(t, "near an edge") > 0 {
			at = rapid.SampledFrom(edges).Draw(t, "edge") + rapid.IntRange(-2, 1).Draw(t, "off")
			at = max(0, min(at, total-1))
		}
		buf := make([]byte, pbt.Int(0, min(3, total-at)*bpb).Draw(t, "bytes"))
		c.NonTrivial(at > 1<<16 && len(buf) > 0)
		c.LabelIf(int64(at)*int64(bpb) >= 1<<31, "beyond 2 GiB")
		c.LabelIf(int64(at)*int64(bpb) >= 1<<32, "beyond 4 GiB")
		switch rapid.SampledFrom([]string{"read", "write", "write", "flush"}).Draw(t, "op") {
		case "read":
			c.AddDesc(" read %d+%d", at, len(buf))
			if n, err := cache.ReadAt(buf, common.LogicalBlock(at)); err != nil || n != len(buf) {
				c.Fatalf("ReadAt of %d bytes at block %d: %d, %v", len(buf), at, n, err)
			}
			check("ReadAt", int64(at), buf)
		case "write":
			c.AddDesc(" write %d+%d", at, len(buf))
			fill := pbt.Byte().Draw(t, "fill")
			for j := range buf {
				buf[j] = byte(j*3) ^ fill
			}
			if n, err := cache.WriteAt(buf, common.LogicalBlock(at)); err != nil || n != len(buf) {
				c.Fatalf("WriteAt of %d bytes at block %d: %d, %v", len(buf), at, n, err)
			}
			for j := 0; j < len(buf); j += bpb {
				p := append([]byte{}, block(int64(at+j/bpb))...)
				copy(p, buf[j:])
				model[int64(at+j/bpb)] = p
			}
		case "flush":
			c.AddDesc(" flush")
			if err := cache.Flush(); err != nil {
				c.Fatalf("Flush: %v", err)
			}
			for _, b := range pbt.SortedKeys(model) {
				want := model[b]
				for j := range want {
					if got := st.at(b*int64(bpb) + int64(j)); got != want[j] {
						c.Fatalf("after Flush, byte %d of block %d is %#x in the image instead of %#x", j, b, got, want[j])
					}
				}
			}
		}
	}
	if err := cache.Flush(); err != nil {
		c.Fatalf("Flush: %v", err)
	}
	for _, p := range pbt.SortedKeys(st.written) {
		for pos := p << 10; pos < (p+1)<<10; pos++ {
			want := sparseByte(pos)
			if blk, ok := model[pos/int64(bpb)]; ok {
				want = blk[pos%int64(bpb)]
			}
			if st.at(pos) != want {
				c.Fatalf("the image has %#x instead of %#x at %d, in block %d", st.at(pos), want, pos, pos/int64(bpb))
			}
		}
	}
	for _, b := range pbt.SortedKeys(model) {
		for pos := b * int64(bpb); pos < (b+1)*int64(bpb); pos++ {
			if st.at(pos) != model[b][pos%int64(bpb)] {
				c.Fatalf("the image has %#x instead of %#x at %d, in block %d", st.at(pos), model[b][pos%int64(bpb)], pos, b)
			}
		}
	}
}

func TestB05_Far(t *testing.T) {
	pbt.Check(t, 150, 3000, "A cache of 65530-140000 blocks of 1-16 bytes around a sparse image, 2-8 reads, writes and flushes, mostly near block 2^16 or the ends: contents and image compared byte for byte. Non-trivial: something beyond block 2^16.",
		func(c *pbt.C) {
			bpb := rapid.SampledFrom([]int{1, 2, 3, 16}).Draw(c.T, "bytes per block")
			farCase(c, bpb, rapid.IntRange(65530, 140000).Draw(c.T, "blocks"))
		})
}
