// Checks of the block cache: it behaves like a flat array in front of a store
// that it reads lazily and writes back exactly.
package cache

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/big"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

// store is the backing storage of a cache. It checks the guarantees that the
// cache gives its callbacks, and can be told to fail.
type store struct {
	c       *pbt.C
	bpb     int
	data    []byte
	fetched map[int]int // since the last reset
	flushed map[int]int
	resized []uint64
	total   int // blocks the cache may ask for

	failIn int // the failIn-th callback from now fails, 0 = none
	fault  error
	failed bool // the fault was delivered
	calls  int
}

func (s *store) tick(what string, buffer []byte) error {
	s.calls++
	if s.calls > 100000 {
		s.c.Fatalf("the cache makes callbacks without end")
	}
	if s.failIn > 0 {
		s.failIn--
		if s.failIn == 0 {
			s.failed = true
			if what == "fetch" {
				// A failed read may well have put something in the buffer.
				for i := range buffer {
					buffer[i] = 0xEE
				}
			}
			return s.fault
		}
	}
	return nil
}

func (s *store) block(what string, index common.LogicalBlock, buffer []byte) []byte {
	if uint64(index) >= uint64(s.total) {
		s.c.Fatalf("%s of block %d of %d", what, index, s.total)
	}
	if len(buffer) != s.bpb {
		s.c.Fatalf("%s of block %d with a buffer of %d bytes instead of %d", what, index, len(buffer), s.bpb)
	}
	return s.data[int(index)*s.bpb : (int(index)+1)*s.bpb]
}

func (s *store) fetch(index common.LogicalBlock, buffer []byte) error {
	b := s.block("fetch", index, buffer)
	if err := s.tick("fetch", buffer); err != nil {
		return err
	}
	s.fetched[int(index)]++
	copy(buffer, b)
	return nil
}

func (s *store) flush(index common.LogicalBlock, buffer []byte) error {
	b := s.block("flush", index, buffer)
	if err := s.tick("flush", buffer); err != nil {
		return err
	}
	s.flushed[int(index)]++
	copy(b, buffer)
	return nil
}

// resize makes more blocks available, full of garbage, as its contract permits.
func (s *store) resize(n common.LogicalBlock) error {
	if err := s.tick("resize", nil); err != nil {
		return err
	}
	s.resized = append(s.resized, uint64(n))
	old := len(s.data)
	want := int(n) * s.bpb
	if want <= old {
		s.data = s.data[:want:want]
	} else {
		s.data = append(s.data[:old:old], bytes.Repeat([]byte{0xDB}, want-old)...)
	}
	s.total = int(n)
	return nil
}

func (s *store) reset() {
	s.flushed = map[int]int{}
}

// world is a cache, its store, and the model of both.
type world struct {
	c     *pbt.C
	store *store
	cache *blockcache.BlockCache
	bpb   int
	model []byte       // what the cache must contain
	dirty map[int]bool // blocks that the next flush must write
	// maybeClean are blocks that a failed flush has written already.
	maybeClean map[int]bool
	// held is a slice of the cache's storage, from block heldAt on.
	held   []byte
	heldAt int

	sawPartial, sawGrow, sawShrink, sawFlushDirty, sawFault bool
}

func newWorld(c *pbt.C, minBlocks, maxBlocks int) *world {
	bpb := rapid.SampledFrom([]int{1, 2, 3, 7, 16, 64, 128, 512}).Draw(c.T, "bytes per block")
	total := pbt.Int(minBlocks, maxBlocks).Draw(c.T, "blocks")
	switch pbt.Int(0, 24).Draw(c.T, "scale") {
	case 23: // many blocks
		bpb = min(bpb, 16)
		total = pbt.Int(maxBlocks, 600).Draw(c.T, "many blocks")
	case 24: // large blocks
		bpb = rapid.SampledFrom([]int{1000, 1024, 4096, 32768, 65536, 70001}).Draw(c.T, "large blocks")
		total = max(minBlocks, min(total, 5))
	}
	data := make([]byte, bpb*total)
	seed := pbt.Byte().Draw(c.T, "contents")
	for i := range data {
		data[i] = byte(i*7+i/256) ^ seed
	}
	w := &world{c: c, bpb: bpb, model: append([]byte{}, data...), dirty: map[int]bool{}}
	w.store = &store{c: c, bpb: bpb, data: data, fetched: map[int]int{}, flushed: map[int]int{}, total: total}
	w.cache = blockcache.New(uint(bpb), uint(total), w.store.fetch, w.store.flush, w.store.resize)
	c.Describe("%d blocks of %d:", total, bpb)
	return w
}

func (w *world) total() int { return len(w.model) / w.bpb }

func (w *world) log(format string, args ...any) { w.c.AddDesc(" "+format, args...) }

// fresh fills a buffer with data that differs from call to call.
func (w *world) fresh(n int) []byte {
	b := pbt.Byte().Draw(w.c.T, "fill")
	step := rapid.SampledFrom([]byte{0, 1, 3}).Draw(w.c.T, "step")
	out := make([]byte, n)
	for i := range out {
		out[i] = b + byte(i)*step
	}
	return out
}

// blocksOf draws a range of blocks: start in [0, total), count >= 0 within.
func (w *world) blockRange() (int, int) {
	start := pbt.Int(0, w.total()-1).Draw(w.c.T, "start")
	count := pbt.Int(0, w.total()-start).Draw(w.c.T, "count")
	return start, count
}

func (w *world) byteRange() (int, int) {
	start := pbt.Int(0, w.total()-1).Draw(w.c.T, "start")
	room := (w.total() - start) * w.bpb
	if room > w.bpb*4 && rapid.Bool().Draw(w.c.T, "short") {
		room = w.bpb * 4
	}
	n := pbt.Int(0, room).Draw(w.c.T, "bytes")
	if n%w.bpb != 0 && rapid.Bool().Draw(w.c.T, "whole blocks") {
		n -= n % w.bpb
	}
	if n%w.bpb != 0 {
		w.sawPartial = true
	}
	return start, n
}

// faulty tells whether err is the fault injected into this operation.
func (w *world) faulty(what string, err error) bool {
	if !w.store.failed {
		if err != nil {
			w.c.Fatalf("%s: %v", what, err)
		}
		return false
	}
	w.store.failed = false
	w.sawFault = true
	if err == nil {
		w.c.Fatalf("%s: the storage failed but no error was reported", what)
	}
	if !errors.Is(err, w.store.fault) {
		w.c.Fatalf("%s: the storage failed with %q, reported as %v", what, w.store.fault, err)
	}
	w.log("!")
	return true
}

func (w *world) arm() {
	w.store.failIn = 0
}

// change modifies some blocks of the slice that is held.
func (w *world) change() {
	n := len(w.held) / w.bpb
	first := pbt.Int(0, n-1).Draw(w.c.T, "first")
	w.modify(w.heldAt+first, pbt.Int(1, n-first).Draw(w.c.T, "number"))
}

// modify changes blocks through the slice that is held, and marks them.
func (w *world) modify(start, count int) {
	buf := w.fresh(count * w.bpb)
	copy(w.held[(start-w.heldAt)*w.bpb:], buf)
	copy(w.model[start*w.bpb:], buf)
	fail := w.store.failIn
	w.store.failIn = 0 // the slice was modified already; the contract demands marking it
	if err := w.cache.MarkBlockRangeDirty(common.LogicalBlock(start), uint(count)); err != nil {
		w.c.Fatalf("MarkBlockRangeDirty(%d, %d): %v", start, count, err)
	}
	w.store.failIn = fail
	for b := start; b < start+count; b++ {
		w.dirty[b] = true
	}
}

// op performs one operation on the cache and the model.
func (w *world) op() {
	c, t := w.c, w.c.T
	ops := []string{"resize"}
	if w.total() > 0 {
		ops = []string{"read", "read", "write", "write", "slice", "modify", "dirty", "data", "change", "held", "load", "flush", "flush", "resize"}
	}
	what := rapid.SampledFrom(ops).Draw(t, "op")
	switch what {
	case "read":
		start, n := w.byteRange()
		w.log("read %d+%d", start, n)
		buf := bytes.Repeat([]byte{0xA7}, n)
		got, err := w.cache.ReadAt(buf, common.LogicalBlock(start))
		if w.faulty("ReadAt", err) {
			return
		}
		if got != n {
			c.Fatalf("ReadAt of %d bytes at block %d returned %d", n, start, got)
		}
		w.same("ReadAt", buf, w.model[start*w.bpb:start*w.bpb+n], start)
	case "write":
		start, n := w.byteRange()
		buf := w.fresh(n)
		orig := append([]byte{}, buf...)
		w.log("write %d+%d", start, n)
		got, err := w.cache.WriteAt(buf, common.LogicalBlock(start))
		if !bytes.Equal(buf, orig) {
			c.Fatalf("WriteAt changed the caller's buffer")
		}
		if w.faulty("WriteAt", err) {
			return
		}
		if got != n {
			c.Fatalf("WriteAt of %d bytes at block %d returned %d", n, start, got)
		}
		copy(w.model[start*w.bpb:], buf)
		for b := start; b*w.bpb < start*w.bpb+n; b++ {
			w.dirty[b] = true
		}
	case "slice", "modify":
		start, count := w.blockRange()
		w.log("%s %d+%d", what, start, count)
		s, err := w.cache.GetSlice(common.LogicalBlock(start), uint(count))
		if w.faulty("GetSlice", err) {
			return
		}
		w.same("GetSlice", s, w.model[start*w.bpb:(start+count)*w.bpb], start)
		if what == "slice" || count == 0 {
			return
		}
		w.held, w.heldAt = s, start
		w.modify(start, count)
	case "dirty":
		start, count := w.blockRange()
		w.log("dirty %d+%d", start, count)
		if w.faulty("MarkBlockRangeDirty", w.cache.MarkBlockRangeDirty(common.LogicalBlock(start), uint(count))) {
			return
		}
		for b := start; b < start+count; b++ {
			w.dirty[b] = true
		}
	case "data":
		w.log("data")
		s, err := w.cache.Data()
		if w.faulty("Data", err) {
			return
		}
		w.same("Data", s, w.model, 0)
	case "change":
		w.log("data to change")
		s, err := w.cache.Data()
		if w.faulty("Data", err) {
			return
		}
		w.same("Data", s, w.model, 0)
		w.held, w.heldAt = s, 0
		w.change()
	case "held":
		if w.held != nil {
			// Slices point to the cache's storage, until that's resized.
			w.log("held")
			w.same("slice got before", w.held, w.model[w.heldAt*w.bpb:][:len(w.held)], w.heldAt)
			w.change()
		}
	case "load":
		w.log("load")
		w.faulty("LoadAll", w.cache.LoadAll())
	case "flush":
		w.flush()
	case "resize":
		n := pbt.Int(0, w.total()+12).Draw(t, "new size")
		if w.bpb <= 16 && pbt.Int(0, 24).Draw(t, "far") == 24 {
			n = min(2000, w.total()+pbt.Int(50, 600).Draw(t, "more"))
		}
		w.log("resize %d", n)
		before := w.total()
		w.held = nil
		err := w.cache.Resize(uint(n))
		if !w.faulty("Resize", err) {
			if len(w.store.resized) == 0 || w.store.resized[len(w.store.resized)-1] != uint64(n) {
				c.Fatalf("Resize(%d) did not resize the storage: %v", n, w.store.resized)
			}
			grown := make([]byte, n*w.bpb)
			copy(grown, w.model)
			w.model = grown
			for b := before; b < n; b++ {
				w.dirty[b] = true
				w.sawGrow = true
			}
			for b := n; b < before; b++ {
				delete(w.dirty, b)
				delete(w.store.fetched, b)
				w.sawShrink = true
			}
		}
	}
}

// flush flushes and checks what was written.
func (w *world) flush() bool {
	w.log("flush")
	w.store.reset()
	err := w.cache.Flush()
	for b, n := range w.store.flushed {
		if !w.dirty[b] {
			w.c.Fatalf("Flush wrote block %d, which is unchanged", b)
		}
		if n > 1 {
			w.c.Fatalf("Flush wrote block %d %d times", b, n)
		}
	}
	if w.faulty("Flush", err) {
		return false
	}
	if len(w.dirty) > 0 {
		w.sawFlushDirty = true
	}
	for b := range w.dirty {
		if w.store.flushed[b] == 0 && !w.maybeClean[b] {
			w.c.Fatalf("Flush did not write block %d, which changed", b)
		}
	}
	w.dirty = map[int]bool{}
	if !bytes.Equal(w.store.data, w.model) {
		w.same("storage after Flush", w.store.data, w.model, 0)
	}
	return true
}

func (w *world) same(what string, got, want []byte, start int) {
	if bytes.Equal(got, want) {
		return
	}
	if len(got) != len(want) {
		w.c.Fatalf("%s: %d bytes instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			w.c.Fatalf("%s: byte %d of block %d is %#02x instead of %#02x", what, i%w.bpb, start+i/w.bpb, got[i], want[i])
		}
	}
}

// sizes checks what the cache says about itself.
func (w *world) sizes() {
	c := w.c
	if got := w.cache.TotalBlocks(); got != uint(w.total()) {
		c.Fatalf("TotalBlocks is %d instead of %d", got, w.total())
	}
	if got := w.cache.BytesPerBlock(); got != uint(w.bpb) {
		c.Fatalf("BytesPerBlock is %d instead of %d", got, w.bpb)
	}
	if got := w.cache.Size(); got != int64(len(w.model)) {
		c.Fatalf("Size is %d instead of %d", got, len(w.model))
	}
}

// finish flushes, and then looks at the result through a second cache.
func (w *world) finish() {
	c := w.c
	w.arm()
	w.sizes()
	if got, err := w.cache.Data(); err != nil {
		c.Fatalf("Data: %v", err)
	} else {
		w.same("Data at the end", got, w.model, 0)
	}
	w.flush()
	w.store.reset()
	if err := w.cache.Flush(); err != nil {
		c.Fatalf("second Flush: %v", err)
	}
	if len(w.store.flushed) != 0 {
		c.Fatalf("a second Flush wrote %d blocks again", len(w.store.flushed))
	}
	again := blockcache.New(uint(w.bpb), uint(w.total()), w.store.fetch, w.store.flush, w.store.resize)
	got, err := again.Data()
	if err != nil {
		c.Fatalf("Data of a new cache: %v", err)
	}
	w.same("a new cache on the flushed storage", got, w.model, 0)
}

func (w *world) steps() {
	n := pbt.Int(1, 25).Draw(w.c.T, "steps")
	for i := 0; i < n; i++ {
		w.op()
		w.sizes()
	}
}

const cacheRule = "A cache of 0-40 blocks of 1-512 bytes on a storage with arbitrary contents, 1-25 operations of ReadAt, WriteAt, GetSlice, changing a slice and marking it, " +
	"MarkBlockRangeDirty, Data, LoadAll, Flush, and Resize (the storage puts garbage in new blocks). "

func TestB01_Model(t *testing.T) {
	pbt.Check(t, 30000, 600000, cacheRule+"All results compared with a flat byte array, the storage compared with it after every flush. Non-trivial: changed blocks were flushed before the end.", func(c *pbt.C) {
		w := newWorld(c, 0, 40)
		w.steps()
		c.NonTrivial(w.sawFlushDirty)
		c.LabelIf(w.sawPartial, "partial blocks")
		c.LabelIf(w.sawGrow, "grown")
		c.LabelIf(w.sawShrink, "shrunk")
		w.finish()
	})
}

func TestB01_NotResizable(t *testing.T) {
	pbt.Check(t, 4000, 40000, "Resizing a cache without resize callback, to any size (non-trivial: another size): refused as not supported, nothing changed.", func(c *pbt.C) {
		w := newWorld(c, 0, 20)
		w.cache = blockcache.New(uint(w.bpb), uint(w.total()), w.store.fetch, w.store.flush, nil)
		n := pbt.Int(0, 30).Draw(c.T, "new size")
		c.AddDesc(" to %d", n)
		c.NonTrivial(n != w.total())
		if err := w.cache.Resize(uint(n)); !errors.Is(err, disko.ErrNotSupported) {
			c.Fatalf("Resize without a callback: %v", err)
		}
		w.finish()
	})
}

func TestB02_Flush(t *testing.T) {
	pbt.Check(t, 30000, 600000, cacheRule+"Every flush writes each changed block exactly once and no other block; a block is fetched at most once, and only if it was asked for. Non-trivial: a flush with some but not all blocks changed.", func(c *pbt.C) {
		w := newWorld(c, 1, 40)
		asked := map[int]bool{}
		n := pbt.Int(1, 25).Draw(c.T, "steps")
		all := func() {
			for b := 0; b < w.total(); b++ {
				asked[b] = true
			}
		}
		for i := 0; i < n; i++ {
			what := rapid.SampledFrom([]string{"read", "write", "slice", "dirty", "data", "flush", "flush", "resize", "size"}).Draw(c.T, "op")
			before := map[int]int{}
			for b, k := range w.store.fetched {
				before[b] = k
			}
			if w.total() == 0 {
				what = "resize"
			}
			switch what {
			case "read", "write", "slice", "dirty":
				start, count := w.blockRange()
				w.log("%s %d+%d", what, start, count)
				for b := start; b < start+count; b++ {
					asked[b] = true
				}
				var err error
				switch what {
				case "read":
					_, err = w.cache.ReadAt(make([]byte, count*w.bpb), common.LogicalBlock(start))
				case "write":
					buf := w.fresh(count * w.bpb)
					copy(w.model[start*w.bpb:], buf)
					_, err = w.cache.WriteAt(buf, common.LogicalBlock(start))
				case "slice":
					_, err = w.cache.GetSlice(common.LogicalBlock(start), uint(count))
				case "dirty":
					err = w.cache.MarkBlockRangeDirty(common.LogicalBlock(start), uint(count))
				}
				if err != nil {
					c.Fatalf("%s: %v", what, err)
				}
				if what == "write" || what == "dirty" {
					for b := start; b < start+count; b++ {
						w.dirty[b] = true
					}
				}
			case "data":
				w.log("data")
				all()
				if _, err := w.cache.Data(); err != nil {
					c.Fatalf("Data: %v", err)
				}
			case "flush":
				c.NonTrivial(len(w.dirty) > 0 && len(w.dirty) < w.total())
				w.flush()
			case "size":
				w.sizes()
			case "resize":
				n := pbt.Int(0, w.total()+9).Draw(c.T, "new size")
				w.log("resize %d", n)
				old := w.total()
				if err := w.cache.Resize(uint(n)); err != nil {
					c.Fatalf("Resize: %v", err)
				}
				grown := make([]byte, n*w.bpb)
				copy(grown, w.model)
				w.model = grown
				for b := n; b < old; b++ {
					delete(asked, b)
					delete(w.dirty, b)
					delete(w.store.fetched, b)
				}
				for b := old; b < n; b++ {
					w.dirty[b] = true
				}
			}
			for b, k := range w.store.fetched {
				if k > 1 {
					c.Fatalf("after %s: block %d was fetched %d times", what, b, k)
				}
				if k > before[b] && !asked[b] {
					c.Fatalf("%s fetched block %d, which was not asked for", what, b)
				}
			}
		}
		if len(w.store.fetched) > 0 {
			c.Label("fetched")
		}
		w.finish()
	})
}

func uintGen() *rapid.Generator[uint] {
	return rapid.OneOf(
		rapid.UintRange(0, 70),
		rapid.UintRange(0, 5000),
		rapid.Map(rapid.UintRange(0, 600), func(x uint) uint { return math.MaxUint - x }),
		rapid.Map(rapid.UintRange(0, 600), func(x uint) uint { return 1<<63 - 300 + x }),
		rapid.Map(rapid.UintRange(0, 64), func(x uint) uint { return (1 << 32) - 32 + x }),
		rapid.Map(rapid.UintRange(0, 63), func(x uint) uint { return 1 << x }),
		rapid.Uint(),
	)
}

func TestB03_Bounds(t *testing.T) {
	pbt.Check(t, 50000, 1000000, "Any first block and any length over the whole range of unsigned integers, on caches of 0-40 blocks: accepted exactly if the range lies inside (by big-integer arithmetic; starting at or past the end is always refused), "+
		"refused with 'argument out of range', without touching the caller's buffer, the contents or the storage. Non-trivial: refused, or reaching exactly to the end.", func(c *pbt.C) {
		w := newWorld(c, 0, 40)
		if rapid.Bool().Draw(c.T, "resized") {
			n := pbt.Int(0, 40).Draw(c.T, "new size")
			w.log("resize %d", n)
			if err := w.cache.Resize(uint(n)); err != nil {
				c.Fatalf("Resize: %v", err)
			}
			old := w.total()
			grown := make([]byte, n*w.bpb)
			copy(grown, w.model)
			w.model = grown
			for b := old; b < n; b++ {
				w.dirty[b] = true
			}
		}
		start, size := uintGen().Draw(c.T, "start"), uintGen().Draw(c.T, "size")
		if w.total() > 0 && rapid.Bool().Draw(c.T, "near the end") {
			start = uint(max(0, w.total()-pbt.Int(0, 3).Draw(c.T, "before the end")))
			size = uint(max(0, (w.total()-int(start))*w.bpb+pbt.Int(-w.bpb, w.bpb).Draw(c.T, "beyond")))
		}
		w.log("start %d size %d", start, size)

		big1 := func(x uint) *big.Int { return new(big.Int).SetUint64(uint64(x)) }
		need := new(big.Int).Add(big1(size), big1(uint(w.bpb-1)))
		need.Div(need, big1(uint(w.bpb)))
		if got := w.cache.GetMinBlocksForSize(size); big1(got).Cmp(need) != 0 {
			c.Fatalf("GetMinBlocksForSize(%d) is %d instead of %s, blocks have %d bytes", size, got, need, w.bpb)
		}
		end := func(n *big.Int) *big.Int { return new(big.Int).Add(big1(start), n) }
		inside := start < uint(w.total()) && end(need).Cmp(big1(uint(w.total()))) <= 0
		c.NonTrivial(!inside || end(need).Cmp(big1(uint(w.total()))) == 0)
		c.LabelIf(inside, "inside")
		err := w.cache.CheckBounds(common.LogicalBlock(start), size)
		expect := func(what string, inside bool, err error) {
			if inside && err != nil {
				c.Fatalf("%s: refused: %v", what, err)
			}
			if !inside && !errors.Is(err, disko.ErrArgumentOutOfRange) {
				c.Fatalf("%s: outside of the cache, but got %v", what, err)
			}
		}
		expect("CheckBounds", inside, err)

		// The same for blocks instead of bytes.
		count := size
		insideB := start < uint(w.total()) && end(big1(count)).Cmp(big1(uint(w.total()))) <= 0
		calls := w.store.calls
		s, err := w.cache.GetSlice(common.LogicalBlock(start), count)
		expect(fmt.Sprintf("GetSlice(%d, %d)", start, count), insideB, err)
		if insideB {
			w.same("GetSlice", s, w.model[int(start)*w.bpb:int(start+count)*w.bpb], int(start))
		}
		err = w.cache.MarkBlockRangeDirty(common.LogicalBlock(start), count)
		expect("MarkBlockRangeDirty", insideB, err)
		if insideB {
			for b := start; b < start+count; b++ {
				w.dirty[int(b)] = true
			}
		} else if w.store.calls != calls {
			c.Fatalf("a refused range of blocks was accessed")
		}

		if size <= 1<<16 {
			buf := bytes.Repeat([]byte{0x5A}, int(size))
			n, err := w.cache.ReadAt(buf, common.LogicalBlock(start))
			expect("ReadAt", inside, err)
			if !inside && (n != 0 || bytes.Count(buf, []byte{0x5A}) != len(buf)) {
				c.Fatalf("a refused ReadAt returned %d or changed the buffer", n)
			}
			if inside {
				w.same("ReadAt", buf, w.model[int(start)*w.bpb:int(start)*w.bpb+int(size)], int(start))
			}
			buf = bytes.Repeat([]byte{0xC3}, int(size))
			n, err = w.cache.WriteAt(buf, common.LogicalBlock(start))
			expect("WriteAt", inside, err)
			if !inside && n != 0 {
				c.Fatalf("a refused WriteAt returned %d", n)
			}
			if inside {
				copy(w.model[int(start)*w.bpb:], buf)
				for b := int(start); b*w.bpb < int(start)*w.bpb+int(size); b++ {
					w.dirty[b] = true
				}
			}
		}
		w.finish()
	})
}

var errInjected = errors.New("injected fault")

func TestB04_Faults(t *testing.T) {
	pbt.Check(t, 40000, 800000, cacheRule+"A generated callback of some operations fails (failed fetches leave garbage in the buffer). The operation reports the failure; contents, size and the set of changed blocks stay as they were, "+
		"so that everything works once the storage does. Non-trivial: a fault was delivered.", func(c *pbt.C) {
		w := newWorld(c, 1, 24)
		w.maybeClean = map[int]bool{}
		w.store.fault = rapid.SampledFrom([]error{errInjected, disko.ErrIOFailed, disko.ErrNoSpaceOnDevice, disko.ErrNotFound}).Draw(c.T, "fault")
		n := pbt.Int(1, 20).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			w.store.failIn = 0
			if rapid.Bool().Draw(c.T, "fail") {
				w.store.failIn = pbt.Int(1, 6).Draw(c.T, "fail in")
			}
			w.store.reset()
			w.op()
			if w.store.failed {
				c.Fatalf("a failure of the storage was not reported")
			}
			// A failed flush may have written some blocks, and need not write them again.
			for b := range w.store.flushed {
				if w.dirty[b] {
					w.maybeClean[b] = true
				}
			}
			for b := range w.maybeClean {
				if !w.dirty[b] || w.store.flushed[b] == 0 && w.changed(b) {
					delete(w.maybeClean, b)
				}
			}
			w.store.failIn = 0
			w.sizes()
		}
		c.NonTrivial(w.sawFault)
		w.finish()
	})
}

// changed tells whether a block of the storage differs from the model.
func (w *world) changed(b int) bool {
	if (b+1)*w.bpb > len(w.store.data) {
		return true
	}
	return !bytes.Equal(w.store.data[b*w.bpb:(b+1)*w.bpb], w.model[b*w.bpb:(b+1)*w.bpb])
}
