// Checks of BasicStream: a file-like view of a block cache.
package stream

import (
	"bytes"
	"errors"
	"io"
	"math"
	"strings"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko"
	"github.com/dargueta/disko/file_systems/common"
	"github.com/dargueta/disko/file_systems/common/basicstream"
	"github.com/dargueta/disko/file_systems/common/blockcache"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var errInjected = errors.New("injected fault")

// disk is the storage under the stream. New blocks hold garbage, as they may.
type disk struct {
	c      *pbt.C
	bpb    int
	data   []byte
	limit  int // most blocks there can be
	failIn int
	fault  error
	failed bool
	calls  int
	// synced is what the disk held at the last sync callback, nil if there was none.
	synced []byte
}

// sync is the callback for when everything has been written out.
func (d *disk) sync(size int64) error {
	if size < 0 || size > int64(len(d.data)) {
		d.c.Fatalf("sync callback with size %d and %d bytes of storage", size, len(d.data))
	}
	if err := d.tick(); err != nil {
		return err
	}
	d.synced = append([]byte{}, d.data[:size]...)
	return nil
}

func (d *disk) tick() error {
	d.calls++
	if d.calls > 200000 {
		d.c.Fatalf("storage accesses without end")
	}
	if d.failIn > 0 {
		d.failIn--
		if d.failIn == 0 {
			d.failed = true
			return d.fault
		}
	}
	return nil
}

func (d *disk) at(what string, i common.LogicalBlock, buf []byte) []byte {
	if uint64(i) >= uint64(len(d.data)/d.bpb) || len(buf) != d.bpb {
		d.c.Fatalf("%s of block %d of %d with %d bytes", what, i, len(d.data)/d.bpb, len(buf))
	}
	return d.data[int(i)*d.bpb : (int(i)+1)*d.bpb]
}

func (d *disk) fetch(i common.LogicalBlock, buf []byte) error {
	b := d.at("fetch", i, buf)
	if err := d.tick(); err != nil {
		return err
	}
	copy(buf, b)
	return nil
}

func (d *disk) flush(i common.LogicalBlock, buf []byte) error {
	b := d.at("flush", i, buf)
	if err := d.tick(); err != nil {
		return err
	}
	copy(b, buf)
	return nil
}

func (d *disk) resize(n common.LogicalBlock) error {
	if err := d.tick(); err != nil {
		return err
	}
	if uint64(n) > uint64(d.limit) {
		d.failed, d.fault = true, disko.ErrNoSpaceOnDevice
		return disko.ErrNoSpaceOnDevice
	}
	old := len(d.data)
	if want := int(n) * d.bpb; want <= old {
		d.data = append([]byte{}, d.data[:want]...)
	} else {
		d.data = append(d.data[:old:old], bytes.Repeat([]byte{0xDB}, want-old)...)
	}
	return nil
}

func fill(n int, seed byte) []byte {
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i*3+i/255) ^ seed | 1
	}
	return data
}

// world is a stream together with its model, a plain byte slice.
type world struct {
	c       *pbt.C
	disk    *disk
	cache   *blockcache.BlockCache
	stream  *basicstream.BasicStream
	flags   disko.IOFlags
	content []byte
	pos     int64

	callback bool // there's a sync callback

	grew, hole, shrank, crossed, wrote, failures bool
}

func (w *world) log(format string, args ...any) { w.c.AddDesc(" "+format, args...) }

func newWorld(c *pbt.C, flags disko.IOFlags) *world {
	w := &world{c: c, flags: flags}
	bpb := rapid.SampledFrom([]int{1, 2, 5, 16, 64, 128, 512}).Draw(c.T, "bytes per block")
	total := pbt.Int(0, 12).Draw(c.T, "blocks")
	switch pbt.Int(0, 24).Draw(c.T, "scale") {
	case 23: // many blocks
		bpb = min(bpb, 16)
		total = pbt.Int(12, 400).Draw(c.T, "many blocks")
	case 24: // large blocks
		bpb = rapid.SampledFrom([]int{1000, 1024, 4096, 32768, 65536}).Draw(c.T, "large blocks")
		total = min(total, 5)
	}
	w.disk = &disk{c: c, bpb: bpb, data: fill(total*bpb, pbt.Byte().Draw(c.T, "contents")), limit: 1 << 14}
	// The file may end anywhere; what follows in its blocks is garbage.
	size := pbt.Int(0, total*bpb).Draw(c.T, "size")
	switch rapid.SampledFrom([]string{"any", "full", "last block"}).Draw(c.T, "size kind") {
	case "full":
		size = total * bpb
	case "last block":
		size = max(0, total*bpb-size%bpb)
	}
	w.content = append([]byte{}, w.disk.data[:size]...)
	w.cache = blockcache.New(uint(bpb), uint(total), w.disk.fetch, w.disk.flush, w.disk.resize)
	w.callback = rapid.Bool().Draw(c.T, "sync callback")
	c.Describe("%d blocks of %d, size %d, flags %#x:", total, bpb, size, int(flags))
	w.open(int64(size), flags)
	return w
}

func (w *world) open(size int64, flags disko.IOFlags) {
	s, err := basicstream.New(size, w.cache, flags)
	if err != nil {
		w.c.Fatalf("New(%d, cache of %d bytes, %#x): %v", size, w.cache.Size(), int(flags), err)
	}
	w.stream, w.flags, w.pos = s, flags, 0
	w.disk.synced = nil
	if w.callback {
		s.SetSyncCallback(w.disk.sync)
	}
	if flags.Truncate() {
		w.content = []byte{}
		if w.cache.TotalBlocks() != 0 {
			w.c.Fatalf("a truncated file has %d blocks", w.cache.TotalBlocks())
		}
	}
	w.check("New")
}

// check compares everything that can be seen without I/O.
func (w *world) check(what string) {
	if got := w.stream.Size(); got != int64(len(w.content)) {
		w.c.Fatalf("after %s: Size is %d instead of %d", what, got, len(w.content))
	}
	if got := w.stream.Tell(); got != w.pos {
		w.c.Fatalf("after %s: Tell is %d instead of %d", what, got, w.pos)
	}
	if w.cache.Size() < int64(len(w.content)) {
		w.c.Fatalf("after %s: %d bytes in a cache of %d", what, len(w.content), w.cache.Size())
	}
}

func (w *world) same(what string, got, want []byte) {
	if bytes.Equal(got, want) {
		return
	}
	if len(got) != len(want) {
		w.c.Fatalf("%s: %d bytes instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			w.c.Fatalf("%s: byte %d of %d is %#02x instead of %#02x", what, i, len(got), got[i], want[i])
		}
	}
}

// put changes the model as a write of data at off does.
func (w *world) put(off int64, data []byte) {
	if len(data) == 0 {
		return
	}
	w.wrote = true
	size := int64(len(w.content))
	if off > size {
		w.hole = true
	}
	bpb := int64(w.disk.bpb)
	if off/bpb != (off+int64(len(data))-1)/bpb {
		w.crossed = true
	}
	if end := off + int64(len(data)); end > size {
		w.grew = true
		w.content = append(w.content, make([]byte, end-size)...)
	}
	copy(w.content[off:], data)
}

// offset draws positions inside, at the end of, and beyond the file, preferring
// the neighborhood of block boundaries.
func (w *world) offset() int64 {
	size := len(w.content)
	off := pbt.Int(0, size+3*w.disk.bpb).Draw(w.c.T, "offset")
	switch rapid.SampledFrom([]string{"any", "boundary", "end"}).Draw(w.c.T, "offset kind") {
	case "boundary":
		off = off/w.disk.bpb*w.disk.bpb + pbt.Int(-1, 1).Draw(w.c.T, "off by")
	case "end":
		off = size + pbt.Int(-2, 2).Draw(w.c.T, "from end")
	}
	if w.disk.bpb <= 16 && pbt.Int(0, 39).Draw(w.c.T, "far") == 39 {
		off = min(2000*w.disk.bpb, size+pbt.Int(0, 300*w.disk.bpb).Draw(w.c.T, "far away"))
	}
	return int64(max(0, off))
}

func (w *world) length() int {
	n := pbt.Int(0, 4*w.disk.bpb+3).Draw(w.c.T, "length")
	if rapid.Bool().Draw(w.c.T, "around a block") {
		n = max(0, w.disk.bpb*pbt.Int(0, 3).Draw(w.c.T, "whole blocks")+pbt.Int(-1, 1).Draw(w.c.T, "more"))
	}
	return n
}

func (w *world) payload() []byte { return fill(w.length(), pbt.Byte().Draw(w.c.T, "fill")) }

// fault classifies the error of an operation on which a fault may have been
// injected: true if it is that.
func (w *world) fault(what string, err error) bool {
	if !w.disk.failed {
		if err != nil {
			w.c.Fatalf("%s: %v", what, err)
		}
		return false
	}
	w.disk.failed = false
	w.failures = true
	if err == nil {
		w.c.Fatalf("%s: the storage failed, but no error was reported", what)
	}
	if !errors.Is(err, w.disk.fault) {
		w.c.Fatalf("%s: the storage failed with %q, reported as %v", what, w.disk.fault, err)
	}
	w.log("!")
	return true
}

// readResult checks n and err of reading len(buf) bytes at off.
func (w *world) readResult(what string, buf []byte, off int64, n int, err error, at bool) {
	if w.fault(what, ignoreEOF(err)) {
		if n != 0 && !bytes.Equal(buf[:n], w.content[off:off+int64(n)]) {
			w.c.Fatalf("%s: failed after %d bytes, which are wrong", what, n)
		}
		return
	}
	avail := max(0, int64(len(w.content))-off)
	want := min(int64(len(buf)), avail)
	if int64(n) != want {
		w.c.Fatalf("%s of %d bytes at %d of %d: got %d bytes, want %d", what, len(buf), off, len(w.content), n, want)
	}
	if want > 0 {
		w.same(what, buf[:n], w.content[off:off+want])
	}
	if n < len(buf) {
		// ReadAt always says why there is less. Read does too, or the next one does.
		if err != io.EOF && (at || n == 0) {
			w.c.Fatalf("%s of %d bytes at %d of %d: got %d bytes and error %v instead of EOF", what, len(buf), off, len(w.content), n, err)
		}
	} else if err != nil {
		// Unlike other readers, files report their end only if something is missing.
		w.c.Fatalf("%s of %d bytes at %d of %d: error %v", what, len(buf), off, len(w.content), err)
	}
	for _, b := range buf[n:] {
		if b != 0xA5 {
			w.c.Fatalf("%s changed the buffer after the %d bytes it read", what, n)
		}
	}
}

func ignoreEOF(err error) error {
	if err == io.EOF {
		return nil
	}
	return err
}

// afterWrite accounts for a write of data at off that returned n and err.
func (w *world) afterWrite(what string, off int64, data []byte, n int, err error) {
	if n < 0 || n > len(data) {
		w.c.Fatalf("%s of %d bytes returned %d", what, len(data), n)
	}
	if w.fault(what, err) {
		// Whatever it says it wrote is there, and nothing else.
		w.put(off, data[:n])
		return
	}
	if n != len(data) {
		w.c.Fatalf("%s of %d bytes at %d returned %d without an error", what, len(data), off, n)
	}
	w.put(off, data)
}

func (w *world) op(ops []string) string {
	c, t, s := w.c, w.c.T, w.stream
	what := rapid.SampledFrom(ops).Draw(t, "op")
	switch what {
	case "Read":
		buf := bytes.Repeat([]byte{0xA5}, w.length())
		w.log("Read %d", len(buf))
		n, err := s.Read(buf)
		w.readResult(what, buf, w.pos, n, err, false)
		w.pos += int64(n)
	case "ReadAt":
		buf, off := bytes.Repeat([]byte{0xA5}, w.length()), w.offset()
		w.log("ReadAt %d+%d", off, len(buf))
		n, err := s.ReadAt(buf, off)
		w.readResult(what, buf, off, n, err, true)
	case "Write", "WriteString":
		data := w.payload()
		w.log("%s %d", what, len(data))
		orig := append([]byte{}, data...)
		if w.flags.Append() {
			w.pos = int64(len(w.content))
		}
		var n int
		var err error
		if what == "Write" {
			n, err = s.Write(data)
		} else {
			n, err = s.WriteString(string(data))
		}
		if !bytes.Equal(orig, data) {
			c.Fatalf("%s changed the caller's buffer", what)
		}
		w.afterWrite(what, w.pos, data, n, err)
		w.pos += int64(n)
		if len(data) == 0 && w.flags.Append() {
			w.pos = s.Tell() // nothing says whether an empty write moves to the end
			if w.pos != int64(len(w.content)) {
				_, err := s.Seek(0, io.SeekEnd)
				if err != nil {
					c.Fatalf("Seek: %v", err)
				}
				w.pos = int64(len(w.content))
			}
		}
	case "WriteAt":
		data, off := w.payload(), w.offset()
		w.log("WriteAt %d+%d", off, len(data))
		n, err := s.WriteAt(data, off)
		w.afterWrite(what, off, data, n, err)
	case "Seek":
		whence := pbt.Int(0, 2).Draw(t, "whence")
		target := w.offset()
		base := []int64{0, w.pos, int64(len(w.content))}[whence]
		w.log("Seek %d,%d", target-base, whence)
		got, err := s.Seek(target-base, whence)
		if err != nil || got != target {
			c.Fatalf("Seek(%d, %d) from %d: got %d, %v; want %d", target-base, whence, w.pos, got, err, target)
		}
		w.pos = target
	case "Truncate":
		size := w.offset()
		w.log("Truncate %d", size)
		err := s.Truncate(size)
		old := int64(len(w.content))
		if w.fault(what, err) && s.Size() == old {
			break
		}
		if size < old {
			w.shrank = true
			w.content = append([]byte{}, w.content[:size]...)
		} else if size > old {
			w.grew = true
			w.content = append(w.content, make([]byte, size-old)...)
		}
		if want := (int(size) + w.disk.bpb - 1) / w.disk.bpb; w.cache.TotalBlocks() != uint(want) {
			c.Fatalf("after Truncate(%d) the file has %d blocks of %d bytes instead of %d", size, w.cache.TotalBlocks(), w.disk.bpb, want)
		}
	case "Sync":
		w.log("Sync")
		if !w.fault(what, s.Sync()) {
			w.stored("Sync")
		}
	case "ReadFrom":
		data := w.payload()
		chunk := pbt.Int(1, 700).Draw(t, "chunk")
		w.log("ReadFrom %d/%d", len(data), chunk)
		if w.flags.Append() {
			w.pos = int64(len(w.content))
		}
		n, err := s.ReadFrom(newChunked(c, data, chunk, nil))
		if w.flags.Append() && len(data) == 0 {
			w.pos = s.Tell()
			break
		}
		if w.fault(what, err) {
			// Some of it was written.
			done := s.Tell() - w.pos
			if done < 0 || done > int64(len(data)) {
				c.Fatalf("ReadFrom of %d bytes moved from %d to %d", len(data), w.pos, s.Tell())
			}
			w.put(w.pos, data[:done])
			w.pos += done
			break
		}
		if n != int64(len(data)) {
			c.Fatalf("ReadFrom of %d bytes returned %d", len(data), n)
		}
		w.put(w.pos, data)
		w.pos += n
	case "WriteTo":
		w.log("WriteTo")
		var out bytes.Buffer
		n, err := s.WriteTo(&out)
		rest := w.content[min(w.pos, int64(len(w.content))):]
		if n != int64(out.Len()) {
			c.Fatalf("WriteTo wrote %d bytes, returned %d", out.Len(), n)
		}
		if w.fault(what, err) {
			if !bytes.HasPrefix(rest, out.Bytes()) {
				c.Fatalf("WriteTo failed after writing wrong data")
			}
		} else {
			w.same(what, out.Bytes(), rest)
		}
		w.pos += n
	case "reopen":
		w.log("reopen")
		if w.fault("Close", s.Close()) {
			break
		}
		w.stored("Close")
		w.cache = blockcache.New(uint(w.disk.bpb), w.cache.TotalBlocks(), w.disk.fetch, w.disk.flush, w.disk.resize)
		w.open(int64(len(w.content)), w.flags&^disko.O_TRUNC)
	}
	return what
}

// stored checks that everything is on the disk.
func (w *world) stored(what string) {
	if len(w.disk.data) < len(w.content) {
		w.c.Fatalf("after %s: the storage has %d of %d bytes", what, len(w.disk.data), len(w.content))
	}
	w.same("the storage after "+what, w.disk.data[:len(w.content)], w.content)
	if w.callback && w.disk.synced == nil && w.wrote && !strings.HasSuffix(what, "O_SYNC") {
		w.c.Fatalf("no sync callback before %s", what)
	}
	if w.disk.synced != nil {
		w.same("the storage at the sync callback before "+what, w.disk.synced, w.content)
	}
}

// whole reads the entire file at once.
func (w *world) whole() {
	if !w.flags.Read() {
		return
	}
	buf := bytes.Repeat([]byte{0xA5}, len(w.content)+7)
	n, err := w.stream.ReadAt(buf, 0)
	if err != io.EOF || n != len(w.content) {
		w.c.Fatalf("reading all %d bytes and more: got %d, %v", len(w.content), n, err)
	}
	w.same("reading everything", buf[:n], w.content)
}

// chunked is a reader with reads of limited size.
type chunked struct {
	data     []byte
	size     int
	err      error // at the end, io.EOF if nil
	together bool  // return the error along with the last bytes
	empty    int   // every how many reads there is an empty one
	reads    int
}

func newChunked(c *pbt.C, data []byte, size int, err error) *chunked {
	// With O_SYNC every chunk is written to the storage, so not too many.
	r := &chunked{data: data, size: max(size, len(data)/300), err: err, together: rapid.Bool().Draw(c.T, "error with the last bytes")}
	if r.err == nil {
		r.err = io.EOF
	}
	if pbt.Int(0, 7).Draw(c.T, "empty reads") == 7 {
		r.empty = pbt.Int(1, 5).Draw(c.T, "every")
	}
	return r
}

func (r *chunked) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.reads++; r.empty > 0 && r.reads%(r.empty+1) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, r.err
	}
	n := copy(p[:min(len(p), r.size)], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.together {
		return n, r.err
	}
	return n, nil
}

var allOps = []string{"Read", "Read", "ReadAt", "Write", "Write", "WriteString", "WriteAt", "WriteAt", "Seek", "Seek", "Truncate", "Sync", "ReadFrom", "WriteTo", "reopen"}

func opsFor(flags disko.IOFlags) []string {
	out := []string{}
	for _, op := range allOps {
		switch op {
		case "Read", "ReadAt", "WriteTo":
			if !flags.Read() {
				continue
			}
		case "Write", "WriteString", "Truncate", "ReadFrom":
			if !flags.Write() {
				continue
			}
		case "WriteAt":
			if !flags.Write() || flags.Append() {
				continue
			}
		}
		out = append(out, op)
	}
	return out
}

func drawFlags(c *pbt.C) disko.IOFlags {
	flags := rapid.SampledFrom([]disko.IOFlags{disko.O_RDWR, disko.O_RDWR, disko.O_RDWR, disko.O_WRONLY}).Draw(c.T, "access")
	if pbt.Int(0, 3).Draw(c.T, "append") == 3 {
		flags |= disko.O_APPEND
	}
	if pbt.Int(0, 3).Draw(c.T, "sync") == 3 {
		flags |= disko.O_SYNC
	}
	if pbt.Int(0, 7).Draw(c.T, "truncate") == 7 {
		flags |= disko.O_TRUNC
	}
	return flags
}

const streamRule = "A file of 0-12 blocks of 1-512 bytes ending anywhere in its blocks with garbage after it and in every new block, opened with generated flags, and 1-25 operations at positions " +
	"inside, at the end and beyond, around block boundaries. "

func TestS01_Model(t *testing.T) {
	pbt.Check(t, 15000, 400000, streamRule+"Every result, size and position compared with a byte slice behaving like an operating system's file; everything read back at the end. Non-trivial: data was written.", func(c *pbt.C) {
		w := newWorld(c, drawFlags(c))
		n := pbt.Int(1, 25).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			w.check(w.op(opsFor(w.flags)))
			w.disk.failed = false
		}
		w.whole()
		if err := w.stream.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		w.stored("Close")
		c.NonTrivial(w.wrote)
		c.LabelIf(w.grew, "grew")
		c.LabelIf(w.hole, "hole")
		c.LabelIf(w.shrank, "shrank")
		c.LabelIf(w.crossed, "write across blocks")
	})
}

func TestS02_Durability(t *testing.T) {
	pbt.Check(t, 15000, 300000, streamRule+"After every Sync and Close, and with O_SYNC after every change, the storage holds exactly the contents, and a new stream on the storage reads them. If there's a sync callback, it's called when that is so, with the exact size. Non-trivial: data was written.", func(c *pbt.C) {
		w := newWorld(c, drawFlags(c))
		n := pbt.Int(1, 20).Draw(c.T, "steps")
		ops := append([]string{"Sync", "Sync", "reopen"}, opsFor(w.flags)...)
		for i := 0; i < n; i++ {
			what := w.op(ops)
			if w.flags.Synchronous() {
				w.stored(what + " with O_SYNC")
				c.Label("O_SYNC")
			}
		}
		var err error
		if rapid.Bool().Draw(c.T, "close") {
			err = w.stream.Close()
		} else {
			err = w.stream.Sync()
		}
		if err != nil {
			c.Fatalf("at the end: %v", err)
		}
		w.stored("the end")
		// Looking again through new eyes.
		w.cache = blockcache.New(uint(w.disk.bpb), uint(len(w.disk.data)/w.disk.bpb), w.disk.fetch, w.disk.flush, w.disk.resize)
		w.open(int64(len(w.content)), disko.O_RDONLY)
		w.whole()
		c.NonTrivial(w.wrote)
	})
}

// refuse tries everything that the flags forbid, which must change nothing.
func (w *world) refuse(what string, err error) {
	if err == nil {
		w.c.Fatalf("%s succeeded with flags %#x", what, int(w.flags))
	}
	if !errors.Is(err, disko.ErrNotPermitted) {
		w.c.Fatalf("%s with flags %#x: %v instead of 'not permitted'", what, int(w.flags), err)
	}
	w.check(what)
}

func TestS03_Flags(t *testing.T) {
	pbt.Check(t, 15000, 300000, streamRule+"All access modes including the invalid one, combined with O_APPEND, O_SYNC and O_TRUNC; operations that the flags forbid are refused as not permitted and change nothing, the others follow the model. "+
		"Non-trivial: something was refused.", func(c *pbt.C) {
		flags := rapid.SampledFrom([]disko.IOFlags{disko.O_RDONLY, disko.O_WRONLY, disko.O_RDWR, disko.O_WRONLY | disko.O_RDWR}).Draw(c.T, "access")
		for _, f := range []disko.IOFlags{disko.O_APPEND, disko.O_SYNC, disko.O_CREATE, disko.O_EXCL, disko.O_NOFOLLOW} {
			if rapid.Bool().Draw(c.T, "flag") {
				flags |= f
			}
		}
		if flags.Write() && rapid.Bool().Draw(c.T, "truncate") {
			flags |= disko.O_TRUNC
		}
		w := newWorld(c, flags)
		before := append([]byte{}, w.disk.data...)
		n := pbt.Int(1, 12).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			what := rapid.SampledFrom(allOps).Draw(c.T, "forbidden")
			allowed := false
			for _, op := range opsFor(flags) {
				allowed = allowed || op == what
			}
			if allowed {
				w.check(w.op([]string{what}))
				continue
			}
			buf := bytes.Repeat([]byte{0xA5}, 1+w.length())
			off := w.offset()
			if rapid.Bool().Draw(c.T, "empty") && what != "Read" && what != "ReadAt" && what != "ReadFrom" {
				buf = nil // files accept empty reads
			}
			w.log("forbidden %s of %d", what, len(buf))
			var err error
			var cnt int64
			k := 0
			switch what {
			case "Read":
				k, err = w.stream.Read(buf)
			case "ReadAt":
				k, err = w.stream.ReadAt(buf, off)
			case "Write":
				k, err = w.stream.Write(buf)
			case "WriteString":
				k, err = w.stream.WriteString(string(buf))
			case "WriteAt":
				k, err = w.stream.WriteAt(buf, off)
			case "Truncate":
				err = w.stream.Truncate(off)
			case "ReadFrom":
				cnt, err = w.stream.ReadFrom(bytes.NewReader(buf))
			case "WriteTo":
				var out bytes.Buffer
				cnt, err = w.stream.WriteTo(&out)
				k = out.Len()
			}
			w.refuse(what, err)
			if k != 0 || cnt != 0 || bytes.Count(buf, []byte{0xA5}) != len(buf) {
				c.Fatalf("refused %s returned %d/%d or changed the buffer", what, k, cnt)
			}
			c.NonTrivial(true)
			c.Label("refused " + what)
		}
		if err := w.stream.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		if !flags.Write() && !bytes.Equal(before, w.disk.data) {
			c.Fatalf("a stream without write access changed the storage")
		}
		w.stored("Close")
		w.cache = blockcache.New(uint(w.disk.bpb), uint(len(w.disk.data)/w.disk.bpb), w.disk.fetch, w.disk.flush, w.disk.resize)
		w.open(int64(len(w.content)), disko.O_RDONLY)
		w.whole()
	})
}

func TestS03_BadArguments(t *testing.T) {
	pbt.Check(t, 8000, 100000, "Negative and overflowing offsets and sizes, invalid seek origins, and impossible initial sizes: an error, and nothing changes. Non-trivial: all cases.", func(c *pbt.C) {
		w := newWorld(c, disko.O_RDWR)
		c.NonTrivial(true)
		for i := 0; i < 3; i++ {
			w.check(w.op([]string{"Seek", "Write", "Read"}))
		}
		neg := rapid.Map(rapid.Uint64(), func(x uint64) int64 { return -1 - int64(x>>1) }).Draw(c.T, "negative")
		neg = max(neg, math.MinInt64/2)
		buf := bytes.Repeat([]byte{0xA5}, 1+w.length())
		what := rapid.SampledFrom([]string{"ReadAt", "WriteAt", "Truncate", "Seek", "origin", "WriteAt overflow", "huge Truncate", "huge WriteAt", "New", "empty WriteAt"}).Draw(c.T, "bad")
		w.log("%s %d", what, neg)
		c.Label(what)
		var err error
		n := 0
		switch what {
		case "ReadAt":
			n, err = w.stream.ReadAt(buf, neg)
		case "WriteAt":
			n, err = w.stream.WriteAt(buf, neg)
		case "empty WriteAt":
			n, err = w.stream.WriteAt(nil, neg)
		case "Truncate":
			err = w.stream.Truncate(neg)
		case "Seek":
			whence := pbt.Int(0, 2).Draw(c.T, "whence")
			base := []int64{0, w.pos, int64(len(w.content))}[whence]
			_, err = w.stream.Seek(neg-base, whence)
		case "origin":
			_, err = w.stream.Seek(0, rapid.SampledFrom([]int{-1, 3, 4, 100}).Draw(c.T, "whence"))
		case "WriteAt overflow":
			n, err = w.stream.WriteAt(buf, math.MaxInt64-int64(pbt.Int(0, len(buf)-1).Draw(c.T, "from max")))
		case "huge Truncate":
			err = w.stream.Truncate(int64(w.disk.bpb)*int64(w.disk.limit) + 1 + int64(pbt.Int(0, 1<<30).Draw(c.T, "too much")))
		case "huge WriteAt":
			n, err = w.stream.WriteAt(buf, int64(w.disk.bpb)*int64(w.disk.limit)+int64(pbt.Int(0, 1<<30).Draw(c.T, "too much")))
		case "New":
			size := neg
			if rapid.Bool().Draw(c.T, "too large") {
				size = w.cache.Size() + 1 - (neg+1)/4
			}
			_, err = basicstream.New(size, w.cache, disko.O_RDWR)
		}
		if err == nil {
			c.Fatalf("%s was accepted", what)
		}
		if n != 0 {
			c.Fatalf("%s failed (%v) but returned %d", what, err, n)
		}
		if bytes.Count(buf, []byte{0xA5}) != len(buf) {
			c.Fatalf("%s changed the buffer", what)
		}
		w.disk.failed = false
		w.check(what)
		w.whole()
		if err := w.stream.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		w.stored("Close")
	})
}

// pickyWriter accepts a limited amount.
type pickyWriter struct {
	buf   bytes.Buffer
	limit int
	err   error // nil: a short write without an error
}

func (p *pickyWriter) Write(b []byte) (int, error) {
	room := p.limit - p.buf.Len()
	if len(b) <= room {
		return p.buf.Write(b)
	}
	p.buf.Write(b[:room])
	return room, p.err
}

func TestS04_Copy(t *testing.T) {
	pbt.Check(t, 12000, 250000, streamRule+"ReadFrom readers of every chunking, of failing readers and of other streams, WriteTo writers that accept everything or only some; io.Copy between streams. Contents, counts, positions and errors compared with the model. "+
		"Non-trivial: more than one block of data was moved, or a fault was met.", func(c *pbt.C) {
		w := newWorld(c, rapid.SampledFrom([]disko.IOFlags{disko.O_RDWR, disko.O_RDWR | disko.O_APPEND, disko.O_RDWR | disko.O_SYNC}).Draw(c.T, "flags"))
		rounds := pbt.Int(1, 4).Draw(c.T, "rounds")
		for i := 0; i < rounds; i++ {
			w.check(w.op([]string{"Seek", "Seek", "Truncate"}))
			size := pbt.Int(0, 2000).Draw(c.T, "amount")
			if rapid.Bool().Draw(c.T, "multiple of 512") {
				size = size / 512 * 512
			}
			if w.disk.bpb >= 16 && pbt.Int(0, 29).Draw(c.T, "much") == 29 {
				size = pbt.Int(2000, 100000).Draw(c.T, "large amount")
			}
			data := fill(size, pbt.Byte().Draw(c.T, "fill"))
			kind := rapid.SampledFrom([]string{"reader", "failing reader", "stream", "writer", "full writer", "io.Copy"}).Draw(c.T, "kind")
			c.Label(kind)
			w.log("%s %d", kind, size)
			c.NonTrivial(size > w.disk.bpb)
			startPos := w.pos
			if w.flags.Append() {
				startPos = int64(len(w.content))
			}
			switch kind {
			case "reader":
				w.op([]string{"ReadFrom"})
			case "failing reader":
				fault := rapid.SampledFrom([]error{errInjected, io.ErrUnexpectedEOF, disko.ErrIOFailed}).Draw(c.T, "fault")
				n, err := w.stream.ReadFrom(newChunked(c, data, 1+w.length(), fault))
				if !errors.Is(err, fault) {
					c.Fatalf("ReadFrom of a reader failing with %q: %v", fault, err)
				}
				if n != int64(len(data)) {
					c.Fatalf("ReadFrom of a reader failing after %d bytes returned %d", len(data), n)
				}
				c.NonTrivial(true)
				if len(data) > 0 {
					w.put(startPos, data)
					w.pos = startPos + n
				} else if !w.settled() {
					continue
				}
			case "stream", "io.Copy":
				bpb := rapid.SampledFrom([]int{1, 3, 64, 512, 1024}).Draw(c.T, "other block size")
				d2 := &disk{c: c, bpb: bpb, limit: 1 << 12, data: append(append([]byte{}, data...), make([]byte, (bpb-len(data)%bpb)%bpb)...)}
				c2 := blockcache.New(uint(bpb), uint(len(d2.data)/bpb), d2.fetch, d2.flush, d2.resize)
				other, err := basicstream.New(int64(len(data)), c2, disko.O_RDONLY)
				if err != nil {
					c.Fatalf("New: %v", err)
				}
				var n int64
				if kind == "stream" {
					n, err = w.stream.ReadFrom(other)
				} else {
					n, err = io.Copy(w.stream, other)
				}
				if err != nil || n != int64(len(data)) {
					c.Fatalf("copying a stream of %d bytes: %d, %v", len(data), n, err)
				}
				if len(data) > 0 {
					w.put(startPos, data)
					w.pos = startPos + n
				} else if !w.settled() {
					continue
				}
				if other.Tell() != int64(len(data)) {
					c.Fatalf("after copying, the source is at %d of %d", other.Tell(), len(data))
				}
			case "writer":
				w.op([]string{"WriteTo"})
			case "full writer":
				rest := w.content[min(w.pos, int64(len(w.content))):]
				if len(rest) == 0 {
					continue
				}
				p := &pickyWriter{limit: pbt.Int(0, len(rest)-1).Draw(c.T, "room"), err: rapid.SampledFrom([]error{errInjected, io.ErrShortWrite, nil}).Draw(c.T, "error")}
				n, err := w.stream.WriteTo(p)
				if err == nil {
					c.Fatalf("WriteTo a writer with room for %d of %d bytes reported no error", p.limit, len(rest))
				}
				if p.err != nil && !errors.Is(err, p.err) {
					c.Fatalf("WriteTo: writer failed with %q, reported as %v", p.err, err)
				}
				if n != int64(p.buf.Len()) || !bytes.HasPrefix(rest, p.buf.Bytes()) {
					c.Fatalf("WriteTo returned %d, the writer took %d bytes (right: %v)", n, p.buf.Len(), bytes.HasPrefix(rest, p.buf.Bytes()))
				}
				c.NonTrivial(true)
				// How far ahead it had read is its own business.
				if at := w.stream.Tell(); at < w.pos+n || at > int64(len(w.content)) {
					c.Fatalf("after WriteTo of %d bytes from %d the position is %d", n, w.pos, at)
				}
				w.pos = w.stream.Tell()
			}
			w.check(kind)
		}
		w.whole()
		if err := w.stream.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		w.stored("Close")
	})
}

// settled is for after having written nothing to a stream that may append:
// whether that moved the position isn't specified.
func (w *world) settled() bool {
	if w.flags.Append() {
		w.pos = w.stream.Tell()
	}
	return true
}

func TestS05_StorageFaults(t *testing.T) {
	pbt.Check(t, 20000, 400000, streamRule+"A generated access to the storage fails during some operations, or the storage is full. It is reported; the file then holds what it held before plus exactly the bytes reported as written, and can be used and synced again. "+
		"Non-trivial: a fault was delivered.", func(c *pbt.C) {
		w := newWorld(c, drawFlags(c)&^disko.O_TRUNC)
		w.disk.limit = len(w.disk.data)/w.disk.bpb + pbt.Int(0, 12).Draw(c.T, "free blocks")
		n := pbt.Int(1, 16).Draw(c.T, "steps")
		for i := 0; i < n; i++ {
			w.disk.fault = rapid.SampledFrom([]error{errInjected, disko.ErrIOFailed, disko.ErrFileTooLarge, disko.ErrNotPermitted}).Draw(c.T, "fault")
			w.disk.failIn = 0
			if rapid.Bool().Draw(c.T, "fail") {
				w.disk.failIn = pbt.Int(1, 5).Draw(c.T, "fail in")
			}
			what := w.op(opsFor(w.flags))
			if w.disk.failed {
				c.Fatalf("%s: a failure of the storage went unnoticed", what)
			}
			w.check(what)
			w.disk.failIn = 0
			if pbt.Int(0, 3).Draw(c.T, "look") == 0 {
				w.whole()
			}
		}
		w.whole()
		if err := w.stream.Close(); err != nil {
			c.Fatalf("Close: %v", err)
		}
		w.stored("Close")
		c.NonTrivial(w.failures)
	})
}
