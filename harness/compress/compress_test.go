// Checks of the image compression: RLE8, recursive RLE, gzip+RLE8, the run
// grouper, and the two command line tools.
package compress

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"diskoverif/pbt"

	"github.com/dargueta/disko/utilities/compression"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { pbt.Main(m) }

var errInjected = errors.New("injected fault")

// chunkReader hands out data in chunks of generated sizes. A chunk size of 0 is
// a read returning (0, nil), which io.Reader permits.
type chunkReader struct {
	data    []byte
	chunks  []int
	pos     int
	withEOF bool  // return the end together with the last data
	final   error // what to return instead of io.EOF
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := r.final
	if end == nil {
		end = io.EOF
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = min(n, r.chunks[r.pos%len(r.chunks)])
		r.pos++
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.withEOF {
		return n, end
	}
	return n, nil
}

func drawReader(c *pbt.C, data []byte, final error) io.Reader {
	mode := rapid.SampledFrom([]string{"plain", "bytewise", "chunks", "chunks+EOF"}).Draw(c.T, "reader")
	c.Label("reader " + mode)
	c.AddDesc(" reader %s", mode)
	switch mode {
	case "plain":
		if final == nil {
			return bytes.NewReader(data)
		}
		return &chunkReader{data: data, final: final}
	case "bytewise":
		return &chunkReader{data: data, chunks: []int{1}, final: final}
	}
	chunks := rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 16, 255, 256, 257, 4095, 4096, 4097}), 1, 6).Draw(c.T, "chunks")
	chunks = append(chunks, 1+pbt.Int(0, 64).Draw(c.T, "last chunk"))
	c.AddDesc("%v", chunks)
	return &chunkReader{data: data, chunks: chunks, withEOF: mode == "chunks+EOF", final: final}
}

// limitWriter accepts a limited number of bytes, then fails.
type limitWriter struct {
	buf   bytes.Buffer
	limit int
	err   error
	short bool // accept what fits of the failing write
}

func (w *limitWriter) Write(p []byte) (int, error) {
	room := w.limit - w.buf.Len()
	if len(p) <= room {
		w.buf.Write(p)
		return len(p), nil
	}
	if !w.short {
		room = 0
	}
	w.buf.Write(p[:room])
	return room, w.err
}

func maxLen() int {
	if pbt.Thorough() {
		return 1 << 18
	}
	return 1 << 14
}

// image draws some data, now and then with a very long run as on real images.
func image(c *pbt.C) []byte {
	data := pbt.Bytes(maxLen()).Draw(c.T, "data")
	if pbt.Int(0, 11).Draw(c.T, "whole buffers") == 0 {
		// Without runs, so that what it is encoded to ends with a buffer as well, or next to it.
		n := 512*pbt.Int(1, 32).Draw(c.T, "buffers") + pbt.Int(-1, 1).Draw(c.T, "more")
		if rapid.Bool().Draw(c.T, "of 4096") {
			n = 4096*pbt.Int(1, 4).Draw(c.T, "buffers") + pbt.Int(-1, 1).Draw(c.T, "more")
		}
		x := rapid.Uint64().Draw(c.T, "seed") | 1
		data = make([]byte, n)
		for i := range data {
			x = x*6364136223846793005 + 1442695040888963407
			data[i] = byte(x >> 56)
			if i > 0 && data[i] == data[i-1] {
				data[i] ^= 0x55
			}
		}
		if rapid.Bool().Draw(c.T, "with a run") {
			at := pbt.Int(1, n-1).Draw(c.T, "at")
			data[at] = data[at-1]
		}
		c.Label("whole buffers")
	}
	if pbt.Int(0, 39).Draw(c.T, "huge") == 0 {
		n := pbt.Int(100000, 400000).Draw(c.T, "huge run")
		b := pbt.Byte().Draw(c.T, "huge byte")
		data = append(append([]byte{}, data...), bytes.Repeat([]byte{b}, n)...)
		c.Label("huge run")
	}
	return data
}

func runs(data []byte) []compression.ByteRun {
	out := []compression.ByteRun{}
	for i := 0; i < len(data); {
		j := i
		for j < len(data) && data[j] == data[i] {
			j++
		}
		out = append(out, compression.ByteRun{Byte: data[i], RunLength: j - i})
		i = j
	}
	return out
}

func longestRun(data []byte) int {
	best := 0
	for _, r := range runs(data) {
		best = max(best, r.RunLength)
	}
	return best
}

func describe(c *pbt.C, data []byte) {
	c.Describe("%s", pbt.Short(data))
	l := longestRun(data)
	c.LabelIf(len(data) == 0, "empty")
	c.LabelIf(l == 2, "longest run 2")
	c.LabelIf(l > 2 && l <= 257, "longest run 3-257")
	c.LabelIf(l > 257, "longest run >257")
	c.NonTrivial(l >= 2)
}

// Reference encoders and decoders, from the package documentation.

func refRLE8(data []byte) []byte {
	out := []byte{}
	for _, r := range runs(data) {
		for n := r.RunLength; n > 0; {
			k := min(n, 257)
			if k == 1 {
				out = append(out, r.Byte)
			} else {
				out = append(out, r.Byte, r.Byte, byte(k-2))
			}
			n -= k
		}
	}
	return out
}

// refUnRLE8 returns the decoded data and whether the input was complete.
func refUnRLE8(enc []byte) ([]byte, bool) {
	out := []byte{}
	for i := 0; i < len(enc); {
		if i+1 < len(enc) && enc[i] == enc[i+1] {
			if i+2 >= len(enc) {
				return append(out, enc[i]), false
			}
			out = append(out, bytes.Repeat(enc[i:i+1], 2+int(enc[i+2]))...)
			i += 3
			continue
		}
		out = append(out, enc[i])
		i++
	}
	return out, true
}

func refRRLE(data []byte) []byte {
	out := []byte{}
	for _, r := range runs(data) {
		if r.RunLength == 1 {
			out = append(out, r.Byte)
			continue
		}
		out = append(out, r.Byte, r.Byte)
		n := r.RunLength - 2
		for ; n >= 255; n -= 255 {
			out = append(out, 255)
		}
		out = append(out, byte(n))
	}
	return out
}

func refUnRRLE(enc []byte) ([]byte, bool) {
	out := []byte{}
	for i := 0; i < len(enc); {
		b := enc[i]
		out = append(out, b)
		i++
		if i >= len(enc) || enc[i] != b {
			continue
		}
		out = append(out, b)
		i++
		for {
			if i >= len(enc) {
				return out, false
			}
			n := enc[i]
			i++
			out = append(out, bytes.Repeat([]byte{b}, int(n))...)
			if n != 255 {
				break
			}
		}
	}
	return out, true
}

type codec struct {
	name                 string
	compress, decompress func(io.Reader, io.Writer) (int64, error)
	ref                  func([]byte) []byte
	unref                func([]byte) ([]byte, bool)
}

var rle8 = codec{"RLE8", compression.CompressRLE8, compression.DecompressRLE8, refRLE8, refUnRLE8}
var rrle = codec{"recursive RLE", compression.CompressRLERecursive, compression.DecompressRLERecursive, refRRLE, refUnRRLE}
var gz = codec{"gzip+RLE8", compression.CompressImage, compression.DecompressImage, nil, nil}

func diff(a, b []byte) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	hi := func(x []byte) []byte { return x[max(0, min(i-4, len(x))):min(len(x), i+12)] }
	return fmt.Sprintf("lengths %d and %d, first difference at %d: % x versus % x", len(a), len(b), i, hi(a), hi(b))
}

func roundTrip(cd codec) func(c *pbt.C) { return roundTripOf(cd, image) }

// largeImage draws data of the size of hard disks of the time.
func largeImage(c *pbt.C) []byte {
	data := []byte{}
	for i := pbt.Int(2, 6).Draw(c.T, "segments"); i > 0; i-- {
		n := pbt.Int(1, 512).Draw(c.T, "segment size / 12 KiB")*12288 + pbt.Int(-1, 1).Draw(c.T, "more")
		x := rapid.Uint64().Draw(c.T, "segment") | 1
		kind := rapid.SampledFrom([]int{0, 1, 2, 3, 3}).Draw(c.T, "segment kind")
		if kind == 2 {
			n /= 8 // hard work for gzip
		}
		for k := 0; k < n; k++ {
			b := byte(x)
			switch kind {
			case 1: // sectors of one value each
				if k%512 == 0 {
					x = x*6364136223846793005 + 1442695040888963407
				}
				b = byte(x >> 60)
			case 2, 3: // without long runs
				x ^= x << 13
				x ^= x >> 7
				x ^= x << 17
				b = byte(x >> 24)
				if kind == 2 {
					b &= 3
				}
			}
			data = append(data, b)
		}
	}
	c.LabelIf(len(data) > 4<<20, "more than 4 MiB")
	c.LabelIf(len(data) > 16<<20, "more than 16 MiB")
	return data
}

const largeRule = "2-6 segments of up to 6 MiB each (one run, sectors of one value each, random bytes, random bytes of 4 values); non-trivial: at least one run of two or more equal bytes."

func TestC01_Large(t *testing.T) {
	pbt.Check(t, 8, 80, "RLE8 round trip of large data. "+largeRule, roundTripOf(rle8, largeImage))
}

func TestC03_Large(t *testing.T) {
	pbt.Check(t, 8, 80, "Recursive RLE round trip of large data. "+largeRule, roundTripOf(rrle, largeImage))
}

func TestC04_Large(t *testing.T) {
	pbt.Check(t, 12, 80, "gzip+RLE8 round trip of large data. "+largeRule, roundTripOf(gz, largeImage))
}

func roundTripOf(cd codec, image func(*pbt.C) []byte) func(c *pbt.C) {
	return func(c *pbt.C) {
		data := image(c)
		describe(c, data)
		var enc, dec bytes.Buffer
		n, err := cd.compress(drawReader(c, data, nil), &enc)
		if err != nil {
			c.Fatalf("compressing %s: %v", pbt.Short(data), err)
		}
		if n != int64(enc.Len()) {
			c.Fatalf("compressing %s wrote %d bytes but reported %d", pbt.Short(data), enc.Len(), n)
		}
		encoded := append([]byte{}, enc.Bytes()...)
		m, err := cd.decompress(drawReader(c, encoded, nil), &dec)
		if err != nil {
			c.Fatalf("decompressing what %s compressed to: %v", pbt.Short(data), err)
		}
		if !bytes.Equal(dec.Bytes(), data) {
			c.Fatalf("round trip of %s differs: %s", pbt.Short(data), diff(data, dec.Bytes()))
		}
		if m != int64(len(data)) {
			c.Fatalf("decompressing to %d bytes reported %d", len(data), m)
		}
	}
}

const dataRule = "Data is 0-8 segments (runs of lengths around 1/2/128/256/257/258/512/4096/64 Ki, arbitrary bytes, short runs, alternations), " +
	"sometimes a run of 100 000-400 000 bytes, or data without runs that fills whole buffers; non-trivial: at least one run of two or more equal bytes; distinct by data and reader chunking."

func TestC01_RoundTrip(t *testing.T) {
	pbt.Check(t, 3000, 60000, "RLE8 round trip through readers of every chunking. "+dataRule, roundTrip(rle8))
}

// Long runs are the whole point, so go through every length in a range too.
func runLengths(t *testing.T, cd codec) {
	pbt.Check(t, 1500, 15000, "A single run of 0-1600 bytes between two optional other bytes, round trip; non-trivial: length > 257.",
		func(c *pbt.C) {
			n := pbt.Int(0, 1600).Draw(c.T, "length")
			b := pbt.Byte().Draw(c.T, "byte")
			pre := rapid.SliceOfN(pbt.Byte(), 0, 2).Draw(c.T, "prefix")
			post := rapid.SliceOfN(pbt.Byte(), 0, 2).Draw(c.T, "suffix")
			data := append(append(append([]byte{}, pre...), bytes.Repeat([]byte{b}, n)...), post...)
			c.Describe("%x + %02x*%d + %x", pre, b, n, post)
			c.NonTrivial(n > 257)
			var enc, dec bytes.Buffer
			if _, err := cd.compress(bytes.NewReader(data), &enc); err != nil {
				c.Fatalf("%s compress: %v", cd.name, err)
			}
			m, err := cd.decompress(&enc, &dec)
			if err != nil || m != int64(len(data)) || !bytes.Equal(dec.Bytes(), data) {
				c.Fatalf("%s round trip: n=%d err=%v, %s", cd.name, m, err, diff(data, dec.Bytes()))
			}
		})
}

func TestC01_RunLengths(t *testing.T) { runLengths(t, rle8) }
func TestC03_RunLengths(t *testing.T) { runLengths(t, rrle) }

func encodes(cd codec) func(c *pbt.C) {
	return func(c *pbt.C) {
		data := image(c)
		describe(c, data)
		var enc bytes.Buffer
		if _, err := cd.compress(drawReader(c, data, nil), &enc); err != nil {
			c.Fatalf("compressing: %v", err)
		}
		want := cd.ref(data)
		if !bytes.Equal(enc.Bytes(), want) {
			c.Fatalf("%s of %s is not the documented encoding: %s", cd.name, pbt.Short(data), diff(want, enc.Bytes()))
		}
	}
}

// groups generates encoded runs, many of them followed by more of the same byte.
var groups = rapid.Custom(func(t *rapid.T) []byte {
	out := []byte{}
	for i := pbt.Int(1, 12).Draw(t, "groups"); i > 0; i-- {
		b := rapid.SampledFrom([]byte{0, 1, 2, 254, 255}).Draw(t, "byte")
		if len(out) > 0 && rapid.Bool().Draw(t, "same") {
			b = out[max(0, len(out)-2)]
		}
		out = append(out, b)
		if pbt.Int(0, 3).Draw(t, "single") > 0 {
			out = append(out, b, byte(rapid.OneOf(rapid.SampledFrom([]int{0, 1, 2, 3, 126, 127, 128, 253, 254, 255}), rapid.IntRange(0, 255)).Draw(t, "count")))
		}
	}
	return out
})

func decodes(cd codec) func(c *pbt.C) {
	return func(c *pbt.C) {
		enc := rapid.OneOf(
			rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 0, 1, 2, 255, 255}), 0, 40),
			rapid.SliceOfN(pbt.Byte(), 0, 60),
			rapid.Map(pbt.Bytes(600), func(b []byte) []byte { return cd.ref(b) }),
			groups,
			groups,
		).Draw(c.T, "encoded")
		if rapid.Bool().Draw(c.T, "truncate") {
			enc = enc[:pbt.Int(0, len(enc)).Draw(c.T, "truncate to")]
		}
		want, complete := cd.unref(enc)
		c.Describe("%x", enc)
		c.LabelIf(!complete, "incomplete")
		c.LabelIf(complete && !bytes.Equal(cd.ref(want), enc), "non-canonical")
		c.NonTrivial(longestRun(enc) >= 2)
		var dec bytes.Buffer
		n, err := cd.decompress(drawReader(c, enc, nil), &dec)
		if !complete {
			if !errors.Is(err, io.ErrUnexpectedEOF) {
				c.Fatalf("decoding %x, which lacks a repeat count: want io.ErrUnexpectedEOF, got %v", enc, err)
			}
			return
		}
		if err != nil {
			c.Fatalf("decoding %x: %v", enc, err)
		}
		if !bytes.Equal(dec.Bytes(), want) || n != int64(len(want)) {
			c.Fatalf("decoding %x: n=%d, %s", enc, n, diff(want, dec.Bytes()))
		}
	}
}

const decRule = "Arbitrary encoded streams (over few values, over all bytes, sequences of encoded runs, and encodings of data), half of them cut off; non-trivial: holds two equal bytes in a row."

func TestC02_Encoding(t *testing.T) {
	pbt.Check(t, 2500, 50000, "RLE8 output compared with a reference encoder. "+dataRule, encodes(rle8))
}

func TestC02_Decoding(t *testing.T) {
	pbt.Check(t, 6000, 120000, "RLE8 decoder compared with a reference decoder. "+decRule, decodes(rle8))
}

func TestC03_RoundTrip(t *testing.T) {
	pbt.Check(t, 2000, 40000, "Recursive RLE round trip. "+dataRule, roundTrip(rrle))
}

func TestC03_Encoding(t *testing.T) {
	pbt.Check(t, 2000, 40000, "Recursive RLE output compared with a reference encoder. "+dataRule, encodes(rrle))
}

func TestC03_Decoding(t *testing.T) {
	pbt.Check(t, 5000, 100000, "Recursive RLE decoder compared with a reference decoder. "+decRule, decodes(rrle))
}

func TestC03_Repeated(t *testing.T) {
	pbt.Check(t, 1000, 20000, "Recursive RLE applied 2-4 times and undone as often. "+dataRule, func(c *pbt.C) {
		data := image(c)
		describe(c, data)
		times := pbt.Int(2, 4).Draw(c.T, "times")
		c.AddDesc(" applied %d times", times)
		cur := data
		for i := 0; i < times; i++ {
			var out bytes.Buffer
			if _, err := rrle.compress(bytes.NewReader(cur), &out); err != nil {
				c.Fatalf("pass %d: %v", i, err)
			}
			cur = out.Bytes()
		}
		for i := 0; i < times; i++ {
			var out bytes.Buffer
			if _, err := rrle.decompress(bytes.NewReader(cur), &out); err != nil {
				c.Fatalf("undoing pass %d: %v", times-i, err)
			}
			cur = out.Bytes()
		}
		if !bytes.Equal(cur, data) {
			c.Fatalf("differs after %d passes: %s", times, diff(data, cur))
		}
	})
}

func TestC04_RoundTrip(t *testing.T) {
	pbt.Check(t, 1200, 15000, "gzip+RLE8 image round trip. "+dataRule, roundTrip(gz))
}

func TestC04_ToBytes(t *testing.T) {
	pbt.Check(t, 1200, 15000, "DecompressImageToBytes agrees with DecompressImage and the original. "+dataRule, func(c *pbt.C) {
		data := image(c)
		describe(c, data)
		var enc bytes.Buffer
		if _, err := compression.CompressImage(bytes.NewReader(data), &enc); err != nil {
			c.Fatalf("compressing: %v", err)
		}
		got, err := compression.DecompressImageToBytes(drawReader(c, enc.Bytes(), nil))
		if err != nil || !bytes.Equal(got, data) {
			c.Fatalf("err=%v, %s", err, diff(data, got))
		}
	})
}

// damage changes enc; it may come out the same.
func damage(c *pbt.C, enc []byte) []byte {
	out := append([]byte{}, enc...)
	kind := rapid.SampledFrom([]string{"truncate", "flip bit", "set byte", "drop", "insert", "append"}).Draw(c.T, "damage")
	c.Label(kind)
	c.AddDesc(" %s", kind)
	at := pbt.Int(0, len(out)-1).Draw(c.T, "at")
	switch kind {
	case "truncate":
		out = out[:at]
	case "flip bit":
		out[at] ^= 1 << pbt.Int(0, 7).Draw(c.T, "bit")
	case "set byte":
		out[at] = pbt.Byte().Draw(c.T, "value")
	case "drop":
		n := pbt.Int(1, min(8, len(out)-at)).Draw(c.T, "count")
		out = append(out[:at], out[at+n:]...)
	case "insert":
		ins := rapid.SliceOfN(pbt.Byte(), 1, 4).Draw(c.T, "inserted")
		out = append(append(append([]byte{}, out[:at]...), ins...), out[at:]...)
	case "append":
		out = append(out, rapid.SliceOfN(pbt.Byte(), 1, 12).Draw(c.T, "appended")...)
	}
	c.AddDesc(" at %d of %d", at, len(enc))
	return out
}

func TestC05_Damaged(t *testing.T) {
	pbt.Check(t, 4000, 60000, "A compressed image with one piece of damage (cut short, bit flipped, bytes changed, dropped, inserted or appended): "+
		"decompressing reports an error or still gives exactly the original. Non-trivial: the bytes did change.", func(c *pbt.C) {
		data := pbt.Bytes(3000).Draw(c.T, "data")
		c.Describe("%s", pbt.Short(data))
		var enc bytes.Buffer
		if _, err := compression.CompressImage(bytes.NewReader(data), &enc); err != nil {
			c.Fatalf("compressing: %v", err)
		}
		bad := damage(c, enc.Bytes())
		c.NonTrivial(!bytes.Equal(bad, enc.Bytes()))
		var dec bytes.Buffer
		n, err := compression.DecompressImage(drawReader(c, bad, nil), &dec)
		if err != nil {
			c.Label("error reported")
		} else if !bytes.Equal(dec.Bytes(), data) || n != int64(len(data)) {
			c.Fatalf("damaged image accepted: n=%d, %s", n, diff(data, dec.Bytes()))
		}
		if len(bad) < enc.Len() && bytes.HasPrefix(enc.Bytes(), bad) && err == nil {
			c.Fatalf("image cut down to %d of %d bytes was accepted", len(bad), enc.Len())
		}
		all, err2 := compression.DecompressImageToBytes(bytes.NewReader(bad))
		if (err == nil) != (err2 == nil) {
			c.Fatalf("DecompressImage: %v, DecompressImageToBytes: %v", err, err2)
		}
		if err2 == nil && !bytes.Equal(all, data) {
			c.Fatalf("damaged image accepted by DecompressImageToBytes: %s", diff(data, all))
		}
	})
}

// The payload of a well-formed gzip stream can be broken RLE8 as well.
func TestC05_BadPayload(t *testing.T) {
	pbt.Check(t, 1500, 20000, "A valid gzip stream around an RLE8 stream that ends before a repeat count (non-trivial) or is complete: an error if and only if incomplete.", func(c *pbt.C) {
		enc := rapid.SliceOfN(rapid.SampledFrom([]byte{0, 0, 1, 255}), 0, 40).Draw(c.T, "payload")
		want, complete := refUnRLE8(enc)
		c.Describe("%x", enc)
		c.NonTrivial(!complete)
		got, err := compression.DecompressImageToBytes(bytes.NewReader(gzipped(enc)))
		if complete != (err == nil) {
			c.Fatalf("payload %x: complete=%v but err=%v", enc, complete, err)
		}
		if complete && !bytes.Equal(got, want) {
			c.Fatalf("payload %x: %s", enc, diff(want, got))
		}
	})
}

func TestC06_Grouper(t *testing.T) {
	pbt.Check(t, 3000, 50000, "All runs of the data in order, then end of file for good. "+dataRule, func(c *pbt.C) {
		data := image(c)
		describe(c, data)
		want := runs(data)
		var g compression.RLEGrouper
		if rapid.Bool().Draw(c.T, "scanner") {
			g = compression.NewRLEGrouperFromByteScanner(bytes.NewReader(data))
			c.Label("byte scanner")
		} else {
			g = compression.NewRLEGrouperFromReader(drawReader(c, data, nil))
		}
		for i, w := range want {
			run, err := g.GetNextRun()
			if run != w {
				c.Fatalf("run %d: got %v (err %v), want %v", i, run, err, w)
			}
			if err != nil && !(errors.Is(err, io.EOF) && i == len(want)-1) {
				c.Fatalf("run %d of %d: unexpected error %v", i, len(want), err)
			}
		}
		for i := 0; i < 2; i++ {
			run, err := g.GetNextRun()
			if !errors.Is(err, io.EOF) || run != compression.InvalidRLERun {
				c.Fatalf("at the end: got %v, %v", run, err)
			}
		}
	})
}

// A read fault is never taken for the end of the data.
func TestC06_Faults(t *testing.T) {
	pbt.Check(t, 2000, 30000, "The reader fails at the end of the data (non-trivial: some data came before): all runs before the failing one are right, the failure is reported. "+dataRule, func(c *pbt.C) {
		data := pbt.Bytes(2000).Draw(c.T, "data")
		c.Describe("%s", pbt.Short(data))
		c.NonTrivial(len(data) > 0)
		want := runs(data)
		fault := rapid.SampledFrom([]error{errInjected, io.ErrUnexpectedEOF, os.ErrClosed}).Draw(c.T, "fault")
		g := compression.NewRLEGrouperFromReader(drawReader(c, data, fault))
		for i := 0; ; i++ {
			run, err := g.GetNextRun()
			if err != nil {
				if !errors.Is(err, fault) {
					c.Fatalf("run %d: fault %v reported as %v", i, fault, err)
				}
				if run != compression.InvalidRLERun {
					c.Fatalf("run %d: valid-looking run %v along with the error %v", i, run, err)
				}
				if i < len(want)-1 {
					c.Fatalf("only %d of %d runs before the fault were returned", i, len(want))
				}
				return
			}
			if i >= len(want) || run != want[i] {
				c.Fatalf("run %d: got %v, runs are %v", i, run, want)
			}
			if i == len(want)-1 {
				// The last run can't be known to be complete.
				c.Fatalf("run %d: returned as complete although reading failed in the middle of it", i)
			}
		}
	})
}

func TestC07_ReadFaults(t *testing.T) {
	pbt.Check(t, 3000, 45000, "Each compressor and decompressor, its input failing after a generated number of bytes (non-trivial: at least one byte): the failure is reported, "+
		"and what was put out is the beginning of the fault-free output.", func(c *pbt.C) {
		cd := rapid.SampledFrom([]codec{rle8, rrle, gz}).Draw(c.T, "codec")
		data := pbt.Bytes(3000).Draw(c.T, "data")
		comp := rapid.Bool().Draw(c.T, "compress")
		fault := rapid.SampledFrom([]error{errInjected, io.ErrUnexpectedEOF, os.ErrClosed, io.ErrShortBuffer}).Draw(c.T, "fault")
		in, f, dir := data, cd.compress, "compress"
		if !comp {
			var enc bytes.Buffer
			if _, err := cd.compress(bytes.NewReader(data), &enc); err != nil {
				c.Fatalf("compressing: %v", err)
			}
			in, f, dir = enc.Bytes(), cd.decompress, "decompress"
		}
		var good bytes.Buffer
		if _, err := f(bytes.NewReader(in), &good); err != nil {
			c.Fatalf("%s %s without fault: %v", cd.name, dir, err)
		}
		k := pbt.Int(0, len(in)).Draw(c.T, "fault at")
		c.Describe("%s %s of %s, %q after %d", cd.name, dir, pbt.Short(data), fault, k)
		c.Label(cd.name + " " + dir)
		c.NonTrivial(k > 0)
		var out bytes.Buffer
		_, err := f(drawReader(c, in[:k], fault), &out)
		if err == nil {
			c.Fatalf("input failed with %q after %d of %d bytes, but no error was reported", fault, k, len(in))
		}
		if !errors.Is(err, fault) {
			c.Fatalf("input failed with %q after %d bytes, reported as %v", fault, k, err)
		}
		if !comp || cd.name != gz.name {
			if !bytes.HasPrefix(good.Bytes(), out.Bytes()) {
				c.Fatalf("output before the fault is wrong: %s", diff(good.Bytes(), out.Bytes()))
			}
		}
	})
}

func TestC07_WriteFaults(t *testing.T) {
	pbt.Check(t, 3000, 45000, "Each compressor and decompressor, its output failing after a generated number of bytes short of all of it (non-trivial: at least one byte): the failure is reported.", func(c *pbt.C) {
		cd := rapid.SampledFrom([]codec{rle8, rrle, gz}).Draw(c.T, "codec")
		data := pbt.Bytes(3000).Draw(c.T, "data")
		comp := rapid.Bool().Draw(c.T, "compress")
		fault := rapid.SampledFrom([]error{errInjected, io.ErrShortWrite, os.ErrClosed, io.EOF, io.ErrUnexpectedEOF}).Draw(c.T, "fault")
		in, f, dir := data, cd.compress, "compress"
		if !comp {
			var enc bytes.Buffer
			if _, err := cd.compress(bytes.NewReader(data), &enc); err != nil {
				c.Fatalf("compressing: %v", err)
			}
			in, f, dir = enc.Bytes(), cd.decompress, "decompress"
		}
		var good bytes.Buffer
		n, err := f(bytes.NewReader(in), &good)
		if err != nil || n != int64(good.Len()) {
			c.Fatalf("%s %s without fault: %d of %d, %v", cd.name, dir, n, good.Len(), err)
		}
		if good.Len() == 0 {
			return
		}
		k := pbt.Int(0, good.Len()-1).Draw(c.T, "fault at")
		w := &limitWriter{limit: k, err: fault, short: rapid.Bool().Draw(c.T, "short")}
		c.Describe("%s %s of %s, %q after %d", cd.name, dir, pbt.Short(data), fault, k)
		c.Label(cd.name + " " + dir)
		c.NonTrivial(k > 0)
		_, err = f(drawReader(c, in, nil), w)
		if err == nil {
			c.Fatalf("output failed with %q after %d of %d bytes, but no error was reported", fault, k, good.Len())
		}
		if !bytes.HasPrefix(good.Bytes(), w.buf.Bytes()) {
			c.Fatalf("output before the fault is wrong: %s", diff(good.Bytes(), w.buf.Bytes()))
		}
	})
}

func tool(t *testing.T, env string) string {
	p := os.Getenv(env)
	if p == "" {
		t.Fatalf("%s is not set: run this check with run.py", env)
	}
	return p
}

func run(path string, args ...string) (string, string, int) {
	cmd := exec.Command(path, args...)
	var out, errOut strings.Builder
	cmd.Stdout, cmd.Stderr = &out, &errOut
	err := cmd.Run()
	if err != nil && cmd.ProcessState == nil {
		panic(err)
	}
	return out.String(), errOut.String(), cmd.ProcessState.ExitCode()
}

func TestC08_Tools(t *testing.T) {
	zip, unzip := tool(t, "PBT_ZIPIMAGE"), tool(t, "PBT_UNZIPIMAGE")
	pbt.Check(t, 150, 3000, "zipimage then unzipimage on files, over fresh or existing longer output files, with exit status 0 and the sizes reported; "+
		"then the same on a missing input, on a damaged compressed file, and with a full output device: exit status not 0. "+dataRule, func(c *pbt.C) {
		data := image(c)
		if pbt.Int(0, 69).Draw(c.T, "large") == 0 {
			data = largeImage(c)
		}
		describe(c, data)
		dir := pbt.ScratchDir(t)
		defer os.RemoveAll(dir)
		src, packed, back := filepath.Join(dir, "in"), filepath.Join(dir, "packed"), filepath.Join(dir, "out")
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		must(os.WriteFile(src, data, 0o600))
		if rapid.Bool().Draw(c.T, "existing") {
			c.Label("existing output")
			must(os.WriteFile(packed, bytes.Repeat([]byte{0x1f}, len(data)+4000), 0o600))
			must(os.WriteFile(back, bytes.Repeat([]byte{'!'}, len(data)+100), 0o600))
		}
		out, errOut, code := run(zip, src, packed)
		if code != 0 {
			c.Fatalf("zipimage: status %d, %s", code, errOut)
		}
		enc, err := os.ReadFile(packed)
		must(err)
		if !strings.Contains(out, strconv.Itoa(len(enc))) {
			c.Fatalf("zipimage wrote %d bytes, says %q", len(enc), out)
		}
		lib, err := compression.DecompressImageToBytes(bytes.NewReader(enc))
		if err != nil || !bytes.Equal(lib, data) {
			c.Fatalf("zipimage's output is not the compressed input: %v, %s", err, diff(data, lib))
		}
		out, errOut, code = run(unzip, packed, back)
		if code != 0 {
			c.Fatalf("unzipimage: status %d, %s", code, errOut)
		}
		got, err := os.ReadFile(back)
		must(err)
		if !bytes.Equal(got, data) {
			c.Fatalf("file differs after zipimage and unzipimage: %s", diff(data, got))
		}
		if !strings.Contains(out, strconv.Itoa(len(data))) {
			c.Fatalf("unzipimage wrote %d bytes, says %q", len(data), out)
		}
		if same, _ := os.ReadFile(src); !bytes.Equal(same, data) {
			c.Fatalf("zipimage changed its input")
		}
		bad := damage(c, enc)
		must(os.WriteFile(packed, bad, 0o600))
		_, _, code = run(unzip, packed, back)
		got, _ = os.ReadFile(back)
		if code == 0 && !bytes.Equal(got, data) {
			c.Fatalf("unzipimage accepted a damaged file: %s", diff(data, got))
		}
		// Whatever can't work is reported, and leaves the files alone that are there.
		must(os.WriteFile(packed, enc, 0o600))
		must(os.WriteFile(back, []byte("precious"), 0o600))
		refused := func(what string, bin string, args ...string) {
			_, msg, code := run(bin, args...)
			if code == 0 || msg == "" || strings.Contains(msg, "panic:") || strings.Contains(msg, "goroutine ") {
				c.Fatalf("%s, %s: status %d, message %q", filepath.Base(bin), what, code, msg)
			}
		}
		unchanged := func(what string) {
			for name, want := range map[string][]byte{src: data, packed: enc, back: []byte("precious")} {
				if got, err := os.ReadFile(name); err != nil || !bytes.Equal(got, want) {
					c.Fatalf("%s: %q was changed: %v, %s", what, filepath.Base(name), err, diff(want, got))
				}
			}
			if l, err := os.ReadDir(dir); err != nil || len(l) != 3 {
				c.Fatalf("%s: the directory now has %v, %v", what, l, err)
			}
		}
		misuse := rapid.SampledFrom([]string{"missing input", "full zip", "full unzip", "arguments", "no such directory", "directory"}).Draw(c.T, "misuse")
		c.Label(misuse)
		switch misuse {
		case "missing input":
			refused(misuse, zip, filepath.Join(dir, "missing"), back)
			refused(misuse, unzip, filepath.Join(dir, "missing"), back)
			unchanged(misuse)
		case "full zip":
			refused(misuse, zip, src, "/dev/full")
		case "full unzip":
			if len(data) > 0 {
				refused(misuse, unzip, packed, "/dev/full")
			}
		case "arguments":
			for _, args := range [][]string{{}, {packed}, {packed, back, src}, {packed, back, "-f"}} {
				what := fmt.Sprintf("%d arguments", len(args))
				refused(what, zip, args...)
				refused(what, unzip, args...)
				unchanged(what)
			}
		case "no such directory":
			refused(misuse, zip, src, filepath.Join(dir, "missing", "x"))
			refused(misuse, unzip, packed, filepath.Join(dir, "missing", "x"))
			unchanged(misuse)
		case "directory":
			refused(misuse, zip, src, dir)
			refused(misuse, unzip, packed, dir)
			unchanged(misuse)
		}
	})
}
