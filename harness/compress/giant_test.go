package compress

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"

	"diskoverif/pbt"

	"github.com/dargueta/disko/utilities/compression"
	"pgregory.net/rapid"
)

// giant is data that doesn't fit into memory: a few bytes, a run of gigabytes, and a few bytes.
type giant struct {
	pre, post []byte
	b         byte
	n         int64
}

func drawGiant(c *pbt.C) giant {
	g := giant{b: rapid.SampledFrom([]byte{0, 0, 0xff, 0xe5}).Draw(c.T, "byte")}
	other := func(name string) []byte {
		out := rapid.SliceOfN(pbt.Byte(), 0, 5).Draw(c.T, name)
		for i := range out {
			if out[i] == g.b {
				out[i] ^= 1
			}
		}
		return out
	}
	g.pre, g.post = other("before"), other("after")
	g.n = 1<<32 + int64(rapid.SampledFrom([]int{-1, 0, 1, 2, 3, 256, 1000, 5000000}).Draw(c.T, "more"))
	c.Describe("%x, %d times %02x, %x", g.pre, g.n, g.b, g.post)
	c.NonTrivial(true)
	return g
}

func (g giant) size() int64 { return int64(len(g.pre)) + g.n + int64(len(g.post)) }

func (g giant) reader() io.Reader {
	return io.MultiReader(bytes.NewReader(g.pre), io.LimitReader(same(g.b), g.n), bytes.NewReader(g.post))
}

// same is an endless run.
type same byte

func (s same) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	p[0] = byte(s)
	for n := 1; n < len(p); n *= 2 {
		copy(p[n:], p[:n])
	}
	return len(p), nil
}

// giantWriter compares what is written to what is expected.
type giantWriter struct {
	giant
	at  int64
	bad error
}

func (w *giantWriter) Write(p []byte) (int, error) {
	for rest := p; len(rest) > 0 && w.bad == nil; {
		in := w.at - int64(len(w.pre))
		switch {
		case in < 0:
			k := min(len(rest), int(-in))
			if !bytes.Equal(rest[:k], w.pre[w.at:w.at+int64(k)]) {
				w.bad = fmt.Errorf("wrong bytes % x at %d", rest[:k], w.at)
			}
			rest, w.at = rest[k:], w.at+int64(k)
		case in < w.n:
			k := int(min(int64(len(rest)), w.n-in))
			if bytes.Count(rest[:k], []byte{w.b}) != k {
				w.bad = fmt.Errorf("wrong bytes in the run, after %d", in)
			}
			rest, w.at = rest[k:], w.at+int64(k)
		default:
			at := in - w.n
			k := min(len(rest), len(w.post)-int(min(at, int64(len(w.post)))))
			if k == 0 || !bytes.Equal(rest[:k], w.post[at:at+int64(k)]) {
				w.bad = fmt.Errorf("wrong bytes % x at %d", rest[:min(len(rest), 10)], w.at)
			}
			rest, w.at = rest[k:], w.at+int64(k)
		}
	}
	return len(p), nil
}

func giantRoundTrip(t *testing.T, cd codec) {
	defer pbt.AllowCPU(10 * time.Minute)()
	pbt.Check(t, 1, 2, "A run of about 4 GiB between a few other bytes, compressed and decompressed as a stream; non-trivial: all.", func(c *pbt.C) {
		g := drawGiant(c)
		pr, pw := io.Pipe()
		written, reported := int64(0), int64(0)
		done := make(chan error, 1)
		go func() {
			counted := &countWriter{w: pw}
			buf := bufio.NewWriterSize(counted, 1<<20)
			n, err := cd.compress(g.reader(), buf)
			if err == nil {
				err = buf.Flush()
			}
			written, reported = counted.n, n
			pw.CloseWithError(err)
			done <- err
		}()
		w := &giantWriter{giant: g}
		n, err := cd.decompress(pr, w)
		pr.CloseWithError(io.ErrClosedPipe)
		if cerr := <-done; cerr != nil || err != nil {
			c.Fatalf("%s: compressing: %v, decompressing: %v", c.String(), cerr, err)
		}
		if w.bad != nil || w.at != g.size() || n != g.size() || written != reported {
			c.Fatalf("%s: decompressed to %d bytes, said %d, expected %d (%v); compressed to %d bytes, said %d", c.String(), w.at, n, g.size(), w.bad, written, reported)
		}
	})
}

type countWriter struct {
	w io.Writer
	n int64
}

func (w *countWriter) Write(p []byte) (int, error) {
	n, err := w.w.Write(p)
	w.n += int64(n)
	return n, err
}

func TestC01_Giant(t *testing.T) { giantRoundTrip(t, rle8) }
func TestC03_Giant(t *testing.T) { giantRoundTrip(t, rrle) }
func TestC04_Giant(t *testing.T) { giantRoundTrip(t, gz) }

func TestC06_Giant(t *testing.T) {
	defer pbt.AllowCPU(10 * time.Minute)()
	pbt.Check(t, 1, 2, "A run of about 4 GiB between a few other bytes; non-trivial: all.", func(c *pbt.C) {
		g := drawGiant(c)
		want := append(append(runs(g.pre), compression.ByteRun{Byte: g.b, RunLength: int(g.n)}), runs(g.post)...)
		rd := compression.NewRLEGrouperFromReader(g.reader())
		for i, w := range want {
			run, err := rd.GetNextRun()
			if run != w || err != nil && !(err == io.EOF && i == len(want)-1) {
				c.Fatalf("%s: run %d is %v (%v), expected %v", c.String(), i, run, err, w)
			}
		}
		if run, err := rd.GetNextRun(); err != io.EOF {
			c.Fatalf("%s: another run %v, %v", c.String(), run, err)
		}
	})
}
