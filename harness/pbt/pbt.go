// Package pbt is the small layer between the checks and pgregory.net/rapid. It
// fixes the seed, scales the number of cases with the tier, counts what the
// generators produced (for the evidence files), and keeps runaway code under
// test from taking the sandbox with it.
package pbt

import (
	"cmp"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	_ "time/tzdata"

	"pgregory.net/rapid"
)

// Exit statuses of the test binary that the runner knows about.
const (
	exitHang   = 86
	exitMemory = 87
	exitStuck  = 88
)

// Limits for one case. Ordinary cases need milliseconds.
const (
	maxCPUPerCase  = 30 * time.Second
	maxWallPerCase = 100 * time.Second // only if hardly any CPU time was used
	maxHeap        = 3 << 30
)

// stat is what one Check explored; the runner merges these into the evidence.
type stat struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Hashes      []byte         `json:"hashes"` // of the distinct non-trivial cases
	Failed      bool           `json:"failed"`
}

var (
	mu        sync.Mutex
	stats     []*stat
	known     []string
	caseStart atomic.Int64 // CPU time in ns at the start of the case, -1 when idle
	caseWall  atomic.Int64
	curTest   atomic.Value
)

// Thorough tells whether this is a run of the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func cpuTime() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// untouched is how much more memory may be allocated, because it isn't used.
var untouched atomic.Uint64

// AllowUntouched tells the watchdog about allocations of which only a small
// part is ever touched. It returns a function to take that back.
func AllowUntouched(bytes uint64) func() {
	untouched.Add(bytes)
	return func() { untouched.Add(-bytes) }
}

// moreCPU is how much longer than usual a case may take.
var moreCPU atomic.Int64

// AllowCPU gives the cases more CPU time. It returns a function to take that back.
func AllowCPU(d time.Duration) func() {
	moreCPU.Add(int64(d))
	return func() { moreCPU.Add(-int64(d)) }
}

func watchdog() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(200 * time.Millisecond)
		start := caseStart.Load()
		if start < 0 {
			continue
		}
		die := func(code int, what string) {
			name, _ := curTest.Load().(string)
			fmt.Fprintf(os.Stderr, "\nPBT-ABORT test=%s %s\n", name, what)
			os.Exit(code)
		}
		if cpuTime()-time.Duration(start) > maxCPUPerCase+time.Duration(moreCPU.Load()) {
			die(exitHang, "a single case used more CPU time than allowed: it does not terminate")
		}
		if time.Since(time.Unix(0, caseWall.Load())) > maxWallPerCase &&
			cpuTime()-time.Duration(start) < time.Second {
			die(exitStuck, "a single case waits for something that does not happen")
		}
		metrics.Read(sample)
		if sample[0].Value.Uint64() > maxHeap+untouched.Load() {
			die(exitMemory, "a single case allocates without bounds")
		}
	}
}

// Main is for TestMain of every check package.
func Main(m *testing.M) {
	debug.SetMaxStack(64 << 20)
	caseStart.Store(-1)
	go watchdog()
	code := m.Run()
	if out := os.Getenv("PBT_OUT"); out != "" {
		mu.Lock()
		data, err := json.MarshalIndent(map[string]any{"tests": stats, "known": known}, "", " ")
		mu.Unlock()
		if err == nil {
			err = os.WriteFile(out, data, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "PBT: cannot write statistics:", err)
			os.Exit(3)
		}
	}
	os.Exit(code)
}

// Listed tells whether a finding is in the known-findings file.
func Listed(id string) bool {
	for _, k := range strings.Split(os.Getenv("PBT_KNOWN"), ",") {
		if k == id {
			return true
		}
	}
	return false
}

// Known reports that a known finding showed up again in this run.
func Known(id string) {
	mu.Lock()
	defer mu.Unlock()
	for _, k := range known {
		if k == id {
			return
		}
	}
	known = append(known, id)
}

// C is one generated case.
type C struct {
	*rapid.T
	nontrivial bool
	desc       string
	labels     []string
}

// NonTrivial marks the case as non-trivial if cond holds.
func (c *C) NonTrivial(cond bool) {
	if cond {
		c.nontrivial = true
	}
}

// Describe sets what this case is, for telling cases apart and for the samples.
func (c *C) Describe(format string, args ...any) {
	c.desc = fmt.Sprintf(format, args...)
}

// AddDesc appends to the description.
func (c *C) AddDesc(format string, args ...any) {
	c.desc += fmt.Sprintf(format, args...)
}

// Label counts the case in a class.
func (c *C) Label(name string) {
	for _, l := range c.labels {
		if l == name {
			return
		}
	}
	c.labels = append(c.labels, name)
}

// LabelIf counts the case in a class if cond holds.
func (c *C) LabelIf(cond bool, name string) {
	if cond {
		c.Label(name)
	}
}

// Scale multiplies the number of cases; set from PBT_SCALE for calibration.
func scale() float64 {
	if s := os.Getenv("PBT_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
	}
	return 1
}

// Check runs prop on generated cases: quick of them in the quick tier, thorough
// of them in the thorough tier. rule says what is generated and which cases
// count as non-trivial.
func Check(t *testing.T, quick, thorough int, rule string, prop func(c *C)) {
	t.Helper()
	n := quick
	if Thorough() {
		n = thorough
	}
	n = int(float64(n) * scale())
	if n < 1 {
		n = 1
	}
	if err := flag.Set("rapid.checks", strconv.Itoa(n)); err != nil {
		t.Fatal(err)
	}

	s := &stat{Test: t.Name(), Rule: rule, Labels: map[string]int{}}
	mu.Lock()
	stats = append(stats, s)
	mu.Unlock()
	seen := map[uint64]struct{}{}
	curTest.Store(t.Name())
	finished := false

	defer func() {
		caseStart.Store(-1)
		s.Distinct = len(seen)
		for k := range seen {
			s.Hashes = binary.LittleEndian.AppendUint64(s.Hashes, k)
		}
		s.Failed = t.Failed()
	}()

	rapid.Check(t, func(rt *rapid.T) {
		c := &C{T: rt}
		caseWall.Store(time.Now().UnixNano())
		caseStart.Store(int64(cpuTime()))
		prop(c)
		caseStart.Store(-1)
		if finished || rt.Failed() {
			finished = true
			return
		}
		s.Evaluations++
		for _, l := range c.labels {
			s.Labels[l]++
		}
		if c.nontrivial {
			s.NonTrivial++
			h := fnv.New64a()
			h.Write([]byte(c.desc))
			k := h.Sum64()
			if _, dup := seen[k]; !dup {
				seen[k] = struct{}{}
				if len(s.Samples) < 6 && len(seen)%7 == 1 {
					d := c.desc
					if len(d) > 700 {
						d = d[:700] + "..."
					}
					s.Samples = append(s.Samples, d)
				}
			}
		}
	})
}

// Short renders bytes compactly, as runs.
func Short(data []byte) string {
	out := fmt.Sprintf("%d bytes[", len(data))
	for i := 0; i < len(data); {
		j := i
		for j < len(data) && data[j] == data[i] {
			j++
		}
		if j-i > 1 {
			out += fmt.Sprintf("%02x*%d ", data[i], j-i)
		} else {
			out += fmt.Sprintf("%02x ", data[i])
		}
		if len(out) > 160 && j < len(data) {
			h := fnv.New32a()
			h.Write(data)
			out += fmt.Sprintf("... fnv %08x", h.Sum32())
			break
		}
		i = j
	}
	return out + "]"
}

// ScratchDir makes a fresh directory under the current one, which the runner
// made for this run only and removes afterwards.
func ScratchDir(t testing.TB) string {
	wd, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	dir, err := os.MkdirTemp(wd, "case-")
	if err != nil {
		t.Fatal(err)
	}
	return filepath.Clean(dir)
}

// SortedKeys returns the keys of m in order.
func SortedKeys[K cmp.Ordered, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	slices.Sort(keys)
	return keys
}

// Call runs f and turns a panic of the code under test into a failure that says
// what was being done. (rapid would do the same, but without the description.)
func (c *C) Call(what string, f func()) {
	defer func() {
		if p := recover(); p != nil {
			if fmt.Sprintf("%T", p) == "rapid.stopTest" || fmt.Sprintf("%T", p) == "rapid.invalidData" {
				panic(p)
			}
			c.Fatalf("%s panicked: %v\n%s", what, p, debug.Stack())
		}
	}()
	f()
}

// Bytes generates data that looks like (parts of) disk images: runs of various
// lengths around interesting boundaries mixed with incompressible stretches.
func Bytes(maxLen int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		segs := Int(0, 8).Draw(t, "segments")
		out := []byte{}
		for i := 0; i < segs && len(out) < maxLen; i++ {
			switch Int(0, 3).Draw(t, "kind") {
			case 0: // run
				n := rapid.SampledFrom([]int{1, 2, 3, 4, 127, 128, 129, 254, 255, 256, 257, 258, 259, 260, 510, 511, 512,
					513, 514, 515, 516, 767, 768, 770, 771, 1024, 4095, 4096, 4097, 8192, 65535, 65536}).Draw(t, "run")
				b := rapid.SampledFrom([]byte{0, 1, 0xfe, 0xff, 0xe5, 'A', 0x80}).Draw(t, "byte")
				for k := 0; k < n && len(out) < maxLen; k++ {
					out = append(out, b)
				}
			case 1: // arbitrary bytes
				out = append(out, rapid.SliceOfN(Byte(), 0, 24).Draw(t, "bytes")...)
			case 2: // few distinct values, so short runs
				out = append(out, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 255}), 0, 24).Draw(t, "short runs")...)
			case 3: // alternation
				n := Int(0, 300).Draw(t, "alternation")
				a, b := Byte().Draw(t, "a"), Byte().Draw(t, "b")
				for k := 0; k < n; k++ {
					if k%2 == 0 {
						out = append(out, a)
					} else {
						out = append(out, b)
					}
				}
			}
		}
		if len(out) > maxLen {
			out = out[:maxLen]
		}
		return out
	})
}

// Int generates integers in [lo, hi]. Unlike rapid.IntRange, which prefers very
// small values, it is close to uniform, though it still minimizes towards lo.
func Int(lo, hi int) *rapid.Generator[int] {
	if hi < lo {
		panic(fmt.Sprintf("empty range [%d, %d]", lo, hi))
	}
	n := uint64(hi-lo) + 1
	return rapid.Map(rapid.Uint64(), func(x uint64) int { return lo + int(x%n) })
}

// Byte generates bytes, close to uniformly.
func Byte() *rapid.Generator[byte] {
	return rapid.Map(Int(0, 255), func(x int) byte { return byte(x) })
}

// String gives the description of the case so far.
func (c *C) String() string { return c.desc }
