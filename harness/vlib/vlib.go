// Package vlib: shared helpers of the conformance harnesses. Records what the real code does as
// ndjson; it judges nothing.
package vlib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type M map[string]interface{}

// Out is the ndjson trace writer.
type Out struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

func Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(3)
}

func NewOut() *Out {
	fn := os.Getenv("VERIF_OUT")
	if fn == "" {
		Fatal("VERIF_OUT not set")
	}
	f, err := os.Create(fn)
	if err != nil {
		Fatal("%v", err)
	}
	return &Out{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func (o *Out) Put(m interface{}) {
	b, err := json.Marshal(m)
	if err != nil {
		Fatal("marshal: %v", err)
	}
	o.mu.Lock()
	o.w.Write(b)
	o.w.WriteByte('\n')
	o.n++
	o.mu.Unlock()
}

func (o *Out) PutAll(ms []M) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, m := range ms {
		b, err := json.Marshal(m)
		if err != nil {
			Fatal("marshal: %v", err)
		}
		o.w.Write(b)
		o.w.WriteByte('\n')
		o.n++
	}
}

func (o *Out) Close() {
	o.w.Flush()
	o.f.Close()
}

// Seed of this run, from VERIF_SEED.
func Seed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func Rng(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// Scenario bookkeeping: what is being exercised right now, for crash and hang replays.
var curMu sync.Mutex
var curDeadline int64

func Current(m interface{}) {
	fn := os.Getenv("VERIF_CURRENT")
	if fn == "" {
		return
	}
	b, _ := json.Marshal(m)
	curMu.Lock()
	ioutil.WriteFile(fn, b, 0644)
	curMu.Unlock()
	atomic.StoreInt64(&curDeadline, time.Now().UnixNano()+int64(watchdog))
}

var watchdog = 60 * time.Second

// Watchdog ends the process with code 4 if one scenario takes longer than d.
func Watchdog(d time.Duration) {
	watchdog = d
	atomic.StoreInt64(&curDeadline, time.Now().UnixNano()+int64(d))
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			if time.Now().UnixNano() > atomic.LoadInt64(&curDeadline) {
				fmt.Fprintf(os.Stderr, "watchdog: scenario did not finish within %v\n", d)
				os.Exit(4)
			}
		}
	}()
}

// Try runs f and reports a panic as text ("" if none).
func Try(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v", r)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	f()
	return ""
}

// NaNCode is how NaN appears in recorded integers.
const NaNCode = 999999999
const InfCode = 999999998
const NInfCode = -999999998

// Fix converts to fixed point with the given scale; NaN and overflow get reserved codes.
func Fix(v float64, scale float64) int {
	if math.IsNaN(v) {
		return NaNCode
	}
	if math.IsInf(v, 1) {
		return InfCode
	}
	if math.IsInf(v, -1) {
		return NInfCode
	}
	r := math.Round(v * scale)
	if r > 999999990 {
		return 999999990
	}
	if r < -999999990 {
		return -999999990
	}
	return int(r)
}

func Fix32(v float32, scale float64) int { return Fix(float64(v), scale) }

func FixAll(vs []float32, scale float64) []int {
	res := make([]int, len(vs))
	for i, v := range vs {
		res[i] = Fix32(v, scale)
	}
	return res
}

func ErrStr(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
