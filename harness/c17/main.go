// Records selections, sorts, medians and median filters of the real code (property C17).
// Values are ranks; a table maps ranks to floats in increasing order.
package main

import (
	"bufio"
	"encoding/json"
	"math"
	"math/rand"
	"os"

	"github.com/mlnoga/nightlight/internal/median"
	"github.com/mlnoga/nightlight/internal/qsort"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

// extreme values in increasing order
var extreme = []float32{float32(math.Inf(-1)), -math.MaxFloat32, -1e30, -1.0000001, -1, -1e-30, -math.SmallestNonzeroFloat32, 0,
	math.SmallestNonzeroFloat32, 1e-30, 1, 1.0000001, 3e9, 1e30, math.MaxFloat32, float32(math.Inf(1))}

// a monotone table from ranks 1.. to floats
type table struct {
	lin bool
	off float32
}

func (t table) to(r int) float32 {
	if t.lin {
		return t.off + float32(r)
	}
	return extreme[r-1]
}

// twice the rank of a value; -7 if it is none
func (t table) from2(v float32) int {
	if t.lin {
		return vlib.Fix32(v-t.off, 2)
	}
	for i, x := range extreme {
		if x == v {
			return 2 * (i + 1)
		}
	}
	return -7
}
func (t table) from(v float32) int {
	r := t.from2(v)
	if r < 0 || r%2 != 0 {
		return -7
	}
	return r / 2
}
func (t table) all(vs []float32) []int {
	out := make([]int, len(vs))
	for i, v := range vs {
		out[i] = t.from(v)
	}
	return out
}

var out *vlib.Out

const nPad = 5

// an array in the middle of a larger one
func padded(t table, in []int) (whole, a []float32) {
	whole = make([]float32, len(in)+2*nPad)
	for i := range whole {
		whole[i] = -12345.5 // smaller than everything before, larger than everything after
		if i >= nPad {
			whole[i] = 12345.5
		}
	}
	a = whole[nPad : nPad+len(in)]
	for i, r := range in {
		a[i] = t.to(r)
	}
	return
}
func intact(whole []float32) int {
	for i := 0; i < nPad; i++ {
		if whole[i] != -12345.5 || whole[len(whole)-1-i] != 12345.5 {
			return 0
		}
	}
	return 1
}

func do(t table, op string, in []int, k int) {
	whole, a := padded(t, in)
	m := vlib.M{"op": op, "in": in, "k": k, "panic": "", "r": 0, "out": []int{}, "pad": 1}
	vlib.Current(m)
	m["panic"] = vlib.Try(func() {
		switch op {
		case "select":
			m["r"] = t.from(qsort.QSelectFloat32(a, k))
		case "quartile":
			m["r"] = t.from(qsort.QSelectFirstQuartileFloat32(a))
		case "median":
			m["r"] = t.from2(qsort.QSelectMedianFloat32(a))
		case "fixed":
			if k == 1 {
				m["r"] = t.from2(median.MedianFloat32Slice9(a))
			} else {
				m["r"] = t.from2(median.MedianFloat32(a))
			}
		case "sort":
			qsort.QSortFloat32(a)
		case "part":
			m["r"] = qsort.QPartitionFloat32(a) + 1
		case "stars":
			ss := make([]star.Star, len(in)+2)
			for i := range ss {
				ss[i].Index = -1
				if i > 0 && i <= len(in) {
					ss[i] = star.Star{Index: int32(i), Mass: a[i-1], X: float32(i) / 2, HFR: float32(i) * 3, Value: float32(i) * 5, Y: -float32(i)}
				}
			}
			star.QSortStarsDesc(ss[1 : len(in)+1])
			o := []int{}
			for i, s := range ss[1 : len(in)+1] {
				if s.X != float32(s.Index)/2 || s.HFR != float32(s.Index)*3 || s.Value != float32(s.Index)*5 || s.Y != -float32(s.Index) ||
					s.Index >= 1 && int(s.Index) <= len(in) && s.Mass != t.to(in[s.Index-1]) {
					o = append(o, 0)
				} else {
					o = append(o, int(ss[i+1].Index))
				}
			}
			m["out"] = o
			if ss[0].Index != -1 || ss[len(in)+1].Index != -1 {
				m["pad"] = 0
			}
			return
		}
		m["out"] = t.all(a)
		m["pad"] = intact(whole)
	})
	if op == "median" && len(in)%2 == 0 && !t.lin {
		return // the mean of two extreme values is not in the table
	}
	out.Put(m)
}

func all(t table, in []int, rng *rand.Rand) {
	for k := 1; k <= len(in); k++ {
		if len(in) < 7 || rng.Intn(len(in)) < 3 || k == len(in) {
			do(t, "select", in, k)
		}
	}
	do(t, "sort", in, 0)
	do(t, "median", in, 0)
	do(t, "quartile", in, 0)
	do(t, "stars", in, 0)
	if len(in) > 1 {
		do(t, "part", in, 0)
	}
}

// images
func filter(t table, w int, in []int, line bool) {
	op := "filter"
	if line {
		op = "line"
	}
	_, d := padded(t, in)
	whole, o := padded(t, in)
	for i := range o {
		o[i] = -999.5
	}
	before := append([]float32{}, d...)
	m := vlib.M{"op": op, "in": in, "w": w, "panic": "", "pad": 1, "same": 1, "out": []int{}, "z": -7}
	vlib.Current(m)
	m["panic"] = vlib.Try(func() {
		if line {
			median.MedianFilterLine3x3PureGo(o, d, int32(w))
		} else {
			median.MedianFilter3x3(o, d, int32(w))
		}
	})
	for i := range d {
		if d[i] != before[i] {
			m["same"] = 0
		}
	}
	m["out"], m["pad"] = t.all(o), intact(whole)
	out.Put(m)
}

func randRanks(rng *rand.Rand, n, max int) []int {
	in := make([]int, n)
	kind := rng.Intn(6)
	v := 1 + rng.Intn(max)
	if kind == 0 {
		v = 1 + rng.Intn(2)
	}
	for i := range in {
		in[i] = 1 + rng.Intn(v)
		switch kind {
		case 1: // ascending
			in[i] = 1 + i*max/(n+1)
		case 2: // descending
			in[i] = 1 + (n-1-i)*max/(n+1)
		case 3: // organ pipe
			in[i] = 1 + minInt(i, n-1-i)*max/(n+1)
		}
	}
	if kind == 4 { // nearly sorted
		for i := range in {
			in[i] = 1 + i*max/(n+1)
		}
		for j := 0; j < 2; j++ {
			a, b := rng.Intn(n), rng.Intn(n)
			in[a], in[b] = in[b], in[a]
		}
	}
	return in
}
func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func tab(rng *rand.Rand) (table, int) {
	if rng.Intn(2) == 0 {
		return table{false, 0}, len(extreme)
	}
	return table{true, float32(rng.Intn(5)-2) * 1000}, 200
}

func main() {
	out = vlib.NewOut()
	vlib.Watchdog(60e9)
	defer out.Close()
	rng := vlib.Rng(17)
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var in []int
			if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
				vlib.Fatal("%v", err)
			}
			t := table{true, 0}
			if rng.Intn(2) == 0 {
				t = table{false, 0}
			}
			all(t, in, rng)
		}
		// zero-one principle: all inputs of zeros and ones for the fixed-size medians, and in every column of an image
		for b := 0; b < 512; b++ {
			in := make([]int, 9)
			for i := range in {
				in[i] = 1 + (b>>i)&1
			}
			do(table{true, 0}, "fixed", in, 0)
			do(table{false, 0}, "fixed", in, 1)
		}
		for w := 8; w <= 24; w += 3 { // 3 rows, all 512 windows at every column residue
			for s := 0; s < 512; s++ {
				if (s*7+w)%6 != 0 && !vlib.Thorough() {
					continue
				}
				in := make([]int, 3*w)
				for i := range in {
					in[i] = 1 + rng.Intn(2)
				}
				for x := 0; x+2 < w; x += 3 {
					b := (s + x*73) % 512
					for j := 0; j < 9; j++ {
						in[j/3*w+x+j%3] = 1 + (b>>j)&1
					}
				}
				filter(table{true, 0}, w, in, false)
			}
		}
		return
	}
	n := 900
	if vlib.Thorough() {
		n = 9000
	}
	for i := 0; i < n; i++ {
		t, max := tab(rng)
		all(t, randRanks(rng, 1+rng.Intn(60), max), rng)
		do(t, "fixed", randRanks(rng, 9, max), 1)
		l := 1 + rng.Intn(20)
		if !t.lin {
			l |= 1
		}
		do(t, "fixed", randRanks(rng, l, max), 0)
	}
	// images of all small sizes
	mw, mh := 26, 6
	reps := 1
	if vlib.Thorough() {
		mw, mh, reps = 70, 9, 3
	}
	for w := 1; w <= mw; w++ {
		for h := 1; h <= mh; h++ {
			for r := 0; r < reps; r++ {
				t, max := tab(rng)
				in := randRanks(rng, w*h, max)
				filter(t, w, in, false)
				if w >= 3 && h == 3 {
					filter(t, w, in, true)
				}
			}
		}
	}
	// neighbourhoods by mask, one buffer for many positions
	for i := 0; i < n/4; i++ {
		w, h := 1+rng.Intn(12), 1+rng.Intn(10)
		rad := []int{5, 10, 15, 20, 30, 27}[rng.Intn(6)]
		mask := star.CreateMask(int32(w), float32(rad)/10)
		mi := make([]int, len(mask))
		for j, o := range mask {
			mi[j] = int(o)
		}
		out.Put(vlib.M{"op": "mask", "w": w, "k": rad, "out": mi, "panic": "", "pad": 1})
		in := randRanks(rng, w*h, 200)
		t := table{true, 0}
		_, d := padded(t, in)
		buf := make([]float32, len(mask))
		for j := 0; j < 6; j++ {
			p := rng.Intn(w * h)
			if j == 1 {
				p = 0
			}
			if j == 2 {
				p = w*h - 1
			}
			m := vlib.M{"op": "gather", "in": in, "k": p + 1, "mask": mi, "r": 0, "same": 1, "panic": "", "pad": 1}
			vlib.Current(m)
			m["panic"] = vlib.Try(func() { m["r"] = t.from2(median.GatherAndMedian(d, int32(p), mask, buf)) })
			for q := range d {
				if d[q] != t.to(in[q]) {
					m["same"] = 0
				}
			}
			out.Put(m)
		}
	}
}
