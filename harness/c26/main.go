// C26: records gaussian blurs and unsharp masks.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

const S = 100

type step struct {
	T  string `json:"t"`
	S  int    `json:"s"`
	G  int    `json:"g"`
	Th int    `json:"th"`
}
type scen struct {
	W int32   `json:"w"`
	H int32   `json:"h"`
	F [][]int `json:"f"`
	O step    `json:"o"`
}

var out *vlib.Out
var count int

func op(s step) ops.Operator {
	sg, g, th := float32(s.S)/10, float32(s.G)/4, float32(s.Th)/10
	var o ops.Operator
	switch s.T {
	case "blur":
		o = stretch.NewOpGaussianBlur(sg)
	case "usm":
		o = stretch.NewOpUnsharpMask(sg, g, th)
	case "husm":
		o = hsl.NewOpHSLUnsharpMask(sg, g, th)
	default:
		vlib.Fatal("step %s", s.T)
	}
	if count%3 == 0 {
		b, err := json.Marshal(o)
		if err != nil {
			vlib.Fatal("%v", err)
		}
		var t struct{ Type string }
		json.Unmarshal(b, &t)
		o = ops.GetOperatorFactory(t.Type)()
		if err := json.Unmarshal(b, o); err != nil {
			vlib.Fatal("%v", err)
		}
	}
	return o
}

func ints(f *fits.Image) [][]int {
	px := int(f.Naxisn[0] * f.Naxisn[1])
	r := [][]int{}
	for i := 0; i+px <= len(f.Data); i += px {
		r = append(r, vlib.FixAll(f.Data[i:i+px], S))
	}
	return r
}

func clone(f *fits.Image, id int) *fits.Image {
	g := fits.NewImageFromNaxisn(append([]int32{}, f.Naxisn...), append([]float32{}, f.Data...))
	g.ID = id
	return g
}

// do applies the steps to n frames of the same pixels at the same time and records each step
func do(f0 *fits.Image, steps []step, n int) {
	fs := make([]*fits.Image, n)
	for i := range fs {
		fs[i] = clone(f0, 3+i)
	}
	for _, s := range steps {
		count++
		vlib.Current(vlib.M{"o": s, "n": f0.Naxisn})
		was := make([]*fits.Image, n)
		ins := make([]ops.Promise, n)
		for i, f := range fs {
			f := f
			was[i] = clone(f, 0)
			if count%2 == 0 {
				f.Stats.Max() // have it know its statistics
				f.Stats.Location()
			}
			ins[i] = func() (*fits.Image, error) { return f, nil }
		}
		c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
		var ps []ops.Promise
		var err error
		p := vlib.Try(func() { ps, err = op(s).MakePromises(ins, c) })
		if p != "" || err != nil || len(ps) != n {
			vlib.Fatal("promises %s %v", p, err)
		}
		recs := make([]vlib.M, n)
		gs := make([]*fits.Image, n)
		var wg sync.WaitGroup
		for i := range ps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				m := vlib.M{"o": s, "w": f0.Naxisn[0], "h": f0.Naxisn[1], "a": ints(was[i]), "g": [][]int{}, "eq": [][]int{}, "err": "", "same": true}
				m["panic"] = vlib.Try(func() {
					g, err := ps[i]()
					m["err"] = vlib.ErrStr(err)
					if err != nil {
						return
					}
					if g == nil || len(g.Data) != len(was[i].Data) || !fits.EqualInt32Slice(g.Naxisn, was[i].Naxisn) || g.ID != 3+i {
						m["same"] = false
						return
					}
					gs[i] = g
					m["g"] = ints(g)
					eq := clone(g, 0)
					mx := g.Data[0]
					for k, v := range g.Data {
						eq.Data[k] = 0
						if math.Float32bits(v) == math.Float32bits(was[i].Data[k]) {
							eq.Data[k] = 1.0 / S
						}
						if v > mx {
							mx = v
						}
					}
					m["eq"] = ints(eq)
					m["same"] = mx != mx || g.Stats.Max() == mx
				})
				recs[i] = m
			}(i)
		}
		wg.Wait()
		stop := false
		for i, m := range recs {
			out.Put(m)
			stop = stop || gs[i] == nil
		}
		if stop {
			return
		}
		fs = gs
	}
}

func random(r *rand.Rand) (*fits.Image, []step, int) {
	w, h := int32(1+r.Intn(14)), int32(1+r.Intn(12))
	n := []int32{w, h}
	px := int(w * h)
	switch r.Intn(4) {
	case 0:
		n, px = append(n, 3), px*3
	case 1:
		if k := r.Intn(4); k > 0 {
			n, px = append(n, int32(k)), px*k
		}
	}
	base, noise := r.Intn(40000)-5000, 1+r.Intn(5000)
	data := make([]float32, px)
	for i := range data {
		v := base + r.Intn(noise)
		if r.Intn(15) == 0 {
			v += r.Intn(50000)
		}
		if i >= int(w*h) { // planes differ
			v += 7000
		}
		data[i] = float32(float64(v) / S)
	}
	sig := []int{2, 3, 5, 8, 8, 10, 10, 13, 13, 15, 15, 20, 20, 30, 50, 0, -10}
	steps := []step{}
	for k := 1 + r.Intn(3); k > 0; k-- {
		s := step{[]string{"blur", "usm", "usm", "husm"}[r.Intn(4)], sig[r.Intn(len(sig))], []int{0, 1, 2, 3, 4, 6, 8, 12, -2}[r.Intn(9)], []int{-30, -10, 0, 5, 10, 15, 30}[r.Intn(7)]}
		steps = append(steps, s)
	}
	return fits.NewImageFromNaxisn(n, data), steps, 1 + r.Intn(3)/2*2
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	vlib.Watchdog(60 * time.Second)
	out = vlib.NewOut()
	defer out.Close()
	r := vlib.Rng(26)
	if os.Args[1] == "replay" {
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var e scen
			if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
				vlib.Fatal("%v", err)
			}
			data := []float32{}
			for _, p := range e.F {
				for _, v := range p {
					data = append(data, float32(float64(v)/S))
				}
			}
			n := []int32{e.W, e.H}
			if len(e.F) > 1 {
				n = append(n, int32(len(e.F)))
			}
			do(fits.NewImageFromNaxisn(n, data), []step{e.O}, 1)
		}
		return
	}
	n := 1200
	if vlib.Thorough() {
		n = 12000
	}
	for i := 0; i < n; i++ {
		do(random(r))
	}
}
