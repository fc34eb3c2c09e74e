// C27: records horizontal and vertical debanding.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type step struct {
	P     int  `json:"p"`
	Win   int  `json:"win"`
	Sig   int  `json:"sig"` // tenths
	Horiz bool `json:"horiz"`
}
type scen struct {
	W int32 `json:"w"`
	H int32 `json:"h"`
	F []int `json:"f"`
	O step  `json:"o"`
}

var out *vlib.Out
var count int

func op(s step) ops.Operator {
	p, w, sg := float32(s.P), int32(s.Win), float32(s.Sig)/10
	var o ops.Operator
	if s.Horiz {
		o = pre.NewOpDebandHoriz(p, w, sg)
	} else {
		o = pre.NewOpDebandVert(p, w, sg)
	}
	if count%3 == 0 {
		b, err := json.Marshal(o)
		if err != nil {
			vlib.Fatal("%v", err)
		}
		var t struct{ Type string }
		json.Unmarshal(b, &t)
		o = ops.GetOperatorFactory(t.Type)()
		if err := json.Unmarshal(b, o); err != nil {
			vlib.Fatal("%v", err)
		}
	}
	return o
}

func ints(f *fits.Image, scale float64) [][]int {
	px := int(f.Naxisn[0] * f.Naxisn[1])
	r := [][]int{}
	for i := 0; i+px <= len(f.Data); i += px {
		r = append(r, vlib.FixAll(f.Data[i:i+px], scale))
	}
	return r
}

func clone(f *fits.Image, id int) *fits.Image {
	g := fits.NewImageFromNaxisn(append([]int32{}, f.Naxisn...), append([]float32{}, f.Data...))
	g.ID = id
	return g
}

// do applies the step to n frames at the same time and records each; the frames differ by a few units
func do(f0 *fits.Image, s step, n int) {
	count++
	vlib.Current(vlib.M{"o": s, "n": f0.Naxisn})
	fs, was, ins := make([]*fits.Image, n), make([]*fits.Image, n), make([]ops.Promise, n)
	for i := range fs {
		f := clone(f0, 3+i)
		for k := range f.Data {
			f.Data[k] += float32((i * (k % 5)))
		}
		fs[i], was[i] = f, clone(f, 0)
		if count%2 == 0 {
			f.Stats.Max() // have it know its statistics
			f.Stats.Location()
		}
		ins[i] = func() (*fits.Image, error) { return f, nil }
	}
	c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	var ps []ops.Promise
	var err error
	p := vlib.Try(func() { ps, err = op(s).MakePromises(ins, c) })
	if p != "" || err != nil || len(ps) != n {
		vlib.Fatal("promises %s %v", p, err)
	}
	recs := make([]vlib.M, n)
	var wg sync.WaitGroup
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			st := clone(was[i], 0).Stats
			thr := vlib.Fix(float64(st.Location())+float64(s.Sig)/10*float64(st.Scale()), 100)
			m := vlib.M{"o": s, "w": f0.Naxisn[0], "h": f0.Naxisn[1], "thr": thr, "a": ints(was[i], 1), "g": [][]int{}, "eq": [][]int{}, "err": "", "same": true}
			m["panic"] = vlib.Try(func() {
				g, err := ps[i]()
				m["err"] = vlib.ErrStr(err)
				if err != nil {
					return
				}
				if g == nil || len(g.Data) != len(was[i].Data) || !fits.EqualInt32Slice(g.Naxisn, was[i].Naxisn) || g.ID != 3+i {
					m["same"] = false
					return
				}
				m["g"] = ints(g, 10)
				eq := clone(g, 0)
				mx := g.Data[0]
				for k, v := range g.Data {
					eq.Data[k] = 0
					if math.Float32bits(v) == math.Float32bits(was[i].Data[k]) {
						eq.Data[k] = 1
					}
					if v > mx {
						mx = v
					}
				}
				m["eq"] = ints(eq, 1)
				m["same"] = mx != mx || g.Stats.Max() == mx
			})
			recs[i] = m
		}(i)
	}
	wg.Wait()
	for _, m := range recs {
		out.Put(m)
	}
}

func random(r *rand.Rand) (*fits.Image, step, int) {
	w, h := int32(1+r.Intn(12)), int32(1+r.Intn(12))
	n, px := []int32{w, h}, int(w*h)
	planes := 1
	if r.Intn(3) == 0 {
		planes = 1 + r.Intn(3)
		n = append(n, int32(planes))
	}
	data := make([]float32, px*planes)
	base, noise, byRow := 5+r.Intn(60), 1+r.Intn(40), r.Intn(2) == 0
	for c := 0; c < planes; c++ {
		gain := map[int]int{}
		for i := 0; i < px; i++ {
			x, y := i%int(w), i/int(w)
			k := x
			if byRow {
				k = y
			}
			if _, ok := gain[k]; !ok {
				gain[k] = []int{0, 0, 0, 5, 10, 20, 100}[r.Intn(7)]
				if r.Intn(12) == 0 {
					gain[k] = -base // dark line
				}
			}
			v := base + gain[k] + r.Intn(noise) + 10*c
			if gain[k] == -base && r.Intn(3) > 0 {
				v = 0
			}
			if r.Intn(20) == 0 {
				v += r.Intn(100)
			}
			if v > 240 {
				v = 240
			}
			data[c*px+i] = float32(v)
		}
	}
	sig := []int{0, 0, 5, 10, 10, 20, 30, -5}
	s := step{[]int{0, 1, 10, 25, 50, 50, 50, 66, 90, 99, 100, -3}[r.Intn(12)], []int{1, 2, 3, 4, 5, 6, 7, 9, 128, 0, -1}[r.Intn(11)], sig[r.Intn(len(sig))], r.Intn(2) == 0}
	return fits.NewImageFromNaxisn(n, data), s, 1 + r.Intn(3)/2*2
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	vlib.Watchdog(60 * time.Second)
	out = vlib.NewOut()
	defer out.Close()
	r := vlib.Rng(27)
	if os.Args[1] == "replay" {
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var e scen
			if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
				vlib.Fatal("%v", err)
			}
			data := []float32{}
			for _, v := range e.F {
				data = append(data, float32(v))
			}
			e.O.Sig *= 10
			do(fits.NewImageFromNaxisn([]int32{e.W, e.H}, data), e.O, 1)
		}
		return
	}
	n := 3000
	if vlib.Thorough() {
		n = 40000
	}
	for i := 0; i < n; i++ {
		do(random(r))
	}
}
