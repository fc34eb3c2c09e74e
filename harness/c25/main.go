// C25: records colour balances of frames with three channels.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

const U = 20000

type st struct {
	X int32 `json:"x"`
	Y int32 `json:"y"`
	R int   `json:"r"`
}
type job struct {
	W      int32   `json:"w"`
	H      int32   `json:"h"`
	F      [][]int `json:"f"`
	Stars  []st    `json:"stars"`
	Block  int32   `json:"block"`
	Border int     `json:"border"`
	Bright int     `json:"bright"`
	Dim    int     `json:"dim"`
	Dark   []int   `json:"dark"`
	Light  []int   `json:"light"`
}

var out *vlib.Out
var count int

func frame(e job, planes int) *fits.Image {
	data := []float32{}
	for c := 0; c < planes; c++ {
		for _, v := range e.F[c%3] {
			data = append(data, float32(float64(v)/U))
		}
	}
	n := []int32{e.W, e.H}
	if planes > 1 {
		n = append(n, int32(planes))
	}
	f := fits.NewImageFromNaxisn(n, data)
	for _, s := range e.Stars {
		i := s.Y*e.W + s.X
		f.Stars = append(f.Stars, star.Star{Index: i, Value: 1, X: float32(s.X), Y: float32(s.Y), Mass: 1, HFR: float32(float64(s.R) / 750)})
	}
	return f
}

func do(e job, planes int) {
	count++
	vlib.Current(e)
	tint := func(t []int) fits.RGB {
		return fits.RGB{R: float32(t[0]) / 8, G: float32(t[1]) / 8, B: float32(t[2]) / 8}
	}
	var o ops.Operator = rgb.NewOpRGBBalance(e.Block, float32(e.Border)/8, float32(e.Bright)/8, float32(e.Dim)/8, tint(e.Dark), tint(e.Light))
	if count%3 == 0 {
		b, err := json.Marshal(o)
		if err != nil {
			vlib.Fatal("%v", err)
		}
		o = ops.GetOperatorFactory("rgbBalance")()
		if err := json.Unmarshal(b, o); err != nil {
			vlib.Fatal("%v", err)
		}
	}
	// the same operator on several frames at the same time
	n := 1
	if count%4 == 0 {
		n = 3
	}
	fs, ins := make([]*fits.Image, n), make([]ops.Promise, n)
	for i := range fs {
		f := frame(e, planes)
		f.ID = 7 + i
		if count%2 == 0 {
			f.Stats.Max() // have it know its statistics
			f.Stats.Location()
		}
		fs[i] = f
		ins[i] = func() (*fits.Image, error) { return f, nil }
	}
	c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	var ps []ops.Promise
	var err error
	p := vlib.Try(func() { ps, err = o.MakePromises(ins, c) })
	if p != "" || err != nil || len(ps) != n {
		out.Put(vlib.M{"e": e, "planes": planes, "panic": p, "err": "promises: " + vlib.ErrStr(err), "g": [][]int{}, "same": true})
		return
	}
	recs := make([]vlib.M, n)
	var wg sync.WaitGroup
	for i := range ps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := vlib.M{"e": e, "planes": planes, "err": "", "g": [][]int{}, "same": true}
			m["panic"] = vlib.Try(func() {
				g, err := ps[i]()
				m["err"] = vlib.ErrStr(err)
				if err != nil {
					return
				}
				if g == nil || len(g.Data) != len(fs[i].Data) || len(g.Naxisn) != 3 || g.Naxisn[0] != e.W || g.Naxisn[1] != e.H || g.Naxisn[2] != 3 || g.ID != 7+i || len(g.Stars) != len(e.Stars) {
					m["same"] = false
					return
				}
				px := int(e.W * e.H)
				ch := [][]int{}
				mx := g.Data[0]
				for _, v := range g.Data {
					if v > mx {
						mx = v
					}
				}
				for k := 0; k < 3; k++ {
					ch = append(ch, vlib.FixAll(g.Data[k*px:(k+1)*px], U))
				}
				m["g"] = ch
				m["same"] = mx != mx || g.Stats.Max() == mx
			})
			recs[i] = m
		}(i)
	}
	wg.Wait()
	for _, m := range recs {
		out.Put(m)
	}
}

func random(r *rand.Rand) (job, int) {
	e := job{W: int32(5 + r.Intn(8)), H: int32(4 + r.Intn(7)), Stars: []st{}}
	n := int(e.W * e.H)
	ground := make([]int, n)
	base, noise := 300+r.Intn(1500), 1+r.Intn(400)
	for i := range ground {
		ground[i] = base + r.Intn(noise)
	}
	for k := r.Intn(3); k > 0; k-- { // darker spots
		x, y, s := r.Intn(int(e.W)), r.Intn(int(e.H)), 1+r.Intn(4)
		d := r.Intn(base)
		for j := y; j < y+s && j < int(e.H); j++ {
			for i := x; i < x+s && i < int(e.W); i++ {
				ground[j*int(e.W)+i] -= ground[j*int(e.W)+i] * d / base
			}
		}
	}
	ns := r.Intn(7)
	for k := 0; k < ns; k++ {
		s := st{int32(r.Intn(int(e.W))), int32(r.Intn(int(e.H))), 300 + 50*r.Intn(50)}
		peak := 2000 + r.Intn(12000)
		for j := -2; j <= 2; j++ {
			for i := -2; i <= 2; i++ {
				x, y := int(s.X)+i, int(s.Y)+j
				if x >= 0 && x < int(e.W) && y >= 0 && y < int(e.H) {
					ground[y*int(e.W)+x] += peak * 1000 / (1000 + 700*(i*i+j*j)) / 2
				}
			}
		}
		e.Stars = append(e.Stars, s)
	}
	for c := 0; c < 3; c++ {
		g, a := 4+r.Intn(10), r.Intn(1500)
		ch := make([]int, n)
		for i, v := range ground {
			v = a + v*g/8 + r.Intn(1+noise/4)
			if r.Intn(40) == 0 {
				v += r.Intn(3000)
			}
			if v > U {
				v = U
			}
			ch[i] = v
		}
		if r.Intn(25) == 0 {
			for i := range ch {
				ch[i] = a
			}
		}
		e.F = append(e.F, ch)
	}
	pick := func(vs ...int) int { return vs[r.Intn(len(vs))] }
	e.Block = int32(pick(1, 1, 2, 2, 2, 3, 3, 4, 5, 0, -1))
	e.Border = pick(0, 0, 0, 1, 1, 2, 3, 4, 6, 8, -1, 9)
	e.Bright = pick(0, 0, 0, 1, 2, 3, 4, 8, -2, 12)
	e.Dim = pick(0, 0, 0, 1, 2, 4, 6, 7, -2, 12)
	tint := func() []int {
		if r.Intn(2) == 0 {
			return []int{8, 8, 8}
		}
		return []int{5 + r.Intn(6), 5 + r.Intn(6), 5 + r.Intn(6)}
	}
	e.Dark, e.Light = tint(), tint()
	planes := 3
	if r.Intn(20) == 0 {
		planes = []int{1, 2, 4, 6}[r.Intn(4)]
	}
	return e, planes
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	vlib.Watchdog(120 * time.Second)
	out = vlib.NewOut()
	defer out.Close()
	if os.Args[1] == "replay" {
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var e job
			if err := json.Unmarshal(sc.Bytes(), &e); err != nil {
				vlib.Fatal("%v", err)
			}
			do(e, 3)
		}
		return
	}
	r := vlib.Rng(25)
	n := 1800
	if vlib.Thorough() {
		n = 20000
	}
	for i := 0; i < n; i++ {
		do(random(r))
	}
}
