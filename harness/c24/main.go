// C24: records adjustments of hue, saturation and lightness and the conversions between colour spaces.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/lucasb-eyer/go-colorful"
	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

const S = 10000

type step struct {
	T string `json:"t"`
	A int    `json:"a"`
	B int    `json:"b"`
	C int    `json:"c"`
	D int    `json:"d"`
}

var out *vlib.Out
var viaJSON int

func op(s step) ops.Operator {
	f := func(v int, d float32) float32 { return float32(v) / d }
	var o ops.Operator
	switch s.T {
	case "neutral":
		o = hsl.NewOpHSLNeutralizeBackground(f(s.A, 10), f(s.B, 10))
	case "gamma":
		o = hsl.NewOpHSLSaturationGamma(f(s.A, float32(s.B)), f(s.D, 10))
	case "sat":
		o = hsl.NewOpHSLSelectiveSaturation(f(s.A, 1), f(s.B, 1), f(s.C, 4))
	case "rotate":
		o = hsl.NewOpHSLRotateHue(f(s.A, 1), f(s.B, 1), f(s.C, 1), f(s.D, 10))
	case "scnr":
		o = hsl.NewOpHSLSCNR(f(s.A, 4))
	case "lum":
		o = hsl.NewOpHSLApplyLum()
	case "toHSL":
		o = rgb.NewOpRGBToHSLuv()
	case "toRGB":
		o = rgb.NewOpHSLuvToRGB()
	default:
		vlib.Fatal("step %s", s.T)
	}
	viaJSON++
	if viaJSON%3 == 0 {
		b, err := json.Marshal(o)
		if err != nil {
			vlib.Fatal("%v", err)
		}
		var t struct{ Type string }
		json.Unmarshal(b, &t)
		o = ops.GetOperatorFactory(t.Type)()
		if err := json.Unmarshal(b, o); err != nil {
			vlib.Fatal("%v", err)
		}
	}
	return o
}

// one operator on all frames at the same time
func apply(s step, fs []*fits.Image, lum *fits.Image) (gs []*fits.Image, errs []string, panics string, spent bool) {
	gs, errs = make([]*fits.Image, len(fs)), make([]string, len(fs))
	pans := make([]string, len(fs))
	panics = vlib.Try(func() {
		c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
		c.LumFrame = lum
		ins := make([]ops.Promise, len(fs))
		for i := range fs {
			f := fs[i]
			ins[i] = func() (*fits.Image, error) { return f, nil }
		}
		ps, err := op(s).MakePromises(ins, c)
		if err != nil || len(ps) != len(fs) {
			for i := range errs {
				errs[i] = "promises: " + vlib.ErrStr(err)
			}
			return
		}
		var wg sync.WaitGroup
		for i := range ps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				pans[i] = vlib.Try(func() {
					g, err := ps[i]()
					gs[i], errs[i] = g, vlib.ErrStr(err)
				})
			}(i)
		}
		wg.Wait()
		spent = c.LumFrame == nil
	})
	for _, p := range pans {
		if p != "" {
			panics = p
		}
	}
	return
}

func clone(f *fits.Image) *fits.Image {
	g := fits.NewImageFromNaxisn(append([]int32{}, f.Naxisn...), append([]float32{}, f.Data...))
	g.ID = f.ID
	g.Exposure = f.Exposure
	return g
}
func u(v float64) int { return vlib.Fix(v, S) }
func eq(a, b float32) int {
	if math.Float32bits(a) == math.Float32bits(b) {
		return 1
	}
	return 0
}
func planes(f *fits.Image) int {
	if len(f.Naxisn) < 3 {
		return 1
	}
	return int(f.Naxisn[2])
}

// doSteps applies the steps one after another and records each
func doSteps(steps []step, fs []*fits.Image, lum *fits.Image) {
	for _, s := range steps {
		if stop := doStep(s, fs, lum); stop {
			return
		}
	}
}

func doStep(s step, fs []*fits.Image, lum0 *fits.Image) (stop bool) {
	vlib.Current(s)
	var lum *fits.Image
	grey := []float32{}
	if lum0 != nil {
		lum = clone(lum0)
		mn, mx := lum.Stats.Min(), lum.Stats.Max()
		for _, v := range lum.Data {
			if mx > mn {
				v = (v - mn) / (mx - mn)
			}
			if v > 1 { // a frame without contrast cannot be normalized
				v = 1
			}
			grey = append(grey, v)
		}
	}
	was := make([]*fits.Image, len(fs))
	recs := make([]vlib.M, len(fs))
	for i, f := range fs {
		was[i] = clone(f)
		m := vlib.M{"k": "step", "o": s, "planes": planes(f), "missized": false, "nolum": false, "loc": 0, "scale": 0, "px": [][]int{}, "err": "", "flat": 0, "stats": true, "spent": true}
		if planes(f) == 3 {
			st := stats.NewStatsForChannel(was[i].Data, f.Naxisn[0], 2, 3)
			m["loc"], m["scale"] = vlib.Fix32(st.Location(), S), vlib.Fix32(st.Scale(), 1e6)
		}
		if s.T == "lum" {
			m["nolum"] = lum == nil
			if lum != nil && planes(f) == 3 {
				m["missized"] = len(lum.Data)*3 != len(f.Data)
			}
		}
		f.Stats.Max() // have it know its statistics
		recs[i] = m
	}
	gs, errs, panics, spent := apply(s, fs, lum)
	for i, m := range recs {
		m["panic"], m["err"], m["spent"] = panics, errs[i], spent
		if panics != "" || errs[i] != "" || gs[i] == nil {
			stop = true
			if errs[i] == "" && panics == "" {
				m["flat"] = 1
			}
			out.Put(m)
			continue
		}
		g, a := gs[i], was[i]
		if len(g.Data) != len(a.Data) || !fits.EqualInt32Slice(g.Naxisn, a.Naxisn) || g.ID != a.ID {
			m["flat"] = 1
			out.Put(m)
			return true
		}
		mx := g.Data[0]
		for _, v := range g.Data {
			if v > mx {
				mx = v
			}
		}
		m["stats"] = g.Stats.Max() == mx
		fs[i] = g
		n := len(g.Data) / 3
		px := [][]int{}
		if planes(a) != 3 {
			n = len(g.Data)
		}
		for k := 0; k < n; k++ {
			if planes(a) != 3 {
				e := eq(a.Data[k], g.Data[k])
				px = append(px, []int{0, 0, 0, 0, 0, 0, e, e, e})
				continue
			}
			h, sa, l, h2, s2, l2 := a.Data[k], a.Data[k+n], a.Data[k+2*n], g.Data[k], g.Data[k+n], g.Data[k+2*n]
			x := []int{vlib.Fix32(h, 100), vlib.Fix32(sa, S), vlib.Fix32(l, S), vlib.Fix32(h2, 100), vlib.Fix32(s2, S), vlib.Fix32(l2, S), eq(h, h2), eq(sa, s2), eq(l, l2)}
			if s.T == "scnr" {
				r, gr, b := colorful.HSLuv(float64(h), float64(sa), float64(l)).LinearRgb()
				gw := gr // lightness of the colour with its green reduced, to compare colours of the same lightness
				if m := (r + b) / 2; gr > m {
					gw = gr - (gr-m)*float64(s.A)/4
				}
				_, _, lw := colorful.LinearRgb(r, gw, b).HSLuv()
				r1, g1, b1 := colorful.HSLuv(float64(h2), float64(s2), lw).LinearRgb()
				x = append(x, u(r), u(gr), u(b), u(r1), u(g1), u(b1))
			}
			if s.T == "lum" && k < len(grey) {
				x = append(x, vlib.Fix32(grey[k], S))
			}
			px = append(px, x)
		}
		m["px"] = px
		out.Put(m)
	}
	return
}

// to the other colour space and back
func trip(k string, f *fits.Image) {
	a := clone(f)
	first, second := step{T: "toHSL"}, step{T: "toRGB"}
	if k == "back" {
		first, second = second, first
	}
	vlib.Current(k)
	m := vlib.M{"k": k, "planes": planes(f), "px": [][]int{}, "err": "", "panic": ""}
	gs, errs, p, _ := apply(first, []*fits.Image{f}, nil)
	m["panic"], m["err"] = p, errs[0]
	if p == "" && errs[0] == "" {
		b := clone(gs[0])
		hs, errs, p, _ := apply(second, gs, nil)
		m["panic"], m["err"] = p, errs[0]
		if p == "" && errs[0] == "" && planes(f) == 3 {
			n := len(a.Data) / 3
			px := [][]int{}
			for i := 0; i < n; i++ {
				x := []int{}
				for j, g := range []*fits.Image{a, b, hs[0]} {
					for c := 0; c < 3; c++ {
						d := float64(S)
						if c == 0 && (k == "trip") == (j == 1) {
							d = 100 // hue
						}
						x = append(x, vlib.Fix32(g.Data[i+c*n], d))
					}
				}
				px = append(px, x)
			}
			m["px"] = px
		}
	}
	out.Put(m)
}

func frame(w, h int32, px [][3]float32) *fits.Image {
	n := int(w * h)
	d := make([]float32, 3*n)
	for i := 0; i < n; i++ {
		p := px[i%len(px)]
		d[i], d[i+n], d[i+2*n] = p[0], p[1], p[2]
	}
	f := fits.NewImageFromNaxisn([]int32{w, h, 3}, d)
	f.Exposure = 10
	return f
}

var lattice [][3]float32

func random(r *rand.Rand) *fits.Image {
	sizes := [][2]int32{{1, 1}, {3, 1}, {7, 9}, {8, 8}, {13, 5}, {16, 12}, {65, 1}, {31, 9}}
	sz := sizes[r.Intn(len(sizes))]
	px := make([][3]float32, sz[0]*sz[1])
	kind := r.Intn(4)
	l0 := r.Float32()
	for i := range px {
		px[i] = [3]float32{r.Float32() * 360, r.Float32(), r.Float32()}
		if kind == 1 { // same lightness everywhere
			px[i][2] = l0
		}
		if kind == 2 { // dark sky with some bright spots
			px[i][2] = 0.1 + 0.02*r.Float32()
			if r.Intn(6) == 0 {
				px[i][2] = r.Float32()
			}
		}
		if kind == 3 && r.Intn(2) == 0 {
			px[i][1] = float32(r.Intn(2))
		}
	}
	f := frame(sz[0], sz[1], px)
	f.ID = r.Intn(100)
	return f
}

func randStep(r *rand.Rand) step {
	d := r.Intn(60) - 30
	switch r.Intn(6) {
	case 0:
		return step{"neutral", r.Intn(40) - 15, r.Intn(40) - 10, 0, 0}
	case 1:
		g := [][2]int{{1, 2}, {1, 3}, {2, 1}, {3, 1}, {2, 3}, {3, 2}, {1, 1}, {0, 1}, {-2, 1}}[r.Intn(9)]
		return step{"gamma", g[0], g[1], 0, d}
	case 2:
		return step{"sat", r.Intn(361), r.Intn(361), r.Intn(14) - 5, 0}
	case 3:
		return step{"rotate", r.Intn(361), r.Intn(361), r.Intn(601) - 300, d}
	case 4:
		return step{"scnr", r.Intn(5), 0, 0, 0}
	}
	return step{"lum", 0, 0, 0, 0}
}

func mono(r *rand.Rand, w, h int32) *fits.Image {
	d := make([]float32, w*h)
	kind := r.Intn(3)
	for i := range d {
		d[i] = 100 + 1000*r.Float32()
		if kind == 1 {
			d[i] = r.Float32()
		}
		if kind == 2 {
			d[i] = 0.25
		}
	}
	return fits.NewImageFromNaxisn([]int32{w, h}, d)
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	mode := os.Args[1]
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(10 * time.Minute)
	r := vlib.Rng(24)
	for _, h := range []float32{0, 45, 100.5, 145, 210, 294, 340} {
		for _, s := range []float32{0, 0.25, 0.81, 1} {
			for _, l := range []float32{0, 0.1, 0.3, 0.55, 0.91, 1} {
				lattice = append(lattice, [3]float32{h, s, l})
			}
		}
	}
	if mode == "replay" {
		fi, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fi)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		n := 0
		for sc.Scan() {
			var s struct{ Steps []step }
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			n++
			f := frame(12, 14, lattice)
			doSteps(s.Steps, []*fits.Image{f}, mono(r, 12, 14))
		}
		return
	}
	n := 400
	if vlib.Thorough() {
		n = 8000
	}
	for i := 0; i < n; i++ {
		fs := []*fits.Image{random(r)}
		var lum *fits.Image
		if r.Intn(8) > 0 {
			lum = mono(r, fs[0].Naxisn[0], fs[0].Naxisn[1])
		}
		steps := []step{randStep(r), randStep(r), randStep(r)}
		switch r.Intn(12) {
		case 0: // grey frames
			fs[0] = mono(r, 5, 6)
		case 1: // a luminance of another size
			lum = mono(r, 5, 8)
		case 2, 3, 4: // several frames; they cannot share a luminance
			for k := 0; k < 3; k++ {
				fs = append(fs, random(r))
			}
			for k := range steps {
				for steps[k].T == "lum" {
					steps[k] = randStep(r)
				}
			}
		}
		doSteps(steps, fs, lum)
	}
	// conversions
	var grid [][3]float32
	for x := 0; x < 6; x++ {
		for y := 0; y < 6; y++ {
			for z := 0; z < 6; z++ {
				grid = append(grid, [3]float32{float32(x) / 5, float32(y) / 5, float32(z) / 5})
			}
		}
	}
	trip("trip", frame(12, 18, grid))
	trip("back", frame(12, 14, lattice))
	trip("trip", mono(r, 4, 4))
	trip("back", mono(r, 4, 4))
	for i := 0; i < n/4; i++ {
		f := random(r)
		trip("back", f)
		g := random(r)
		w := int(g.Naxisn[0] * g.Naxisn[1])
		for k := 0; k < w; k++ {
			g.Data[k] = r.Float32()
			if r.Intn(4) == 0 { // grey
				g.Data[k+w], g.Data[k+2*w] = g.Data[k], g.Data[k]
			}
		}
		g.Stats.Clear()
		trip("trip", g)
	}
}
