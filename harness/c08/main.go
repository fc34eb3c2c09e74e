// C08: applies processing steps to frames, queries statistics in between, records pixels and answers.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"math"
	"math/rand"
	"os"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type enc struct{ base, k float64 }

func hash(d []float32) string {
	h := fnv.New64a()
	for _, v := range d {
		b := math.Float32bits(v)
		h.Write([]byte{byte(b), byte(b >> 8), byte(b >> 16), byte(b >> 24)})
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

func finite(d []float32) bool {
	for _, v := range d {
		if math.IsNaN(float64(v)) || math.IsInf(float64(v), 0) || math.Abs(float64(v)) > 1e12 {
			return false
		}
	}
	return len(d) > 0
}

func encode(d []float32) (e enc, q []int) {
	mn, mx := math.Inf(1), math.Inf(-1)
	for _, v := range d {
		mn, mx = math.Min(mn, float64(v)), math.Max(mx, float64(v))
	}
	lim := 4000.0
	if len(d) > 49 {
		lim = 800
	}
	e.base = mn
	// float32 rounding of values with a large offset must stay below a tenth of a unit
	r := math.Max(mx-mn, math.Max(math.Abs(mn), math.Abs(mx))*lim*1e-5)
	if r == 0 {
		r = 1
	}
	e.k = lim / r
	q = make([]int, len(d))
	for i, v := range d {
		q[i] = vlib.Fix(float64(v)-e.base, e.k)
	}
	return e, q
}

type world struct {
	rng  *rand.Rand
	fs   []*fits.Image
	es   []enc
	c    *ops.Context
	ev   []vlib.M
	dead bool
	rl   float64
	rs   float64
	sel  bool
	gauss bool
}

func (w *world) est() int {
	switch stats.LSEstimator {
	case stats.LSEMeanStdDev:
		return 0
	case stats.LSEMedianMAD:
		return 1
	}
	if !w.gauss {
		return 3
	}
	return 2
}

func (w *world) add(f *fits.Image) {
	e, q := encode(f.Data)
	nw := 0
	if len(w.ev) == 0 {
		nw = 1
	}
	f.ID = len(w.fs)
	w.fs, w.es = append(w.fs, f), append(w.es, e)
	w.ev = append(w.ev, vlib.M{"new": nw, "k": "frame", "w": f.Naxisn[0], "q": q, "dh": hash(f.Data), "est": w.est()})
}

var names = []string{"min", "max", "mean", "sd", "loc", "scale", "noise"}

func (w *world) query(f int, which []string) {
	if w.dead {
		return
	}
	s, e := w.fs[f].Stats, w.es[f]
	var v []vlib.M
	for _, n := range which {
		if (n == "loc" || n == "scale") && w.est() == 1 && len(w.fs[f].Data)%2 == 0 {
			continue // sampled median is not determined by the pixels
		}
		var x int
		switch n {
		case "min":
			x = vlib.Fix(float64(s.Min())-e.base, e.k)
		case "max":
			x = vlib.Fix(float64(s.Max())-e.base, e.k)
		case "mean":
			x = vlib.Fix(float64(s.Mean())-e.base, e.k)
		case "sd":
			x = vlib.Fix(float64(s.StdDev()), e.k)
		case "loc":
			x = vlib.Fix(float64(s.Location())-e.base, e.k)
		case "scale":
			x = vlib.Fix(float64(s.Scale()), e.k)
		case "noise":
			x = vlib.Fix(float64(s.Noise()), e.k)
		}
		v = append(v, vlib.M{"s": n, "v": x})
	}
	if len(v) == 0 {
		return
	}
	w.ev = append(w.ev, vlib.M{"new": 0, "k": "query", "f": f + 1, "v": v, "dh": hash(w.fs[f].Data)})
}

func (w *world) randQuery(f int) {
	n := 1 + w.rng.Intn(5)
	var which []string
	for i := 0; i < n; i++ {
		which = append(which, names[w.rng.Intn(len(names))])
	}
	w.query(f, which)
}

// records the step that was applied to frame f with result r
func (w *world) did(name string, f int, r *fits.Image, matched int) {
	if r == nil || !finite(r.Data) {
		w.dead = true
		return
	}
	w.fs[f] = r
	var q []int
	w.es[f], q = encode(r.Data)
	dhs := make([]string, len(w.fs))
	for i, g := range w.fs {
		dhs[i] = hash(g.Data)
	}
	rl, rs := vlib.NaNCode, vlib.NaNCode
	if matched >= 1 {
		rl = vlib.Fix(w.rl-w.es[f].base, w.es[f].k)
	}
	if matched == 2 {
		rs = vlib.Fix(w.rs, w.es[f].k)
	}
	est := w.est()
	w.ev = append(w.ev, vlib.M{"new": 0, "k": "op", "op": name, "f": f + 1, "w": r.Naxisn[0], "q": q,
		"dh": hash(r.Data), "dhs": dhs, "est": est, "rl": rl, "rs": rs})
}

func (w *world) apply(name string, f int, matched int, fun func(f *fits.Image) (*fits.Image, error)) {
	if w.dead {
		return
	}
	var r *fits.Image
	var err error
	if p := vlib.Try(func() { r, err = fun(w.fs[f]) }); p != "" || err != nil {
		w.dead = true // not a matter of statistics; the pixels may be anything now
		return
	}
	w.did(name, f, r, matched)
}

func (w *world) affine(f int, a, b float32) {
	w.apply("scaleOffset", f, 0, func(g *fits.Image) (*fits.Image, error) {
		return pre.NewOpScaleOffset(a, b).Apply(g, w.c)
	})
}

func (w *world) refsel(f int) {
	if w.dead || w.sel || len(w.fs[f].Data)%2 == 0 {
		return
	}
	var ps []ops.Promise
	for i := range w.fs {
		g := w.fs[i]
		ps = append(ps, func() (*fits.Image, error) { return g, nil })
	}
	op := ref.NewOpSelectReference(ref.SRHisto, fmt.Sprintf("%d", f), pre.NewOpStarDetectDefault())
	outs, err := op.MakePromises(ps, w.c)
	if err != nil {
		vlib.Fatal("select: %v", err)
	}
	for _, o := range outs {
		if _, err := o(); err != nil {
			vlib.Fatal("select: %v", err)
		}
	}
	w.query(f, []string{"loc", "scale"})
	w.rl, w.rs = float64(w.fs[f].Stats.Location()), float64(w.fs[f].Stats.Scale())
	w.sel = true
}

func (w *world) match(f int) {
	if !w.sel || w.dead || len(w.fs[f].Data)%2 == 0 {
		return
	}
	mode := post.HistoNormMode(post.HNMLocation)
	m := 1
	if w.rng.Intn(2) == 0 {
		mode, m = post.HNMLocScale, 2
	}
	w.apply("match", f, m, func(g *fits.Image) (*fits.Image, error) {
		return post.NewOpMatchHistogram(mode).Apply(g, w.c)
	})
}

func (w *world) pick() float32 { return []float32{0.5, 2, -1, 1.5, -0.25, 3}[w.rng.Intn(6)] }

// steps that replace pixels
func (w *world) replace(f int, kind int) {
	rng, c := w.rng, w.c
	P := func(x ...float32) float32 { return x[rng.Intn(len(x))] }
	type fn = func(g *fits.Image) (*fits.Image, error)
	mono := []struct {
		n string
		f fn
	}{
		{"normalize", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpNormalizeRange().Apply(g, c) }},
		{"badpixel", func(g *fits.Image) (*fits.Image, error) {
			return pre.NewOpBadPixel(1+rng.Float32(), 1+rng.Float32(), nil).Apply(g, c)
		}},
		{"badpixelbayer", func(g *fits.Image) (*fits.Image, error) {
			return pre.NewOpBadPixel(1, 1, pre.NewOpDebayer([]string{"R", "G", "B"}[rng.Intn(3)], "RGGB")).Apply(g, c)
		}},
		{"debayer", func(g *fits.Image) (*fits.Image, error) {
			if g.Naxisn[0] < 4 || g.Naxisn[1] < 4 {
				return g, nil
			}
			return pre.NewOpDebayer([]string{"R", "G", "B"}[rng.Intn(3)], "RGGB").Apply(g, c)
		}},
		{"bin", func(g *fits.Image) (*fits.Image, error) {
			if g.Naxisn[0] < 4 || g.Naxisn[1] < 4 {
				return g, nil
			}
			return pre.NewOpBin(2).Apply(g, c)
		}},
		{"blur", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpGaussianBlur(P(0.6, 0.9, 0)).Apply(g, c) }},
		{"usm", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpUnsharpMask(P(0.6, 0.8), P(1.5, 0, 0.5), P(0, 0.1)).Apply(g, c) }},
		{"debandH", func(g *fits.Image) (*fits.Image, error) { return pre.NewOpDebandHoriz(P(50, 20), 3, P(3, 1)).Apply(g, c) }},
		{"debandV", func(g *fits.Image) (*fits.Image, error) { return pre.NewOpDebandVert(P(50, 20), 3, P(3, 1)).Apply(g, c) }},
		{"calibrate", func(g *fits.Image) (*fits.Image, error) {
			cc := ops.NewContext(ioutil.Discard, 1000, stats.LSEstimator)
			dk := fits.NewImageFromNaxisn(g.Naxisn, nil)
			fl := fits.NewImageFromNaxisn(g.Naxisn, nil)
			for i := range dk.Data {
				dk.Data[i], fl.Data[i] = rng.Float32(), 1+rng.Float32()
			}
			if rng.Intn(3) > 0 {
				cc.DarkFrame = dk
			}
			if cc.DarkFrame == nil || rng.Intn(2) > 0 {
				cc.FlatFrame = fl
			}
			return pre.NewOpCalibrate("", "").Apply(g, cc)
		}},
		{"gamma", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpGamma(P(1.7, 1, 0.5)).Apply(g, c) }},
		{"gammaPP", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpGammaPP(P(1.7, 1, 0.6), P(0.2, 0, 1)).Apply(g, c) }},
		{"midtones", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpMidtones(P(0.3, 0, 2), P(0.1, 0)).Apply(g, c) }},
		{"scaleBlack", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpScaleBlack(P(0.2, 0, 0.05)).Apply(g, c) }},
		{"stretch", func(g *fits.Image) (*fits.Image, error) { return stretch.NewOpStretchIterative(0.2, 0.3).Apply(g, c) }},
		{"setBlackWhite", func(g *fits.Image) (*fits.Image, error) {
			g.SetBlackWhite(P(5, 1), P(5, 1), ioutil.Discard)
			return g, nil
		}},
		{"shiftBlack", func(g *fits.Image) (*fits.Image, error) { g.ShiftBlackToMove(P(0.5, 0.3), 0.3); return g, nil }},
		{"background", func(g *fits.Image) (*fits.Image, error) {
			if g.Naxisn[0] < 8 || g.Naxisn[1] < 8 {
				return g, nil
			}
			return pre.NewOpBackExtract(4, 4, 1.5, 0, "").Apply(g, c)
		}},
		{"project", func(g *fits.Image) (*fits.Image, error) {
			return g.Project(g.Naxisn, star.Transform2D{A: 1, E: 1, C: P(0.5, 0, 1), F: P(-0.25, 0)}, g.Data[0])
		}},
		{"starDetect", func(g *fits.Image) (*fits.Image, error) { return pre.NewOpStarDetect(2, 5, 0, 2, "").Apply(g, c) }},
	}
	rgbs := []struct {
		n string
		f fn
	}{
		{"normalize", mono[0].f},
		{"toHSLuv", func(g *fits.Image) (*fits.Image, error) { return rgb.NewOpRGBToHSLuv().Apply(g, c) }},
		{"toRGB", func(g *fits.Image) (*fits.Image, error) { return rgb.NewOpHSLuvToRGB().Apply(g, c) }},
		{"hslScaleOffset", func(g *fits.Image) (*fits.Image, error) {
			return hsl.NewOpHSLScaleOffsetChannel(rng.Intn(3), P(0.5, 1, 0, 2), P(0.1, 0, -0.2)).Apply(g, c)
		}},
		{"hslNeutral", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLNeutralizeBackground(P(0.2, 0), P(0.8, 1)).Apply(g, c) }},
		{"hslSatGamma", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLSaturationGamma(P(1.7, 1), P(0.2, 0)).Apply(g, c) }},
		{"hslSelSat", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLSelectiveSaturation(0, P(300, 10), P(0.5, 1, 0, 2)).Apply(g, c) }},
		{"hslRotate", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLRotateHue(0, P(300, 20), P(30, 0, 7), P(0, 1)).Apply(g, c) }},
		{"hslSCNR", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLSCNR(P(0.9, 0, 1)).Apply(g, c) }},
		{"hslMidtones", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLMidtones(P(0.3, 0), P(0.1, 0)).Apply(g, c) }},
		{"hslGamma", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLGamma(P(1.7, 1, 0.5)).Apply(g, c) }},
		{"hslGammaPP", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLGammaPP(P(1.7, 1), P(0.2, 0)).Apply(g, c) }},
		{"hslUSM", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLUnsharpMask(P(0.6, 0.8), P(1.5, 0), P(0, 0.1)).Apply(g, c) }},
		{"hslScaleBlack", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLScaleBlack(P(0.2, 0)).Apply(g, c) }},
		{"hslStretch", func(g *fits.Image) (*fits.Image, error) { return hsl.NewOpHSLStretchIterative(0.2, 0.3).Apply(g, c) }},
		{"applyLum", func(g *fits.Image) (*fits.Image, error) {
			lum := fits.NewImageFromNaxisn(g.Naxisn[:2], nil)
			for i := range lum.Data {
				lum.Data[i] = rng.Float32()
			}
			c.LumFrame = lum
			return hsl.NewOpHSLApplyLum().Apply(g, c)
		}},
		{"offsetRGB", func(g *fits.Image) (*fits.Image, error) { g.OffsetRGB(P(0.1, 0), P(-0.1, 0), P(0.2, 0)); return g, nil }},
		{"scaleRGB", func(g *fits.Image) (*fits.Image, error) { g.ScaleRGB(P(0.5, 1), P(1.5, 1), P(0.7, 1)); return g, nil }},
		{"balance", func(g *fits.Image) (*fits.Image, error) {
			g.Stars = []star.Star{{Index: 0, Value: 1, X: 0, Y: 0, Mass: 1, HFR: 1}}
			return rgb.NewOpRGBBalance(1, 0, 0, 0, fits.RGB{R: 1, G: 1, B: 1}, fits.RGB{R: 1, G: 1, B: 1}).Apply(g, c)
		}},
	}
	if len(w.fs[f].Naxisn) == 3 {
		x := rgbs[kind%len(rgbs)]
		w.apply(x.n, f, 0, x.f)
	} else {
		x := mono[kind%len(mono)]
		w.apply(x.n, f, 0, x.f)
	}
}

func frame(rng *rand.Rand, w, h int, colour, gauss bool) *fits.Image {
	dims := []int32{int32(w), int32(h)}
	if colour {
		dims = append(dims, 3)
	}
	f := fits.NewImageFromNaxisn(dims, nil)
	for i := range f.Data {
		if gauss {
			f.Data[i] = float32(1000 + 50*rng.NormFloat64())
		} else {
			f.Data[i] = float32(rng.Intn(1001)) / 1000
		}
	}
	if !gauss && rng.Intn(3) == 0 { // outliers
		f.Data[rng.Intn(len(f.Data))] = 7
	}
	if !gauss && rng.Intn(3) == 0 { // duplicates
		for i := range f.Data {
			f.Data[i] = float32(math.Round(float64(f.Data[i])*4) / 4)
		}
	}
	return f
}

func newWorld(seed int64, est int) *world {
	stats.LSEstimator = []stats.LSEstimatorMode{stats.LSEMeanStdDev, stats.LSEMedianMAD, stats.LSESCMedianQn}[est]
	w := &world{rng: rand.New(rand.NewSource(seed))}
	w.c = ops.NewContext(ioutil.Discard, 1000, stats.LSEstimator)
	w.c.MaxThreads = 2
	return w
}

type histEv struct {
	K string `json:"k"`
	F int    `json:"f"`
	G string `json:"g"`
	A int    `json:"a"`
	B int    `json:"b"`
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(20e9)
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<24)
		for n := 0; sc.Scan(); n++ {
			var s struct{ H []histEv }
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			vlib.Current(json.RawMessage(sc.Bytes()))
			w := newWorld(vlib.Seed()*7919+int64(n), n%2)
			colour := n%4 == 3
			sz := [][2]int{{5, 5}, {3, 3}, {7, 5}, {5, 9}}[w.rng.Intn(4)]
			if colour {
				sz = [2]int{3, 3}
			}
			w.add(frame(w.rng, sz[0], sz[1], colour, false))
			w.add(frame(w.rng, sz[0], sz[1], colour, false))
			for i, e := range s.H {
				switch e.K {
				case "q":
					w.query(e.F-1, map[string][]string{"mmm": {"min", "mean", "max"}, "sd": {"sd", "noise"}, "loc": {"loc", "scale"}}[e.G])
				case "r":
					w.replace(e.F-1, n+i*5)
				case "a":
					w.affine(e.F-1, float32(e.A), float32(e.B))
				case "s":
					w.refsel(0)
				case "m":
					w.match(e.F - 1)
				}
			}
			for i := range w.fs {
				w.query(i, names)
			}
			out.PutAll(w.ev)
		}
		f.Close()
	} else {
		n := 700
		if vlib.Thorough() {
			n = 6000
		}
		rng := vlib.Rng(8)
		for i := 0; i < n; i++ {
			seed := rng.Int63()
			est := i % 2
			big, gauss := i%9 == 8, i%25 == 24
			if gauss {
				est = 2
			}
			vlib.Current(vlib.M{"mode": "rand", "i": i, "seed": seed})
			w := newWorld(seed, est)
			w.rng.Int63()
			w.gauss = gauss
			colour := !gauss && i%3 == 2
			var ww, hh int
			switch {
			case gauss:
				ww, hh = 31, 33
			case big:
				ww, hh = 8+w.rng.Intn(24), 8+w.rng.Intn(20)
			default:
				ww, hh = 1+w.rng.Intn(7), 1+w.rng.Intn(7)
				if colour {
					ww, hh = 1+w.rng.Intn(4), 1+w.rng.Intn(4)
				}
			}
			if big && est == 1 {
				w = newWorld(seed, 0)
			}
			nf := 1 + w.rng.Intn(3)
			if gauss || big {
				nf = 1
			}
			for k := 0; k < nf; k++ {
				w.add(frame(w.rng, ww, hh, colour, gauss))
			}
			for k := 0; k < 6 && !w.dead; k++ {
				f := w.rng.Intn(nf)
				switch x := w.rng.Intn(10); {
				case x < 3:
					w.randQuery(f)
				case x < 5 || gauss:
					w.affine(f, w.pick(), float32(w.rng.Intn(5))-2)
				case x < 8:
					w.replace(f, w.rng.Intn(1000))
				case x == 8:
					w.refsel(0)
				case x == 9:
					w.match(f)
				}
				w.randQuery(w.rng.Intn(nf))
			}
			for k := range w.fs {
				w.query(k, names)
			}
			out.PutAll(w.ev)
		}
		// the default estimator must deliver on any pixels, however few or bimodal
		m := 25
		if vlib.Thorough() {
			m = 200
		}
		for i := 0; i < m; i++ {
			seed := rng.Int63()
			w := newWorld(seed, 2)
			n := 1 + w.rng.Intn(9)
			if i < 3 {
				n = i + 1
			}
			f := fits.NewImageFromNaxisn([]int32{int32(n), 1}, nil)
			for k := range f.Data {
				f.Data[k] = float32(w.rng.Intn(3)) / 2
			}
			if i%4 == 3 {
				f = fits.NewImageFromNaxisn([]int32{5, 1}, []float32{0, 0, 0.5, 1, 1})
			}
			if i%4 == 2 { // two narrow clusters and one value in between
				f = fits.NewImageFromNaxisn([]int32{31, 1}, nil)
				for k := range f.Data {
					f.Data[k] = float32(k%2) + 0.001*w.rng.Float32()
				}
				f.Data[15] = 0.5
			}
			vlib.Current(vlib.M{"mode": "tiny", "data": f.Data})
			w.add(f)
			w.randQuery(0)
			w.affine(0, w.pick(), 1)
			w.query(0, names)
			out.PutAll(w.ev)
		}
	}
	out.Close()
}
