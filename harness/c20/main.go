// C20: records tone operators applied to frames, as pairs of values of the same pixel before and after.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"os"
	"sort"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

const S = 10000.0

var out *vlib.Out

func f32(i int, d float32) float32 { return float32(i) / d }

// a step: operator t with settings a, b (gamma a/b; others in tenths, black targets in units of 1/S), channel ch for hslScaleOffset
type step struct {
	T    string
	A, B int
	C    int
}

func mk(s step) ops.Operator {
	g := f32(s.A, 1)
	if s.B != 0 && (s.T == "gamma" || s.T == "hslGamma") {
		g = f32(s.A, float32(s.B))
	}
	switch s.T {
	case "normRange":
		return stretch.NewOpNormalizeRange()
	case "gamma":
		return stretch.NewOpGamma(g)
	case "hslGamma":
		return hsl.NewOpHSLGamma(g)
	case "gammaPP":
		return stretch.NewOpGammaPP(f32(s.A, float32(s.C)), f32(s.B, 10))
	case "hslGammaPP":
		return hsl.NewOpHSLGammaPP(f32(s.A, float32(s.C)), f32(s.B, 10))
	case "midtones":
		return stretch.NewOpMidtones(f32(s.A, 10), f32(s.B, 10))
	case "hslMidtones":
		return hsl.NewOpHSLMidtones(f32(s.A, 10), f32(s.B, 10))
	case "scaleBlack":
		return stretch.NewOpScaleBlack(f32(s.A, S))
	case "hslScaleBlack":
		return hsl.NewOpHSLScaleBlack(f32(s.A, S))
	case "scaleOffset":
		return pre.NewOpScaleOffset(f32(s.A, 4), f32(s.B, 4))
	case "hslScaleOffsetChannel":
		return hsl.NewOpHSLScaleOffsetChannel(s.C, f32(s.A, 4), f32(s.B, 4))
	case "stretch":
		return stretch.NewOpStretchIterative(f32(s.A, S), f32(s.B, S))
	case "hslStretch":
		return hsl.NewOpHSLStretchIterative(f32(s.A, S), f32(s.B, S))
	case "matchHist":
		return post.NewOpMatchHistogram(post.HistoNormMode(s.A))
	}
	vlib.Fatal("unknown step %s", s.T)
	return nil
}

// the same operator, decoded from its own JSON
func viaJSON(op ops.Operator, t string) ops.Operator {
	b, err := json.Marshal(op)
	if err != nil {
		vlib.Fatal("%v", err)
	}
	fac := ops.GetOperatorFactory(t)
	if fac == nil {
		return op
	}
	o := fac()
	if err := json.Unmarshal(b, o); err != nil {
		vlib.Fatal("%v", err)
	}
	return o
}

func isHSL(t string) bool { return len(t) > 3 && t[:3] == "hsl" }

func plane(f *fits.Image, s step) []float32 {
	if !isHSL(s.T) {
		return f.Data
	}
	c := 2
	if s.T == "hslScaleOffsetChannel" {
		c = s.C
	}
	l := len(f.Data) / 3
	return f.Data[c*l : (c+1)*l]
}

func bits(v float32) uint32 { return math.Float32bits(v) }

func statsOf(d []float32, w int32, raw bool) vlib.M {
	st := stats.NewStats(append([]float32{}, d...), w)
	sc := st.Scale()
	if raw {
		return vlib.M{"loc": 0, "scale": 0, "min": vlib.Fix32(st.Min(), 1), "max": vlib.Fix32(st.Max(), 1)}
	}
	return vlib.M{"loc": vlib.Fix32(st.Location(), S), "scale": vlib.Fix32(sc, 1e6), "min": vlib.Fix32(st.Min(), S), "max": vlib.Fix32(st.Max(), S)}
}

var noStats = vlib.M{"loc": 0, "scale": 0, "min": 0, "max": 0}

// run applies the step to all frames and records it; values are integers (raw) or fractions of one
func run(s step, fs []*fits.Image, raw bool, must, what string, refd []float32, json bool) []*fits.Image {
	e := vlib.M{"op": s.T, "a": s.A, "b": s.B, "c": s.C, "raw": raw, "must": must, "what": what, "err": "", "meta": "", "others": 0, "nx": 0, "ny": 0, "nxy": 0, "prs": []vlib.M{}, "st": noStats, "ref": noStats}
	vlib.Current(e)
	res := make([]*fits.Image, len(fs))
	e["panic"] = vlib.Try(func() {
		c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
		before := make([][]float32, len(fs))
		ids := make([]int, len(fs))
		nax := make([][]int32, len(fs))
		ins := make([]ops.Promise, len(fs))
		for i, f := range fs {
			f := f
			before[i] = append([]float32{}, f.Data...)
			ids[i] = f.ID
			nax[i] = append([]int32{}, f.Naxisn...)
			ins[i] = func() (*fits.Image, error) { return f, nil }
		}
		if must != "error" {
			e["st"] = statsOf(plane(fs[0], s), fs[0].Naxisn[0], raw)
		}
		if refd != nil {
			c.MatchHisto = stats.NewStats(refd, 8)
			e["ref"] = statsOf(refd, 8, raw)
		}
		op := mk(s)
		if json {
			op = viaJSON(op, s.T)
		}
		ps, err := op.MakePromises(ins, c)
		if err != nil {
			e["err"] = err.Error()
			return
		}
		errs := make([]error, len(ps))
		pans := make([]string, len(ps))
		var wg sync.WaitGroup
		for i := range ps {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				pans[i] = vlib.Try(func() { res[i], errs[i] = ps[i]() })
			}(i)
		}
		wg.Wait()
		type pr struct{ x, y float32 }
		seen := map[[2]uint32]pr{}
		nx, ny, nxy, others := 0, 0, 0, 0
		for i := range ps {
			if pans[i] != "" {
				panic(pans[i])
			}
			if errs[i] != nil {
				e["err"] = errs[i].Error()
				return
			}
			g := res[i]
			if g == nil {
				e["meta"] = "frame lost"
				return
			}
			same := len(g.Naxisn) == len(nax[i]) && len(g.Data) == len(before[i]) && g.ID == ids[i] && int(g.Pixels) == len(g.Data)
			for j := range nax[i] {
				same = same && g.Naxisn[j] == nax[i][j]
			}
			if !same {
				e["meta"] = "frame identity or size changed"
				return
			}
			was := fits.NewImageFromNaxisn(nax[i], before[i])
			pw, pg := plane(was, s), plane(g, s)
			touched := 0
			for j, x := range pw {
				y := pg[j]
				if bits(x) != bits(y) {
					touched++
				}
				xn, yn := math.IsNaN(float64(x)) || math.IsInf(float64(x), 0), math.IsNaN(float64(y)) || math.IsInf(float64(y), 0)
				if xn {
					nx++
				}
				if yn {
					ny++
				}
				if xn && yn {
					nxy++
				}
				if !xn && !yn {
					seen[[2]uint32{bits(x), bits(y)}] = pr{x, y}
				}
			}
			for j := range before[i] {
				if bits(before[i][j]) != bits(g.Data[j]) {
					touched--
				}
			}
			others -= touched
			if mx := stats.NewStats(append([]float32{}, g.Data...), g.Naxisn[0]); ny == 0 && len(g.Data) > 0 {
				if math.Abs(float64(mx.Max()-g.Stats.Max())) > 1e-3*(1+math.Abs(float64(mx.Max()))) {
					e["meta"] = "statistics are not those of the result"
				}
			}
		}
		e["nx"], e["ny"], e["nxy"], e["others"] = nx, ny, nxy, others
		var l []pr
		xs, ys := map[float32]int{}, map[float32]int{}
		for _, p := range seen {
			l = append(l, p)
			xs[p.x], ys[p.y] = 0, 0
		}
		rank := func(m map[float32]int) {
			var k []float32
			for v := range m {
				k = append(k, v)
			}
			sort.Slice(k, func(i, j int) bool { return k[i] < k[j] })
			for i, v := range k {
				m[v] = i
			}
		}
		rank(xs)
		rank(ys)
		sort.Slice(l, func(i, j int) bool {
			return l[i].x < l[j].x || (l[i].x == l[j].x && l[i].y < l[j].y)
		})
		xu, yu := S, S
		if raw {
			xu = 1
			if s.T == "scaleOffset" || s.T == "hslScaleOffsetChannel" {
				yu = 4
			}
		}
		prs := []vlib.M{}
		for _, p := range l {
			prs = append(prs, vlib.M{"x": vlib.Fix32(p.x, xu), "y": vlib.Fix32(p.y, yu), "r": xs[p.x], "q": ys[p.y], "same": p.x == p.y, "zero": p.x == 0, "one": p.x == 1})
		}
		if len(prs) > 60 {
			prs = prs[:60]
		}
		e["prs"] = prs
	})
	out.Put(e)
	if e["panic"] != "" || e["err"] != "" || e["meta"] != "" {
		return nil
	}
	return res
}

// image with the given palette, mostly the background entry; planes 0 and 1 of colour images hold other values
func image(r interface{ Intn(int) int }, pal []float32, bg int, w, h int, planes int, hslp bool) *fits.Image {
	n := w * h
	d := make([]float32, n*planes)
	for i := range d {
		v := pal[bg]
		if r.Intn(4) == 0 {
			v = pal[r.Intn(len(pal))]
		}
		if hslp && i < n {
			v = float32(r.Intn(360))
		}
		d[i] = v
	}
	// every entry appears at least once per frame, if there is room
	for k, v := range pal {
		if k < n {
			d[n*(planes-1)+k*(n/len(pal)+0)%n] = v
		}
	}
	nax := []int32{int32(w), int32(h)}
	if planes > 1 {
		nax = append(nax, int32(planes))
	}
	f := fits.NewImageFromNaxisn(nax, d)
	f.ID = 4
	f.Stats.Max()
	return f
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(250 * time.Second)
	r := vlib.Rng(20)
	switch os.Args[1] {
	case "replay":
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; sc.Scan(); i++ {
			var s struct {
				F   []int
				Ops []struct {
					T    string
					A, B int
				}
			}
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			pal := make([]float32, len(s.F))
			for k, v := range s.F {
				pal[k] = float32(v) / S
			}
			for v := 0; v < 2; v++ {
				var f *fits.Image
				if v == 0 {
					f = image(r, pal, 5, 7+i%5, 6, 1, false)
				} else {
					f = image(r, pal, 5, 9, 5, 3, true)
				}
				for _, o := range s.Ops {
					st := step{o.T, o.A, o.B, 1}
					if o.T == "midtones" || o.T == "gammaPP" {
						if o.T == "midtones" {
							st.A *= 10
						}
						st.B *= 10
					}
					if v == 1 {
						if o.T == "normRange" {
							break
						}
						st.T = "hsl" + string(o.T[0]-32) + o.T[1:]
					}
					if o.T == "normRange" && f.Stats.Max()-f.Stats.Min() < 1e-8 {
						break
					}
					g := run(st, []*fits.Image{f}, false, "", "", nil, i%2 == 0)
					if g == nil {
						break
					}
					f = g[0]
				}
			}
		}
	case "rand":
		num := 1500
		if vlib.Thorough() {
			num = 12000
		}
		for i := 0; i < num; i++ {
			random(r, i)
		}
		errors()
	}
}

type rng interface {
	Intn(int) int
	Float32() float32
}

func palette(r rng) ([]float32, int) {
	bg := 0.02 + 0.3*r.Float32()
	if r.Intn(6) == 0 {
		bg = 0.5 + 0.45*r.Float32()
	}
	w := 0.002 + 0.08*r.Float32()
	pal := []float32{0, 1, bg}
	if r.Intn(5) == 0 {
		pal = []float32{bg, bg, bg}
	}
	for j := 0; j < 20; j++ {
		v := bg + w*(2*r.Float32()-1)
		if j%5 == 0 {
			v = r.Float32()
		}
		if v < 0 {
			v = -v
		}
		if v > 1 {
			v = 1
		}
		pal = append(pal, v)
	}
	return pal, 2
}

var gammas = [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}, {4, 1}, {5, 2}, {5, 1}}

func random(r rng, i int) {
	pal, bg := palette(r)
	nan := false
	ts := []string{"gamma", "hslGamma", "gammaPP", "hslGammaPP", "midtones", "hslMidtones", "scaleBlack", "hslScaleBlack", "scaleOffset", "hslScaleOffsetChannel", "stretch", "hslStretch", "matchHist", "normRange"}
	s := step{T: ts[i%len(ts)], C: 1}
	raw := false
	g := gammas[r.Intn(len(gammas))]
	nf := 1
	var ref []float32
	switch s.T {
	case "gamma", "hslGamma":
		s.A, s.B = g[0], g[1]
		nf = 1 + r.Intn(3)
		nan = r.Intn(4) == 0
	case "gammaPP", "hslGammaPP":
		s.A, s.C, s.B = g[0], g[1], r.Intn(80)-20
	case "midtones", "hslMidtones":
		s.A, s.B = r.Intn(120), r.Intn(60)-15
		if r.Intn(8) == 0 {
			s.A = 0
		}
	case "scaleBlack", "hslScaleBlack":
		s.A = r.Intn(4000)
		if r.Intn(6) == 0 {
			s.A = 0
		}
	case "scaleOffset", "hslScaleOffsetChannel":
		raw = true
		s.A, s.B, s.C = r.Intn(13)-2, r.Intn(4000)-2000, r.Intn(3)
		if r.Intn(6) == 0 {
			s.A, s.B = 4, 0
		} else if r.Intn(6) == 0 {
			s.B = 0
		}
		nf = 1 + r.Intn(3)
		nan = r.Intn(4) == 0
	case "stretch", "hslStretch":
		s.A, s.B = 500+r.Intn(2500), 20+r.Intn(600)
		if r.Intn(8) == 0 {
			s.A, s.B = 0, 0
		}
	case "matchHist":
		s.A = r.Intn(4)
		pr, b := palette(r)
		ref = image(r, pr, b, 8, 8, 1, false).Data
	case "normRange":
		raw = true
	}
	if raw {
		// whole numbers like those of a camera
		lo, sp := r.Intn(3000), 700+r.Intn(40000)
		if r.Intn(4) == 0 {
			lo, sp = 20000+r.Intn(20000), 2+r.Intn(60) // a faint frame on a high pedestal
		}
		for k := range pal {
			pal[k] = float32(lo + r.Intn(sp))
		}
		if s.T == "normRange" && r.Intn(6) == 0 {
			for k := range pal {
				pal[k] = float32(lo)
			}
		}
		if r.Intn(3) == 0 {
			for k := range pal {
				pal[k] -= 1500
			}
		}
	} else if r.Intn(12) == 0 && !isHSL(s.T) {
		v := pal[r.Intn(3)]
		for k := range pal {
			pal[k] = v
		}
	}
	var fs []*fits.Image
	for k := 0; k < nf; k++ {
		planes := 1
		if isHSL(s.T) {
			planes = 3
		} else if r.Intn(4) == 0 {
			planes = 3
		}
		w, h := 1+r.Intn(30), 1+r.Intn(12)
		if r.Intn(8) == 0 {
			w, h = 60+r.Intn(70), 10+r.Intn(60)
		}
		if k == 0 && w*h < 30 && (s.T == "matchHist" || s.T == "midtones") {
			w = 30
		}
		f := image(r, pal, bg, w, h, planes, isHSL(s.T))
		if nan {
			for q := 0; q < 3; q++ {
				f.Data[r.Intn(len(f.Data))] = float32(math.NaN())
			}
			f.Stats.Clear()
			f.Stats.Max()
		}
		f.ID = 4 + k
		fs = append(fs, f)
	}
	run(s, fs, raw, "", "", ref, r.Intn(2) == 0)
}

func errors() {
	f := func(planes int) *fits.Image {
		return image(vlib.Rng(3), []float32{0, 1, .2, .3, .25, .4}, 2, 12, 9, planes, planes == 3)
	}
	one := func(s step, planes int, what string) { run(s, []*fits.Image{f(planes)}, false, "error", what, nil, false) }
	for _, c := range []int{-1, 3, 17} {
		one(step{"hslScaleOffsetChannel", 8, 0, c}, 3, "there is no such channel")
	}
	for _, t := range []string{"hslGamma", "hslGammaPP", "hslMidtones", "hslScaleBlack", "hslStretch", "hslScaleOffsetChannel"} {
		for _, p := range []int{1, 2} {
			one(step{t, 20, 30, 1}, p, "frame has no third channel")
		}
	}
	for _, g := range []int{0, -1, -3} {
		one(step{"gamma", g, 1, 1}, 1, "gamma is not positive")
		one(step{"hslGamma", g, 1, 1}, 3, "gamma is not positive")
		one(step{"gammaPP", g, 0, 1}, 1, "gamma is not positive")
		one(step{"hslGammaPP", g, 0, 1}, 3, "gamma is not positive")
	}
	one(step{"matchHist", 1, 0, 0}, 1, "there is no reference")
	one(step{"matchHist", 2, 0, 0}, 1, "there is no reference")
	one(step{"matchHist", 3, 0, 0}, 1, "there is no reference")
}
