// C18: records star catalogues found by the real code, together with image and settings.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

var out *vlib.Out

type P struct{ W, H, L, D, R, Io, Bp int }

func (p P) m() vlib.M {
	return vlib.M{"w": p.W, "h": p.H, "L": p.L, "D": p.D, "r": p.R, "io": p.Io, "bp": p.Bp}
}

func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}
func floats(d []int) []float32 {
	fs := make([]float32, len(d))
	for i, v := range d {
		fs[i] = float32(v)
		if v == vlib.NaNCode {
			fs[i] = float32(math.NaN())
		}
	}
	return fs
}
func same(a, b []float32) bool {
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) {
			return false
		}
	}
	return len(a) == len(b)
}
func equal(a, b []star.Star) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Value != x.Value && y.Value != y.Value {
			x.Value, y.Value = 0, 0
		}
		if x != y {
			return false
		}
	}
	return true
}
func recs(ss []star.Star) []vlib.M {
	r := []vlib.M{}
	for _, s := range ss {
		r = append(r, vlib.M{"i": int(s.Index), "x": vlib.Fix32(s.X, 1000), "y": vlib.Fix32(s.Y, 1000), "mass": vlib.Fix32(s.Mass, 1), "hfr": vlib.Fix32(s.HFR, 1000), "v": vlib.Fix32(s.Value, 1)})
	}
	return r
}

func diffStats(bp int) *stats.Stats {
	if bp <= 0 {
		return nil
	}
	return stats.NewStats([]float32{float32(bp), -float32(bp), float32(bp), -float32(bp)}, 2)
}

// bp < 0: estimated by the detector from the image, with -bp standard deviations
func find(op string, d []int, p P, want [][]int, tol int) {
	data := floats(d)
	orig := append([]float32(nil), data...)
	bps := float32(0)
	if p.Bp > 0 {
		bps = 1
	} else if p.Bp < 0 {
		bps = -float32(p.Bp)
	}
	e := vlib.M{"op": op, "d": d, "p": p.m(), "stars": []vlib.M{}, "same": 1, "again": 1, "avg": 0, "known": 0, "want": [][]int{}, "tol": tol}
	if want != nil {
		e["known"], e["want"] = 1, want
	}
	if op == "sparse" {
		lit := [][]int{}
		for i, v := range d {
			if v != 0 {
				lit = append(lit, []int{i + 1, v})
			}
		}
		e["d"], e["lit"] = []int{}, lit
	}
	vlib.Current(e)
	e["panic"] = vlib.Try(func() {
		run := func(data []float32) ([]star.Star, float32) {
			ss, _, avg := star.FindStars(data, int32(p.W), float32(p.L), 1, float32(p.D), bps, float32(p.Io), int32(p.R), diffStats(p.Bp))
			return ss, avg
		}
		ss, avg := run(data)
		keep := append([]star.Star(nil), ss...)
		e["same"] = flag(same(data, orig))
		// the same image elsewhere in memory, other images in between and at the same time
		again := true
		var wg sync.WaitGroup
		for k := 0; k < 3; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				o := append([]float32(nil), orig...)
				if k == 1 {
					for i := range o {
						o[i] = orig[len(o)-1-i]
					}
					run(o)
					return
				}
				s2, _ := run(o)
				if !equal(s2, keep) {
					again = false
				}
			}(k)
		}
		wg.Wait()
		if !equal(ss, keep) {
			again = false
		}
		e["again"] = flag(again)
		e["stars"] = recs(ss)
		e["avg"] = vlib.Fix32(avg, 1000)
		if len(ss) == 0 {
			e["avg"] = 0
		}
	})
	out.Put(e)
}

// a blob of integers, symmetric about its centre, which is a pixel or between pixels; sizes: half-width up to 2
func blob(d []float64, w, h int, cx, cy, peak, sigma float64, reach int) {
	x0, y0 := int(math.Floor(cx)), int(math.Floor(cy))
	for y := y0 - reach; y <= y0+reach+1; y++ {
		for x := x0 - reach; x <= x0+reach+1; x++ {
			if x >= 0 && y >= 0 && x < w && y < h {
				dx, dy := float64(x)-cx, float64(y)-cy
				d[y*w+x] += peak * math.Exp(-(dx*dx+dy*dy)/(2*sigma*sigma))
			}
		}
	}
}
func rounded(d []float64) []int {
	r := make([]int, len(d))
	for i, v := range d {
		r[i] = int(math.Floor(v + 0.5))
	}
	return r
}

func random(rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		w, h := 1+rng.Intn(14), 1+rng.Intn(14)
		if i%8 == 0 {
			w, h = 20+rng.Intn(16), 16+rng.Intn(16)
		}
		p := P{W: w, H: h, L: 10, D: 4 + rng.Intn(20), R: 1 + rng.Intn(4), Io: 1 + rng.Intn(2)}
		d := make([]int, w*h)
		noise := 1 + rng.Intn(5)
		if i%5 == 0 {
			noise = 60
		}
		f := make([]float64, w*h)
		for j := range f {
			f[j] = float64(10 + rng.Intn(2*noise+1) - noise)
		}
		for k := rng.Intn(2 + w*h/40); k > 0; k-- {
			blob(f, w, h, rng.Float64()*float64(w-1), rng.Float64()*float64(h-1), float64(20+rng.Intn(200)), 0.5+rng.Float64(), 3)
		}
		for k := rng.Intn(3); k > 0; k-- { // hot pixels, plateaus
			f[rng.Intn(len(f))] = 300
			if rng.Intn(3) == 0 {
				j := rng.Intn(len(f))
				for q := j; q < len(f) && q < j+4; q++ {
					f[q] = 150
				}
			}
		}
		d = rounded(f)
		switch rng.Intn(4) {
		case 0:
			p.Bp = 3 + rng.Intn(60)
		case 1:
			for k := 0; k < 1+len(d)/15; k++ {
				d[rng.Intn(len(d))] = vlib.NaNCode
			}
		}
		find("small", d, p, nil, 0)
	}
}

// well separated symmetric blobs, hot pixels: where the stars are is known
func known(rng *rand.Rand, n int, op string) {
	for i := 0; i < n; i++ {
		r := 4 + rng.Intn(4)
		gap := 3*r + 2
		nx, ny := 1+rng.Intn(2), 1+rng.Intn(2)
		w, h := nx*gap+2*r, ny*gap+2*r
		f := make([]float64, w*h)
		noise := rng.Intn(3)
		for j := range f {
			f[j] = float64(100 + rng.Intn(2*noise+1) - noise)
		}
		want := [][]int{}
		hot := rng.Intn(2) == 0
		for y := 0; y < ny; y++ {
			for x := 0; x < nx; x++ {
				cx, cy := float64(x*gap+gap/2+r/2)+float64(rng.Intn(r)), float64(y*gap+gap/2+r/2)+float64(rng.Intn(r))
				if rng.Intn(8) == 0 {
					if hot {
						f[int(cx)+int(cy)*w] = 1000
					}
					continue
				}
				switch rng.Intn(3) {
				case 0:
					cx += 0.5
				case 1:
					cx, cy = cx+rng.Float64(), cy+rng.Float64()
				}
				s := 1 + rng.Float64()*0.3
				blob(f, w, h, cx, cy, float64(200+rng.Intn(1500)), s, 4)
				want = append(want, []int{vlib.Fix(cx, 1000), vlib.Fix(cy, 1000)})
			}
		}
		p := P{W: w, H: h, L: 100, D: 60, R: r, Io: 1}
		if hot {
			p.Bp = 450
		}
		find(op, rounded(f), p, want, 120)
	}
}

// star detection as a step: settings reach the detector, catalogue and half-flux radius reach the frame
func steps(rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		w, h := 40+rng.Intn(40), 30+rng.Intn(40)
		f := make([]float64, w*h)
		for j := range f {
			f[j] = 100 + rng.NormFloat64()*3
		}
		for k := 0; k < rng.Intn(6); k++ {
			blob(f, w, h, rng.Float64()*float64(w-1), rng.Float64()*float64(h-1), float64(100+rng.Intn(900)), 0.8+rng.Float64(), 6)
		}
		data := floats(rounded(f))
		radius, sig, bps, io := int32(1+rng.Intn(12)), float32(2+rng.Intn(8)), float32(rng.Intn(4)), float32(1+rng.Intn(4))
		switch rng.Intn(8) {
		case 0:
			radius = 0
		case 1:
			sig = 0
		}
		img := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32(nil), data...))
		if rng.Intn(2) == 0 {
			img.MedianDiffStats = diffStats(20)
		}
		op := pre.NewOpStarDetect(radius, sig, bps, io, "")
		e := vlib.M{"op": "step", "d": []int{}, "p": P{}.m(), "stars": []vlib.M{}, "same": 1, "again": 1, "avg": 0, "known": 0, "want": [][]int{}, "tol": 0,
			"set": []int{int(radius), int(sig), int(bps), int(io)}}
		vlib.Current(e)
		e["panic"] = vlib.Try(func() {
			c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
			st := stats.NewStats(append([]float32(nil), data...), int32(w))
			var ws []star.Star
			var wa float32
			if radius > 0 && sig > 0 {
				ws, _, wa = star.FindStars(data, int32(w), st.Location(), st.Scale(), sig, bps, io, radius, func() *stats.Stats {
					if img.MedianDiffStats != nil {
						return diffStats(20)
					}
					return nil
				}())
			}
			g, err := op.Apply(img, c)
			if err != nil || g != img {
				panic("step failed")
			}
			e["same"] = flag(same(g.Data, data))
			e["again"] = flag(equal(g.Stars, ws) && (g.HFR == wa || (g.HFR != g.HFR && wa != wa)))
		})
		out.Put(e)
	}
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(120e9)
	rng := vlib.Rng(18)
	mul := 1
	if vlib.Thorough() {
		mul = 8
	}
	switch os.Args[1] {
	case "replay":
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var s struct {
				D []int
				P P
			}
			// "d" and "p" match case-insensitively; L and D inside p are distinct fields
			if json.Unmarshal(sc.Bytes(), &s) != nil {
				vlib.Fatal("scenario")
			}
			find("small", s.D, s.P, nil, 0)
		}
	case "rand":
		random(rng, 1500*mul)
		known(rng, 60*mul, "small")
	case "big":
		for i := 0; i < 30*mul; i++ { // bins of the overlap filter are 256 wide
			w, h := 500+rng.Intn(60), 20+rng.Intn(20)
			if i%2 == 0 {
				w, h = h, w
			}
			if i%6 == 5 {
				w, h = 270, 268
			}
			f := make([]float64, w*h)
			for j := range f {
				f[j] = float64(100 + rng.Intn(7) - 3)
			}
			for k := 0; k < 70; k++ {
				x, y := rng.Float64()*float64(w-1), rng.Float64()*float64(h-1)
				if k%4 > 0 { // around the borders of the bins
					if w > 256 {
						x = float64(256*(1+rng.Intn(w/256)) + rng.Intn(20) - 10)
					}
					if h > 256 && (w < 256 || k%2 == 0) {
						y = float64(256*(1+rng.Intn(h/256)) + rng.Intn(20) - 10)
					}
				}
				blob(f, w, h, x, y, float64(50+rng.Intn(900)), 0.6+rng.Float64(), 5)
				if rng.Intn(2) == 0 { // a fainter companion
					blob(f, w, h, x+float64(rng.Intn(13)-6), y+float64(rng.Intn(13)-6), float64(50+rng.Intn(300)), 0.6, 5)
				}
			}
			bp := 0
			if rng.Intn(2) == 0 {
				bp = -3 // standard deviations, estimated by sampling
			}
			find("big", rounded(f), P{W: w, H: h, L: 100, D: 20, R: 2 + rng.Intn(7), Io: 1, Bp: bp}, nil, 0)
		}
		for i := 0; i < 500*mul; i++ { // scattered pixels around the corner of four bins
			w, h, r := 275, 272, 2+rng.Intn(6)
			d := make([]int, w*h)
			for k := 0; k < 60; k++ {
				d[(244+rng.Intn(24))*w+244+rng.Intn(24)] = 30 + rng.Intn(200)
			}
			find("sparse", d, P{W: w, H: h, L: 0, D: 10, R: r, Io: 0}, nil, 0)
		}
		steps(rng, 150*mul)
	}
}
