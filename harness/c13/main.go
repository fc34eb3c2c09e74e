// C13: records projections, transformations, nearest neighbours, star alignments and the alignment
// step of the real code.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/post"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

var out *vlib.Out

type T struct{ A, B, C, D, E, F, S int }

func (t T) real() star.Transform2D {
	f := func(v int) float32 { return float32(float64(v) / float64(t.S)) }
	return star.Transform2D{A: f(t.A), B: f(t.B), C: f(t.C), D: f(t.D), E: f(t.E), F: f(t.F)}
}
func (t T) apply(x, y float64) (float64, float64) {
	s := float64(t.S)
	return (float64(t.A)*x + float64(t.B)*y + float64(t.C)) / s, (float64(t.D)*x + float64(t.E)*y + float64(t.F)) / s
}
func (t T) inv(x, y float64) (float64, float64) {
	s, n := float64(t.S), float64(t.A*t.E-t.B*t.D)
	u, v := s*x-float64(t.C), s*y-float64(t.F)
	return (float64(t.E)*u - float64(t.B)*v) / n, (float64(t.A)*v - float64(t.D)*u) / n
}
func (t T) m() vlib.M {
	return vlib.M{"A": t.A, "B": t.B, "C": t.C, "D": t.D, "E": t.E, "F": t.F, "S": t.S}
}
func (t T) det() int {
	d := t.A*t.E - t.B*t.D
	if d < 0 {
		d = -d
	}
	return d
}

func ints(ns []int32) []int {
	r := make([]int, len(ns))
	for i, n := range ns {
		r[i] = int(n)
	}
	return r
}
func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}
func same(a, b []float32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Float32bits(a[i]) != math.Float32bits(b[i]) && !(a[i] != a[i] && b[i] != b[i]) {
			return false
		}
	}
	return true
}
func pow2(n int) bool { return n > 0 && n&(n-1) == 0 }

// ---- projections of small images
func project(t T, w, h, dw, dh, pl int, d []int, oob int) {
	data := make([]float32, len(d))
	for i, v := range d {
		data[i] = float32(v)
		if v == vlib.NaNCode {
			data[i] = float32(math.NaN())
		}
	}
	nx, dnx := []int32{int32(w), int32(h)}, []int32{int32(dw), int32(dh)}
	if pl > 1 {
		nx = append(nx, int32(pl))
		dnx = append(dnx, int32(pl))
	}
	f := fits.NewImageFromNaxisn(nx, append([]float32(nil), data...))
	f.ID, f.Exposure, f.HFR = 7, 12.5, 2.25
	oobv := float32(oob)
	if oob == vlib.NaNCode {
		oobv = float32(math.NaN())
	}
	tol := 1
	if !(pow2(t.S) && pow2(t.det())) {
		tol = 8
	}
	e := vlib.M{"op": "project", "new": 1, "t": t.m(), "w": w, "h": h, "dw": dw, "dh": dh, "pl": pl, "d": d, "oob": vlib.Fix32(oobv, 1000), "tol": tol,
		"out": []int{}, "naxis": []int{}, "err": 0, "meta": 1, "same": 1}
	vlib.Current(e)
	e["panic"] = vlib.Try(func() {
		g, err := f.Project(dnx, t.real(), oobv)
		e["err"] = flag(err != nil)
		if err != nil {
			return
		}
		e["out"], e["naxis"] = vlib.FixAll(g.Data, 1000), ints(g.Naxisn)
		e["meta"] = flag(g.ID == 7 && g.Exposure == 12.5 && g.HFR == 2.25 && int(g.Pixels) == len(g.Data))
		e["same"] = flag(same(f.Data, data))
	})
	out.Put(e)
}

func fill(n, k int) []int {
	d := make([]int, n)
	for i := range d {
		d[i] = (i*7 + k) % 37
	}
	return d
}

// rotations by rational angles, with scale numerators
var rots = []T{{A: 4, B: -3, D: 3, E: 4, S: 5}, {A: 3, B: 4, D: -4, E: 3, S: 5}, {A: -4, B: 3, D: -3, E: -4, S: 5}, {A: 12, B: -5, D: 5, E: 12, S: 13},
	{A: 5, B: 12, D: -12, E: 5, S: 13}, {A: -15, B: 8, D: -8, E: -15, S: 17}, {A: 1, E: 1, S: 1}, {A: 0, B: -1, D: 1, E: 0, S: 1}, {A: -1, E: -1, S: 1},
	{A: 1, E: 1, S: 2}, {A: 4, E: 4, S: 2}, {A: 3, E: 3, S: 2}, {A: 10, E: 10, S: 10}, {A: 11, B: 2, D: -1, E: 10, S: 10}, {A: -1, E: 1, S: 1}, {A: 1, E: 1, S: 1}}

func randT(rng *rand.Rand, w, h int) T {
	switch rng.Intn(4) {
	case 0:
		t := rots[rng.Intn(len(rots))]
		if t.S == 17 {
			t = rots[0]
		}
		t.C, t.F = rng.Intn(2*w*t.S+1)-w*t.S/2, rng.Intn(2*h*t.S+1)-h*t.S/2
		return t
	case 1:
		return T{A: 1, E: 1, C: rng.Intn(2*w+1) - w, F: rng.Intn(2*h+1) - h, S: 1}
	case 2:
		s := 1 << uint(rng.Intn(3))
		return T{A: s, E: s, C: rng.Intn(2*s+1) - s, F: rng.Intn(2*s+1) - s, S: s}
	}
	s := 1 + rng.Intn(7)
	for {
		t := T{A: rng.Intn(15) - 7, B: rng.Intn(15) - 7, D: rng.Intn(15) - 7, E: rng.Intn(15) - 7, C: rng.Intn(8*s) - 4*s, F: rng.Intn(8*s) - 4*s, S: s}
		if t.det() <= 200 {
			return t // singular ones as well
		}
	}
}

func projections(rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		w, h := 1+rng.Intn(12), 1+rng.Intn(12)
		dw, dh := w, h
		if rng.Intn(2) == 0 {
			dw, dh = 1+rng.Intn(14), 1+rng.Intn(14)
		}
		pl := 1
		if rng.Intn(4) == 0 {
			pl = 3
		}
		d := fill(w*h*pl, rng.Intn(37))
		if rng.Intn(3) == 0 {
			rng.Shuffle(len(d), func(a, b int) { d[a], d[b] = d[b], d[a] })
		}
		if rng.Intn(3) == 0 {
			for k := 0; k < 1+len(d)/20; k++ {
				d[rng.Intn(len(d))] = vlib.NaNCode
			}
		}
		oob := []int{vlib.NaNCode, -3, 0, 17}[rng.Intn(4)]
		project(randT(rng, w, h), w, h, dw, dh, pl, d, oob)
	}
}

// ---- points
func three(p, q [3][2]int) {
	e := vlib.M{"op": "three", "new": 1, "p": p, "q": q, "err": 0, "m": [][]int{}}
	P := func(a [2]int) star.Point2D { return star.Point2D{X: float32(a[0]), Y: float32(a[1])} }
	e["panic"] = vlib.Try(func() {
		t, err := star.NewTransform2D(P(p[0]), P(p[1]), P(p[2]), P(q[0]), P(q[1]), P(q[2]))
		e["err"] = flag(err != nil)
		ps := t.ApplySlice([]star.Point2D{P(p[0]), P(p[1]), P(p[2])})
		m := [][]int{}
		for i, r := range ps {
			one := t.Apply(P(p[i]))
			if one != r && r == r {
				r.X = float32(math.NaN())
			}
			m = append(m, []int{vlib.Fix32(r.X, 1000), vlib.Fix32(r.Y, 1000)})
		}
		e["m"] = m
	})
	out.Put(e)
}

func inverse(t T, x, y int) {
	e := vlib.M{"op": "inverse", "new": 1, "t": t.m(), "p": []int{x, y}, "err": 0}
	e["panic"] = vlib.Try(func() {
		f := t.real()
		inv, err := f.Invert()
		e["err"] = flag(err != nil)
		p := star.Point2D{X: float32(x), Y: float32(y)}
		fw := f.Apply(p)
		a, b := inv.Apply(fw), f.Apply(inv.Apply(p))
		pt := func(q star.Point2D) []int { return []int{vlib.Fix32(q.X, 1000), vlib.Fix32(q.Y, 1000)} }
		e["there"], e["back"], e["fwd"] = pt(a), pt(b), pt(fw)
	})
	out.Put(e)
}

func nn(rng *rand.Rand, dim, n, m int) {
	pts := make([][]int, n)
	for i := range pts {
		pts[i] = make([]int, dim)
		for j := range pts[i] {
			pts[i][j] = rng.Intn(m)
		}
	}
	k2 := make(star.KDTree2, 0)
	k3 := make(star.KDTree3P, 0)
	for i, p := range pts {
		if dim == 2 {
			k2 = append(k2, star.Point2D{X: float32(p[0]), Y: float32(p[1])})
		} else {
			k3 = append(k3, star.Point3DPayload{Point3D: star.Point3D{X: float32(p[0]), Y: float32(p[1]), Z: float32(p[2])}, Payload: int32(i)})
		}
	}
	vlib.Current(vlib.M{"op": "nn", "pts": pts})
	if s := vlib.Try(func() { k2.Make(); k3.Make() }); s != "" {
		out.Put(vlib.M{"op": "nn", "new": 1, "pts": pts, "panic": s})
		return
	}
	for k := 0; k < 6; k++ {
		q := make([]int, dim)
		for j := range q {
			q[j] = rng.Intn(m+4) - 2
		}
		e := vlib.M{"op": "nn", "new": 1, "pts": pts, "q": q, "pay": -1, "got": []int{}}
		e["panic"] = vlib.Try(func() {
			if dim == 2 {
				p, d := k2.NearestNeighbor(star.Point2D{X: float32(q[0]), Y: float32(q[1])})
				e["got"], e["dsq"] = []int{int(p.X), int(p.Y)}, int(d)
			} else {
				p, d := k3.NearestNeighbor(star.Point3D{X: float32(q[0]), Y: float32(q[1]), Z: float32(q[2])})
				e["got"], e["dsq"], e["pay"] = []int{int(p.X), int(p.Y), int(p.Z)}, int(d), int(p.Payload.(int32))
			}
		})
		out.Put(e)
	}
}

// ---- star catalogues
type pos struct{ x, y float64 }

func catalogue(rng *rand.Rand, n int, w, h, sep float64) []pos {
	ps := []pos{}
	for tries := 0; len(ps) < n && tries < 20000; tries++ {
		p := pos{rng.Float64() * (w - 1), rng.Float64() * (h - 1)}
		ok := true
		for _, q := range ps {
			if math.Hypot(p.x-q.x, p.y-q.y) < sep {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	return ps
}
func stars(ps []pos, w int) []star.Star {
	ss := make([]star.Star, len(ps))
	for i, p := range ps {
		m := float32(len(ps) - i)
		ss[i] = star.Star{Index: int32(p.x) + int32(w)*int32(p.y), Value: m, X: float32(p.x), Y: float32(p.y), Mass: m * 10, HFR: 2}
	}
	return ss
}
func pts(ps []pos, scale float64) [][]int {
	r := make([][]int, len(ps))
	for i, p := range ps {
		r[i] = []int{vlib.Fix(p.x, scale), vlib.Fix(p.y, scale)}
	}
	return r
}
func mapped(t star.Transform2D, ss []star.Star) []pos {
	r := make([]pos, len(ss))
	for i, s := range ss {
		p := t.Apply(star.Point2D{X: s.X, Y: s.Y})
		r[i] = pos{float64(p.X), float64(p.Y)}
	}
	return r
}

// a rigid or scaling transformation of a w x h frame onto the reference
func frameT(rng *rand.Rand, kind int) T {
	switch kind {
	case 0:
		return T{A: 1, E: 1, C: rng.Intn(121) - 60, F: rng.Intn(121) - 60, S: 1}
	case 1:
		return T{A: 2, E: 2, C: rng.Intn(81) - 40, F: rng.Intn(81) - 40, S: 1} // binned frame, full reference
	case 2:
		return T{A: 1, E: 1, C: rng.Intn(81) - 40, F: rng.Intn(81) - 40, S: 2}
	case 3:
		return T{A: -1, E: -1, C: 799 + rng.Intn(41) - 20, F: 599 + rng.Intn(41) - 20, S: 1} // meridian flip
	case 4:
		return T{A: 10, E: 10, C: rng.Intn(401) - 200, F: rng.Intn(401) - 200, S: 10}
	case 5:
		// a small field rotation 20/101, 99/101
		return T{A: 99, B: -20, D: 20, E: 99, C: (rng.Intn(60) + 30) * 101, F: -(rng.Intn(60) + 30) * 101, S: 101}
	}
	t := rots[rng.Intn(6)]
	// about the centre
	cx, cy := 400, 300
	t.C = cx*t.S - t.A*cx - t.B*cy + (rng.Intn(41)-20)*t.S
	t.F = cy*t.S - t.D*cx - t.E*cy + (rng.Intn(41)-20)*t.S
	return t
}

const RW, RH = 800, 600

func sizes(kind int) (int, int) {
	switch kind {
	case 1:
		return RW / 2, RH / 2
	case 2:
		return RW * 2, RH * 2
	}
	return RW, RH
}

// the frame's catalogue: reference stars seen through the inverse, with jitter, some lost, some added
func observed(rng *rand.Rand, ref []pos, t T, w, h int, jitter float64, lose, add int) (ps []pos, truth []pos) {
	for _, p := range ref {
		x, y := t.inv(p.x, p.y)
		if x < 0 || y < 0 || x > float64(w-1) || y > float64(h-1) {
			continue
		}
		ps = append(ps, pos{x + (rng.Float64()*2-1)*jitter, y + (rng.Float64()*2-1)*jitter})
		truth = append(truth, p)
	}
	for i := 0; i < lose && len(ps) > 12; i++ {
		k := rng.Intn(len(ps))
		ps, truth = append(ps[:k:k], ps[k+1:]...), append(truth[:k:k], truth[k+1:]...)
	}
	for i := 0; i < add; i++ {
		k := rng.Intn(len(ps) + 1)
		p := pos{rng.Float64() * float64(w-1), rng.Float64() * float64(h-1)}
		x, y := t.apply(p.x, p.y)
		ps = append(ps[:k:k], append([]pos{p}, ps[k:]...)...)
		truth = append(truth[:k:k], append([]pos{{x, y}}, truth[k:]...)...)
	}
	return
}

func recoveries(rng *rand.Rand, n int) {
	for i := 0; i < n; {
		kind := rng.Intn(7)
		t := frameT(rng, kind)
		w, h := sizes(kind)
		nref := 16 + rng.Intn(15)
		ref := catalogue(rng, nref, RW, RH, 45)
		jitter, lose, add := 0.0, 0, 0
		if rng.Intn(2) == 0 {
			jitter, lose, add = 0.1, rng.Intn(3), rng.Intn(3)
		}
		ps, truth := observed(rng, ref, t, w, h, jitter, lose, add)
		if len(ps) < 12 {
			continue
		}
		i++
		ss := stars(ps, w)
		k := int32([]int{15, 20, 50}[rng.Intn(3)])
		tol := 30.0
		if jitter > 0 {
			tol = 60
		}
		e := vlib.M{"op": "recover", "new": 1, "t": t.m(), "kind": kind, "k": k, "want": pts(truth, 100), "got": [][]int{}, "res": 0, "thr": 10000, "tol": int(tol), "n": len(ps)}
		vlib.Current(e)
		e["panic"] = vlib.Try(func() {
			al := star.NewAligner([]int32{RW, RH}, stars(ref, RW), k)
			tr, res := al.Align([]int32{int32(w), int32(h)}, ss, i)
			e["res"] = vlib.Fix32(min(res, 10000), 10000)
			e["got"] = pts(mapped(tr, ss), 100)
		})
		out.Put(e)
	}
}
func min(a, b float32) float32 {
	if a < b {
		return a
	}
	return b
}

func unrelated(rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		ref := catalogue(rng, rng.Intn(26), RW, RH, 30)
		fr := catalogue(rng, rng.Intn(26), RW, RH, 30)
		if i%5 == 0 { // tiny catalogues
			ref, fr = catalogue(rng, rng.Intn(5), RW, RH, 30), catalogue(rng, rng.Intn(5), RW, RH, 30)
		}
		if i%7 == 0 { // on a line, on a lattice, all the same
			for j := range fr {
				fr[j].y = 100
				if i%2 == 0 {
					fr[j] = pos{float64(j%5) * 50, float64(j/5) * 50}
				}
			}
		}
		k := int32([]int{1, 3, 15, 50}[rng.Intn(4)])
		e := vlib.M{"op": "unrelated", "new": 1, "ref": pts(ref, 100), "got": [][]int{}, "res": 0, "thr": 10000, "k": k, "n": len(fr)}
		vlib.Current(e)
		e["panic"] = vlib.Try(func() {
			al := star.NewAligner([]int32{RW, RH}, stars(ref, RW), k)
			ss := stars(fr, RW)
			tr, res := al.Align([]int32{RW, RH}, ss, i)
			e["res"] = vlib.Fix32(min(res, 10000), 10000)
			if res <= 1 {
				e["got"] = pts(mapped(tr, ss), 100)
			}
		})
		out.Put(e)
	}
}

// ---- a complete frame with a ramp through the alignment step
func ramps(rng *rand.Rand, n int) {
	for i := 0; i < n; i++ {
		kind := rng.Intn(7)
		t := frameT(rng, kind)
		if t.S > 17 {
			continue
		}
		w, h := sizes(kind)
		pl := 1
		if rng.Intn(3) == 0 {
			pl = 3
		}
		ref := catalogue(rng, 30, RW, RH, 45)
		ps, _ := observed(rng, ref, t, w, h, 0, 0, 0)
		if len(ps) < 12 {
			continue
		}
		d := make([]float32, w*h*pl)
		for p := 0; p < pl; p++ {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					d[p*w*h+y*w+x] = float32(2*x + 3*y + 50*p)
				}
			}
		}
		nx, rnx := []int32{int32(w), int32(h)}, []int32{RW, RH}
		if pl > 1 {
			nx = append(nx, int32(pl))
			rnx = append(rnx, int32(pl))
		}
		f := fits.NewImageFromNaxisn(nx, d)
		f.Stars = stars(ps, w)
		c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
		c.AlignNaxisn, c.AlignStars = rnx, stars(ref, RW)
		op := post.NewOpAlign(50, 1, post.OOBModeNaN)
		e := vlib.M{"op": "ramp", "new": 1, "t": t.m(), "w": w, "h": h, "px": [][]int{}, "oob": vlib.NaNCode, "tol": 150, "slack": 1}
		vlib.Current(e)
		e["panic"] = vlib.Try(func() {
			g, err := op.Apply(f, c)
			if err != nil {
				panic(err.Error())
			}
			if g == nil {
				panic("matching frame skipped")
			}
			if len(g.Data) != RW*RH*pl {
				panic("wrong size")
			}
			px := [][]int{}
			for j := 0; j < 80; j++ {
				p, x, y := rng.Intn(pl), rng.Intn(RW), rng.Intn(RH)
				if j < 4 {
					x, y = (j%2)*(RW-1), (j/2)*(RH-1)
				}
				px = append(px, []int{p, x, y, vlib.Fix32(g.Data[p*RW*RH+y*RW+x], 1000)})
			}
			e["px"] = px
		})
		out.Put(e)
	}
}

// ---- the alignment step
type call struct {
	K, Mode   int
	Kind      string
	Stars, Rs int
	Hist      int
	Fit       bool
}

func gate(rng *rand.Rand, calls []call, conc bool) {
	ref := catalogue(rng, 20, RW/4, RH/4, 12)
	const W, H = RW / 4, RH / 4
	refStars := stars(ref, W)
	k, mode := calls[0].K, calls[0].Mode
	// what each call sees
	type one struct {
		f, cp *fits.Image
		c     *ops.Context
		e     vlib.M
		fill  int
		want  *fits.Image
	}
	al := star.NewAligner([]int32{W, H}, refStars, int32(k))
	thr := float32(1)
	os := make([]one, len(calls))
	for i, cl := range calls {
		c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
		if cl.Rs >= 0 {
			c.AlignNaxisn, c.AlignStars = []int32{W, H}, refStars[:cl.Rs]
		}
		if cl.Hist == 1 {
			hd := make([]float32, 100)
			for j := range hd {
				hd[j] = 40 + float32(j%3)
			}
			c.MatchHisto = stats.NewStats(hd, 10)
		}
		e := vlib.M{"op": "gate", "new": flag(i == 0), "k": k, "mode": mode, "kind": cl.Kind, "stars": cl.Stars, "rs": cl.Rs, "hist": cl.Hist, "fit": 0,
			"ident": 0, "same": 0, "meta": 0, "naxis": []int{}, "want": []int{W, H}, "fill": 0, "oob": 0, "call": i}
		o := one{c: c, e: e}
		if cl.Kind != "none" {
			d := make([]float32, W*H)
			for j := range d {
				d[j] = float32(100 + rng.Intn(20))
			}
			f := fits.NewImageFromNaxisn([]int32{W, H}, d)
			f.ID, f.Exposure, f.HFR = 10+i, 30, 3.5
			f.Trans = star.Transform2D{A: 5, B: 5, C: 5, D: 5, E: -5, F: 5} // stale
			switch {
			case cl.Kind == "ref":
				f.Stars = c.AlignStars
			case cl.Stars == 0:
			case cl.Fit:
				t := T{A: 1, E: 1, C: rng.Intn(21) - 10, F: rng.Intn(21) - 10, S: 1}
				ps, _ := observed(rng, ref, t, W, H, 0, 0, 0)
				f.Stars = stars(ps, W)
			default:
				f.Stars = stars(catalogue(rng, cl.Stars, W, H, 8), W)
			}
			e["stars"] = len(f.Stars)
			o.f = f
			o.cp = fits.NewImageFromNaxisn([]int32{W, H}, append([]float32(nil), d...))
			o.cp.Stats.Location()
			if k > 0 && cl.Kind == "other" && len(f.Stars) > 0 {
				tr, res := al.Align(f.Naxisn, f.Stars, f.ID)
				if i == 0 && res < 100 && rng.Intn(2) == 0 { // the threshold right at this residual, or just below
					thr = res
					if rng.Intn(2) == 0 {
						thr = math.Nextafter32(res, 0)
					}
				}
				e["fit"] = flag(res <= thr)
				if res <= thr {
					oob := float32(math.NaN())
					if mode == 1 && c.MatchHisto != nil {
						oob = c.MatchHisto.Location()
					} else if mode == 2 {
						oob = o.cp.Stats.Location()
					}
					o.want, _ = o.cp.Project([]int32{W, H}, tr, oob)
					s, _ := o.cp.Project([]int32{W, H}, tr, -77777)
					o.fill = -1
					for j, v := range s.Data {
						if v == -77777 {
							o.fill = j
							break
						}
					}
					if o.fill >= 0 {
						e["oob"] = vlib.Fix32(oob, 100)
					}
				}
			}
		}
		os[i] = o
	}
	op := post.NewOpAlign(int32(k), thr, post.OutOfBoundsMode(mode))
	do := func(i int) {
		o := os[i]
		o.e["panic"] = vlib.Try(func() {
			g, err := op.Apply(o.f, o.c)
			switch {
			case err != nil:
				o.e["out"] = "error"
			case g == nil:
				o.e["out"] = "skip"
			case g == o.f:
				o.e["out"] = "same"
				o.e["same"] = flag(same(g.Data, o.cp.Data) && g.ID == 10+i && g.HFR == 3.5 && g.Exposure == 30)
				o.e["ident"] = flag(g.Trans == star.IdentityTransform2D())
			default:
				o.e["out"] = "project"
				o.e["meta"] = flag(g.ID == 10+i && g.HFR == 3.5 && g.Exposure == 30)
				o.e["naxis"] = ints(g.Naxisn)
				o.e["same"] = flag(o.want != nil && same(g.Data, o.want.Data))
				if o.fill >= 0 && o.want != nil {
					o.e["fill"] = vlib.Fix32(g.Data[o.fill], 100)
				}
			}
		})
		if o.e["panic"] != "" {
			o.e["out"] = "crash"
		}
	}
	if conc {
		var wg sync.WaitGroup
		start := make(chan bool)
		for i := range os {
			wg.Add(1)
			go func(i int) { defer wg.Done(); <-start; do(i) }(i)
		}
		close(start)
		wg.Wait()
	} else {
		for i := range os {
			do(i)
		}
	}
	ms := make([]vlib.M, len(os))
	for i := range os {
		ms[i] = os[i].e
	}
	out.PutAll(ms)
}

func randCalls(rng *rand.Rand, n int, conc bool) []call {
	k, mode := []int{0, 15, 15, 50, 50}[rng.Intn(5)], rng.Intn(3)
	rs, hist := []int{-1, 0, 20, 20, 20, 20}[rng.Intn(6)], rng.Intn(4)
	if hist > 1 {
		hist = 1
	}
	cs := make([]call, n)
	for i := range cs {
		if !conc && rng.Intn(3) == 0 {
			rs = []int{-1, 0, 20, 20}[rng.Intn(4)]
		}
		c := call{K: k, Mode: mode, Kind: "other", Stars: 20, Rs: rs, Hist: hist, Fit: rng.Intn(3) > 0}
		switch rng.Intn(7) {
		case 0:
			c.Kind, c.Stars = "none", 0
		case 1:
			if rs > 0 {
				c.Kind = "ref"
			}
		case 2:
			c.Stars, c.Fit = rng.Intn(3), false
		}
		cs[i] = c
	}
	return cs
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(120e9)
	rng := vlib.Rng(13)
	mul := 1
	if vlib.Thorough() {
		mul = 10
	}
	switch os.Args[1] {
	case "project", "three", "gate":
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for n := 0; sc.Scan(); n++ {
			switch os.Args[1] {
			case "project":
				var s struct {
					T            T
					W, H, Dw, Dh int
				}
				if json.Unmarshal(sc.Bytes(), &s) != nil {
					vlib.Fatal("scenario %d", n)
				}
				project(s.T, s.W, s.H, s.Dw, s.Dh, 1, fill(s.W*s.H, n), []int{vlib.NaNCode, -5}[n%2])
			case "three":
				var s struct{ P, Q [3][2]int }
				if json.Unmarshal(sc.Bytes(), &s) != nil {
					vlib.Fatal("scenario %d", n)
				}
				three(s.P, s.Q)
			default:
				var cs []call
				if json.Unmarshal(sc.Bytes(), &cs) != nil {
					vlib.Fatal("scenario %d", n)
				}
				gate(rng, cs, false)
			}
		}
	case "rand":
		projections(rng, 3000*mul)
		for i := 0; i < 600*mul; i++ {
			var p, q [3][2]int
			for j := range p {
				for c := 0; c < 2; c++ {
					p[j][c], q[j][c] = rng.Intn(13), rng.Intn(13)
				}
			}
			three(p, q)
			inverse(randT(rng, 10, 10), rng.Intn(41)-20, rng.Intn(41)-20)
		}
		for i := 0; i < 250*mul; i++ {
			nn(rng, 2+i%2, 1+rng.Intn(3+i%40), []int{2, 4, 9, 60, 900}[rng.Intn(5)])
		}
		unrelated(rng, 150*mul)
	case "stars":
		recoveries(rng, 100*mul)
		ramps(rng, 24*mul)
	case "steps":
		for i := 0; i < 40*mul; i++ {
			gate(rng, randCalls(rng, 1+rng.Intn(6), false), false)
			gate(rng, randCalls(rng, 8, true), true)
		}
	}
}
