// C19: records cosmetic correction of frames by the real operator.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

var out *vlib.Out
var ctx *ops.Context
var layouts = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func apply(op ops.Operator, f *fits.Image) (*fits.Image, error) {
	ps, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, ctx)
	if err != nil {
		return nil, err
	}
	return ps[0]()
}

// lo, hi are doubled multiples of the spread
func correct(w, h int, ch, cfa string, lo, hi int, d []int, lower, direct bool) {
	e := vlib.M{"must": "", "what": "", "err": "", "meta": "", "count": -1, "out": []int{}, "d": d}
	e["p"] = vlib.M{"w": w, "h": h, "ch": ch, "cfa": strings.Split(cfa, ""), "lo": lo, "hi": hi}
	if ch != "" && (len(ch) != 1 || strings.Index("RGB", ch) < 0 || strings.Index("RGGB GRBG GBRG BGGR", cfa) < 0) {
		e["must"], e["what"] = "error", "layout or channel are unknown"
	}
	if lower {
		cfa, ch = strings.ToLower(cfa), strings.ToLower(ch)
	}
	vlib.Current(e)
	e["panic"] = vlib.Try(func() {
		fs := make([]float32, len(d))
		for i, v := range d {
			fs[i] = float32(v)
		}
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, fs)
		f.ID = 3
		f.Stats.Max()
		if direct {
			n, err := pre.CosmeticCorrectionBayer(fs, int32(w), ch, cfa, float32(lo)/2, float32(hi)/2)
			e["err"], e["count"], e["out"] = vlib.ErrStr(err), int(n), vlib.FixAll(fs, 2)
			return
		}
		var deb *pre.OpDebayer
		if ch != "" {
			deb = pre.NewOpDebayer(ch, cfa)
		} else if lower {
			deb = pre.NewOpDebayer("", cfa)
		}
		g, err := apply(pre.NewOpBadPixel(float32(lo)/2, float32(hi)/2, deb), f)
		e["err"] = vlib.ErrStr(err)
		if err != nil {
			return
		}
		e["out"] = vlib.FixAll(g.Data, 2)
		mx := g.Data[0]
		for _, v := range g.Data {
			if v > mx {
				mx = v
			}
		}
		if g.Stats.Max() != mx {
			e["meta"] = "statistics are those of the uncorrected frame"
		}
		if g.ID != 3 || int(g.Naxisn[0]) != w || int(g.Naxisn[1]) != h || int(g.Pixels) != w*h {
			e["meta"] = "frame identity or size changed"
		}
	})
	out.Put(e)
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(250 * time.Second)
	ctx = ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	r := vlib.Rng(19)
	switch os.Args[1] {
	case "replay":
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		s := bufio.NewScanner(fh)
		s.Buffer(make([]byte, 1<<20), 1<<26)
		for i := 0; s.Scan(); i++ {
			var sc struct {
				W, H, Lo, Hi int
				D            []int
			}
			if err := json.Unmarshal(s.Bytes(), &sc); err != nil {
				vlib.Fatal("%v", err)
			}
			correct(sc.W, sc.H, "", "RGGB", sc.Lo, sc.Hi, sc.D, false, false)
			for j, ch := range []string{"R", "G", "B"} {
				correct(sc.W, sc.H, ch, layouts[(i+j)%4], sc.Lo, sc.Hi, sc.D, false, false)
			}
		}
	case "rand":
		num := 1200
		if vlib.Thorough() {
			num = 8000
		}
		for i := 0; i < num; i++ {
			w, h := 1+r.Intn(9), 1+r.Intn(9)
			if i%6 == 0 {
				w, h = 3+r.Intn(40), 3+r.Intn(14)
			}
			d := make([]int, w*h)
			noise := r.Intn(5)
			for j := range d {
				d[j] = 20 + r.Intn(noise+1)
			}
			for k := r.Intn(4 + w*h/12); k > 0; k-- {
				j := r.Intn(w * h)
				switch r.Intn(4) {
				case 0: // along the border
					j = r.Intn(w)
				case 1:
					j = r.Intn(h) * w
				}
				d[j] = []int{0, 10, 15, 30, 50, 60}[r.Intn(6)]
				if r.Intn(3) == 0 && j+1 < len(d) { // clusters
					d[j+1] = d[j]
				}
				if r.Intn(3) == 0 && j+w < len(d) {
					d[j+w] = d[j]
				}
			}
			ch := []string{"", "", "R", "G", "G", "B"}[r.Intn(6)]
			lo, hi := 1+r.Intn(10), 1+r.Intn(10)
			if r.Intn(30) == 0 {
				lo = 0
			} else if r.Intn(30) == 0 {
				hi = 0
			}
			correct(w, h, ch, layouts[r.Intn(4)], lo, hi, d, r.Intn(5) == 0, ch != "" && lo*hi > 0 && r.Intn(4) == 0)
			if i%100 == 0 {
				correct(w, h, "X", "RGGB", 6, 6, d, false, false)
				correct(w, h, "R", "RRGB", 6, 6, d, false, false)
			}
		}
	}
}
