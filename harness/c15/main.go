// C15: records debayered and binned frames produced by the real operators.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

var out *vlib.Out
var ctx *ops.Context
var layouts = []string{"RGGB", "GRBG", "GBRG", "BGGR"}

func letters(s string) []string { return strings.Split(s, "") }

// runs one operator on one frame the way a job does: through its promise
func apply(op ops.Operator, f *fits.Image) (*fits.Image, error) {
	ps, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, ctx)
	if err != nil {
		return nil, err
	}
	return ps[0]()
}

func frame(naxis []int32, d []int) *fits.Image {
	fs := make([]float32, len(d))
	for i, v := range d {
		fs[i] = float32(v)
	}
	f := fits.NewImageFromNaxisn(naxis, fs)
	f.ID, f.FileName, f.Exposure = 7, "light7.fits", 30
	return f
}

func meta(e vlib.M, f *fits.Image) {
	e["pix"] = int(f.Pixels)
	if len(f.Naxisn) < 2 {
		e["meta"] = "lost an axis"
		return
	}
	e["ow"], e["oh"], e["oplanes"] = int(f.Naxisn[0]), int(f.Naxisn[1]), 1
	for _, n := range f.Naxisn[2:] {
		e["oplanes"] = e["oplanes"].(int) * int(n)
	}
	e["out"] = vlib.FixAll(f.Data, 100)
	if f.ID != 7 || f.FileName != "light7.fits" || f.Exposure != 30 {
		e["meta"] = "frame identity or exposure lost"
	}
	if len(f.Data) > 0 {
		mx := f.Data[0]
		for _, v := range f.Data {
			if v > mx {
				mx = v
			}
		}
		if f.Stats.Max() != mx {
			e["meta"] = "statistics do not belong to the new pixels"
		}
	}
}

func rec(op, must, what string) vlib.M {
	return vlib.M{"op": op, "must": must, "what": what, "err": "", "meta": "", "pix": 0, "out": []int{}, "ow": 0, "oh": 0, "oplanes": 0}
}

func debayer(w, h int, cfa, ch string, d []int, lower, direct bool, planes int) {
	e := rec("debayer", "", "")
	e["w"], e["h"], e["cfa"], e["ch"], e["d"] = w, h, letters(cfa), ch, d
	xo, yo := strings.Index(cfa, "R")%2, strings.Index(cfa, "R")/2
	if (w-xo)/2 == 0 || (h-yo)/2 == 0 {
		e["must"], e["what"] = "error", "the frame has no complete mosaic block"
	}
	if planes > 1 {
		e["must"], e["what"] = "error", "the frame already has colour channels"
	}
	if len(ch) != 1 || strings.Index("RGB", ch) < 0 || strings.Index("RGGB GRBG GBRG BGGR", cfa) < 0 {
		e["must"], e["what"] = "error", "layout or channel are unknown"
	}
	if lower {
		cfa, ch = strings.ToLower(cfa), strings.ToLower(ch)
	}
	vlib.Current(e)
	e["panic"] = vlib.Try(func() {
		naxis := []int32{int32(w), int32(h)}
		if planes > 1 {
			naxis = append(naxis, int32(planes))
		}
		f := frame(naxis, d)
		if direct {
			res, aw, err := pre.DebayerBilinear(f.Data, int32(w), ch, cfa)
			e["err"] = vlib.ErrStr(err)
			if err == nil {
				e["ow"], e["oh"], e["pix"], e["out"] = int(aw), len(res)/int(aw), len(res), vlib.FixAll(res, 100)
			}
			return
		}
		f.Stats.Max()
		g, err := apply(pre.NewOpDebayer(ch, cfa), f)
		e["err"] = vlib.ErrStr(err)
		if err == nil {
			meta(e, g)
		}
	})
	out.Put(e)
}

func bin(w, h, planes, n int, d []int) {
	e := rec("bin", "", "")
	e["w"], e["h"], e["planes"], e["n"], e["d"] = w, h, planes, n, d
	if n > w || n > h {
		e["must"], e["what"] = "error", "no complete block fits"
	}
	vlib.Current(e)
	e["panic"] = vlib.Try(func() {
		naxis := []int32{int32(w), int32(h)}
		if planes > 1 {
			naxis = append(naxis, int32(planes))
		}
		f := frame(naxis, d)
		f.Stats.Max()
		g, err := apply(pre.NewOpBin(int32(n)), f)
		e["err"] = vlib.ErrStr(err)
		if err == nil {
			meta(e, g)
		}
	})
	out.Put(e)
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(250 * time.Second)
	ctx = ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	r := vlib.Rng(15)
	fill := func(n, max int) []int {
		d := make([]int, n)
		for i := range d {
			d[i] = r.Intn(max)
		}
		return d
	}
	switch os.Args[1] {
	case "replay":
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		s := bufio.NewScanner(fh)
		s.Buffer(make([]byte, 1<<20), 1<<26)
		for s.Scan() {
			var sc struct {
				Cfa  []string
				W, H int
				D    []int
			}
			if err := json.Unmarshal(s.Bytes(), &sc); err != nil {
				vlib.Fatal("%v", err)
			}
			for _, ch := range []string{"R", "G", "B"} {
				debayer(sc.W, sc.H, strings.Join(sc.Cfa, ""), ch, sc.D, false, false, 1)
			}
			bin(sc.W, sc.H, 1, 2, sc.D)
		}
	case "rand":
		num := 500
		if vlib.Thorough() {
			num = 3000
		}
		for i := 0; i < num; i++ {
			w, h := 1+r.Intn(12), 1+r.Intn(12)
			if i%10 == 0 {
				w, h = 1+r.Intn(70), 1+r.Intn(20)
			}
			max := 4096
			if i%7 == 0 {
				max = 65536
			}
			debayer(w, h, layouts[r.Intn(4)], []string{"R", "G", "B"}[r.Intn(3)], fill(w*h, max), r.Intn(4) == 0, r.Intn(4) == 0 && w > 2 && h > 2, 1)
		}
		for _, ch := range []string{"R", "G", "B"} {
			for _, cfa := range layouts {
				debayer(6, 4, cfa, ch, fill(72, 4096), false, false, 3)
				debayer(6, 4, cfa+"X", ch, fill(24, 4096), false, false, 1)
				debayer(6, 4, cfa[1:]+cfa[:1], ch+ch, fill(24, 4096), false, false, 1)
			}
			debayer(6, 4, "RGBG", ch, fill(24, 4096), false, false, 1)
			debayer(6, 4, "RGGB", "L", fill(24, 4096), false, false, 1)
		}
	case "bin":
		num := 400
		if vlib.Thorough() {
			num = 3000
		}
		for i := 0; i < num; i++ {
			w, h, p, n := 1+r.Intn(14), 1+r.Intn(14), 1, 2+r.Intn(4)
			if i%3 == 0 {
				p = 2 + r.Intn(3)
			}
			if i%20 == 0 {
				n = 2 + r.Intn(14)
			}
			bin(w, h, p, n, fill(w*h*p, 4096))
		}
	default:
		vlib.Fatal(fmt.Sprint("unknown mode ", os.Args))
	}
}
