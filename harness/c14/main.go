// C14: records combinations of frames into colour images, and the application of their luminance.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"io/ioutil"
	"os"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/hsl"
	"github.com/mlnoga/nightlight/internal/ops/rgb"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

const S = 10000.0

var out *vlib.Out

type fr struct {
	St    string
	W, H  int
	P, Ex int
	D     []int
}
type combo struct {
	Lit bool
	Ins []fr
}

func clean(d []int) []int {
	if d == nil {
		return []int{}
	}
	return d
}

// combos run one after the other in one context
func session(cs []combo, r interface{ Intn(int) int }, hsluv bool) {
	c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	c.MaxThreads = 1 + r.Intn(5)
	var stars []star.Star
	if r.Intn(2) == 0 {
		stars = []star.Star{{Index: 1, Mass: 3}, {Index: 2, Mass: 4}}
		c.AlignStars, c.AlignHFR = stars, 2.5
	}
	for _, co := range cs {
		ins := []vlib.M{}
		for _, f := range co.Ins {
			ins = append(ins, vlib.M{"st": f.St, "w": f.W, "h": f.H, "p": f.P, "ex": f.Ex, "d": clean(f.D)})
		}
		e := vlib.M{"ins": ins, "lit": co.Lit, "err": "", "meta": "", "w": 0, "h": 0, "p": 0, "ex": 0, "ch": [][]int{}, "lerr": "", "lch": []int{}, "lothers": 0, "lex": 0, "alone": 0}
		vlib.Current(e)
		e["panic"] = vlib.Try(func() {
			ps := make([]ops.Promise, len(co.Ins))
			for i := range co.Ins {
				f := co.Ins[i]
				wait := time.Duration(r.Intn(4)) * 300 * time.Microsecond
				id := i
				ps[i] = func() (*fits.Image, error) {
					time.Sleep(wait)
					if f.St == "fail" {
						return nil, errors.New("no such frame")
					}
					if f.St == "skip" {
						return nil, nil
					}
					d := make([]float32, len(f.D))
					for k, v := range f.D {
						d[k] = float32(v)
					}
					nax := []int32{int32(f.W), int32(f.H)}
					if f.P > 1 {
						nax = append(nax, int32(f.P))
					}
					g := fits.NewImageFromNaxisn(nax, d)
					g.ID, g.Exposure = id, float32(f.Ex)
					return g, nil
				}
			}
			os, err := rgb.NewOpRGBCombine().MakePromises(ps, c)
			if err != nil {
				e["err"] = err.Error()
				return
			}
			if len(os) != 1 {
				e["meta"] = "not one result"
				return
			}
			g, err := os[0]()
			if err != nil {
				e["err"] = err.Error()
				return
			}
			if g == nil {
				e["err"] = "no result"
				return
			}
			if len(g.Naxisn) != 3 || int(g.Pixels) != len(g.Data) {
				e["meta"] = "result is no colour image"
				return
			}
			if len(g.Stars) != len(stars) || (stars != nil && g.HFR != 2.5) {
				e["meta"] = "stars of the alignment frame are missing"
				return
			}
			e["w"], e["h"], e["p"], e["ex"] = int(g.Naxisn[0]), int(g.Naxisn[1]), int(g.Naxisn[2]), vlib.Fix32(g.Exposure, 1)
			l := len(g.Data) / 3
			ch := [][]int{}
			for k := 0; k < 3; k++ {
				ch = append(ch, vlib.FixAll(g.Data[k*l:(k+1)*l], S))
			}
			e["ch"] = ch
			if fresh := stats.NewStats(append([]float32{}, g.Data...), g.Naxisn[0]); fresh.Max() != g.Stats.Max() {
				e["meta"] = "statistics are not those of the result"
			}
			if !co.Lit {
				return
			}
			if hsluv {
				g.RGBToHSLuv()
			}
			before := append([]float32{}, g.Data...)
			lp, err := hsl.NewOpHSLApplyLum().MakePromises([]ops.Promise{func() (*fits.Image, error) { return g, nil }}, c)
			if err != nil {
				e["lerr"] = err.Error()
				return
			}
			q, err := lp[0]()
			if err != nil {
				e["lerr"] = err.Error()
				return
			}
			if len(q.Data) != len(before) || len(q.Naxisn) != 3 {
				e["meta"] = "luminance changed the size"
				return
			}
			others, alone := 0, 0
			for k := range before {
				if before[k] != q.Data[k] {
					if k < 2*l {
						others++
					} else {
						alone++
					}
				}
			}
			e["lothers"], e["alone"], e["lch"], e["lex"] = others, alone, vlib.FixAll(q.Data[2*l:], S), vlib.Fix32(q.Exposure, 1)
			if fresh := stats.NewStats(append([]float32{}, q.Data...), q.Naxisn[0]); fresh.Max() != q.Stats.Max() {
				e["meta"] = "statistics are not those of the lit result"
			}
		})
		out.Put(e)
	}
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(250 * time.Second)
	r := vlib.Rng(14)
	switch os.Args[1] {
	case "replay":
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var s []combo
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			session(s, r, false)
		}
	case "rand":
		num := 400
		if vlib.Thorough() {
			num = 4000
		}
		for i := 0; i < num; i++ {
			var cs []combo
			for j := 0; j < 1+r.Intn(3); j++ {
				w, h := 1+r.Intn(9), 1+r.Intn(9)
				co := combo{Lit: r.Intn(3) > 0}
				n := 3 + r.Intn(2)
				if r.Intn(10) == 0 {
					n = r.Intn(7)
				}
				lo, sp := r.Intn(3000)-200, 700+r.Intn(30000)
				if r.Intn(8) == 0 {
					sp = 1
				}
				for k := 0; k < n; k++ {
					f := fr{St: "ok", W: w, H: h, P: 1, Ex: 1 + r.Intn(500)}
					switch r.Intn(40) {
					case 0:
						f.St = "skip"
					case 1:
						f.St = "fail"
					case 2:
						f.W++
					case 3:
						f.H++
					case 4:
						f.W, f.H = f.H, f.W
					case 5:
						f.P = 3
					}
					l, s := lo+r.Intn(400), 1+r.Intn(sp)
					if k == 3 {
						l, s = lo+r.Intn(3*sp), 700+r.Intn(20000)
						if r.Intn(8) == 0 {
							s = 1
						}
					}
					for q := 0; q < f.W*f.H*f.P; q++ {
						f.D = append(f.D, l+r.Intn(s))
					}
					co.Ins = append(co.Ins, f)
				}
				cs = append(cs, co)
			}
			session(cs, r, r.Intn(2) == 0)
		}
	}
}
