// C05: stacks frames in every mode and records the samples and the result of pixel positions.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math"
	"math/rand"
	"os"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Scen struct {
	Mode, WK, N, SL, SH, Fill int
	W, H                      int
	Cols                      [][]int // per pixel: samples of all frames (999999999: NaN)
	Exps, HFR                 []int
	DiffDims                  int // 0: equal; 1..: one frame has other dimensions
	Auto                      bool
	Seed                      int64
}

func run(s Scen) []vlib.M {
	rng := rand.New(rand.NewSource(s.Seed))
	npx := s.W * s.H
	fs := make([]*fits.Image, s.N)
	for i := range fs {
		w, h := s.W, s.H
		if s.DiffDims > 0 && i == s.DiffDims%s.N {
			switch s.DiffDims % 3 {
			case 0:
				w++
			case 1:
				h++
			case 2:
				if w*h > 1 && w != h {
					w, h = h, w
				} else {
					w += 2
				}
			}
		}
		d := make([]float32, w*h)
		for p := 0; p < npx && p < len(d); p++ {
			v := s.Cols[p][i]
			if v == vlib.NaNCode {
				d[p] = float32(math.NaN())
			} else {
				d[p] = float32(v)
			}
		}
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
		f.ID = i
		f.Exposure = float32(s.Exps[i])
		f.HFR = float32(s.HFR[i])
		if s.HFR[i] == vlib.NaNCode { // no stars were found
			f.HFR = float32(math.NaN())
		}
		fs[i] = f
	}
	wv := make([]int, s.N)
	for i := range wv {
		switch s.WK {
		case 1:
			wv[i] = s.Exps[i]
		case 2:
			wv[i] = vlib.Fix32(fs[i].Stats.Noise(), 1000)
		case 3:
			wv[i] = s.HFR[i]
		}
	}
	op := stack.NewOpStack(stack.StackMode(s.Mode), stack.StackWeighting(s.WK), float32(s.SL)/8, float32(s.SH)/8)
	op.RefFrameLoc = float32(s.Fill)
	c := &ops.Context{Log: ioutil.Discard, MaxThreads: 4}
	var res *fits.Image
	var err error
	if s.N == 0 || s.Seed%2 == 0 {
		res, err = op.Apply(fs, c)
	} else {
		ins := make([]ops.Promise, s.N)
		for i := range ins {
			f := fs[i]
			ins[i] = func() (*fits.Image, error) { return f, nil }
		}
		var outs []ops.Promise
		outs, err = op.MakePromises(ins, c)
		if err == nil {
			res, err = outs[0]()
		}
	}
	h := vlib.M{"new": 1, "mode": s.Mode, "wk": s.WK, "wv": wv, "n": s.N, "sl": s.SL, "sh": s.SH, "fill": s.Fill,
		"exps": s.Exps, "err": 0, "samedims": 1, "outdims": 0, "expsum": 0}
	if s.DiffDims > 0 && s.N > 1 {
		h["samedims"] = 0
	}
	if err != nil {
		h["err"] = 1
		return []vlib.M{h}
	}
	if len(res.Naxisn) == 2 && int(res.Naxisn[0]) == s.W && int(res.Naxisn[1]) == s.H && len(res.Data) == npx {
		h["outdims"] = 1
	}
	h["expsum"] = int(res.Exposure)
	evs := []vlib.M{h}
	if h["samedims"] == 0 {
		return evs
	}
	for p := 0; p < npx && p < len(res.Data); p++ {
		if npx > 60 && p != 0 && p != npx-1 && rng.Intn(npx) > 40 && s.Auto {
			continue
		}
		evs = append(evs, vlib.M{"new": 0, "v": s.Cols[p], "r": vlib.Fix32(res.Data[p], 100)})
	}
	return evs
}

func sig(rng *rand.Rand) int { return []int{9, 9, 10, 12, 14, 16, 20, 22, 24}[rng.Intn(9)] }

func col(rng *rand.Rand, n, rg int) []int {
	c := make([]int, n)
	kind := rng.Intn(6)
	spread := 3 + rng.Intn(10)
	base := rng.Intn(rg) - rg/2
	for i := range c {
		switch kind {
		case 0:
			c[i] = rng.Intn(rg) - rg/2
		case 1: // cluster with outliers
			c[i] = base/2 + rng.Intn(4)
			if rng.Intn(6) == 0 {
				c[i] = rng.Intn(rg) - rg/2
			}
		case 2: // few distinct values
			c[i] = []int{base, -base, 1}[rng.Intn(3)]
		case 3: // ramp with outlier
			c[i] = i - n/2
			if rng.Intn(8) == 0 {
				c[i] = rg/2 - 1
			}
		case 5: // one in the middle, the others about equally far on either side
			c[i] = base/2 + (i%3-1)*spread + rng.Intn(2)
		case 4: // two-sided
			c[i] = (rng.Intn(7) + rng.Intn(7) + rng.Intn(7)) - 9
			if rng.Intn(9) == 0 {
				c[i] = -rg / 2
			}
		}
		if rng.Intn(12) == 0 {
			c[i] = vlib.NaNCode
		}
	}
	if rng.Intn(25) == 0 {
		for i := range c {
			c[i] = vlib.NaNCode
		}
	}
	return c
}

func fill(rng *rand.Rand, s *Scen) {
	s.Exps = make([]int, s.N)
	s.HFR = make([]int, s.N)
	same := rng.Intn(4) == 0
	for i := range s.Exps {
		s.Exps[i] = 1 + rng.Intn(20)
		s.HFR[i] = rng.Intn(12)
		if same {
			s.Exps[i], s.HFR[i] = 5, 3
		}
		if rng.Intn(9) == 0 {
			s.HFR[i] = vlib.NaNCode
		}
	}
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(60e9)
	rng := vlib.Rng(5)
	var scens []Scen
	if os.Args[1] == "replay" { // columns enumerated by TLC, by number of frames
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		byN := map[int][][]int{}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var g struct {
				V []int `json:"v"`
			}
			if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
				vlib.Fatal("%v", err)
			}
			byN[len(g.V)] = append(byN[len(g.V)], g.V)
		}
		for n := 1; n < 10; n++ {
			cols := byN[n]
			if cols == nil {
				continue
			}
			for mode := 0; mode <= 5; mode++ {
				for wk := 0; wk <= 1; wk++ {
					if wk > 0 && mode > 3 {
						continue
					}
					s := Scen{Mode: mode, WK: wk, N: n, SL: sig(rng), SH: sig(rng), Fill: 7, W: len(cols), H: 1, Cols: cols, Seed: rng.Int63()}
					fill(rng, &s)
					scens = append(scens, s)
				}
			}
		}
	} else {
		num := 420
		if vlib.Thorough() {
			num = 6000
		}
		for q := 0; q < num; q++ {
			s := Scen{Mode: rng.Intn(7), SL: sig(rng), SH: sig(rng), Fill: rng.Intn(100) - 50, Seed: rng.Int63(), Auto: true,
				N: 1 + rng.Intn(9), W: 1 + rng.Intn(7), H: 1 + rng.Intn(6)}
			if s.Mode == 6 || rng.Intn(3) == 0 {
				s.N = []int{5, 6, 14, 15, 16, 24, 25, 26, 1 + rng.Intn(28)}[rng.Intn(9)]
			}
			if rng.Intn(10) == 0 {
				s.W, s.H = 1+rng.Intn(400), 1+rng.Intn(9)
			}
			if rng.Intn(2) == 0 {
				s.WK = rng.Intn(4)
			}
			if s.Mode == 4 && rng.Intn(3) > 0 {
				s.WK = 0
			}
			if rng.Intn(30) == 0 && s.N > 1 {
				s.DiffDims = 1 + rng.Intn(20)
			}
			if rng.Intn(40) == 0 {
				s.N = 0
			}
			if rng.Intn(40) == 0 {
				s.Mode = []int{-1, 7, 9}[rng.Intn(3)]
			}
			if rng.Intn(50) == 0 {
				s.WK = 4
			}
			if s.WK == 2 { // enough pixels for a noise estimate
				if s.W < 4 {
					s.W = 4
				}
				if s.H < 4 {
					s.H = 4
				}
			}
			fill(rng, &s)
			if s.N > 0 && rng.Intn(15) == 0 {
				s.Exps[rng.Intn(s.N)] = 0
			}
			rg := 56
			if s.Mode == 5 || s.Mode == 6 {
				rg = 30
			}
			keepNaN := rng.Intn(2) == 0
			for p := 0; p < s.W*s.H; p++ {
				c := col(rng, s.N, rg)
				if s.WK == 2 && !keepNaN {
					for i := range c {
						if c[i] == vlib.NaNCode {
							c[i] = 0
						}
					}
				}
				s.Cols = append(s.Cols, c)
			}
			scens = append(scens, s)
		}
	}
	for _, s := range scens {
		vlib.Current(s)
		out.PutAll(run(s))
	}
	out.Close()
}
