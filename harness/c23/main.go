// Runs background extraction on frames and records what is left of them, the background files and what was seen.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type st struct {
	X int `json:"x"`
	Y int `json:"y"`
	R int `json:"r"`
}
type scen struct {
	W     int   `json:"w"`
	H     int   `json:"h"`
	Data  []int `json:"data"`
	Stars []st  `json:"stars"`
	Grid  int   `json:"grid"`
	Clip  int   `json:"clip"`
}

var stuck int

// the frames, run through one operator
func do(frames []scen, ids []int, sigma int, save string) []vlib.M {
	s0 := frames[0]
	vlib.Current(frames)
	factor := []float32{1, 4, 0.5}[(s0.Grid+s0.W+s0.Clip+sigma)%3] // powers of two are exact
	op := pre.NewOpBackExtract(int32(s0.Grid), factor, float32(sigma)/4, int32(s0.Clip), save)
	c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	recs := make([]vlib.M, len(frames))
	ins := make([]ops.Promise, len(frames))
	for i, s := range frames {
		data := make([]float32, len(s.Data))
		for k, v := range s.Data {
			data[k] = float32(v)
		}
		f := fits.NewImageFromNaxisn([]int32{int32(s.W), int32(s.H)}, data)
		f.ID = ids[i]
		for _, x := range s.Stars {
			f.Stars = append(f.Stars, star.Star{Index: int32(x.X/2 + x.Y/2*s.W), X: float32(x.X) / 2, Y: float32(x.Y) / 2, HFR: float32(x.R) / 2 / factor})
		}
		ins[i] = func() (*fits.Image, error) { return f, nil }
		stars := s.Stars
		if stars == nil {
			stars = []st{}
		}
		recs[i] = vlib.M{"w": s.W, "h": s.H, "data": s.Data, "stars": stars, "grid": s.Grid, "clip": s.Clip, "sigma": sigma, "save": save != "", "id": ids[i], "err": "", "panic": "", "out": []int{}, "bg": []int{}, "bgdims": []int{}, "files": 0, "stats": true}
	}
	outs := make([]*fits.Image, len(frames))
	errs := make([]error, len(frames))
	panics := make([]string, len(frames))
	var perr error
	var promises []ops.Promise
	p := vlib.Try(func() { promises, perr = op.MakePromises(ins, c) })
	type res struct {
		i int
		f *fits.Image
		e error
		p string
	}
	if p == "" && perr == nil && len(promises) == len(frames) {
		ch := make(chan res, len(frames))
		for i := range promises {
			go func(i int) {
				var r res
				r.i = i
				r.p = vlib.Try(func() { r.f, r.e = promises[i]() })
				ch <- r
			}(i)
			if len(frames) == 1 || i%2 == 1 {
				continue
			}
		}
		for i := range panics {
			panics[i] = "the call did not return"
		}
		limit := time.After(10 * time.Second)
	wait:
		for n := 0; n < len(frames); n++ {
			select {
			case r := <-ch:
				outs[r.i], errs[r.i], panics[r.i] = r.f, r.e, r.p
			case <-limit:
				stuck++
				break wait
			}
		}
	}
	for i := range frames {
		m := recs[i]
		if p != "" {
			m["panic"] = p
		} else if panics[i] != "" {
			m["panic"] = panics[i]
		} else if perr != nil || errs[i] != nil {
			m["err"] = fmt.Sprint(perr, errs[i])
		} else if outs[i] != nil {
			m["out"] = vlib.FixAll(outs[i].Data, 1000)
			mn, mx := float32(0), float32(0)
			for k, v := range outs[i].Data {
				if k == 0 || v < mn {
					mn = v
				}
				if k == 0 || v > mx {
					mx = v
				}
			}
			m["stats"] = len(outs[i].Data) == 0 || outs[i].Stats.Min() == mn && outs[i].Stats.Max() == mx
		}
		if save != "" {
			list, _ := ioutil.ReadDir(".")
			m["files"] = len(list)
			if b, err := fits.NewImageFromFile(fmt.Sprintf(save, ids[i]), 0, ioutil.Discard); err == nil {
				m["bg"] = vlib.FixAll(b.Data, 1000)
				d := []int{}
				for _, n := range b.Naxisn {
					d = append(d, int(n))
				}
				m["bgdims"] = d
			}
		}
	}
	if save != "" {
		list, _ := ioutil.ReadDir(".")
		for _, f := range list {
			os.Remove(f.Name())
		}
	}
	return recs
}

func gridPerhaps(size, grid int) bool { // no centre or bound on a half pixel, except exact ones
	n := (size + grid/2) / grid
	if n < 2 {
		n = 2
	}
	if n&(n-1) == 0 {
		return true
	}
	for i := 0; i <= 2*n; i++ {
		if (i*size-n)%(2*n) == 0 {
			return false
		}
	}
	return true
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out := vlib.NewOut()
	defer out.Close()
	r := vlib.Rng(23)
	os.MkdirAll("bg", 0755)
	if err := os.Chdir("bg"); err != nil {
		vlib.Fatal("%v", err)
	}
	put := func(frames []scen, ids []int, sigma int, save string) {
		if stuck >= 4 {
			return // enough has been seen; these use up processors
		}
		for _, m := range do(frames, ids, sigma, save) {
			out.Put(m)
		}
	}
	if os.Args[1] == "replay" {
		b, err := ioutil.ReadFile(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		for i, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var s scen
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			if !gridPerhaps(s.W, s.Grid) || !gridPerhaps(s.H, s.Grid) {
				continue
			}
			put([]scen{s}, []int{i % 5}, 6, []string{"", "", "b%d.fits"}[i%3])
		}
		return
	}
	n := 150
	if vlib.Thorough() {
		n = 1200
	}
	for i := 0; i < n; i++ {
		var s scen
		for {
			s.W, s.H, s.Grid = 1+r.Intn(30), 1+r.Intn(30), 1+r.Intn(16)
			if r.Intn(10) == 0 {
				s.Grid = 20 + r.Intn(100)
			}
			if gridPerhaps(s.W, s.Grid) && gridPerhaps(s.H, s.Grid) && (s.Grid > 2 || s.W*s.H < 200) {
				break
			}
		}
		if r.Intn(3) == 0 {
			s.Clip = r.Intn(8)
		}
		if r.Intn(30) == 0 {
			s.Clip = 1000
		}
		sigma := []int{0, 2, 4, 6, 8, 12}[r.Intn(6)]
		k := 1
		save := ""
		if r.Intn(3) == 0 {
			k = 1 + r.Intn(4)
			save = []string{"b%d.fits", "back%04d.fit"}[r.Intn(2)]
		}
		if r.Intn(20) == 0 {
			s.Grid = -r.Intn(2) // switched off
		}
		frames := make([]scen, k)
		ids := r.Perm(9)[:k]
		for j := range frames {
			f := s
			f.Data = make([]int, f.W*f.H)
			ax, ay, lev, noise := r.Intn(20)-10, r.Intn(20)-10, 300+r.Intn(300), []int{1, 1, 5, 40}[r.Intn(4)]
			for p := range f.Data {
				v := lev + ax*(p%f.W-f.W/2)/2 + ay*(p/f.W-f.H/2)/2 + r.Intn(noise)
				if r.Intn(20) == 0 {
					v += r.Intn(400)
				}
				if v < 0 {
					v = 0
				}
				if v > 1000 {
					v = 1000
				}
				f.Data[p] = v
			}
			for q := 0; q < r.Intn(4); q++ {
				x := st{r.Intn(2*f.W + 1), r.Intn(2*f.H + 1), 1 + r.Intn(12)}
				if r.Intn(6) == 0 {
					x.R = 10 + r.Intn(60)
				}
				f.Stars = append(f.Stars, x)
			}
			frames[j] = f
		}
		put(frames, ids, sigma, save)
	}
}

var _ = rand.Intn
