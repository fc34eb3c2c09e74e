// C04: runs batched stacking over recording inputs and batches.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"io/ioutil"
	"math/rand"
	"os"
	"runtime"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Scen struct {
	N, MB, W, H, Procs, Dark, Flat int
	Kinds                          []string
	Real, Failbatch                int
	Seed                           int64
}

// first step of each batch: reports the batch and its size
type startOp struct {
	ops.OpBase
	start func(n int)
}

func (o *startOp) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	o.start(len(ins))
	return ins, nil
}

// alternative batch result: evaluates all inputs and delivers a given image
type givenOp struct {
	ops.OpBase
	make func() (*fits.Image, error)
}

func (o *givenOp) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	return []ops.Promise{func() (*fits.Image, error) {
		if _, err := ops.MaterializeAll(ins, c.MaxThreads, true); err != nil {
			return nil, err
		}
		return o.make()
	}}, nil
}

func naxis(s Scen) []int32 { return []int32{int32(s.W), int32(s.H)} }

func run(s Scen) []vlib.M {
	var mu sync.Mutex
	evs := []vlib.M{{"new": 1, "ev": "scen", "n": s.N, "mb": s.MB, "w": s.W, "h": s.H, "procs": s.Procs,
		"dark": s.Dark, "flat": s.Flat, "kinds": s.Kinds, "real": s.Real, "failbatch": s.Failbatch}}
	put := func(m vlib.M) {
		m["new"] = 0
		mu.Lock()
		evs = append(evs, m)
		mu.Unlock()
	}
	rng := rand.New(rand.NewSource(s.Seed))
	npx := s.W * s.H
	ins := make([]ops.Promise, s.N)
	for i := 1; i <= s.N; i++ {
		i := i
		ins[i-1] = func() (*fits.Image, error) {
			put(vlib.M{"ev": "load", "i": i})
			switch s.Kinds[i-1] {
			case "nil":
				return nil, nil
			case "fail":
				return nil, errors.New("no such frame")
			}
			d := make([]float32, npx)
			for p := range d {
				d[p] = float32((i*37 + p*11) % 101)
			}
			f := fits.NewImageFromNaxisn(naxis(s), d)
			f.ID = i
			f.Exposure = float32(1 + i%5)
			return f, nil
		}
	}
	k := 0
	seq := ops.NewOpSequence(&startOp{OpBase: ops.OpBase{Type: "verifstart"}, start: func(n int) {
		k++
		put(vlib.M{"ev": "batch", "size": n})
	}})
	if s.Real == 1 {
		seq.Append(stack.NewOpStack(stack.StMean, stack.StWeightNone, 2.75, 2.75))
	} else {
		seq.Append(&givenOp{OpBase: ops.OpBase{Type: "verifgiven"}, make: func() (*fits.Image, error) {
			if k == s.Failbatch {
				return nil, errors.New("batch failed")
			}
			d := make([]float32, npx)
			for p := range d {
				d[p] = float32((k*53 + p*29) % 97)
			}
			f := fits.NewImageFromNaxisn(naxis(s), d)
			f.Exposure = float32(10 + k)
			return f, nil
		}})
	}
	runtime.GOMAXPROCS(s.Procs)
	c := ops.NewContext(ioutil.Discard, s.MB, stats.LSEMeanStdDev)
	if s.Dark == 1 {
		c.DarkFrame = fits.NewImageFromNaxisn(naxis(s), nil)
	}
	if s.Flat == 1 {
		c.FlatFrame = fits.NewImageFromNaxisn(naxis(s), nil)
	}
	res := vlib.M{"ev": "result", "err": 1, "t": 0, "exp": 0, "px": [][]int{}}
	outs, err := stack.NewOpStackBatches(seq).MakePromises(ins, c)
	if err == nil && len(outs) == 1 {
		var f *fits.Image
		f, err = outs[0]()
		res["t"] = c.MaxThreads
		if err == nil {
			res["err"] = 0
			if f == nil {
				res["err"] = 2
			} else {
				res["exp"] = int(f.Exposure)
				px := [][]int{}
				for q := 0; q < 8 && len(f.Data) == npx; q++ {
					p := rng.Intn(npx)
					if q == 0 {
						p = npx - 1
					}
					px = append(px, []int{p, vlib.Fix32(f.Data[p], 1000)})
				}
				res["px"] = px
				if len(px) == 0 {
					res["exp"] = -1
				}
			}
		}
	}
	put(res)
	runtime.GOMAXPROCS(8)
	return evs
}

func oks(n int) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = "ok"
	}
	return r
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(60e9)
	rng := vlib.Rng(4)
	var scens []Scen
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var s Scen
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			s.Kinds = oks(s.N)
			s.Real = rng.Intn(2)
			s.Seed = rng.Int63()
			scens = append(scens, s)
		}
	} else {
		num := 300
		if vlib.Thorough() {
			num = 4000
		}
		for q := 0; q < num; q++ {
			s := Scen{N: 1 + rng.Intn(20), MB: 1, Procs: 1 + rng.Intn(8), Dark: rng.Intn(2), Flat: rng.Intn(2), Seed: rng.Int63(),
				Real: rng.Intn(2), H: 1 + rng.Intn(6)}
			if rng.Intn(4) == 0 {
				s.N = 1 + rng.Intn(70)
			}
			av := 2 + rng.Intn(s.N+8)
			if rng.Intn(3) == 0 {
				av = 4 + rng.Intn(9)
			}
			if rng.Intn(4) == 0 && s.N < 15 {
				s.MB = 2 + rng.Intn(3)
			}
			s.W = s.MB * 262144 / av / s.H
			s.Kinds = oks(s.N)
			switch rng.Intn(6) {
			case 0:
				for i := range s.Kinds {
					if rng.Intn(3) == 0 {
						s.Kinds[i] = "nil"
					}
				}
			case 1:
				s.Kinds[rng.Intn(s.N)] = "fail"
			case 2:
				s.Failbatch = 1 + rng.Intn(4)
				s.Real = 0
			}
			scens = append(scens, s)
		}
	}
	for _, s := range scens {
		vlib.Current(s)
		out.PutAll(run(s))
	}
	out.Close()
}
