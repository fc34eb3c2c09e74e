// C03: reference selection demanded concurrently; records input evaluations, results and the
// reference visible with each result.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"math"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Sel struct {
	Mode   string `json:"mode"`
	Idx    int    `json:"idx"`
	Target int    `json:"target"` // 0 align, 1 histogram
}
type Scen struct {
	N, M    int
	Sels    []Sel
	Kinds   []string
	Stars   []int
	HFR     []int
	Loc     []int
	Order   []int
	Threads int
	Conc    bool
	Unlink  bool
	Noisy   bool
	DetRad  int
	Seed    int64
}

type slowLog struct{ r *rand.Rand; mu sync.Mutex; noisy bool }

func (s *slowLog) Write(p []byte) (int, error) {
	if s.noisy {
		s.mu.Lock()
		d := time.Duration(s.r.Intn(120)) * time.Microsecond
		s.mu.Unlock()
		time.Sleep(d)
	}
	return len(p), nil
}

func frame(i int, s Scen) *fits.Image {
	w := 10 + i // unique width identifies the alignment reference, unique spread the histogram reference
	d := make([]float32, 2*w)
	for k := range d {
		v := float32(s.Loc[i-1]) + float32(w)
		if k%2 == 1 {
			v = float32(s.Loc[i-1]) - float32(w)
		}
		d[k] = v
	}
	f := fits.NewImageFromNaxisn([]int32{int32(w), 2}, d)
	f.ID = 1000 + i
	f.Stats.Max() // compute before sharing, as the library itself does for its frames
	f.Stats.Location()
	f.HFR = float32(s.HFR[i-1])
	if s.Stars[i-1] > 0 {
		f.Stars = make([]star.Star, s.Stars[i-1])
	}
	return f
}

func run(s Scen) []vlib.M {
	var mu sync.Mutex
	var evs []vlib.M
	put := func(m vlib.M) {
		m["new"] = 0
		mu.Lock()
		evs = append(evs, m)
		mu.Unlock()
	}
	total := s.N + s.M
	evs = append(evs, vlib.M{"new": 1, "ev": "scen", "n": s.N, "m": s.M, "sels": s.Sels, "kinds": s.Kinds,
		"stars": s.Stars, "hfr": s.HFR, "loc": s.Loc})
	rng := rand.New(rand.NewSource(s.Seed))
	owner := map[*fits.Image]int{}
	delays := make([]time.Duration, total)
	for i := range delays {
		if s.Noisy {
			delays[i] = time.Duration(rng.Intn(200)) * time.Microsecond
		}
	}
	ins := make([]ops.Promise, total)
	for i := 1; i <= total; i++ {
		i := i
		f := frame(i, s)
		owner[f] = i
		ins[i-1] = func() (*fits.Image, error) {
			put(vlib.M{"ev": "start", "i": i})
			if delays[i-1] > 0 {
				time.Sleep(delays[i-1])
			}
			put(vlib.M{"ev": "end", "i": i})
			switch s.Kinds[i-1] {
			case "nil":
				return nil, nil
			case "fail":
				return nil, errors.New("input failed")
			}
			return f, nil
		}
	}
	c := &ops.Context{Log: &slowLog{r: rand.New(rand.NewSource(s.Seed + 1)), noisy: s.Noisy}, MaxThreads: s.Threads}
	seen := func() []int {
		res := []int{}
		for _, sl := range s.Sels {
			v := 0
			if sl.Target == 0 {
				if c.AlignNaxisn != nil {
					v = int(c.AlignNaxisn[0]) - 10
				}
			} else if c.MatchHisto != nil {
				v = int(math.Round(float64(c.MatchHisto.Max()-c.MatchHisto.Min())/2)) - 10
			}
			if v > total || v < 0 {
				v = -1
			}
			res = append(res, v)
		}
		return res
	}
	seq := ops.NewOpSequence()
	refFile := ""
	for k, sl := range s.Sels {
		mode := map[string]string{"stars": "%starsHFR", "location": "%location", "rgb": "%rgb", "none": "",
			"badfile": "does-not-exist.fits"}[sl.Mode]
		if sl.Mode == "index" {
			mode = strconv.Itoa(sl.Idx)
		}
		if sl.Mode == "file" {
			mode = "ref" + strconv.Itoa(k) + ".fits"
			refFile = mode
			writeRef(mode)
		}
		seq.Append(ref.NewOpSelectReference(ref.SelRefTarget(sl.Target), mode,
			pre.NewOpStarDetect(int32(s.DetRad), 10, 0, 10, "")))
	}
	failed := false
	batch := func(from, to int, order []int) {
		outs, err := seq.MakePromises(ins[from:to], c)
		if err != nil || len(outs) != to-from {
			put(vlib.M{"ev": "build-failed"})
			return
		}
		one := func(j int) (*fits.Image, error) {
			put(vlib.M{"ev": "demand", "i": j})
			f, err := outs[j-1-from]()
			m := vlib.M{"ev": "result", "i": j, "what": "frame", "owner": 0, "seen": []int{}}
			if err != nil {
				m["what"] = "error"
				mu.Lock()
				failed = true
				mu.Unlock()
			} else {
				m["seen"] = seen()
				if f == nil {
					m["what"] = "nil"
				} else {
					m["owner"] = owner[f]
				}
			}
			put(m)
			return f, err
		}
		if s.Conc {
			var ps []ops.Promise
			for _, j := range order {
				j := j
				ps = append(ps, func() (*fits.Image, error) { return one(j) })
			}
			ops.MaterializeAll(ps, s.Threads, true)
		} else {
			for q, j := range order {
				one(j)
				if q == 0 && s.Unlink && refFile != "" {
					os.Remove(refFile)
				}
			}
		}
	}
	batch(0, s.N, s.Order)
	if s.M > 0 && !failed && len(s.Order) > 0 {
		var o []int
		for _, k := range rng.Perm(s.M) {
			o = append(o, s.N+1+k)
		}
		batch(s.N, total, o)
	}
	put(vlib.M{"ev": "close"})
	return evs
}

var refWritten []byte

func writeRef(fn string) {
	if refWritten == nil {
		// 200 wide, with a few bright blobs
		w, h := 200, 100
		d := make([]float32, w*h)
		r := rand.New(rand.NewSource(5))
		for i := range d {
			d[i] = 100 + float32(r.Intn(5))
		}
		for _, p := range [][2]int{{40, 30}, {100, 60}, {150, 40}} {
			for y := -3; y <= 3; y++ {
				for x := -3; x <= 3; x++ {
					d[(p[1]+y)*w+p[0]+x] += float32(2000 * math.Exp(-float64(x*x+y*y)/4))
				}
			}
		}
		f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, d)
		if err := f.WriteFile("refsrc.fits"); err != nil {
			vlib.Fatal("%v", err)
		}
		b, err := os.ReadFile("refsrc.fits")
		if err != nil {
			vlib.Fatal("%v", err)
		}
		refWritten = b
	}
	os.WriteFile(fn, refWritten, 0644)
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	out := vlib.NewOut()
	vlib.Watchdog(60e9)
	rng := vlib.Rng(3)
	var scens []Scen
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var g struct {
				Kinds []string `json:"kinds"`
				Score []int    `json:"score"`
				Order []int    `json:"order"`
			}
			if err := json.Unmarshal(sc.Bytes(), &g); err != nil {
				vlib.Fatal("%v", err)
			}
			for _, mode := range []string{"stars", "location"} {
				s := Scen{N: len(g.Kinds), Kinds: g.Kinds, Order: g.Order, Threads: 2 + rng.Intn(3), Conc: rng.Intn(2) == 0,
					Seed: rng.Int63(), Sels: []Sel{{Mode: mode, Target: rng.Intn(2)}}, Noisy: rng.Intn(4) == 0}
				for _, x := range g.Score {
					s.Stars = append(s.Stars, x*6)
					s.HFR = append(s.HFR, 2)
					s.Loc = append(s.Loc, 50+10*x)
				}
				scens = append(scens, s)
			}
		}
	} else {
		num := 900
		if vlib.Thorough() {
			num = 12000
		}
		modes := []string{"stars", "stars", "location", "location", "index", "rgb", "file", "badfile", "none"}
		for q := 0; q < num; q++ {
			s := Scen{N: 1 + rng.Intn(7), M: 0, Threads: 1 + rng.Intn(6), Conc: rng.Intn(3) > 0, Seed: rng.Int63(),
				Noisy: rng.Intn(2) == 0, Unlink: rng.Intn(2) == 0, DetRad: []int{0, 16}[rng.Intn(2)]}
			if rng.Intn(3) == 0 {
				s.M = 1 + rng.Intn(4)
			}
			if rng.Intn(20) == 0 {
				s.N = 20 + rng.Intn(30)
			}
			nsel := 1 + rng.Intn(2)
			t := rng.Intn(2)
			hasRGB := false
			for k := 0; k < nsel; k++ {
				m := modes[rng.Intn(len(modes))]
				hasRGB = hasRGB || m == "rgb"
				s.Sels = append(s.Sels, Sel{Mode: m, Idx: rng.Intn(s.N+2) - 1, Target: (t + k) % 2})
			}
			if s.Sels[0].Mode == "index" && s.Sels[0].Idx < 0 && rng.Intn(2) == 0 {
				s.Sels[0].Idx = 0
			}
			special := rng.Intn(3) // 0: all ok, 1: some nil, 2: some nil or failing
			for i := 0; i < s.N+s.M; i++ {
				k := "ok"
				if !hasRGB && special > 0 && rng.Intn(4) == 0 {
					k = "nil"
				}
				if special == 2 && rng.Intn(8) == 0 {
					k = "fail"
				}
				s.Kinds = append(s.Kinds, k)
				st := rng.Intn(9)
				s.Stars = append(s.Stars, st)
				s.HFR = append(s.HFR, rng.Intn(5))
				s.Loc = append(s.Loc, 60+rng.Intn(12))
			}
			for _, k := range rng.Perm(s.N) {
				if rng.Intn(6) > 0 {
					s.Order = append(s.Order, k+1)
				}
			}
			scens = append(scens, s)
		}
	}
	for _, s := range scens {
		vlib.Current(s)
		out.PutAll(run(s))
	}
	out.Close()
}
