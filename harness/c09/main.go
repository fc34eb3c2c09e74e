// C09: runs sessions with statistics export steps and records deliveries, results and the final report files.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/ops/stack"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Scen struct {
	N       int      `json:"n"`
	T       int      `json:"t"`
	Export  string   `json:"export"`
	Kinds   []string `json:"kinds"`
	Batched int      `json:"batched"`
	Second  string   // second export step, "" if there is none
	Inside  bool     // exports within the batch
	Avail   int      // memory for that many frames per batch
	Est     int
	JSON    bool
	Seed    int64
}

var tmp string

// logs what enters and leaves a step
type around struct {
	ops.OpBase
	x   int
	op  ops.Operator
	put func(m vlib.M)
	idx func(f *fits.Image) int
}

func (a *around) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	n := len(ins)
	slot := make([]*fits.Image, n)
	hash := make([]uint64, n)
	wr := make([]ops.Promise, n)
	for k := range ins {
		k := k
		wr[k] = func() (*fits.Image, error) {
			slot[k] = nil
			f, err := ins[k]()
			if err == nil && f != nil {
				slot[k], hash[k] = f, sum(f)
				a.put(vlib.M{"ev": "in", "x": a.x, "i": a.idx(f)})
			}
			return f, err
		}
	}
	outs, err := a.op.MakePromises(wr, c)
	if err != nil {
		return nil, err
	}
	if len(outs) != n {
		return nil, fmt.Errorf("%d outputs for %d inputs", len(outs), n)
	}
	res := make([]ops.Promise, n)
	for k := range outs {
		k := k
		res[k] = func() (*fits.Image, error) {
			f, err := outs[k]()
			if slot[k] != nil {
				if err != nil {
					a.put(vlib.M{"ev": "refuse", "x": a.x, "i": a.idx(slot[k])})
				} else {
					same := 0
					if f == slot[k] && sum(f) == hash[k] {
						same = 1
					}
					a.put(vlib.M{"ev": "pass", "x": a.x, "i": a.idx(slot[k]), "same": same})
				}
			}
			return f, err
		}
	}
	return res, nil
}

func sum(f *fits.Image) (h uint64) {
	h = uint64(f.ID)*31 + uint64(len(f.Stars))*7 + uint64(math.Float32bits(f.HFR)) + uint64(math.Float32bits(f.Exposure))<<3
	for _, v := range f.Data {
		h = h*1099511628211 + uint64(math.Float32bits(v))
	}
	return h
}

type startOp struct {
	ops.OpBase
	start func()
}

func (o *startOp) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	o.start()
	return ins, nil
}

type givenOp struct{ ops.OpBase }

func (o *givenOp) MakePromises(ins []ops.Promise, c *ops.Context) ([]ops.Promise, error) {
	return []ops.Promise{func() (*fits.Image, error) {
		if _, err := ops.MaterializeAll(ins, c.MaxThreads, true); err != nil {
			return nil, err
		}
		return fits.NewImageFromNaxisn([]int32{3, 3}, nil), nil
	}}, nil
}

var rowRe = regexp.MustCompile(`^  ,\[(-?\d+),([^,]+),([^,]+),([^,]+),([^,]+),([^,]+),(\d+),([^,\]]+)\]$`)

func report(name string) vlib.M {
	m := vlib.M{"exists": 0, "headers": 0, "trailers": 0, "wellformed": 0, "rows": []vlib.M{}}
	b, err := ioutil.ReadFile(name)
	if err != nil {
		return m
	}
	s := strings.Replace(string(b), "\r", "", -1)
	m["exists"] = 1
	m["headers"] = strings.Count(s, "<html>")
	if n := strings.Count(s, "['ID','Min','Mean','Max','Location','Scale','Stars','HFR']"); n != 1 {
		m["headers"] = -n
	}
	m["trailers"] = strings.Count(s, "</html>")
	lines := strings.Split(s, "\n")
	rows := []vlib.M{}
	state := 0 // header, rows, trailer
	ok := true
	for _, l := range lines {
		switch {
		case state == 0 && strings.Contains(l, "['ID',"):
			state = 1
		case state == 1:
			r := rowRe.FindStringSubmatch(l)
			if r == nil {
				state = 2
				ok = ok && strings.HasPrefix(l, "]")
				continue
			}
			v := make([]int, 9)
			for i := 1; i < 9; i++ {
				x, err := strconv.ParseFloat(strings.TrimSpace(r[i]), 64)
				ok = ok && err == nil
				k := 1000.0
				if i == 1 || i == 7 {
					k = 1
				}
				v[i] = vlib.Fix(x, k)
			}
			rows = append(rows, vlib.M{"id": v[1], "mn": v[2], "mean": v[3], "mx": v[4], "loc": v[5], "scale": v[6], "stars": v[7], "hfr": v[8]})
		case state == 2 && strings.HasPrefix(l, "  ,["):
			ok = false
		}
	}
	m["rows"] = rows
	if ok && state == 2 && strings.HasPrefix(strings.TrimSpace(s), "<html>") && strings.HasSuffix(strings.TrimSpace(s), "</html>") {
		m["wellformed"] = 1
	}
	return m
}

var jobs int

func makeExport(kind string, s *Scen, x int) (*ref.OpExportStats, string) {
	name := filepath.Join(tmp, fmt.Sprintf("r%d-%d.html", jobs, x))
	jobs++
	switch kind {
	case "bad":
		name = filepath.Join(tmp, fmt.Sprintf("none%d", jobs), "r.html")
		if s.Seed%3 == 0 {
			name = "/dev/full"
		}
	case "none":
		name = ""
	}
	op := ref.NewOpExportStats(name)
	if s.JSON {
		b, err := json.Marshal(op)
		if err == nil {
			op = &ref.OpExportStats{}
			err = json.Unmarshal(b, op)
		}
		if err != nil {
			vlib.Fatal("%v", err)
		}
	}
	return op, name
}

func run(s Scen, op1 *ref.OpExportStats, n1 string) []vlib.M {
	var mu sync.Mutex
	rng := rand.New(rand.NewSource(s.Seed))
	stats.LSEstimator = []stats.LSEstimatorMode{stats.LSEMeanStdDev, stats.LSEMedianMAD}[s.Est]
	var frs []vlib.M
	imgs := make([]func() *fits.Image, s.N)
	id0 := rng.Intn(3)
	stride := 1 + rng.Intn(3)
	for i := range imgs {
		w, h := 1+rng.Intn(6), 1+rng.Intn(6)
		if s.Est == 1 {
			w, h = w|1, h|1
		}
		d := make([]float32, w*h)
		q := make([]int, w*h)
		for p := range d {
			q[p] = rng.Intn(4001)
			d[p] = float32(q[p]) / 1000
		}
		id, ns, hfr := id0+i*stride, rng.Intn(5), rng.Intn(5000)
		if s.Seed%7 == 0 { // all the same id, told apart by the number of stars
			id, ns = 0, i
		}
		frs = append(frs, vlib.M{"id": id, "stars": ns, "hfr": hfr, "q": q, "est": s.Est})
		i := i
		imgs[i] = func() *fits.Image {
			f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, append([]float32{}, d...))
			f.ID, f.HFR, f.Stars = id, float32(hfr)/1000, make([]star.Star, ns)
			f.FileName = strconv.Itoa(i)
			return f
		}
	}
	again := 0
	if s.Batched == 1 && !s.Inside {
		again = 1
	}
	exports := []string{s.Export}
	if s.Second != "" {
		exports = append(exports, s.Second)
	}
	evs := []vlib.M{{"new": 1, "ev": "scen", "n": s.N, "t": s.T, "exports": exports, "kinds": s.Kinds, "again": again, "frames": frs}}
	put := func(m vlib.M) {
		m["new"] = 0
		mu.Lock()
		evs = append(evs, m)
		mu.Unlock()
	}
	idx := func(f *fits.Image) int { n, _ := strconv.Atoi(f.FileName); return n + 1 }
	ins := make([]ops.Promise, s.N)
	for i := range ins {
		i := i
		nap := time.Duration(rng.Intn(300)) * time.Microsecond
		if rng.Intn(3) > 0 {
			nap = 0
		}
		ins[i] = func() (*fits.Image, error) {
			time.Sleep(nap)
			switch s.Kinds[i] {
			case "nil":
				return nil, nil
			case "fail":
				return nil, errors.New("no such frame")
			}
			return imgs[i](), nil
		}
	}
	c := ops.NewContext(ioutil.Discard, 1, stats.LSEstimator)
	c.MaxThreads = s.T
	names := []string{n1}
	steps := []ops.Operator{&around{x: 1, op: op1, put: put, idx: idx}}
	if s.Second != "" {
		op2, n2 := makeExport(s.Second, &s, 2)
		names = append(names, n2)
		steps = append(steps, &around{x: 2, op: op2, put: put, idx: idx})
	}
	var job ops.Operator
	if s.Batched == 1 {
		planned := false
		start := &startOp{start: func() {
			if !planned {
				planned = true
				put(vlib.M{"ev": "plan"})
			}
		}}
		c.DarkFrame = fits.NewImageFromNaxisn([]int32{int32(262144 / s.Avail), 1}, nil)
		if again == 1 {
			c.DarkFrame = nil // read ahead the first frame
			job = ops.NewOpSequence(append(steps, stack.NewOpStackBatches(ops.NewOpSequence(start, &givenOp{})))...)
		} else {
			job = stack.NewOpStackBatches(ops.NewOpSequence(append(append([]ops.Operator{start}, steps...), &givenOp{})...))
		}
	} else {
		job = ops.NewOpSequence(steps...)
	}
	e := 0
	outs, err := job.MakePromises(ins, c)
	if err == nil {
		_, err = ops.MaterializeAll(outs, s.T, rng.Intn(2) == 0)
	}
	if err != nil {
		e = 1
	}
	put(vlib.M{"ev": "end", "err": e})
	for x, n := range names {
		rep := vlib.M{"exists": 0, "headers": 0, "trailers": 0, "wellformed": 0, "rows": []vlib.M{}}
		if n != "" && n != "/dev/full" {
			rep = report(n)
		}
		put(vlib.M{"ev": "report", "x": x + 1, "rep": rep})
		if exports[x] == "ok" && x > 0 {
			os.Remove(n)
		}
	}
	return evs
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(30e9)
	var e error
	if tmp, e = ioutil.TempDir(".", "c09"); e != nil {
		vlib.Fatal("%v", e)
	}
	defer os.RemoveAll(tmp)
	rng := vlib.Rng(9)
	both := func(s Scen) {
		vlib.Current(s)
		op, n := makeExport(s.Export, &s, 1)
		out.PutAll(run(s, op, n))
		if s.Seed%5 == 0 { // the same step in another session
			if s.Export == "ok" {
				os.Remove(n)
			}
			s.Seed++
			s.N, s.Kinds = s.N+1, append(s.Kinds, "ok")
			out.PutAll(run(s, op, n))
		}
		if s.Export == "ok" {
			os.Remove(n)
		}
	}
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var s Scen
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			s.Inside = rng.Intn(2) == 0
			s.Avail = 6 + rng.Intn(4)
			s.Est, s.JSON, s.Seed = rng.Intn(2), rng.Intn(2) == 0, rng.Int63()
			both(s)
		}
		f.Close()
	} else {
		n := 250
		if vlib.Thorough() {
			n = 4000
		}
		for k := 0; k < n; k++ {
			s := Scen{N: 1 + rng.Intn(12), T: 1 + rng.Intn(8), Batched: rng.Intn(2), Inside: rng.Intn(3) > 0, Avail: 6 + rng.Intn(12),
				Est: rng.Intn(2), JSON: rng.Intn(2) == 0, Seed: rng.Int63()}
			if rng.Intn(8) == 0 {
				s.N = 1 + rng.Intn(60)
			}
			s.Export = []string{"ok", "ok", "ok", "ok", "bad", "none"}[rng.Intn(6)]
			if rng.Intn(3) == 0 {
				s.Second = []string{"ok", "ok", "ok", "bad", "none"}[rng.Intn(5)]
			}
			mode := rng.Intn(3)
			for i := 0; i < s.N; i++ {
				kd := "ok"
				if mode == 1 && rng.Intn(3) == 0 {
					kd = "nil"
				} else if mode == 2 && rng.Intn(5) == 0 {
					kd = "fail"
				}
				s.Kinds = append(s.Kinds, kd)
			}
			if mode == 1 {
				s.Kinds[rng.Intn(s.N)] = "ok"
			}
			both(s)
		}
	}
	out.Close()
}
