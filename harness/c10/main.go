// C10: calibrates light frames with dark and flat files, concurrently, while the files change on disk.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/ops/pre"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Master struct {
	Kind string  `json:"kind"`
	D    []int32 `json:"d"`
}
type Scen struct {
	N    int       `json:"n"`
	Dark Master    `json:"dark"`
	Flat Master    `json:"flat"`
	Dims [][]int32 `json:"dims"`
	T    int
	JSON bool
	Swap int // after that many lights, change the files
	Nan  bool
	Seed int64
}

var tmp string
var seq int

func prod(d []int32) int {
	n := 1
	for _, v := range d {
		n *= int(v)
	}
	return n
}

func write(name string, d []int32, q []int) {
	f := fits.NewImageFromNaxisn(d, nil)
	for i := range f.Data {
		f.Data[i] = float32(q[i])
	}
	if err := f.WriteFile(name); err != nil {
		vlib.Fatal("%v", err)
	}
}

func master(rng *rand.Rand, m Master, flat bool, name *string) (vlib.M, []int) {
	*name = ""
	if m.Kind == "none" {
		return vlib.M{"kind": "none"}, nil
	}
	seq++
	*name = filepath.Join(tmp, fmt.Sprintf("m%d%s", seq, []string{".fits", ".fit", ".fits.gz"}[rng.Intn(3)]))
	if m.Kind == "bad" {
		switch rng.Intn(5) {
		case 0: // missing
		case 1:
			ioutil.WriteFile(*name, []byte("this is not an image"), 0644)
		case 2:
			write(*name, []int32{400, 30}, make([]int, 12000))
			os.Truncate(*name, 3000)
		case 3:
			os.Mkdir(*name, 0755)
		case 4:
			*name = "../" + *name
		}
		if fi, err := os.Stat(*name); err == nil && fi.Size() < 3000 && filepath.Ext(*name) == ".gz" {
			ioutil.WriteFile(*name, []byte("neither is this"), 0644)
		}
		return vlib.M{"kind": "bad"}, nil
	}
	q := make([]int, prod(m.D))
	for i := range q {
		if flat {
			q[i] = 1 + rng.Intn(200)
			if rng.Intn(6) == 0 {
				q[i] = -rng.Intn(3)
			}
		} else {
			q[i] = rng.Intn(60)
		}
	}
	if flat && rng.Intn(12) == 0 {
		for i := range q {
			q[i] = -rng.Intn(2)
		}
	}
	write(*name, m.D, q)
	return vlib.M{"kind": "ok", "d": m.D, "q": q}, q
}

func run(s Scen, op *pre.OpCalibrate, dm, fm vlib.M) []vlib.M {
	rng := rand.New(rand.NewSource(s.Seed))
	evs := []vlib.M{{"new": 1, "ev": "scen", "dark": dm, "flat": fm}}
	c := ops.NewContext(ioutil.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = 1 + rng.Intn(4)
	lights := make([]*fits.Image, s.N)
	rec := make([]vlib.M, s.N)
	for i := range lights {
		d := s.Dims[i]
		q := make([]int, prod(d))
		f := fits.NewImageFromNaxisn(append([]int32{}, d...), nil)
		for p := range q {
			q[p] = rng.Intn(400)
			f.Data[p] = float32(q[p])
			if s.Nan && rng.Intn(9) == 0 {
				q[p], f.Data[p] = vlib.NaNCode, float32(math.NaN())
			}
		}
		f.ID = 10 + i
		lights[i] = f
		rec[i] = vlib.M{"new": 0, "ev": "light", "d": d, "q": q, "err": 0, "panic": "", "od": []int32{}, "out": []int{}, "sameid": 0}
	}
	one := func(i int) {
		f := lights[i]
		m := rec[i]
		p := vlib.Try(func() {
			outs, err := op.MakePromises([]ops.Promise{func() (*fits.Image, error) { return f, nil }}, c)
			var g *fits.Image
			if err == nil {
				g, err = outs[0]()
			}
			if err != nil {
				m["err"] = 1
				return
			}
			if g != nil {
				m["od"], m["out"] = g.Naxisn, vlib.FixAll(g.Data, 1000)
				if g.ID == 10+i {
					m["sameid"] = 1
				}
			}
		})
		m["panic"] = p
	}
	group := func(from, to int) {
		var wg sync.WaitGroup
		lim := make(chan bool, s.T)
		for i := from; i < to; i++ {
			i := i
			wg.Add(1)
			lim <- true
			go func() { defer wg.Done(); one(i); <-lim }()
		}
		wg.Wait()
	}
	sw := s.Swap
	if sw < 1 || sw > s.N {
		sw = s.N
	}
	group(0, sw)
	if sw < s.N { // the session keeps what it has loaded
		for k, n := range []string{op.Dark, op.Flat} {
			if m := []Master{s.Dark, s.Flat}[k]; m.Kind == "ok" {
				if rng.Intn(2) == 0 {
					os.Remove(n)
				} else {
					q := make([]int, prod(m.D))
					for i := range q {
						q[i] = 1 + rng.Intn(50)
					}
					write(n, m.D, q)
				}
			}
		}
		group(sw, s.N)
	}
	evs = append(evs, rec...)
	sh := vlib.M{"new": 0, "ev": "shared", "dark": []int{}, "flat": []int{}}
	ok := true
	for k, m := range []*fits.Image{c.DarkFrame, c.FlatFrame} {
		if []Master{s.Dark, s.Flat}[k].Kind == "ok" {
			if m == nil {
				ok = false
				continue
			}
			sh[[]string{"dark", "flat"}[k]] = vlib.FixAll(m.Data, 1)
		}
	}
	if ok {
		evs = append(evs, sh)
	}
	return evs
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(30e9)
	var e error
	if tmp, e = ioutil.TempDir(".", "c10"); e != nil {
		vlib.Fatal("%v", e)
	}
	defer os.RemoveAll(tmp)
	rng := vlib.Rng(10)
	do := func(s Scen) {
		vlib.Current(s)
		r := rand.New(rand.NewSource(s.Seed + 1))
		var dn, fn string
		dm, _ := master(r, s.Dark, false, &dn)
		fm, _ := master(r, s.Flat, true, &fn)
		op := pre.NewOpCalibrate(dn, fn)
		if s.JSON {
			b, err := json.Marshal(op)
			op = &pre.OpCalibrate{}
			if err != nil || json.Unmarshal(b, op) != nil {
				vlib.Fatal("json")
			}
		}
		out.PutAll(run(s, op, dm, fm))
		if r.Intn(3) == 0 && s.Dark.Kind != "bad" && s.Flat.Kind != "bad" { // another session finds other files
			if dn != "" {
				dm, _ = master(r, s.Dark, false, &op.Dark)
			}
			if fn != "" {
				fm, _ = master(r, s.Flat, true, &op.Flat)
			}
			out.PutAll(run(s, op, dm, fm))
		}
		for _, n := range []string{dn, fn, op.Dark, op.Flat} {
			if n != "" && filepath.Dir(n) == tmp {
				os.Remove(n)
			}
		}
	}
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var s Scen
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			s.T, s.JSON, s.Swap, s.Seed = 1+rng.Intn(3), rng.Intn(2) == 0, rng.Intn(3), rng.Int63()
			do(s)
		}
		f.Close()
	} else {
		n := 200
		if vlib.Thorough() {
			n = 3000
		}
		for k := 0; k < n; k++ {
			s := Scen{N: 1 + rng.Intn(8), T: 1 + rng.Intn(8), JSON: rng.Intn(2) == 0, Nan: rng.Intn(3) == 0, Seed: rng.Int63()}
			if rng.Intn(2) == 0 {
				s.Swap = 1 + rng.Intn(s.N)
			}
			all := [][]int32{{1, 1}, {7, 5}, {5, 7}, {12, 9}, {1, 35}, {4, 3, 3}, {6, 6}, {3, 3, 4}, {33, 17}, {35}}
			d := all[rng.Intn(len(all))]
			m := func() Master {
				switch rng.Intn(10) {
				case 0, 1, 2:
					return Master{Kind: "none"}
				case 3:
					return Master{Kind: "bad"}
				case 4:
					return Master{"ok", all[rng.Intn(len(all))]}
				}
				return Master{"ok", d}
			}
			s.Dark, s.Flat = m(), m()
			for i := 0; i < s.N; i++ {
				x := d
				if rng.Intn(5) == 0 {
					x = all[rng.Intn(len(all))]
				}
				s.Dims = append(s.Dims, x)
			}
			do(s)
		}
	}
	out.Close()
}
