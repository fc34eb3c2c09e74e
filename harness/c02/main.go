// C02: builds (nested) sequences of recording steps, demands outputs and records every step.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"sync"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Prog struct {
	N     int        `json:"n"`
	K     int        `json:"k"`
	Shape int        `json:"shape"`
	Order []int      `json:"order"`
	Beh   [][]string `json:"beh"`
	Conc  int        `json:"conc"`
}

type world struct {
	mu    sync.Mutex
	evs   []vlib.M
	hist  map[*fits.Image][]int
	owner map[*fits.Image]int
	p     Prog
}

func (w *world) put(m vlib.M) {
	m["new"] = 0
	w.evs = append(w.evs, m)
}

type recOp struct {
	ops.OpUnaryBase
	k int
	w *world
}

func newRec(k int, w *world) ops.Operator {
	op := &recOp{OpUnaryBase: ops.OpUnaryBase{OpBase: ops.OpBase{Type: "verifrec"}}, k: k, w: w}
	op.OpUnaryBase.Apply = op.Apply
	return op
}

func (w *world) step(f *fits.Image, k, frame int) (*fits.Image, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	in := []int{}
	if f != nil {
		frame = w.owner[f]
		in = w.hist[f]
	} else if k > 0 {
		w.put(vlib.M{"ev": "apply", "i": 0, "k": k, "in": in}) // handed a dropped frame
		return nil, nil
	}
	w.put(vlib.M{"ev": "apply", "i": frame, "k": k, "in": append([]int{}, in...)})
	switch w.p.Beh[k][frame-1] {
	case "fail":
		return nil, errors.New(fmt.Sprintf("F%d.%d", k, frame))
	case "drop":
		return nil, nil
	}
	g := &fits.Image{ID: frame}
	w.owner[g] = frame
	w.hist[g] = append(append([]int{}, in...), k)
	return g, nil
}

func (r *recOp) Apply(f *fits.Image, c *ops.Context) (*fits.Image, error) {
	return r.w.step(f, r.k, 0)
}

// shape 0: flat; otherwise a nesting drawn from the shape number
func compose(leaves []ops.Operator, rng *rand.Rand, depth int) *ops.OpSequence {
	s := ops.NewOpSequence()
	i := 0
	for i < len(leaves) {
		if depth < 4 && rng.Intn(2) == 0 {
			j := i + 1 + rng.Intn(len(leaves)-i)
			s.Append(compose(leaves[i:j], rng, depth+1))
			i = j
		} else {
			if rng.Intn(3) == 0 && i+1 < len(leaves) {
				s.Append(leaves[i], leaves[i+1])
				i += 2
			} else {
				s.Append(leaves[i])
				i++
			}
		}
		if rng.Intn(6) == 0 {
			s.Append(ops.NewOpSequence()) // empty sequence is neutral
		}
	}
	return s
}

func run(p Prog) []vlib.M {
	w := &world{hist: map[*fits.Image][]int{}, owner: map[*fits.Image]int{}, p: p}
	w.evs = append(w.evs, vlib.M{"new": 1, "ev": "prog", "n": p.N, "k": p.K, "beh": p.Beh, "shape": p.Shape})
	var leaves []ops.Operator
	for k := 1; k <= p.K; k++ {
		leaves = append(leaves, newRec(k, w))
	}
	var seq ops.Operator
	if p.Shape == 0 {
		seq = ops.NewOpSequence(leaves...)
	} else {
		seq = compose(leaves, rand.New(rand.NewSource(int64(p.Shape))), 0)
	}
	ins := make([]ops.Promise, p.N)
	for i := range ins {
		i := i
		ins[i] = func() (*fits.Image, error) { return w.step(nil, 0, i+1) }
	}
	c := &ops.Context{Log: ioutil.Discard, MaxThreads: 4}
	outs, err := seq.MakePromises(ins, c)
	ok := 1
	if err != nil {
		ok = 0
	}
	w.mu.Lock()
	w.put(vlib.M{"ev": "build", "ok": ok, "m": len(outs)})
	w.mu.Unlock()
	if err == nil && len(outs) == p.N {
		one := func(i int) (*fits.Image, error) {
			w.mu.Lock()
			w.put(vlib.M{"ev": "demand", "i": i})
			w.mu.Unlock()
			f, err := outs[i-1]()
			w.mu.Lock()
			m := vlib.M{"ev": "result", "i": i, "kind": "frame", "owner": 0, "in": []int{}, "errk": -1}
			if err != nil {
				m["kind"] = "error"
				var k, o int
				if n, _ := fmt.Sscanf(err.Error(), "F%d.%d", &k, &o); n == 2 && err.Error() == fmt.Sprintf("F%d.%d", k, o) {
					m["errk"], m["owner"] = k, o
				}
			} else if f == nil {
				m["kind"] = "nil"
			} else {
				m["owner"] = w.owner[f]
				m["in"] = append([]int{}, w.hist[f]...)
			}
			w.put(m)
			w.mu.Unlock()
			return f, err
		}
		if p.Conc == 1 {
			var ps []ops.Promise
			for _, i := range p.Order {
				i := i
				ps = append(ps, func() (*fits.Image, error) { return one(i) })
			}
			ops.MaterializeAll(ps, 4, true)
		} else {
			for _, i := range p.Order {
				one(i)
			}
		}
	}
	w.mu.Lock()
	w.put(vlib.M{"ev": "close"})
	w.mu.Unlock()
	return w.evs
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(60e9)
	var progs []Prog
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var p Prog
			if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
				vlib.Fatal("%v", err)
			}
			progs = append(progs, p)
		}
	} else {
		rng := vlib.Rng(2)
		num := 400
		if vlib.Thorough() {
			num = 8000
		}
		for q := 0; q < num; q++ {
			p := Prog{N: rng.Intn(6), K: rng.Intn(8), Shape: rng.Intn(1000), Conc: rng.Intn(2)}
			for k := 0; k <= p.K; k++ {
				row := []string{}
				for i := 0; i < p.N; i++ {
					b := "pass"
					if x := rng.Intn(12); x == 0 {
						b = "fail"
					} else if x == 1 {
						b = "drop"
					}
					row = append(row, b)
				}
				p.Beh = append(p.Beh, row)
			}
			for _, i := range rng.Perm(p.N) {
				if rng.Intn(8) > 0 {
					p.Order = append(p.Order, i+1)
				}
			}
			progs = append(progs, p)
		}
	}
	for _, p := range progs {
		vlib.Current(p)
		out.PutAll(run(p))
	}
	out.Close()
}
