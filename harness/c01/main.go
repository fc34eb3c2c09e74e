// C01: drives the parallel executor with promises whose finishing order is prescribed by a
// schedule generated from the specification (or drawn at random), and records start, end and
// return events.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"os"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type Sched struct {
	N      int      `json:"n"`
	Lim    int      `json:"lim"`
	Forget int      `json:"forget"`
	Kinds  []string `json:"kinds"`
	Order  []int    `json:"order"` // 1-based finishing order; empty: free running
	Free   bool     `json:"-"`
}

type rec struct {
	mu      sync.Mutex
	evs     []vlib.M
	running map[int]int
	last    time.Time
	closed  bool
}

func (r *rec) put(m vlib.M) {
	m["new"] = 0
	r.evs = append(r.evs, m)
	r.last = time.Now()
}

const settle = 400 * time.Microsecond

func run(s Sched) []vlib.M {
	r := &rec{running: map[int]int{}, last: time.Now()}
	kinds := s.Kinds
	if kinds == nil {
		kinds = []string{}
	}
	r.evs = append(r.evs, vlib.M{"new": 1, "ev": "call", "n": s.N, "lim": s.Lim, "forget": s.Forget, "kinds": kinds})
	rank := map[int]int{}
	for k, i := range s.Order {
		rank[i] = k
	}
	imgs := make([]*fits.Image, s.N)
	gates := make([]chan bool, s.N)
	ins := make([]ops.Promise, s.N)
	id := map[*fits.Image]int{}
	for k := 0; k < s.N; k++ {
		k := k
		imgs[k] = &fits.Image{ID: k}
		id[imgs[k]] = k + 1
		gates[k] = make(chan bool, 1000)
		ins[k] = func() (*fits.Image, error) {
			r.mu.Lock()
			if !r.closed {
				r.put(vlib.M{"ev": "start", "i": k + 1})
			}
			r.running[k]++
			r.mu.Unlock()
			if s.Free {
				for q := 0; q < (k*7)%5; q++ {
					runtime.Gosched()
				}
			} else {
				<-gates[k]
			}
			r.mu.Lock()
			if !r.closed {
				r.put(vlib.M{"ev": "end", "i": k + 1})
			}
			r.running[k]--
			if r.running[k] == 0 {
				delete(r.running, k)
			}
			r.mu.Unlock()
			switch kinds[k] {
			case "ok":
				return imgs[k], nil
			case "nil":
				return nil, nil
			}
			return nil, errors.New("<" + kinds[k] + ">")
		}
	}
	done := make(chan bool)
	go func() {
		outs, err := ops.MaterializeAll(ins, s.Lim, s.Forget == 1)
		ids := []int{}
		for _, o := range outs {
			if o == nil {
				ids = append(ids, -1)
			} else if v, ok := id[o]; ok {
				ids = append(ids, v)
			} else {
				ids = append(ids, -2)
			}
		}
		texts := []string{}
		failed := 0
		if err != nil {
			failed = 1
			seen := map[string]bool{}
			for _, k := range kinds {
				if k != "ok" && k != "nil" && !seen[k] && strings.Contains(err.Error(), "<"+k+">") {
					texts = append(texts, k)
					seen[k] = true
				}
			}
		}
		r.mu.Lock()
		r.put(vlib.M{"ev": "ret", "outs": ids, "failed": failed, "texts": texts})
		r.mu.Unlock()
		close(done)
	}()
	if !s.Free {
		finished := 0
		start := time.Now()
		for finished < s.N && time.Since(start) < 20*time.Second {
			// wait until nothing has happened for a moment
			for {
				r.mu.Lock()
				quiet := time.Since(r.last)
				r.mu.Unlock()
				if quiet > settle {
					break
				}
				time.Sleep(settle / 4)
			}
			r.mu.Lock()
			best := -1
			for k := range r.running {
				if best < 0 || rank[k+1] < rank[best+1] {
					best = k
				}
			}
			nev := len(r.evs)
			r.mu.Unlock()
			if best < 0 {
				select {
				case <-done: // returned although not everything was started
					finished = s.N
				default:
					time.Sleep(settle)
				}
				continue
			}
			gates[best] <- true
			finished++
			for w := 0; w < 200; w++ { // wait for its end event
				r.mu.Lock()
				m := len(r.evs)
				r.mu.Unlock()
				if m > nev {
					break
				}
				time.Sleep(50 * time.Microsecond)
			}
		}
		for k := range gates { // release whatever is still blocked (only after a violation)
			for q := 0; q < 3; q++ {
				gates[k] <- true
			}
		}
	}
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		os.Stderr.WriteString("watchdog: executor did not return\n")
		b, _ := json.Marshal(r.evs)
		if fn := os.Getenv("VERIF_CURRENT"); fn != "" {
			os.WriteFile(fn, b, 0644)
		}
		os.Exit(4)
	}
	time.Sleep(2 * settle)
	r.mu.Lock()
	r.put(vlib.M{"ev": "close"})
	r.closed = true
	evs := r.evs
	r.mu.Unlock()
	return evs
}

func main() {
	out := vlib.NewOut()
	mode := os.Args[1]
	var scheds []Sched
	if mode == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		for sc.Scan() {
			var s Sched
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			scheds = append(scheds, s)
		}
	} else {
		rng := vlib.Rng(1)
		num := 150
		if vlib.Thorough() {
			num = 2000
		}
		ks := []string{"ok", "ok", "ok", "ok", "nil", "e1", "e2", "e3"}
		for q := 0; q < num; q++ {
			n := rng.Intn(12)
			if q%5 == 0 {
				n = rng.Intn(60)
			}
			s := Sched{N: n, Lim: 1 + rng.Intn(9), Forget: rng.Intn(2), Free: q%2 == 0}
			if q%3 != 0 {
				s.Forget = 0
			}
			allOk := rng.Intn(4) == 0
			for k := 0; k < n; k++ {
				kd := ks[rng.Intn(len(ks))]
				if allOk {
					kd = []string{"ok", "nil"}[rng.Intn(2)]
				}
				s.Kinds = append(s.Kinds, kd)
			}
			for _, k := range rng.Perm(n) {
				s.Order = append(s.Order, k+1)
			}
			if s.N > 20 {
				s.Free = true
			}
			scheds = append(scheds, s)
		}
	}
	// replay several scenarios at a time: they are independent of each other
	sem := make(chan bool, 16)
	var wg sync.WaitGroup
	for _, s := range scheds {
		s := s
		sem <- true
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			vlib.Current(s)
			out.PutAll(run(s))
		}()
	}
	wg.Wait()
	out.Close()
}
