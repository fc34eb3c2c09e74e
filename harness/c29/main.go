// C29: records locations and scales of sets of pixels, by every estimator.
package main

import (
	"bufio"
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"sort"
	"time"

	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type frame struct {
	q      []int
	lo, hi int
}

var out *vlib.Out
var count int
var hangs = map[int]int{}

func ask(fr frame, est int) {
	q := fr.q
	if hangs[est] >= 2 { // each leaves a busy goroutine behind
		return
	}
	mn, mx := q[0], q[0]
	for _, v := range q {
		if v < mn {
			mn = v
		}
		if v > mx {
			mx = v
		}
	}
	f := 100
	if est == 4 && mx > mn {
		r := mx - mn
		for _, v := range q { // pixels next to the border between two bins
			t := (2*(v-mn)*4095 + r) % (2 * r)
			if t > r {
				t = 2*r - t
			}
			if t*500 < r {
				return
			}
		}
		f = (1 << 31) / (4100 * r)
		if f > 1000 {
			f = 1000
		}
	}
	count++
	unit := []float32{1, 1.0 / 1024, 1.0 / 65536, 16}[count%4]
	n := len(q)
	planes, p := 1, 0
	if count%3 == 0 {
		planes, p = 3, (count/3)%3
	}
	all := make([]float32, n*planes)
	for i := range all {
		all[i] = float32((i*31)%977) * unit
	}
	for i, v := range q {
		all[p*n+i] = float32(v) * unit
	}
	before := append([]float32(nil), all...)
	w := int32(n)
	for d := 9; d > 1; d-- {
		if n%d == 0 {
			w = int32(n / d)
			break
		}
	}
	stats.LSEstimator = stats.LSEstimatorMode(est)
	type answer struct {
		loc, scale float32
		panic      string
	}
	done := make(chan answer, 1)
	go func() {
		var a answer
		a.panic = vlib.Try(func() {
			var s *stats.Stats
			if planes == 1 {
				s = stats.NewStats(all, w)
			} else {
				s = stats.NewStatsForChannel(all, w, p, planes)
			}
			if count%2 == 0 {
				a.scale, a.loc = s.Scale(), s.Location()
			} else {
				a.loc, a.scale = s.Location(), s.Scale()
			}
		})
		done <- a
	}()
	r := vlib.M{"est": est, "q": q, "f": f, "lo": fr.lo, "hi": fr.hi, "panic": "", "hung": false, "finite": true, "same": true, "loc": 0, "scale": 0}
	select {
	case a := <-done:
		r["panic"] = a.panic
		l, s := float64(a.loc)/float64(unit)*float64(f), float64(a.scale)/float64(unit)*float64(f)
		if math.Abs(l) < 1e9 && math.Abs(s) < 1e9 {
			r["loc"], r["scale"] = int(math.Round(l)), int(math.Round(s))
		} else {
			r["finite"] = false
		}
		for i, v := range all {
			if v != before[i] {
				r["same"] = false
			}
		}
	case <-time.After(20 * time.Second):
		r["hung"] = true
		hangs[est]++
	}
	out.Put(r)
}

func order(q []int, k int, rng *rand.Rand) {
	switch k {
	case 0:
		rng.Shuffle(len(q), func(i, j int) { q[i], q[j] = q[j], q[i] })
	case 1:
		sort.Ints(q)
	case 2:
		sort.Sort(sort.Reverse(sort.IntSlice(q)))
	case 3: // a calm sky with a busy end
		m := q[len(q)/2]
		sort.Slice(q, func(i, j int) bool { return (q[i]-m)*(q[i]-m) < (q[j]-m)*(q[j]-m) })
	case 4:
		m := q[len(q)/2]
		sort.Slice(q, func(i, j int) bool { return (q[i]-m)*(q[i]-m) > (q[j]-m)*(q[j]-m) })
	}
}

func sky(rng *rand.Rand, outliers, many bool) frame {
	n, sd := 15+rng.Intn(110), float64(12+rng.Intn(60))
	if many {
		n, sd = 80+n/2, float64(12+rng.Intn(28))
	}
	base := 500 + rng.Intn(1000)
	q := make([]int, n)
	for i := range q {
		g := rng.NormFloat64()
		for math.Abs(g) > 3 {
			g = rng.NormFloat64()
		}
		q[i] = base + int(g*sd)
	}
	lo, hi := base-int(3*sd)-1, base+int(3*sd)+1
	if outliers {
		both := rng.Intn(2) == 0
		for k := n * (1 + rng.Intn(9)) / 100; k >= 0; k-- {
			i := rng.Intn(n)
			far := int((4 + 12*rng.Float64()) * sd)
			if both && rng.Intn(2) == 0 {
				far = -far
			}
			q[i] = base + far
			if q[i] < 0 {
				q[i] = 0
			}
		}
	}
	if many { // nearly a third of the pixels are far away on one side
		side := 1 - 2*rng.Intn(2)
		base += 1000
		for i := range q {
			q[i] += 1000
			if i%10 < 3 {
				q[i] = base + side*int((8+6*rng.Float64())*sd)
			}
		}
		lo, hi = lo+1000, hi+1000
	}
	order(q, rng.Intn(5), rng)
	return frame{q, lo, hi}
}

func main() {
	vlib.Watchdog(550 * time.Second)
	out = vlib.NewOut()
	rng := vlib.Rng(29)
	k := 1
	if vlib.Thorough() {
		k = 5
	}
	if os.Args[1] == "replay" {
		fh, err := os.Open(os.Args[2])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(fh)
		for i := 0; sc.Scan(); i++ {
			var s struct{ Q []int }
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			fr := frame{s.Q, 0, 1000000}
			ask(fr, 0)
			ask(fr, 2)
			ask(fr, 4)
			if i%40 == 0 {
				ask(fr, 1)
			}
		}
	} else {
		for i := 0; i < 250*k; i++ {
			fr := sky(rng, i%3 == 1, i%6 == 2)
			ask(fr, 0)
			ask(fr, 2)
			if i%5 < 2 || i%6 == 2 {
				ask(fr, 1)
				ask(fr, 3)
			}
		}
		for i := 0; i < 60*k; i++ { // more than half of the pixels alike, and all
			n := 5 + rng.Intn(90)
			v, some := rng.Intn(2000), 0
			if i%6 != 0 {
				some = n * rng.Intn(45) / 100
			}
			q := make([]int, n)
			for j := range q {
				q[j] = v
				if j < some {
					q[j] = rng.Intn(3000)
				}
			}
			order(q, rng.Intn(3), rng)
			fr := frame{q, 0, 1000000}
			for _, e := range []int{0, 2, 4} {
				ask(fr, e)
			}
			if i%4 == 0 {
				ask(fr, 1)
				ask(fr, 3)
			}
		}
		for i := 0; i < 150*k; i++ { // histograms of 4096 bins
			r := []int{101, 255, 333, 501, 4095, 12285, 20475}[rng.Intn(7)]
			n, at, wd := 20+rng.Intn(280), float64(r)*rng.Float64(), float64(r)*math.Pow(rng.Float64(), 2)/3
			q := make([]int, n)
			for j := range q {
				v := int(at + rng.NormFloat64()*wd)
				for v < 0 || v > r {
					v = rng.Intn(r + 1)
				}
				q[j] = v
			}
			q[0], q[1] = 0, r
			if i%3 == 0 { // clipped at the ends
				for j := 0; j < n/5; j++ {
					q[j] = r * (j % 2)
				}
			}
			order(q, rng.Intn(3), rng)
			for j := range q {
				q[j] += 7
			}
			ask(frame{q, 0, 1000000}, 4)
		}
	}
	out.Close()
}
