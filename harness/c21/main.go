// Runs the nightlight program itself and records the job it prints, how it ends and the files it leaves.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type setting struct {
	N    string `json:"n"`
	Txt  string `json:"txt"`
	Val  string `json:"val"`
	Stem string `json:"stem"`
}
type scen struct {
	Cmd string    `json:"cmd"`
	Set []setting `json:"set"`
}

var cli, scratch string

type field struct {
	N string `json:"n"`
	V string `json:"v"`
}
type opLine struct {
	P string  `json:"p"`
	T string  `json:"t"`
	F []field `json:"f"`
}

// text of a settings value; numbers in single precision
func text(v interface{}) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case bool:
		return strconv.FormatBool(x), true
	case json.Number:
		f, err := x.Float64()
		if err != nil {
			return x.String(), true
		}
		return strconv.FormatFloat(float64(float32(f)), 'g', -1, 32), true
	case nil:
		return "null", true
	case []interface{}:
		parts := []string{}
		for _, e := range x {
			t, ok := text(e)
			if !ok {
				return "", false
			}
			parts = append(parts, t)
		}
		return strings.Join(parts, "|"), true
	}
	return "", false
}

func isOp(m map[string]interface{}) bool { _, ok := m["type"].(string); return ok }

// steps of a sequence, with sequences directly inside spliced in
func splice(steps []interface{}) (out []interface{}) {
	for _, s := range steps {
		if m, ok := s.(map[string]interface{}); ok && m["type"] == "seq" {
			if inner, ok := m["steps"].([]interface{}); ok {
				out = append(out, splice(inner)...)
				continue
			}
		}
		out = append(out, s)
	}
	return out
}

func flatten(path string, m map[string]interface{}, out *[]opLine) {
	l := opLine{P: path, T: fmt.Sprint(m["type"]), F: []field{}}
	var fields func(prefix string, m map[string]interface{})
	fields = func(prefix string, m map[string]interface{}) {
		for k, v := range m {
			if prefix == "" && k == "type" {
				continue
			}
			if k == "steps" && l.T == "seq" && prefix == "" {
				if list, ok := v.([]interface{}); ok {
					for i, s := range splice(list) {
						if sm, ok := s.(map[string]interface{}); ok {
							flatten(fmt.Sprintf("%s.steps%d", path, i+1), sm, out)
						} else {
							l.F = append(l.F, field{fmt.Sprintf("steps%d", i+1), fmt.Sprint(s)})
						}
					}
					continue
				}
			}
			if sm, ok := v.(map[string]interface{}); ok {
				if isOp(sm) {
					flatten(path+"."+prefix+k, sm, out)
				} else {
					fields(prefix+k+".", sm)
				}
				continue
			}
			t, ok := text(v)
			if !ok {
				t = fmt.Sprint(v)
			}
			l.F = append(l.F, field{prefix + k, t})
		}
	}
	fields("", m)
	sort.Slice(l.F, func(a, b int) bool { return l.F[a].N < l.F[b].N })
	*out = append(*out, l)
}

// the job printed by the program
func printed(out []byte) ([]opLine, []byte, string) {
	i := bytes.Index(out, []byte("Running JSON job:"))
	if i < 0 {
		return []opLine{}, nil, "no job printed"
	}
	rest := out[i+len("Running JSON job:"):]
	d := json.NewDecoder(bytes.NewReader(rest))
	var raw json.RawMessage
	if err := d.Decode(&raw); err != nil {
		return []opLine{}, nil, "job is not readable: " + err.Error()
	}
	d = json.NewDecoder(bytes.NewReader(raw))
	d.UseNumber()
	var m map[string]interface{}
	if err := d.Decode(&m); err != nil {
		return []opLine{}, nil, "job is not an object: " + err.Error()
	}
	lines := []opLine{}
	flatten("", m, &lines)
	sort.Slice(lines, func(a, b int) bool { return lines[a].P < lines[b].P })
	return lines, raw, ""
}

// runs the program; the exit status is 999 when it had to be stopped
func run(dir string, args ...string) (int, []byte, []byte) {
	cmd := exec.Command(cli, args...)
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		vlib.Fatal("cannot start the program: %v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return 999, so.Bytes(), se.Bytes()
	}
	return cmd.ProcessState.ExitCode(), so.Bytes(), se.Bytes()
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			f(i)
		}(i)
	}
	wg.Wait()
}

// a field of stars, shifted a little from frame to frame
func frame(r *rand.Rand, w, h int, dx, dy, level float64, seed int64) *fits.Image {
	sr := rand.New(rand.NewSource(seed))
	data := make([]float32, w*h)
	for i := range data {
		data[i] = float32(level + r.NormFloat64()*20)
	}
	for s := 0; s < 30; s++ {
		x, y, a := 16+sr.Float64()*float64(w-32)+dx, 16+sr.Float64()*float64(h-32)+dy, 4000+sr.Float64()*30000
		for j := -7; j <= 7; j++ {
			for i := -7; i <= 7; i++ {
				px, py := int(x)+i, int(y)+j
				ex, ey := float64(px)-x, float64(py)-y
				data[py*w+px] += float32(a * math.Exp(-(ex*ex+ey*ey)/5))
			}
		}
	}
	f := fits.NewImageFromNaxisn([]int32{int32(w), int32(h)}, data)
	f.Exposure = 10
	return f
}

func write(dir, name string, f *fits.Image) {
	if err := f.WriteFile(filepath.Join(dir, name)); err != nil {
		vlib.Fatal("%v", err)
	}
}

func files(dir string) map[string]int64 {
	m := map[string]int64{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			m[rel] = i.Size()
		}
		return nil
	})
	return m
}

func jobRecord(s scen, fileArgs []string, again bool, id int) vlib.M {
	dir := filepath.Join(scratch, fmt.Sprintf("job%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	args := []string{"-log="}
	for _, f := range s.Set {
		args = append(args, "-"+f.N+"="+f.Txt)
	}
	args = append(append(args, s.Cmd), fileArgs...)
	rc, out, _ := run(dir, args...)
	lines, raw, bad := printed(out)
	if again && bad == "" {
		// the printed job, run as a job
		ioutil.WriteFile(filepath.Join(dir, "printed.json"), raw, 0644)
		rc, out, _ = run(dir, "-log=", "-job=printed.json", "run")
		lines, _, bad = printed(out)
	}
	return vlib.M{"k": "job", "cmd": s.Cmd, "set": s.Set, "files": strings.Join(fileArgs, "|"), "again": again, "job": lines, "bad": bad, "ok": rc == 0, "left": len(files(dir)) - b2i(again)}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type world struct{ in, out, job, log, mem string }

var locRe = regexp.MustCompile(`Location (-?[0-9.]+) `)

func endRecord(r *rand.Rand, cmd string, w world, id int) vlib.M {
	dir := filepath.Join(scratch, fmt.Sprintf("end%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	n := map[string]int{"stats": 2, "stack": 9, "stretch": 1, "rgb": 3}[cmd]
	if cmd == "rgb" && r.Intn(2) == 0 {
		n = 4
	}
	size := 128
	if cmd == "stack" {
		size = 256
	}
	args := []string{}
	if w.out == "nowhere" {
		args = append(args, "-out=nodir/x.fits", "-jpg=", "-exportStats=")
	}
	if w.log == "nowhere" {
		args = append(args, "-log=nodir/x.log")
	} else if w.out == "nowhere" {
		args = append(args, "-log=x.log")
	}
	if w.mem == "tiny" {
		args = append(args, "-stMemory=1")
	}
	prof := w.in == "good" && r.Intn(3) == 0
	if prof {
		args = append(args, "-cpuprofile=cpu.prof", "-memprofile=mem.prof")
	}
	fileArgs := []string{}
	seed := r.Int63()
	if w.in != "none" {
		for i := 0; i < n; i++ {
			f := frame(r, size, size, r.Float64()*4-2, r.Float64()*4-2, 1000, seed)
			if w.in != "missing" || i > 0 {
				write(dir, fmt.Sprintf("light%d.fits", i), f)
			}
			fileArgs = append(fileArgs, fmt.Sprintf("light%d.fits", i))
		}
		if w.in == "broken" {
			p := filepath.Join(dir, fmt.Sprintf("light%d.fits", r.Intn(n)))
			b, _ := ioutil.ReadFile(p)
			ioutil.WriteFile(p, b[:len(b)/2], 0644)
		}
		if w.in == "missing" {
			fileArgs = []string{"absent.fits"}
		}
	}
	// a file with the name of the command is not an input
	ioutil.WriteFile(filepath.Join(dir, cmd), []byte("decoy"), 0644)
	if cmd == "run" {
		switch w.job {
		case "good", "failing":
			f := frame(r, 128, 128, 0, 0, 1000, seed)
			if w.job == "good" {
				write(dir, "light0.fits", f)
			}
			ioutil.WriteFile(filepath.Join(dir, "job.json"), []byte(`{"type":"seq","steps":[{"type":"load","id":0,"fileName":"light0.fits"},{"type":"save","filePattern":"res.fits"}]}`), 0644)
		case "invalid":
			ioutil.WriteFile(filepath.Join(dir, "job.json"), []byte([]string{`{"type":"seq","steps":[`, `{"type":"seq","steps":[{"type":"nonsense"}]}`, `[]`, ``, `{"type":"load","id":0,"fileName":"light0.fits"}`}[r.Intn(5)]), 0644)
		}
		args = append(args, "-job=job.json")
		fileArgs = nil
	}
	if cmd == "serve" { // on a port in use
		ln, err := net.Listen("tcp", ":0")
		if err != nil {
			vlib.Fatal("%v", err)
		}
		defer ln.Close()
		args = append(args, fmt.Sprintf("-port=%d", ln.Addr().(*net.TCPAddr).Port))
	}
	before := files(dir)
	args = append(append(args, cmd), fileArgs...)
	rc, out, _ := run(dir, args...)
	after := files(dir)
	made := []string{}
	empty := []string{}
	for f, s := range after {
		if _, ok := before[f]; !ok {
			made = append(made, f)
			if s == 0 {
				empty = append(empty, f)
			}
		}
	}
	sort.Strings(made)
	sort.Strings(empty)
	logName := "out.log"
	if w.out == "nowhere" {
		logName = "x.log"
	}
	lg, _ := ioutil.ReadFile(filepath.Join(dir, logName))
	return vlib.M{"k": "end", "cmd": cmd, "w": vlib.M{"in": w.in, "out": w.out, "job": w.job, "log": w.log, "mem": w.mem}, "rc": rc, "made": made, "empty": empty, "prof": prof,
		"logsame": bytes.Equal(lg, out), "args": strings.Join(args, " ")}
}

// location estimate printed under each estimator: three of four pixels near 1000, one of four near 5000
func estRecord(r *rand.Rand, est int, id int) vlib.M {
	dir := filepath.Join(scratch, fmt.Sprintf("est%d", id))
	os.MkdirAll(dir, 0755)
	defer os.RemoveAll(dir)
	d := make([]float32, 64*64)
	for i := range d {
		d[i] = float32(1000 + r.Intn(5) - 2)
		if r.Intn(4) == 0 {
			d[i] += 4000
		}
	}
	write(dir, "a.fits", fits.NewImageFromNaxisn([]int32{64, 64}, d))
	rc, out, _ := run(dir, fmt.Sprintf("-lsEst=%d", est), "stats", "a.fits")
	loc := -1
	if m := locRe.FindSubmatch(out); m != nil {
		v, _ := strconv.ParseFloat(string(m[1]), 64)
		loc = int(v + 0.5)
	}
	return vlib.M{"k": "est", "est": est, "ok": rc == 0, "loc": loc}
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	mode := os.Args[1]
	cli = os.Args[2]
	scratch, _ = os.Getwd()
	out := vlib.NewOut()
	defer out.Close()
	var scens []scen
	b, err := ioutil.ReadFile(os.Args[3])
	if err != nil {
		vlib.Fatal("%v", err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var s scen
		if err := json.Unmarshal([]byte(l), &s); err != nil {
			vlib.Fatal("%v", err)
		}
		scens = append(scens, s)
	}
	r := vlib.Rng(21)
	var recs []vlib.M
	switch mode {
	case "replay":
		recs = make([]vlib.M, len(scens))
		parallel(len(scens), func(i int) { recs[i] = jobRecord(scens[i], []string{"a.fits", "b*.fits"}, i%7 == 0, i) })
	case "rand":
		// lines of many flags at once, each with one of its values
		variants := map[string][]setting{}
		names := []string{}
		for _, s := range scens {
			if len(s.Set) == 1 {
				n := s.Set[0].N
				if variants[n] == nil {
					names = append(names, n)
				}
				variants[n] = append(variants[n], s.Set[0])
			}
		}
		sort.Strings(names)
		n := 300
		if vlib.Thorough() {
			n = 4000
		}
		list := make([]scen, n)
		fa := make([][]string, n)
		for i := range list {
			list[i].Cmd = []string{"stats", "stack", "stretch", "rgb"}[i%4]
			list[i].Set = []setting{}
			p := []int{2, 5, 10, 100}[r.Intn(4)]
			for _, k := range r.Perm(len(names)) {
				if r.Intn(100) < p {
					v := variants[names[k]]
					list[i].Set = append(list[i].Set, v[r.Intn(len(v))])
				}
			}
			for k := 0; k < r.Intn(4); k++ {
				fa[i] = append(fa[i], fmt.Sprintf("%s%d.fit", []string{"x", "l?ght", "*", "sub/in"}[r.Intn(4)], r.Intn(10)))
			}
		}
		recs = make([]vlib.M, n)
		parallel(n, func(i int) { recs[i] = jobRecord(list[i], fa[i], i%5 == 0, i) })
	case "end":
		type c struct {
			cmd string
			w   world
		}
		var cs []c
		rounds := 1
		if vlib.Thorough() {
			rounds = 8
		}
		for k := 0; k < rounds; k++ {
			for _, cmd := range []string{"stats", "stack", "stretch", "rgb"} {
				for _, in := range []string{"good", "broken", "missing", "none"} {
					for _, o := range []string{"good", "nowhere"} {
						for _, l := range []string{"good", "nowhere"} {
							for _, m := range []string{"plenty", "tiny"} {
								cs = append(cs, c{cmd, world{in, o, "good", l, m}})
							}
						}
					}
				}
			}
			for _, j := range []string{"good", "missing", "invalid", "failing"} {
				for _, l := range []string{"good", "nowhere"} {
					cs = append(cs, c{"run", world{"none", "good", j, l, "plenty"}})
				}
			}
			for _, cmd := range []string{"legal", "version", "help", "argb", "lrgb", "bogus", "Stack", "stacks", "-", "serve"} {
				for _, l := range []string{"good", "nowhere"} {
					cs = append(cs, c{cmd, world{"none", "good", "good", l, "plenty"}})
				}
			}
		}
		recs = make([]vlib.M, len(cs))
		seeds := make([]int64, len(cs))
		for i := range seeds {
			seeds[i] = r.Int63()
		}
		parallel(len(cs), func(i int) { recs[i] = endRecord(rand.New(rand.NewSource(seeds[i])), cs[i].cmd, cs[i].w, i) })
		for e := 0; e < 5; e++ {
			recs = append(recs, estRecord(rand.New(rand.NewSource(r.Int63())), e, e))
		}
	}
	for _, rec := range recs {
		out.Put(rec)
	}
}
