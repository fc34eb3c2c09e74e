// C11: jobs naming files by all kinds of paths and patterns, from a working directory inside a scratch tree.
package main

import (
	"bufio"
	"encoding/json"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

func codes(s string) []int {
	r := []int{}
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}
func str(c []int) string {
	b := make([]byte, len(c))
	for i, v := range c {
		b[i] = byte(v)
	}
	return string(b)
}
func comps(p string) [][]int {
	r := [][]int{}
	for _, c := range strings.Split(p, "/") {
		r = append(r, codes(c))
	}
	return r
}

var root string // scratch tree; the working directory is root/work
var ino int

// number of files opened in the watched directories since the last call
func opened() int {
	n := 0
	var buf [65536]byte
	for {
		k, err := syscall.Read(ino, buf[:])
		if err != nil || k <= 0 {
			return n
		}
		for o := 0; o < k; {
			e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
			if e.Mask&syscall.IN_OPEN != 0 && e.Mask&syscall.IN_ISDIR == 0 {
				n++
			}
			o += syscall.SizeofInotifyEvent + int(e.Len)
		}
	}
}

func put(name string, mark int) {
	os.MkdirAll(filepath.Dir(name), 0755)
	f := fits.NewImageFromNaxisn([]int32{4, 4}, nil)
	for i := range f.Data {
		f.Data[i] = float32(mark)
	}
	f.Data[3]++ // some dynamic range
	if err := f.WriteFile(name); err != nil {
		vlib.Fatal("%v", err)
	}
}

func q(s string) string { b, _ := json.Marshal(s); return string(b) }

// runs a job given as JSON
func job(text string) (out []*fits.Image, errs []error, err error) {
	var seq ops.OpSequence
	if err := json.Unmarshal([]byte(text), &seq); err != nil {
		vlib.Fatal("%s: %v", text, err)
	}
	c := ops.NewContext(ioutil.Discard, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = 2
	ps, err := seq.MakePromises(nil, c)
	if err != nil {
		return nil, nil, err
	}
	for _, p := range ps {
		f, e := p()
		out, errs = append(out, f), append(errs, e)
	}
	return out, errs, nil
}

var stepTab = []string{"load", "many", "dark", "flat", "refH", "refA", "both"}

func path(out *vlib.Out, p, step string, files [][][]int) {
	vlib.Current(vlib.M{"path": p, "step": step})
	in := `{"type":"load","id":7,"fileName":"light.fits"}`
	var t string
	switch step {
	case "load":
		t = `{"type":"load","id":1,"fileName":` + q(p) + `}`
	case "many":
		t = `{"type":"loadMany","filePatterns":[` + q(p) + `]}`
	case "dark":
		t = in + `,{"type":"calibrate","dark":` + q(p) + `}`
	case "flat":
		t = in + `,{"type":"calibrate","flat":` + q(p) + `}`
	case "both":
		t = in + `,{"type":"calibrate","dark":"light.fits","flat":` + q(p) + `}`
	case "refH":
		t = in + `,{"type":"selectRef","target":1,"mode":` + q(p) + `}`
	case "refA":
		t = in + `,{"type":"selectRef","target":0,"mode":` + q(p) + `}`
	}
	if step[0] == 'r' && strings.Trim(p, "0123456789+-") == "" {
		return
	}
	opened()
	rec := vlib.M{"new": 1, "ev": "path", "p": codes(p), "step": step, "files": files, "err": 0}
	rec["panic"] = vlib.Try(func() {
		o, errs, err := job(`{"type":"seq","steps":[` + t + `]}`)
		if err != nil || len(errs) != 1 || errs[0] != nil || o[0] == nil {
			rec["err"] = 1
		}
	})
	rec["opened"] = opened()
	out.Put(rec)
}

type entry struct {
	p    string
	mark int
}

func many(out *vlib.Out, pats []string, tree []entry) {
	vlib.Current(vlib.M{"patterns": pats})
	pc, tr := [][]int{}, []interface{}{}
	for _, p := range pats {
		pc = append(pc, codes(p))
	}
	for _, e := range tree {
		tr = append(tr, []interface{}{comps(e.p), e.mark})
	}
	b, _ := json.Marshal(pats)
	opened()
	rec := vlib.M{"new": 1, "ev": "many", "pats": pc, "tree": tr, "err": 0, "out": []vlib.M{}}
	rec["panic"] = vlib.Try(func() {
		o, errs, err := job(`{"type":"seq","steps":[{"type":"loadMany","filePatterns":` + string(b) + `}]}`)
		if err != nil {
			rec["err"] = 1
		}
		ms := []vlib.M{}
		for i := range o {
			m := vlib.M{"ok": 0, "id": 0, "name": []int{}, "mark": 0}
			if errs[i] == nil && o[i] != nil {
				m = vlib.M{"ok": 1, "id": o[i].ID, "name": codes(o[i].FileName), "mark": int(o[i].Data[0])}
			}
			ms = append(ms, m)
		}
		rec["out"] = ms
	})
	rec["opened"] = opened()
	out.Put(rec)
}

// outcome not specified: empty or dot components, brackets across slashes
func odd(p string) bool {
	in := false
	for i := 0; i < len(p); i++ {
		if p[i] == '[' {
			in = true
		}
		if p[i] == ']' {
			in = false
		}
		if p[i] == '/' && (in || i > 0 && p[i-1] == '\\') {
			return true
		}
	}
	for _, c := range strings.Split(p, "/") {
		if c == "" || c == "." || strings.HasSuffix(c, "\\") {
			return true
		}
	}
	return false
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(30e9)
	tmp, e := ioutil.TempDir(".", "c11")
	if e != nil {
		vlib.Fatal("%v", e)
	}
	if root, e = filepath.Abs(tmp); e != nil {
		vlib.Fatal("%v", e)
	}
	defer os.RemoveAll(root)
	scens := ""
	if os.Args[1] == "replay" {
		scens, _ = filepath.Abs(os.Args[2])
	}
	// outside
	put(root+"/a", 91)
	put(root+"/d/a", 92)
	put(root+"/d/d/a", 93)
	put(root+"/x.fits", 94)
	work := root + "/work"
	put(work+"/light.fits", 5)
	os.Chdir(work)
	if ino, e = syscall.InotifyInit1(syscall.IN_NONBLOCK); e != nil {
		vlib.Fatal("inotify: %v", e)
	}
	for _, d := range []string{root, root + "/d", root + "/d/d"} {
		if _, e = syscall.InotifyAddWatch(ino, d, syscall.IN_OPEN); e != nil {
			vlib.Fatal("inotify: %v", e)
		}
	}
	ioutil.ReadFile(root + "/x.fits")
	if opened() == 0 {
		vlib.Fatal("opening files goes unnoticed")
	}
	rng := vlib.Rng(11)
	var tree []entry
	add := func(p string, mark int) {
		if mark < 0 {
			os.MkdirAll(p, 0755)
			mark = 0
		} else if mark == 0 {
			ioutil.WriteFile(p, []byte("no image"), 0644)
		} else {
			put(p, mark)
		}
		tree = append(tree, entry{p, mark})
	}
	clean := func() {
		for _, x := range tree {
			if !strings.Contains(x.p, "/") && x.p != "" {
				os.RemoveAll(filepath.Join(work, x.p))
			}
		}
		tree = nil
	}
	if scens != "" {
		for n, t := range []string{"a", "d/a", "d/d/a"} {
			put(t, n+1)
		}
		files := [][][]int{comps("a"), comps("d/a"), comps("d/d/a")}
		var paths, pats [][]int
		f, err := os.Open(scens)
		if err != nil {
			vlib.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var s struct {
				Kind string
				P    []int
			}
			if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
				vlib.Fatal("%v", err)
			}
			if s.Kind == "path" {
				paths = append(paths, s.P)
			} else {
				pats = append(pats, s.P)
			}
		}
		f.Close()
		for i, c := range paths {
			p := str(c)
			if p[0] == '/' { // absolute: below the scratch tree
				p = []string{root, work}[rng.Intn(2)] + p
			}
			path(out, p, stepTab[(i+int(vlib.Seed()))%len(stepTab)], files)
			path(out, p, stepTab[rng.Intn(len(stepTab))], files)
		}
		os.RemoveAll(work + "/a")
		os.RemoveAll(work + "/d")
		os.Remove(work + "/light.fits")
		for n, t := range []string{"a", "b", "aa", "ab", "a.b", ".a", "b.", "a..", "[", "aab"} {
			add(t, n+1)
		}
		add("ba", -1)
		add("ba/a", 31)
		add("ba/b", 0)
		add("ba.", -1)
		add("ba./a", 32)
		add("ba/a-", -1)
		add("ba/a-/b", 33)
		for i := 0; i < len(pats); i++ {
			p := str(pats[i])
			if odd(p) {
				continue
			}
			ps := []string{p}
			if rng.Intn(4) == 0 {
				if p2 := str(pats[rng.Intn(len(pats))]); !odd(p2) {
					ps = append(ps, p2)
				}
			}
			many(out, ps, tree)
		}
		clean()
	} else {
		os.Remove(work + "/light.fits")
		n := 60
		if vlib.Thorough() {
			n = 600
		}
		words := []string{"light", "dark", "L", "L_1", "L_2", "L_10", "..x", "m31..a", "a b", "Z", "z", "-x", "0", "x,y", "n]", "a*b"}
		sufs := []string{".fits", ".fit", ".FITS", ".fits.gz", "", ".tmp"}
		for k := 0; k < n; k++ {
			seen := map[string]bool{}
			dirs := []string{""}
			for d := 0; d < rng.Intn(4); d++ {
				p := dirs[rng.Intn(len(dirs))] + words[rng.Intn(len(words))]
				if !seen[p] {
					seen[p] = true
					add(p, -1)
					dirs = append(dirs, p+"/")
				}
			}
			for f := 0; f < 1+rng.Intn(15); f++ {
				p := dirs[rng.Intn(len(dirs))] + words[rng.Intn(len(words))] + sufs[rng.Intn(len(sufs))]
				if seen[p] {
					continue
				}
				seen[p] = true
				m := len(tree) + 1
				if strings.HasSuffix(p, ".tmp") {
					m = 0
				}
				add(p, m)
			}
			for j := 0; j < 8; j++ {
				var ps []string
				for x := 0; x < 1+rng.Intn(3); x++ {
					ps = append(ps, pattern(rng, tree))
				}
				many(out, ps, tree)
			}
			files := [][][]int{comps("light.fits")}
			for _, t := range tree {
				if t.mark > 0 {
					files = append(files, comps(t.p))
				}
			}
			if !seen["light.fits"] && !seen["light.fits.gz"] {
				put(work+"/light.fits", 5)
				for j := 0; j < 6; j++ {
					p := tree[rng.Intn(len(tree))].p
					switch rng.Intn(9) {
					case 0:
						p = "../" + []string{"a", "d/a", "x.fits", "work/" + p}[rng.Intn(4)]
					case 1:
						p = root + "/x.fits"
					case 2:
						p = work + "/" + p
					case 3:
						p = "./" + p
					case 4:
						p = filepath.Dir(p) + "/../../x.fits"
					case 5:
						p = p + "/../../../x.fits"
					case 6:
						p = "./../x.fits"
					}
					if strings.ContainsAny(p, "*]?[\\") {
						continue
					}
					path(out, p, stepTab[rng.Intn(len(stepTab))], files)
				}
				os.Remove(work + "/light.fits")
			}
			clean()
		}
	}
	out.Close()
}

func pattern(rng *rand.Rand, tree []entry) string {
	switch rng.Intn(12) {
	case 0:
		return root + "/*.fits"
	case 1:
		return "../*"
	case 2:
		return "*/../../*.fits"
	case 3:
		return "["
	case 4:
		return "*"
	case 5:
		return "*/*"
	case 6:
		return "*.fits"
	}
	// blur an existing name
	cs := strings.Split(tree[rng.Intn(len(tree))].p, "/")
	for i, c := range cs {
		b := []rune(c)
		for n := rng.Intn(3); n > 0 && len(b) > 0; n-- {
			j := rng.Intn(len(b))
			switch rng.Intn(5) {
			case 0:
				b = append(append(append([]rune{}, b[:j]...), '*'), b[j+rng.Intn(len(b)-j):]...)
			case 1:
				b[j] = '?'
			case 2:
				b = append(append(append([]rune{}, b[:j]...), []rune("[^x]")...), b[j+1:]...)
			case 3:
				b = append(append(append([]rune{}, b[:j]...), []rune("[!-~]")...), b[j+1:]...)
			case 4:
				b[j] = 'q'
			}
		}
		for _, x := range b {
			if x > 127 { // non-ascii characters are not single codes
				return "*"
			}
		}
		cs[i] = string(b)
	}
	p := strings.Join(cs, "/")
	if odd(p) || p == "" {
		return "*"
	}
	return p
}
