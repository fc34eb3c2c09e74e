// Runs the nightlight program as a server, sends it requests at the same time and records the answers.
package main

import (
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

type request struct {
	K       string `json:"k"`
	Good    int    `json:"good"`
	Missing int    `json:"missing"`
}
type wave struct {
	Reqs []request `json:"reqs"`
}

var (
	prog, repo, dir, base string
	srv                   *exec.Cmd
	srvErr                bytes.Buffer
	gone                  = make(chan bool)
	client                = &http.Client{Timeout: 60 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
		Transport: &http.Transport{MaxIdleConnsPerHost: 64}}
)

func freePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		vlib.Fatal("%v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func start() {
	for try := 0; ; try++ {
		port := freePort()
		base = fmt.Sprintf("http://127.0.0.1:%d", port)
		srv = exec.Command(prog, fmt.Sprintf("-port=%d", port), "-log=", "serve")
		srv.Dir = dir
		srv.Stderr = &srvErr
		srv.Env = append(os.Environ(), "GIN_MODE=release")
		gone = make(chan bool)
		if err := srv.Start(); err != nil {
			vlib.Fatal("cannot start the server: %v", err)
		}
		go func(c *exec.Cmd, g chan bool) { c.Wait(); close(g) }(srv, gone)
		for i := 0; i < 300; i++ {
			if alive() {
				return
			}
			select {
			case <-gone:
				i = 300
			case <-time.After(50 * time.Millisecond):
			}
		}
		srv.Process.Kill()
		if try == 4 {
			vlib.Fatal("the server does not answer: %s", srvErr.String())
		}
	}
}

func alive() bool {
	r, err := client.Get(base + "/api/v1/ping")
	if err != nil {
		return false
	}
	defer r.Body.Close()
	b, _ := ioutil.ReadAll(r.Body)
	return r.StatusCode == 200 && strings.Contains(string(b), "pong")
}

func sum(b []byte) string { h := sha1.Sum(b); return hex.EncodeToString(h[:6]) }

// the files of the served directory and their contents
func disk() map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := ioutil.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = sum(b)
		}
		return nil
	})
	return m
}

type answer struct {
	status int
	ctype  string
	body   []byte
	err    error
}

func send(method, path, ctype string, body []byte) answer {
	req, err := http.NewRequest(method, base, bytes.NewReader(body))
	if err != nil {
		vlib.Fatal("%v", err)
	}
	req.URL.Opaque = path // as it is, without cleaning
	if ctype != "" {
		req.Header.Set("Content-Type", ctype)
	}
	r, err := client.Do(req)
	if err != nil {
		return answer{err: err}
	}
	defer r.Body.Close()
	b, err := ioutil.ReadAll(r.Body)
	return answer{r.StatusCode, r.Header.Get("Content-Type"), b, err}
}

var tokenRe = regexp.MustCompile(`[a-z][0-9]+-[0-9]+\.fits`)
var numRe = regexp.MustCompile(`[-+]?[0-9][0-9.,e]*|NaN|[-+]Inf`)
var idRe = regexp.MustCompile(`^([0-9]+): `)

// numbers are left out, the names of the files are kept
func normal(line string) string {
	toks := tokenRe.FindAllString(line, -1)
	s := tokenRe.ReplaceAllString(line, "\x00")
	s = numRe.ReplaceAllString(s, "#")
	for _, t := range toks {
		s = strings.Replace(s, "\x00", t, 1)
	}
	return s
}

// the answer to a job: the job played back, the lines of each frame in order, the other lines, whether it failed
func parse(b []byte) (echo string, groups map[string][]string, other []string, failed bool) {
	groups = map[string][]string{}
	i := bytes.IndexByte(b, '{')
	if i < 0 {
		return "", groups, []string{string(b)}, false
	}
	d := json.NewDecoder(bytes.NewReader(b[i:]))
	var raw json.RawMessage
	if err := d.Decode(&raw); err != nil {
		return "unreadable: " + err.Error(), groups, nil, false
	}
	echo = canon(raw)
	rest := string(b[i+int(d.InputOffset()):])
	for _, l := range strings.FieldsFunc(rest, func(r rune) bool { return r == '\n' || r == '\r' }) {
		if strings.TrimSpace(l) == "" || strings.HasSuffix(l, "%") && len(l) <= 4 {
			continue // progress
		}
		if strings.HasPrefix(l, "Error") {
			failed = true
			continue
		}
		n := normal(l)
		if m := idRe.FindStringSubmatch(l); m != nil {
			groups[m[1]] = append(groups[m[1]], n)
		} else {
			other = append(other, n)
		}
	}
	sort.Strings(other)
	return
}

func canon(b []byte) string {
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		return "unreadable"
	}
	c, _ := json.Marshal(v)
	return string(c)
}

// in the given job all settings which are part of the played back job
func part(sent, echo interface{}) bool {
	switch s := sent.(type) {
	case map[string]interface{}:
		e, ok := echo.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range s {
			if k != "active" && !part(v, e[k]) {
				return false
			}
		}
		return true
	case []interface{}:
		e, ok := echo.([]interface{})
		if !ok || len(e) != len(s) {
			return false
		}
		for i := range s {
			if !part(s[i], e[i]) {
				return false
			}
		}
		return true
	case float64:
		e, ok := echo.(float64)
		return ok && float32(e) == float32(s)
	}
	return fmt.Sprint(sent) == fmt.Sprint(echo)
}

var work = []func(r *rand.Rand) []string{
	func(r *rand.Rand) []string { return []string{fmt.Sprintf(`{"type":"scaleOffset","scale":%d,"offset":%d}`, 2+r.Intn(3), r.Intn(9))} },
	func(r *rand.Rand) []string { return []string{`{"type":"bin","binSize":2}`} },
	func(r *rand.Rand) []string { return []string{`{"type":"normRange"}`, `{"type":"gamma","gamma":2}`} },
	func(r *rand.Rand) []string {
		return []string{`{"type":"debayer","channel":"` + string("RGB"[r.Intn(3)]) + `","colorFilterArray":"RGGB"}`, `{"type":"scaleOffset","scale":0.5,"offset":1}`}
	},
	func(r *rand.Rand) []string { return []string{`{"type":"starDetect","radius":16,"sigma":15,"badPixelSigma":5,"inOutRatio":1.4}`} },
	func(r *rand.Rand) []string { return []string{`{"type":"gaussianBlur","sigma":1.5}`, `{"type":"scaleOffset","scale":3,"offset":0}`} },
	func(r *rand.Rand) []string { return []string{`{"type":"calibrate","dark":"dark.fits"}`, `{"type":"save","filePattern":""}`} },
}

type job struct {
	n     int
	body  []byte
	in    []string // files loaded
	out   []string // files saved
	lost  []string // files which do not exist
	loose bool     // answer and files may differ from run to run
}

func frame(r *rand.Rand, size int) *fits.Image {
	d := make([]float32, size*size)
	for i := range d {
		d[i] = float32(900 + r.Intn(200))
	}
	for s := 0; s < 6; s++ {
		x, y := 10+r.Intn(size-20), 10+r.Intn(size-20)
		for j := -3; j <= 3; j++ {
			for i := -3; i <= 3; i++ {
				d[(y+j)*size+x+i] += float32(20000 / (1 + i*i + j*j))
			}
		}
	}
	f := fits.NewImageFromNaxisn([]int32{int32(size), int32(size)}, d)
	f.Exposure = 10
	return f
}

func put(name string, f *fits.Image) {
	if err := f.WriteFile(filepath.Join(dir, name)); err != nil {
		vlib.Fatal("%v", err)
	}
}

// a job of its own frames, with its own files
func newJob(r *rand.Rand, n, good, missing, size int, stacked bool) *job {
	j := &job{n: n}
	steps := []string{}
	names := []string{}
	for k, o := range r.Perm(good + missing) {
		name := fmt.Sprintf("i%d-%d.fits", n, k)
		if o < good {
			put(name, frame(r, size))
			j.in = append(j.in, name)
		} else {
			// a frame which cannot be read
			put(name, frame(r, size))
			p := filepath.Join(dir, name)
			b, _ := ioutil.ReadFile(p)
			if err := ioutil.WriteFile(p, b[:len(b)/2+r.Intn(100)], 0644); err != nil {
				vlib.Fatal("%v", err)
			}
			if good == 0 && r.Intn(2) == 0 {
				os.Remove(p)
			}
			j.lost = append(j.lost, name)
		}
		names = append(names, `"`+name+`"`)
		if !stacked && o < good {
			j.out = append(j.out, fmt.Sprintf("o%d-%d.fits", n, k))
		}
	}
	if r.Intn(2) == 0 && good > 0 {
		names = []string{fmt.Sprintf(`"i%d-*.fits"`, n)}
	}
	steps = append(steps, `{"type":"loadMany","filePatterns":[`+strings.Join(names, ",")+`]}`)
	for k := 0; k < 1+r.Intn(2); k++ {
		w := r.Intn(len(work))
		if k > 0 {
			w = r.Intn(len(work) - 1) // calibration comes first
		}
		steps = append(steps, work[w](r)...)
	}
	if stacked {
		steps = append(steps, fmt.Sprintf(`{"type":"stack","mode":%d,"weighting":0}`, r.Intn(2)))
		j.out = []string{fmt.Sprintf("o%d-0.fits", n)}
		steps = append(steps, fmt.Sprintf(`{"type":"save","filePattern":"o%d-0.fits"}`, n))
	} else {
		steps = append(steps, fmt.Sprintf(`{"type":"save","filePattern":"o%d-%%d.fits"}`, n))
	}
	j.body = []byte(`{"type":"seq","steps":[` + strings.Join(steps, ",") + `]}`)
	return j
}

func (j *job) remove(inputs bool) {
	for _, o := range j.out {
		os.Remove(filepath.Join(dir, o))
	}
	if inputs {
		for _, o := range append(append([]string{}, j.in...), j.lost...) {
			os.Remove(filepath.Join(dir, o))
		}
	}
}

const stars = `{"type":"starDetect","radius":10,"sigma":8,"badPixelSigma":0,"inOutRatio":1.2}`

// frames of the same field of stars
func field(r *rand.Rand, seed int64, size, n int) *fits.Image {
	sr := rand.New(rand.NewSource(seed))
	d := make([]float32, size*size)
	for i := range d {
		d[i] = float32(1000 + r.NormFloat64()*20)
	}
	for s := 0; s < n; s++ {
		x, y, a := 12+sr.Intn(size-24), 12+sr.Intn(size-24), 3000+sr.Float32()*30000
		for j := -5; j <= 5; j++ {
			for i := -5; i <= 5; i++ {
				d[(y+j)*size+x+i] += a * float32(math.Exp(-float64(i*i+j*j)/4))
			}
		}
	}
	f := fits.NewImageFromNaxisn([]int32{int32(size), int32(size)}, d)
	f.Exposure = 10
	return f
}

// long jobs with most of the operators
func longJob(r *rand.Rand, n int) *job {
	j := &job{n: n, loose: true}
	kind := r.Intn(4)
	frames := []int{6, 3, 4, 2}[kind]
	size := 96 + 16*r.Intn(3)
	seed := r.Int63()
	for k := 0; k < frames; k++ {
		name := fmt.Sprintf("i%d-%d.fits", n, k)
		put(name, field(r, seed, size, 15))
		j.in = append(j.in, name)
	}
	steps := []string{fmt.Sprintf(`{"type":"loadMany","filePatterns":["i%d-*.fits"]}`, n)}
	save := fmt.Sprintf(`{"type":"save","filePattern":"o%d-0.fits"}`, n)
	switch kind {
	case 0: // frames to a stack
		mode, weighting := r.Intn(7), r.Intn(3)
		if mode == 4 { // not available with weights
			weighting = 0
		}
		steps = append(steps, `{"type":"badPixel","sigmaLow":3,"sigmaHigh":5}`, `{"type":"debandHoriz","percentile":50,"window":32,"sigma":3}`, `{"type":"debandVert","percentile":50,"window":32,"sigma":3}`, stars,
			`{"type":"backExtract","gridSize":32,"hfrFactor":4,"sigma":1.5,"clip":0}`, fmt.Sprintf(`{"type":"exportStats","fileName":"h%d-0.html"}`, n), `{"type":"selectRef","target":1,"mode":"%starsHFR","starDetect":`+stars+`}`,
			`{"type":"selectRef","target":0,"mode":"%starsHFR","starDetect":`+stars+`}`, fmt.Sprintf(`{"type":"matchHist","mode":%d}`, 1+r.Intn(2)), `{"type":"align","k":12,"threshold":3,"oobMode":0}`,
			fmt.Sprintf(`{"type":"stack","mode":%d,"weighting":%d,"sigmaLow":2,"sigmaHigh":2}`, mode, weighting), stars)
	case 1, 2: // channels to an image
		steps = append(steps, stars, `{"type":"selectRef","target":0,"mode":"%rgb","starDetect":`+stars+`}`, `{"type":"rgbCombine"}`, `{"type":"rgbBalance","block":8,"border":0.1,"skipBright":0,"skipDim":0}`, `{"type":"rgbToHSLuv"}`, `{"type":"hslApplyLum"}`,
			`{"type":"hslNeutralizeBackground","sigmaLow":0.5,"sigmaHigh":1}`, `{"type":"hslSaturationGamma","gamma":1.5,"sigma":1}`, `{"type":"hslSelectiveSaturation","from":295,"to":40,"factor":0.5}`, `{"type":"hslRotateHue","from":100,"to":190,"offset":-30,"sigma":1}`,
			`{"type":"hslSCNR","factor":0.5}`, `{"type":"hslMidtones","mid":1,"black":2}`, `{"type":"hslGamma","gamma":1.2}`, `{"type":"hslGammaPP","gamma":1.2,"sigma":1}`, `{"type":"hslScaleBlack","location":0.05}`, `{"type":"hsluvToRGB"}`)
	default: // frames stretched one by one
		save = fmt.Sprintf(`{"type":"save","filePattern":"o%d-%%d.fits"}`, n)
		j.out = append(j.out, fmt.Sprintf("o%d-1.fits", n))
		steps = append(steps, `{"type":"normRange"}`, `{"type":"stretch","location":0.1,"scale":0.02}`, `{"type":"midtones","mid":1,"black":2}`, `{"type":"gamma","gamma":1.2}`, `{"type":"gammaPP","gamma":1.2,"sigma":1}`, `{"type":"scaleBlack","location":0.05}`, stars,
			`{"type":"gaussianBlur","sigma":1}`, `{"type":"unsharpMask","sigma":1,"gain":0.5,"threshold":1}`)
	}
	j.out = append(j.out, fmt.Sprintf("o%d-0.fits", n))
	j.body = []byte(`{"type":"seq","steps":[` + strings.Join(append(steps, save), ",") + `]}`)
	return j
}

type heard struct {
	groups [][]string
	other  []string
	files  []string
}

func (j *job) hear(a answer, now map[string]string) (h heard, echoed, failed bool, tokens []string) {
	echo, groups, other, failed := parse(a.body)
	ids := []string{}
	for k := range groups {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	h.groups, h.other, h.files = [][]string{}, []string{}, []string{}
	for _, k := range ids {
		h.groups = append(h.groups, append([]string{k}, groups[k]...))
	}
	h.other = append(h.other, other...)
	for _, o := range j.out {
		if s, ok := now[o]; ok {
			h.files = append(h.files, o+" "+s)
		}
	}
	var s, e interface{}
	json.Unmarshal(j.body, &s)
	json.Unmarshal([]byte(echo), &e)
	echoed = part(s, e)
	seen := map[string]bool{}
	for _, t := range tokenRe.FindAllString(string(a.body), -1) {
		seen[t] = true
	}
	for t := range seen {
		tokens = append(tokens, t)
	}
	sort.Strings(tokens)
	return
}

var malformed = []string{`{"type":"seq","steps":[`, `{"type":"seq","steps":[{"type":"nonsense"}]}`, `[]`, ``, `"x"`, `{"type":"seq","steps":7}`,
	`{"type":"seq","steps":[{"type":"load","id":"zz"}]}`, `{"type":"seq","steps":[{"type":"save","filePattern":"bad.fits"},{"type":"?"}]}`, `{"type":"seq","steps":[{}]}`,
	`{"type":"load","id":0,"fileName":"keep.fits"}`, `{"type":"seq","steps":[{"type":"gamma","gamma":"two"}]}`, `seq`}
var pages = []string{"index.html", "js/blocks.js", "js/codegen.js", "js/toolbox.js", "icons/favicon.svg"}

var counter int
var left = map[string]bool{} // files of jobs whose client went away; they may appear later

func list(s []string) []string { return append([]string{}, s...) }

func doWave(r *rand.Rand, reqs []request, size int, big bool) vlib.M {
	vlib.Current(reqs)
	jobs := make([]*job, len(reqs))
	alone := make([]heard, len(reqs))
	for i, q := range reqs {
		if q.K != "job" {
			continue
		}
		counter++
		if q.Good > 90 {
			jobs[i] = longJob(r, counter)
			continue
		}
		jobs[i] = newJob(r, counter, q.Good, q.Missing, size, big && q.Missing == 0 && r.Intn(3) == 0)
		// on its own first, for comparison
		a := send("POST", "/api/v1/job", "application/json", jobs[i].body)
		alone[i], _, _, _ = jobs[i].hear(a, disk())
		jobs[i].remove(false)
	}
	before := disk()
	rec := make([]vlib.M, len(reqs))
	answers := make([]answer, len(reqs))
	variant := make([]string, len(reqs))
	outside := "outside-" + sum([]byte(dir))
	go1 := make(chan bool)
	var wg sync.WaitGroup
	for i, q := range reqs {
		wg.Add(1)
		method, path, ctype, body := "GET", "", "", []byte(nil)
		v := r.Intn(1000)
		switch q.K {
		case "job":
			method, path, ctype, body = "POST", "/api/v1/job", "application/json", jobs[i].body
		case "malformed":
			method, path, ctype, body = "POST", "/api/v1/job", "application/json", []byte(malformed[v%len(malformed)])
		case "ping":
			path = "/api/v1/ping"
		case "fetch":
			path = "/api/v1/files/keep.fits"
		case "page":
			variant[i] = pages[v%len(pages)]
			path = "/" + variant[i]
			if variant[i] == "index.html" {
				path = "/"
			}
		case "absent":
			path = []string{"/api/v1/files/absent.fits", "/js/absent.js", "/nothing", "/api/v2/ping"}[v%4]
		case "options":
			method, path = "OPTIONS", []string{"/api/v1/job", "/api/v1/ping", "/api/v1/files/keep.fits"}[v%3]
		case "escape":
			path = []string{"/api/v1/files/../" + outside, "/api/v1/files/..%2f" + outside, "/api/v1/files/%2e%2e/" + outside, "/api/v1/files//../" + outside, "/js/../../" + outside, "/api/v1/files/" + filepath.ToSlash(filepath.Dir(dir)) + "/" + outside}[v%6]
		case "remove":
			method, path = "DELETE", "/api/v1/files/keep.fits"
		case "replace":
			method, path, ctype, body = []string{"PUT", "POST", "PATCH"}[v%3], "/api/v1/files/keep.fits", "application/octet-stream", []byte("replaced")
		case "leave":
			counter++
			j := newJob(r, counter, 2, 0, size, false)
			jobs[i] = j
			method, path, ctype, body = "POST", "/api/v1/job", "application/json", j.body
		}
		if variant[i] == "" {
			variant[i] = method + " " + path
			if len(body) < 100 {
				variant[i] += " " + string(body)
			}
		}
		go func(i int, leave bool) {
			defer wg.Done()
			<-go1
			if leave { // the client goes away while the job runs
				ctx, cancel := context.WithTimeout(context.Background(), time.Duration(i%7)*time.Millisecond)
				defer cancel()
				req, _ := http.NewRequestWithContext(ctx, method, base+path, bytes.NewReader(body))
				req.Header.Set("Content-Type", ctype)
				if resp, err := client.Do(req); err == nil {
					resp.Body.Close()
				}
				return
			}
			answers[i] = send(method, path, ctype, body)
		}(i, q.K == "leave")
	}
	close(go1)
	wg.Wait()
	for i, q := range reqs {
		if q.K == "leave" {
			for _, o := range jobs[i].out {
				left[o] = true
			}
			for _, o := range jobs[i].in {
				left[o] = true
			}
		}
	}
	after := disk()
	for i, q := range reqs {
		a := answers[i]
		if a.err != nil {
			a.status = 1
		}
		m := vlib.M{"k": q.K, "status": a.status, "variant": variant[i], "good": q.Good, "missing": q.Missing, "same": true, "secret": bytes.Contains(a.body, []byte("top secret")), "note": "",
			"echoed": true, "failed": false, "tokens": []string{}, "in": []string{}, "out": []string{}, "lost": []string{}, "groups": [][]string{}, "other": []string{}, "files": []string{},
			"groups0": [][]string{}, "other0": []string{}, "files0": []string{}}
		if a.err != nil {
			m["note"] = a.err.Error()
		}
		switch q.K {
		case "job":
			h, echoed, failed, tokens := jobs[i].hear(a, after)
			if k := bytes.LastIndex(a.body, []byte("\nError")); k >= 0 {
				m["note"] = string(a.body[k+1:])
			}
			m["echoed"], m["failed"], m["tokens"] = echoed, failed, list(tokens)
			m["in"], m["out"], m["lost"] = list(jobs[i].in), list(jobs[i].out), list(jobs[i].lost)
			m["groups"], m["other"], m["files"] = h.groups, h.other, h.files
			if jobs[i].loose {
				alone[i] = h
				if failed { // a job which fails on its own as well is not counted
					again := send("POST", "/api/v1/job", "application/json", jobs[i].body)
					if _, _, failed2, _ := jobs[i].hear(again, disk()); failed2 {
						m["k"] = "leave"
					}
				}
			}
			m["groups0"], m["other0"], m["files0"] = alone[i].groups, alone[i].other, alone[i].files
		case "malformed":
			var e map[string]interface{}
			m["same"] = json.Unmarshal(a.body, &e) == nil && e["error"] != nil
		case "fetch":
			m["same"] = sum(a.body) == after["keep.fits"]
		case "page":
			b, err := ioutil.ReadFile(filepath.Join(repo, "web", variant[i]))
			m["same"] = err == nil && bytes.Equal(a.body, b)
		case "ping":
			m["same"] = strings.Contains(string(a.body), "pong")
		}
		rec[i] = m
	}
	// results can be fetched as they are on disk
	fetched := true
	for i := range reqs {
		if jobs[i] != nil && reqs[i].K == "job" {
			for _, o := range jobs[i].out {
				if s, ok := after[o]; ok {
					if a := send("GET", "/api/v1/files/"+o, "", nil); a.status != 200 || sum(a.body) != s {
						fetched = false
					}
				}
			}
		}
	}
	ok := alive()
	made, changed := []string{}, []string{}
	for f, s := range after {
		if left[f] || strings.HasPrefix(f, "h") {
			continue
		}
		if b, ok := before[f]; !ok {
			made = append(made, f)
		} else if b != s {
			changed = append(changed, f)
		}
	}
	for f := range before {
		if _, ok := after[f]; !ok && !left[f] {
			changed = append(changed, f)
		}
	}
	sort.Strings(made)
	sort.Strings(changed)
	for i, q := range reqs {
		if jobs[i] != nil && q.K == "job" {
			jobs[i].remove(true)
		}
	}
	if !ok {
		select {
		case <-gone: // bring it up again for the next one
			start()
		case <-time.After(2 * time.Second):
		}
	}
	why := ""
	if !ok {
		if i := bytes.LastIndex(srvErr.Bytes(), []byte("panic: ")); i >= 0 {
			why = string(srvErr.Bytes()[i:])
			if len(why) > 1200 {
				why = why[:1200]
			}
		}
	}
	return vlib.M{"k": "wave", "why": why, "reqs": rec, "alive": ok, "fetched": fetched, "made": made, "changed": changed}
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	mode := os.Args[1]
	prog, repo = os.Args[2], os.Args[3]
	wd, _ := os.Getwd()
	dir = filepath.Join(wd, "served")
	os.MkdirAll(dir, 0755)
	ioutil.WriteFile(filepath.Join(wd, "outside-"+sum([]byte(dir))), []byte("top secret"), 0644)
	out := vlib.NewOut()
	defer out.Close()
	r := vlib.Rng(22)
	put("keep.fits", frame(r, 64))
	put("dark.fits", fits.NewImageFromNaxisn([]int32{64, 64}, make([]float32, 64*64)))
	start()
	defer func() { srv.Process.Kill(); <-gone }()
	switch mode {
	case "replay":
		b, err := ioutil.ReadFile(os.Args[4])
		if err != nil {
			vlib.Fatal("%v", err)
		}
		for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
			var w wave
			if err := json.Unmarshal([]byte(l), &w); err != nil {
				vlib.Fatal("%v", err)
			}
			out.Put(doWave(r, w.Reqs, 64, false))
		}
	case "rand":
		n := 25
		if vlib.Thorough() {
			n = 300
		}
		kinds := []string{"malformed", "fetch", "absent", "escape", "remove", "replace", "ping", "page", "options", "leave"}
		for i := 0; i < n; i++ {
			var reqs []request
			for k := 0; k < 4+r.Intn(12); k++ {
				if r.Intn(2) == 0 {
					reqs = append(reqs, request{"job", 1 + r.Intn(6), r.Intn(5) / 4})
				} else {
					reqs = append(reqs, request{K: kinds[r.Intn(len(kinds))]})
				}
			}
			out.Put(doWave(r, reqs, 64, true))
		}
	}
	if mode == "long" {
		n := 6
		if vlib.Thorough() {
			n = 60
		}
		for i := 0; i < n; i++ {
			var reqs []request
			for k := 0; k < 5; k++ {
				reqs = append(reqs, request{"job", 99, 0})
			}
			out.Put(doWave(r, append(reqs, request{K: "ping"}, request{K: "leave"}), 64, false))
		}
	}
	srv.Process.Signal(os.Interrupt)
	select {
	case <-gone:
	case <-time.After(3 * time.Second):
		srv.Process.Kill()
		<-gone
	}
	races := bytes.Count(srvErr.Bytes(), []byte("DATA RACE"))
	first := ""
	if races > 0 {
		i := bytes.Index(srvErr.Bytes(), []byte("DATA RACE"))
		first = string(srvErr.Bytes()[i:])
		if len(first) > 2500 {
			first = first[:2500]
		}
	}
	out.Put(vlib.M{"k": "races", "races": races, "first": first})
}
