// C28: serves the block editor, has jobs put together in it, and posts them to the server.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

var (
	prog, dir, base string
	srv             *exec.Cmd
	srvErr          bytes.Buffer
	gone            chan bool
	client          = &http.Client{Timeout: 30 * time.Second}
)

func freePort() int {
	l, err := net.Listen("tcp", ":0")
	if err != nil {
		vlib.Fatal("%v", err)
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

func get(path string) (string, bool) {
	r, err := client.Get(base + path)
	if err != nil {
		return "", false
	}
	defer r.Body.Close()
	b, err := ioutil.ReadAll(r.Body)
	return string(b), err == nil && r.StatusCode == 200
}

func start() {
	for try := 0; ; try++ {
		port := freePort()
		base = fmt.Sprintf("http://127.0.0.1:%d", port)
		srv = exec.Command(prog, fmt.Sprintf("-port=%d", port), "-log=", "serve")
		srv.Dir = dir
		srvErr.Reset()
		srv.Stderr = &srvErr
		srv.Env = append(os.Environ(), "GIN_MODE=release")
		gone = make(chan bool)
		if err := srv.Start(); err != nil {
			vlib.Fatal("cannot start the server: %v", err)
		}
		go func(c *exec.Cmd, g chan bool) { c.Wait(); close(g) }(srv, gone)
		for i := 0; i < 300; i++ {
			if s, ok := get("/api/v1/ping"); ok && strings.Contains(s, "pong") {
				return
			}
			select {
			case <-gone:
				i = 300
			case <-time.After(50 * time.Millisecond):
			}
		}
		srv.Process.Kill()
		if try == 4 {
			vlib.Fatal("the server does not answer: %s", srvErr.String())
		}
	}
}

type pair [2]string

func scalar(v interface{}) string {
	switch x := v.(type) {
	case float64:
		return fmt.Sprintf("n:%d", int64(math.Round(x*1000)))
	case string:
		return "s:" + x
	case []interface{}:
		if len(x) == 1 {
			if s, ok := x[0].(string); ok {
				return "l:" + s
			}
		}
	}
	b, _ := json.Marshal(v)
	return "j:" + string(b)
}

// whether a setting holds steps
var nested = map[string]bool{"debayer": true, "save": true, "starDetect": true, "perBatch": true}

func flat(m map[string]interface{}) vlib.M {
	t, _ := m["type"].(string)
	var def map[string]interface{}
	if f := ops.GetOperatorFactory(t); f != nil {
		b, err := json.Marshal(f())
		if err == nil {
			err = json.Unmarshal(b, &def)
		}
		if err != nil {
			vlib.Fatal("%v", err)
		}
	}
	fs, ds, ns := []pair{}, []pair{}, []interface{}{}
	for k, v := range def {
		if k != "type" && !nested[k] {
			ds = append(ds, pair{k, scalar(v)})
		}
	}
	for k, v := range m {
		if k == "type" {
			continue
		}
		if !nested[k] {
			fs = append(fs, pair{k, scalar(v)})
			continue
		}
		a, _ := json.Marshal(v)
		b, _ := json.Marshal(def[k])
		ns = append(ns, []interface{}{k, steps(v), bytes.Equal(a, b)})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i][0] < fs[j][0] })
	sort.Slice(ds, func(i, j int) bool { return ds[i][0] < ds[j][0] })
	return vlib.M{"t": t, "f": fs, "d": ds, "n": ns}
}

func steps(v interface{}) []vlib.M {
	r := []vlib.M{}
	m, ok := v.(map[string]interface{})
	if !ok {
		return r
	}
	if m["type"] != "seq" {
		return append(r, flat(m))
	}
	l, _ := m["steps"].([]interface{})
	for _, s := range l {
		if x, ok := s.(map[string]interface{}); ok {
			r = append(r, flat(x))
		}
	}
	return r
}

type result struct {
	Ws     json.RawMessage `json:"ws"`
	Err    string          `json:"err"`
	URL    string          `json:"url"`
	Method string          `json:"method"`
	CType  string          `json:"ctype"`
	Body   string          `json:"body"`
	Posts  int             `json:"posts"`
	Shown  bool            `json:"shown"`
	Log    bool            `json:"log"`
}

func main() {
	out := vlib.NewOut()
	defer out.Close()
	prog = os.Args[2]
	wd, _ := os.Getwd()
	dir = filepath.Join(wd, "served")
	pages := filepath.Join(wd, "pages")
	os.MkdirAll(dir, 0755)
	os.MkdirAll(pages, 0755)
	start()
	defer func() { srv.Process.Kill(); <-gone }()
	index, ok := get("/")
	again, ok2 := get("/index.html")
	missing := []string{}
	if !ok || !ok2 || index != again {
		missing = append(missing, "index.html")
	}
	ioutil.WriteFile(filepath.Join(pages, "index.html"), []byte(index), 0644)
	for _, m := range regexp.MustCompile(`<script[^>]*src="([^"]*)"`).FindAllStringSubmatch(index, -1) {
		if strings.HasPrefix(strings.TrimPrefix(m[1], "/"), "blockly/") {
			continue // not part of the repository
		}
		p := filepath.Clean("/" + m[1])
		s, ok := get(p)
		if !ok {
			missing = append(missing, p)
		}
		os.MkdirAll(filepath.Dir(pages+p), 0755)
		ioutil.WriteFile(pages+p, []byte(s), 0644)
	}
	res := filepath.Join(wd, "results.ndjson")
	if b, err := exec.Command("node", os.Args[3], pages, base, os.Args[4], res).CombinedOutput(); err != nil {
		vlib.Fatal("editor: %v %s", err, b)
	}
	origin = base
	var tools []vlib.M
	b, err := ioutil.ReadFile(res + ".toolbox")
	if err == nil {
		err = json.Unmarshal(b, &tools)
	}
	if err != nil {
		vlib.Fatal("%v", err)
	}
	if tools == nil {
		tools = []vlib.M{}
	}
	out.Put(vlib.M{"k": "page", "missing": missing, "tools": tools})
	b, err = ioutil.ReadFile(res)
	if err != nil {
		vlib.Fatal("%v", err)
	}
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var r result
		if err := json.Unmarshal([]byte(l), &r); err != nil {
			vlib.Fatal("%v", err)
		}
		m := vlib.M{"k": "job", "ws": r.Ws, "err": r.Err, "to": strings.TrimPrefix(r.URL, orig(r.URL)), "method": r.Method, "posts": r.Posts, "shown": r.Shown, "log": r.Log, "status": 0, "steps": []vlib.M{}, "died": false}
		if r.Err == "" && r.Posts > 0 {
			resp, err := client.Post(base+"/api/v1/job", r.CType, strings.NewReader(r.Body))
			var ans []byte
			if err == nil {
				ans, err = ioutil.ReadAll(resp.Body)
				resp.Body.Close()
				m["status"] = resp.StatusCode
			}
			select {
			case <-gone:
				m["died"] = true
				start()
			default:
				if err != nil {
					vlib.Fatal("post: %v", err)
				}
			}
			if i := bytes.Index(ans, []byte("Arguments:\n")); i >= 0 {
				var v interface{}
				if json.NewDecoder(bytes.NewReader(ans[i+11:])).Decode(&v) == nil {
					m["steps"] = steps(v)
				}
			}
		}
		out.Put(m)
	}
}

// the origin the editor was loaded from, if the address begins with it
func orig(u string) string {
	if origin == "" {
		origin = base
	}
	if strings.HasPrefix(u, origin) {
		return origin
	}
	return ""
}

var origin string
