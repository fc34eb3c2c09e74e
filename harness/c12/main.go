// C12: decodes, encodes and runs job descriptions; records what comes out.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	_ "github.com/mlnoga/nightlight/internal/ops/hsl"
	_ "github.com/mlnoga/nightlight/internal/ops/post"
	_ "github.com/mlnoga/nightlight/internal/ops/pre"
	_ "github.com/mlnoga/nightlight/internal/ops/ref"
	_ "github.com/mlnoga/nightlight/internal/ops/rgb"
	_ "github.com/mlnoga/nightlight/internal/ops/stack"
	_ "github.com/mlnoga/nightlight/internal/ops/stretch"
	"github.com/mlnoga/nightlight/internal/star"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
)

// Node is a document node as in Jobs.tla
type Node struct {
	K string `json:"k"`
	V string `json:"v,omitempty"`
	E []*Node
	T string
	F map[string]*Node
}

func (n *Node) UnmarshalJSON(b []byte) error {
	var x struct {
		K, V, T string
		E       []*Node
		F       json.RawMessage
	}
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*n = Node{K: x.K, V: x.V, T: x.T, E: x.E, F: map[string]*Node{}}
	if n.E == nil {
		n.E = []*Node{}
	}
	if len(x.F) > 0 && x.F[0] == '{' {
		return json.Unmarshal(x.F, &n.F)
	}
	return nil
}

// strings go into the trace in hexadecimal unless they are plain
func plain(s string) string {
	for _, c := range []byte(s) {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("._-%*/", c) >= 0) {
			return "x:" + hex.EncodeToString([]byte(s))
		}
	}
	return s
}
func (n *Node) rec() vlib.M {
	switch n.K {
	case "v":
		return vlib.M{"k": "v", "v": n.V}
	case "s":
		return vlib.M{"k": "s", "v": plain(n.V)}
	case "l":
		e := []vlib.M{}
		for _, x := range n.E {
			e = append(e, x.rec())
		}
		return vlib.M{"k": "l", "e": e}
	}
	f := vlib.M{}
	for k, x := range n.F {
		f[k] = x.rec()
	}
	t := n.T
	if t != "#" {
		t = plain(t)
	}
	return vlib.M{"k": "o", "t": t, "f": f}
}

// JSON text of a node; rng, if any, shuffles the members and adds spaces
func (n *Node) text(rng *rand.Rand) string {
	sp := func() string {
		if rng == nil {
			return ""
		}
		return []string{"", "", " ", "\n", "\t"}[rng.Intn(5)]
	}
	switch n.K {
	case "v":
		return n.V
	case "s":
		b, _ := json.Marshal(n.V)
		return string(b)
	case "l":
		e := []string{}
		for _, x := range n.E {
			e = append(e, sp()+x.text(rng)+sp())
		}
		return "[" + strings.Join(e, ",") + "]"
	}
	var m []string
	if n.T != "" && n.T != "#" {
		b, _ := json.Marshal(n.T)
		m = append(m, `"type":`+sp()+string(b))
	}
	ks := []string{}
	for k := range n.F {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		b, _ := json.Marshal(k)
		m = append(m, sp()+string(b)+sp()+":"+sp()+n.F[k].text(rng))
	}
	if rng != nil {
		rng.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	}
	return "{" + strings.Join(m, ",") + sp() + "}"
}

// the node an encoded job stands for
func parse(b []byte) *Node {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var x interface{}
	if err := d.Decode(&x); err != nil {
		return &Node{K: "v", V: "unparsable"}
	}
	return conv("", x)
}
func conv(key string, x interface{}) *Node {
	switch v := x.(type) {
	case nil:
		if key == "steps" {
			return &Node{K: "l", E: []*Node{}}
		}
		return &Node{K: "v", V: "null"}
	case json.Number:
		return &Node{K: "v", V: string(v)}
	case bool:
		return &Node{K: "v", V: fmt.Sprint(v)}
	case string:
		return &Node{K: "s", V: v}
	case []interface{}:
		n := &Node{K: "l", E: []*Node{}}
		for _, y := range v {
			n.E = append(n.E, conv("", y))
		}
		return n
	case map[string]interface{}:
		n := &Node{K: "o", T: "#", F: map[string]*Node{}}
		for k, y := range v {
			if k == "type" {
				if s, ok := y.(string); ok {
					n.T = s
					continue
				}
			}
			n.F[k] = conv(k, y)
		}
		return n
	}
	return &Node{K: "v", V: "?"}
}

// sets the fields of a step through reflection, without any JSON decoding
func fieldByTag(v reflect.Value, name string) reflect.Value {
	for i := 0; i < v.NumField(); i++ {
		if strings.Split(v.Type().Field(i).Tag.Get("json"), ",")[0] == name || v.Type().Field(i).Name == name {
			return v.Field(i)
		}
	}
	return reflect.Value{}
}
func build(n *Node) ops.Operator {
	t := n.T
	if t == "" {
		t = "seq"
	}
	op := ops.GetOperatorFactory(t)()
	set(op, n)
	return op
}
func set(op ops.Operator, n *Node) {
	if q, ok := op.(*ops.OpSequence); ok {
		if s := n.F["steps"]; s != nil && s.K == "l" {
			for _, x := range s.E {
				q.Steps = append(q.Steps, build(x))
			}
		}
		return
	}
	setStruct(reflect.ValueOf(op).Elem(), n)
}
func setStruct(v reflect.Value, n *Node) {
	for k, x := range n.F {
		f := fieldByTag(v, k)
		if !f.IsValid() {
			continue
		}
		null := x.K == "v" && x.V == "null"
		switch f.Kind() {
		case reflect.Ptr:
			if null {
				f.Set(reflect.Zero(f.Type()))
				continue
			}
			o := reflect.New(f.Type().Elem()).Interface().(ops.Operator)
			t := map[string]string{"OpSave": "save", "OpDebayer": "debayer", "OpStarDetect": "starDetect", "OpSequence": "seq"}[f.Type().Elem().Name()]
			o = ops.GetOperatorFactory(t)()
			set(o, x)
			f.Set(reflect.ValueOf(o))
		case reflect.Struct:
			if !null {
				setStruct(f, x)
			}
		case reflect.Slice:
			if !null {
				f.Set(reflect.MakeSlice(f.Type(), 0, 0))
				for _, y := range x.E {
					f.Set(reflect.Append(f, reflect.ValueOf(y.V)))
				}
			}
		case reflect.String:
			if !null {
				f.SetString(x.V)
			}
		case reflect.Float32:
			if !null {
				w, _ := strconv.ParseFloat(x.V, 64)
				f.SetFloat(w)
			}
		default:
			if !null {
				w, _ := strconv.Atoi(x.V)
				f.SetInt(int64(w))
			}
		}
	}
}

// overwrites every setting of a step and of all steps below it
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() && v.Type().Field(i).Name != "OpUnaryBase" && v.Type().Field(i).Name != "OpBase" && v.Type().Field(i).Tag.Get("json") != "-" {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.String:
		v.SetString("scribbled")
	case reflect.Float32:
		v.SetFloat(77.5)
	case reflect.Int, reflect.Int32, reflect.Int64:
		v.SetInt(91)
	}
}

// ---- what a step does -------------------------------------------------------------------
var rgbTypes = map[string]bool{"rgbBalance": true, "rgbToHSLuv": true, "hsluvToRGB": true}

func frame(id int, rgb bool) *fits.Image {
	d := []int32{24, 20}
	if rgb {
		d = append(d, 3)
	}
	f := fits.NewImageFromNaxisn(d, nil)
	r := rand.New(rand.NewSource(int64(id)))
	for p := range f.Data {
		f.Data[p] = 0.2 + 0.05*r.Float32()
	}
	for s := 0; s < 4; s++ {
		cx, cy := 4+r.Intn(16), 4+r.Intn(12)
		for y := 0; y < 20; y++ {
			for x := 0; x < 24; x++ {
				g := float32(0.6 * math.Exp(-float64((x-cx)*(x-cx)+(y-cy)*(y-cy))/2))
				for c := 0; c < len(f.Data)/480; c++ {
					f.Data[c*480+y*24+x] += g * float32(1+c) / 4
				}
			}
		}
		f.Stars = append(f.Stars, star.Star{Index: int32(cy*24 + cx), X: float32(cx), Y: float32(cy), Value: 0.8, Mass: 3, HFR: 1.2})
	}
	f.ID, f.Exposure, f.HFR = id, float32(10+id), 1.5
	f.Stats = stats.NewStats(f.Data, 24)
	return f
}

func work(op ops.Operator) string {
	h := sha1.New()
	var log bytes.Buffer
	c := ops.NewContext(&log, 1000, stats.LSEMeanStdDev)
	c.MaxThreads = 2
	typ := op.GetType()
	if q, ok := op.(*ops.OpSequence); ok && len(q.Steps) > 0 {
		typ = q.Steps[0].GetType()
	}
	rgb := rgbTypes[typ] || strings.HasPrefix(strings.ToLower(typ), "hsl")
	var ins []ops.Promise
	if typ != "load" && typ != "loadMany" {
		n := 4
		if typ == "align" {
			n = 2
		}
		for i := 0; i < n; i++ {
			f := frame(i, rgb)
			ins = append(ins, func() (*fits.Image, error) { return f, nil })
		}
	}
	r := frame(9, rgb)
	c.AlignStars, c.AlignHFR, c.AlignNaxisn, c.MatchHisto = r.Stars, r.HFR, r.Naxisn, r.Stats
	c.LumFrame = frame(8, false)
	before := ls()
	p := vlib.Try(func() {
		outs, err := op.MakePromises(ins, c)
		fmt.Fprintf(h, "%v %d;", err != nil, len(outs))
		if err != nil {
			return
		}
		for _, o := range outs {
			f, err := o()
			if err != nil {
				fmt.Fprintf(h, "err;")
			} else if f == nil {
				fmt.Fprintf(h, "nil;")
			} else {
				fmt.Fprintf(h, "%d %v %d %g %g;", f.ID, f.Naxisn, len(f.Stars), f.HFR, f.Exposure)
				for _, v := range f.Data {
					fmt.Fprintf(h, "%x ", math.Float32bits(v))
				}
			}
		}
	})
	if p != "" {
		fmt.Fprintf(h, "panic")
	}
	after := ls()
	for _, n := range after {
		found := false
		for _, m := range before {
			found = found || m == n
		}
		if !found {
			b, _ := ioutil.ReadFile(n)
			fmt.Fprintf(h, "%s %x", n, sha1.Sum(b))
			os.Remove(n)
		}
	}
	return hex.EncodeToString(h.Sum(nil))[:12]
}
func ls() (ns []string) {
	filepath.Walk(".", func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			ns = append(ns, p)
		}
		return nil
	})
	return
}

func run(doc *Node, works bool, rng *rand.Rand) vlib.M {
	m := vlib.M{"doc": doc.rec(), "err": 0, "panic": "", "enc": vlib.M{"k": "v", "v": "none"}, "enc2": vlib.M{"k": "v", "v": "none"}, "h": []string{}}
	txt := doc.text(rng)
	m["panic"] = vlib.Try(func() {
		var op ops.OpSequence
		if rng != nil && rng.Intn(3) == 0 { // a sequence that was used before
			json.Unmarshal([]byte(`{"type":"seq","steps":[{"type":"gamma"}]}`), &op)
		}
		if err := json.Unmarshal([]byte(txt), &op); err != nil {
			m["err"] = 1
			return
		}
		var enc []byte
		var err error
		if rng != nil && rng.Intn(2) == 0 {
			enc, err = json.MarshalIndent(op, "", "  ")
		} else {
			enc, err = json.Marshal(&op)
		}
		if err != nil {
			m["enc"] = vlib.M{"k": "s", "v": "not encoded"}
			return
		}
		m["enc"] = parse(enc).rec()
		var op2 ops.OpSequence
		if err := json.Unmarshal(enc, &op2); err != nil {
			m["enc2"] = vlib.M{"k": "s", "v": "not decoded"}
			return
		}
		enc2, _ := json.Marshal(&op2)
		m["enc2"] = parse(enc2).rec()
		if works {
			hs := []string{work(build(doc)), work(&op), work(&op2)}
			if e := doc.F["steps"].E; len(e) == 1 && e[0].T != "seq" && e[0].T != "stackBatches" {
				// a decoded step whose settings are changed acts on the changed settings
				var op3 ops.OpSequence
				json.Unmarshal([]byte(`{"steps":[{"type":"`+e[0].T+`"}]}`), &op3)
				set(op3.Steps[0], e[0])
				hs = append(hs, work(&op3))
			}
			m["h"] = hs
		}
		scribble(reflect.ValueOf(&op))
		scribble(reflect.ValueOf(&op2))
	})
	return m
}

// ---- random documents ----------------------------------------------------------------------
type Field struct {
	N, S string
	A    *Node
}

var reg struct {
	Types map[string][]Field `json:"types"`
	Rgb   []Field            `json:"rgb"`
}
var types []string

func randStr(rng *rand.Rand) string {
	return []string{"", "a.fits", "out%d.fits", "x\"y\\z", "<a&b>", "öäü", "日本\n", "RGGB", "sub/dir name.fits", "%starsHFR", "null", "{\"type\":\"x\"}"}[rng.Intn(12)]
}
func randVal(rng *rand.Rand, s string, depth int) *Node {
	if rng.Intn(7) == 0 {
		return &Node{K: "v", V: "null"}
	}
	if rng.Intn(60) == 0 { // not what belongs there
		return []*Node{{K: "v", V: "3"}, {K: "s", V: "3"}, {K: "l", E: []*Node{}}, {K: "o", T: "#", F: map[string]*Node{}}}[rng.Intn(4)]
	}
	switch s {
	case "num":
		v := float32(math.Round(float64(rng.NormFloat64())*4000) / 1000)
		b, _ := json.Marshal([]float32{v, float32(rng.NormFloat64()), 0, 1, float32(rng.Intn(1000))}[rng.Intn(5)])
		if t := string(b); t != "-0" {
			return &Node{K: "v", V: t}
		}
		return &Node{K: "v", V: "0"}
	case "int":
		return &Node{K: "v", V: strconv.Itoa(rng.Intn(20000) - 100)}
	case "str":
		return &Node{K: "s", V: randStr(rng)}
	case "list":
		n := &Node{K: "l", E: []*Node{}}
		for i := rng.Intn(3); i > 0; i-- {
			n.E = append(n.E, &Node{K: "s", V: randStr(rng)})
		}
		return n
	case "steps":
		n := &Node{K: "l", E: []*Node{}}
		for i := rng.Intn(4); i > 0; i-- {
			n.E = append(n.E, randStep(rng, depth-1))
		}
		return n
	case "rgb":
		n := &Node{K: "o", T: "#", F: map[string]*Node{}}
		for _, f := range reg.Rgb {
			if rng.Intn(2) == 0 {
				n.F[f.N] = randVal(rng, f.S, 0)
			}
		}
		return n
	}
	n := randFields(rng, s, depth)
	if rng.Intn(2) == 0 {
		n.T = ""
	}
	return n
}
func randFields(rng *rand.Rand, t string, depth int) *Node {
	n := &Node{K: "o", T: t, F: map[string]*Node{}}
	for _, f := range reg.Types[t] {
		if rng.Intn(3) > 0 {
			n.F[f.N] = randVal(rng, f.S, depth)
		}
	}
	return n
}
func randStep(rng *rand.Rand, depth int) *Node {
	if rng.Intn(80) == 0 {
		return []*Node{{K: "o", T: "nosuch", F: map[string]*Node{}}, {K: "o", T: "", F: map[string]*Node{}}, {K: "s", V: "gamma"}, {K: "l", E: []*Node{}}, {K: "o", T: "Gamma", F: map[string]*Node{}}}[rng.Intn(5)]
	}
	t := types[rng.Intn(len(types))]
	if depth > 0 && rng.Intn(4) == 0 {
		t = []string{"seq", "stackBatches"}[rng.Intn(2)]
	}
	if depth <= 0 && (t == "seq" || t == "stackBatches") {
		t = "gamma"
	}
	return randFields(rng, t, depth)
}

func main() {
	out := vlib.NewOut()
	vlib.Watchdog(60e9)
	defer out.Close()
	rng := vlib.Rng(12)
	stats.LSEstimator = stats.LSEMeanStdDev // fast and deterministic
	for _, n := range []string{"a.fits", "b1.fits", "b2.fits"} {
		if err := frame(int(n[0])+int(n[1]), false).WriteFile(n); err != nil {
			vlib.Fatal("%v", err)
		}
	}
	b, err := ioutil.ReadFile(os.Args[2])
	if err != nil {
		vlib.Fatal("%v", err)
	}
	if os.Args[1] == "rand" {
		if err := json.Unmarshal(b, &reg); err != nil {
			vlib.Fatal("%v", err)
		}
		for t := range reg.Types {
			types = append(types, t)
		}
		sort.Strings(types)
		n := 4000
		if vlib.Thorough() {
			n = 40000
		}
		for i := 0; i < n; i++ {
			doc := &Node{K: "o", T: "seq", F: map[string]*Node{}}
			if rng.Intn(30) > 0 {
				l := &Node{K: "l", E: []*Node{}}
				for k := rng.Intn(5); k > 0; k-- {
					l.E = append(l.E, randStep(rng, 3))
				}
				doc.F["steps"] = l
			}
			vlib.Current(doc.rec())
			out.Put(run(doc, false, rng))
		}
		return
	}
	sc := bufio.NewScanner(bytes.NewReader(b))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var s struct {
			How string
			Doc *Node
		}
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			vlib.Fatal("%v", err)
		}
		vlib.Current(s.Doc.rec())
		out.Put(run(s.Doc, true, rng))
	}
}
