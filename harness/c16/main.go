// C16: records saving frames, with faults, and reading exported files back. Everything stays below the working directory.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"io/ioutil"
	"math"
	"os"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	"github.com/mlnoga/nightlight/internal/ops"
	"github.com/mlnoga/nightlight/internal/stats"
	"github.com/mlnoga/nightlight/zzverif/vlib"
	"golang.org/x/image/tiff"
)

var out *vlib.Out

type num struct {
	Kind  string `json:"kind"`
	Width int    `json:"width"`
	Zero  bool   `json:"zero"`
}
type pat struct {
	Pre   string `json:"pre"`
	Num   num    `json:"num"`
	Post  string `json:"post"`
	Ext   string `json:"ext"`
	Style string `json:"style"`
}
type conf struct {
	P     pat
	Dims  []int32
	Mode  int
	Ga    int
	Gb    int
	Fault string
	Ids   []int
}
type scen struct {
	C      conf
	Suffix string
}
type rnd interface{ Intn(int) int }

func (p pat) text(suffix string) string {
	s := p.Pre
	switch p.Num.Kind {
	case "plain":
		s += "%d"
	case "padded":
		z := ""
		if p.Num.Zero {
			z = "0"
		}
		s += "%" + z + strconv.Itoa(p.Num.Width) + "d"
	}
	return s + p.Post + suffix
}

// values of a frame for the given range, in units of 1/den
func values(r rnd, n, mode int) (v []int, den int) {
	lo, sp, den := 0, 0, 1
	switch mode {
	case 1:
		lo, sp, den = -2000, 14000, 10000
	case 2:
		lo, sp = -20, 300
	case 3:
		lo, sp = -100, 70000
	default:
		lo, sp = r.Intn(6000)-1000, r.Intn(32000)
		if r.Intn(12) == 0 {
			sp = 0
		}
	}
	v = make([]int, n)
	for i := range v {
		v[i] = lo + r.Intn(sp+1)
		if mode > 0 && r.Intn(25) == 0 {
			v[i] = 999999999
		} else if mode > 0 && r.Intn(6) == 0 {
			v[i] = []int{0, []int{0, 10000, 255, 65535, 0}[mode]}[r.Intn(2)]
		}
	}
	return v, den
}

// frame of the given size; for lossy formats each sample is a tile of 16x16 pixels
func frame(v []int, den int, dims []int32, tile int) *fits.Image {
	d := append([]int32{}, dims...)
	w := int(d[0])
	tw := w
	planes, h := 1, 1
	if len(d) > 1 {
		h = int(d[1])
	}
	for i := 2; i < len(d); i++ {
		planes *= int(d[i])
	}
	th := h
	if tile > 1 {
		tw, th = w*tile-3, h*tile-5
		d[0], d[1] = int32(tw), int32(th)
	}
	data := make([]float32, tw*th*planes)
	for p := 0; p < planes; p++ {
		for y := 0; y < th; y++ {
			for x := 0; x < tw; x++ {
				q := v[p*w*h+(y/tile)*w+x/tile]
				f := float32(q) / float32(den)
				if q == 999999999 {
					f = float32(math.NaN())
				}
				data[p*tw*th+y*tw+x] = f
			}
		}
	}
	return fits.NewImageFromNaxisn(d, data)
}

func bits(d []float32) []int {
	b := make([]int, len(d))
	for i, x := range d {
		b[i] = int(int32(math.Float32bits(x)))
	}
	return b
}

func ints(d []float32) []int {
	b := make([]int, len(d))
	for i, x := range d {
		b[i] = vlib.Fix32(x, 1)
	}
	return b
}

func dimsOf(w, h, p int) []int {
	if p == 1 {
		return []int{w, h}
	}
	return []int{w, h, p}
}

// FITS data from an independent reading of the file
func readFITS(b []byte) (dims, px []int, bad string) {
	dims, px = []int{}, []int{}
	keys := map[string]string{}
	end := -1
	for i := 0; i+80 <= len(b); i += 80 {
		c := string(b[i : i+80])
		k := strings.TrimSpace(c[:8])
		if k == "END" {
			end = i + 80
			break
		}
		if c[8:10] == "= " {
			keys[k] = strings.TrimSpace(strings.SplitN(c[10:], "/", 2)[0])
		}
	}
	if end < 0 {
		return dims, px, "header has no end"
	}
	off := (end + 2879) / 2880 * 2880
	n, _ := strconv.Atoi(keys["NAXIS"])
	total := 1
	for i := 1; i <= n; i++ {
		d, _ := strconv.Atoi(keys["NAXIS"+strconv.Itoa(i)])
		dims = append(dims, d)
		total *= d
	}
	if keys["BITPIX"] != "-32" || len(b) < off+(4*total+2879)/2880*2880 || total > 1<<22 {
		return dims, px, "data incomplete"
	}
	zero, _ := strconv.ParseFloat(keys["BZERO"], 32)
	scale := 1.0
	if s, ok := keys["BSCALE"]; ok {
		scale, _ = strconv.ParseFloat(s, 32)
	}
	for i := 0; i < total; i++ {
		o := off + 4*i
		u := uint32(b[o])<<24 | uint32(b[o+1])<<16 | uint32(b[o+2])<<8 | uint32(b[o+3])
		if zero != 0 || scale != 1 {
			u = math.Float32bits(math.Float32frombits(u)*float32(scale) + float32(zero))
		}
		px = append(px, int(int32(u)))
	}
	return dims, px, ""
}

func emptyBack() vlib.M {
	return vlib.M{"err": "", "panic": "", "dims": []int{}, "px": []int{}, "mn": 0, "mx": 0, "avg": 0}
}

func readBack(path string) vlib.M {
	b := emptyBack()
	b["panic"] = vlib.Try(func() {
		f, err := fits.NewImageFromFile(path, 3, ioutil.Discard)
		if err != nil {
			b["err"] = "error: " + err.Error()
			return
		}
		d := []int{}
		for _, x := range f.Naxisn {
			d = append(d, int(x))
		}
		b["dims"], b["px"], b["mn"], b["mx"], b["avg"] = d, ints(f.Data), vlib.Fix32(f.Stats.Min(), 1), vlib.Fix32(f.Stats.Max(), 1), vlib.Fix32(f.Stats.Mean(), 1)
	})
	return b
}

func inspect(path string, tile int) vlib.M {
	m := vlib.M{"name": filepath.Base(path), "fmt": "other", "bad": "", "dims": []int{}, "px": []int{}, "back": emptyBack()}
	st, err := os.Lstat(path)
	if err != nil || !st.Mode().IsRegular() {
		m["bad"], m["fmt"] = "not a file", "none"
		return m
	}
	b, err := ioutil.ReadFile(path)
	if err != nil {
		m["bad"] = err.Error()
		return m
	}
	if len(b) == 0 {
		m["bad"] = "empty"
		return m
	}
	switch {
	case bytes.HasPrefix(b, []byte{0x1f, 0x8b}):
		m["fmt"] = "gz"
		zr, err := gzip.NewReader(bytes.NewReader(b))
		if err == nil {
			b, err = ioutil.ReadAll(zr)
		}
		if len(b) > 6 && string(b[:6]) == "SIMPLE" {
			m["fmt"] = "fits.gz"
		}
		if err != nil {
			m["bad"], m["fmt"] = err.Error(), "fits.gz"
		} else {
			m["dims"], m["px"], m["bad"] = readFITS(b)
		}
	case bytes.HasPrefix(b, []byte("SIMPLE")):
		m["fmt"] = "fits"
		m["dims"], m["px"], m["bad"] = readFITS(b)
	case bytes.HasPrefix(b, []byte("II*\x00")), bytes.HasPrefix(b, []byte("MM\x00*")):
		m["fmt"] = "tiff"
		im, err := tiff.Decode(bytes.NewReader(b))
		if err != nil {
			m["bad"] = err.Error()
			break
		}
		w, h := im.Bounds().Dx(), im.Bounds().Dy()
		px := []int{}
		planes := 3
		if _, ok := im.(*image.Gray16); ok {
			planes = 1
		} else if im.ColorModel() != color.RGBA64Model && im.ColorModel() != color.NRGBA64Model {
			m["bad"] = "not 16 bit"
		}
		for p := 0; p < planes; p++ {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					r, g, b, a := im.At(x, y).RGBA()
					px = append(px, int([]uint32{r, g, b}[p]))
					if a != 65535 {
						m["bad"] = "transparent pixel"
					}
				}
			}
		}
		m["dims"], m["px"] = dimsOf(w, h, planes), px
		m["back"] = readBack(path)
	case bytes.HasPrefix(b, []byte{0xff, 0xd8}):
		m["fmt"] = "jpeg"
		im, err := jpeg.Decode(bytes.NewReader(b))
		if err != nil {
			m["bad"] = err.Error()
			break
		}
		w, h := (im.Bounds().Dx()+3)/tile, (im.Bounds().Dy()+5)/tile
		if w*tile-3 != im.Bounds().Dx() || h*tile-5 != im.Bounds().Dy() {
			m["bad"] = "size of the image"
			break
		}
		planes := 3
		if _, ok := im.(*image.Gray); ok {
			planes = 1
		}
		px := []int{}
		for p := 0; p < planes; p++ {
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					r, g, b, _ := im.At(x*tile+6, y*tile+5).RGBA()
					px = append(px, int([]uint32{r, g, b}[p]>>8))
				}
			}
		}
		m["dims"], m["px"] = dimsOf(w, h, planes), px
	}
	return m
}

func limit(n uint64) {
	var l syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		vlib.Fatal("%v", err)
	}
	l.Cur = n
	if n > l.Max {
		l.Cur = l.Max
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
		vlib.Fatal("%v", err)
	}
}

// saves the frames with the step and returns their records
func save(s scen, dir, pre string, fs []*fits.Image, parallel bool) ([]string, []string, []bool) {
	errs, pans, same := make([]string, len(fs)), make([]string, len(fs)), make([]bool, len(fs))
	c := ops.NewContext(ioutil.Discard, 0, stats.LSEMeanStdDev)
	op := ops.NewOpSave(dir+"/"+pre+strings.TrimPrefix(s.C.P.text(s.Suffix), s.C.P.Pre), ops.ExportMode(s.C.Mode), float32(s.C.Ga)/float32(s.C.Gb))
	ins := []ops.Promise{}
	for _, f := range fs {
		f := f
		ins = append(ins, func() (*fits.Image, error) { return f, nil })
	}
	ps, err := op.MakePromises(ins, c)
	if err != nil || len(ps) != len(fs) {
		for i := range errs {
			errs[i] = fmt.Sprintf("promises: %v", err)
		}
		return errs, pans, same
	}
	var wg sync.WaitGroup
	for i := range ps {
		one := func(i int) {
			pans[i] = vlib.Try(func() {
				before, nax, id := bits(fs[i].Data), fmt.Sprint(fs[i].Naxisn), fs[i].ID
				g, err := ps[i]()
				if err != nil {
					errs[i] = "error: " + err.Error()
					return
				}
				same[i] = g != nil && fmt.Sprint(bits(g.Data)) == fmt.Sprint(before) && fmt.Sprint(g.Naxisn) == nax && g.ID == id
			})
		}
		if !parallel {
			one(i)
			continue
		}
		wg.Add(1)
		go func(i int) { defer wg.Done(); one(i) }(i)
	}
	wg.Wait()
	return errs, pans, same
}

var dirs int

func session(s scen, r rnd) {
	fmtName := ""
	if l := strings.ToLower(s.C.P.Ext); l == "jpg" || l == "jpeg" {
		fmtName = "jpeg"
	}
	tile := 1
	if fmtName == "jpeg" && (len(s.C.Dims) == 2 || len(s.C.Dims) == 3 && s.C.Dims[2] == 3) {
		tile = 16
	}
	wd, _ := os.Getwd()
	dirs++
	dir := filepath.Join(wd, fmt.Sprintf("d%d", dirs))
	mk := func(d string) {
		if err := os.MkdirAll(d, 0755); err != nil {
			vlib.Fatal("%v", err)
		}
	}
	mk(dir)
	n := 1
	for _, d := range s.C.Dims {
		n *= int(d)
	}
	frames := []vlib.M{}
	fs := []*fits.Image{}
	den := 1
	distinct := map[string]bool{}
	for _, id := range s.C.Ids {
		v, d := values(r, n, s.C.Mode)
		den = d
		f := frame(v, d, s.C.Dims, tile)
		f.ID = id
		fs = append(fs, f)
		b := []int{}
		if tile == 1 {
			b = bits(f.Data)
		}
		frames = append(frames, vlib.M{"id": id, "v": v, "b": b, "err": "", "panic": "", "same": false})
		distinct[strconv.Itoa(id)] = true
	}
	e := vlib.M{"k": "save", "p": vlib.M{"pre": s.C.P.Pre, "num": vlib.M{"kind": s.C.P.Num.Kind, "width": s.C.P.Num.Width, "zero": s.C.P.Num.Zero}, "post": s.C.P.Post, "ext": s.C.P.Ext, "style": s.C.P.Style},
		"dims": s.C.Dims, "mode": s.C.Mode, "ga": s.C.Ga, "gb": s.C.Gb, "fault": s.C.Fault, "den": den, "frames": frames, "files": []vlib.M{}}
	vlib.Current(e)
	parallel := s.C.P.Num.Kind != "none" && len(distinct) == len(s.C.Ids)
	pre := s.C.P.Pre
	target := func(id int) string {
		t := s.C.P
		t.Num.Kind = s.C.P.Num.Kind
		x := t.text(s.Suffix)
		if t.Num.Kind != "none" {
			x = fmt.Sprintf(x, id)
		}
		return filepath.Join(dir, x)
	}
	switch s.C.Fault {
	case "dir":
		for _, id := range s.C.Ids {
			mk(target(id))
		}
	case "full":
		for _, id := range s.C.Ids {
			os.Remove(target(id))
			if err := os.Symlink("/dev/full", target(id)); err != nil {
				vlib.Fatal("%v", err)
			}
		}
	case "nodir":
		pre = "missing/" + pre
	case "cut0":
		limit(0)
	case "cut1":
		limit(1)
	case "cut2", "cut3", "cut4":
		// sizes as written without fault
		trial := filepath.Join(wd, "trial")
		mk(trial)
		fs2 := []*fits.Image{}
		for _, f := range fs {
			g := fits.NewImageFromNaxisn(append([]int32{}, f.Naxisn...), append([]float32{}, f.Data...))
			g.ID = f.ID
			fs2 = append(fs2, g)
		}
		save(s, trial, pre, fs2, parallel)
		sizes := []int{1 << 30, 0}
		ents, _ := ioutil.ReadDir(trial)
		for _, en := range ents {
			if int(en.Size()) < sizes[0] {
				sizes[0] = int(en.Size())
			}
			if int(en.Size()) > sizes[1] {
				sizes[1] = int(en.Size())
			}
		}
		if err := os.RemoveAll(trial); err != nil {
			vlib.Fatal("%v", err)
		}
		if sizes[1] > 0 {
			switch s.C.Fault {
			case "cut2":
				limit(uint64(1 + r.Intn(sizes[0])))
			case "cut3":
				limit(uint64(sizes[0] - 1))
			default:
				limit(uint64(sizes[1] - 1))
			}
		}
	}
	errs, pans, same := save(s, dir, pre, fs, parallel)
	if strings.HasPrefix(s.C.Fault, "cut") {
		limit(math.MaxUint64)
	}
	for i := range fs {
		frames[i]["err"], frames[i]["panic"], frames[i]["same"] = errs[i], pans[i], same[i]
	}
	files := []vlib.M{}
	ents, err := ioutil.ReadDir(dir)
	if err != nil {
		vlib.Fatal("%v", err)
	}
	sort.Slice(ents, func(i, j int) bool { return ents[i].Name() < ents[j].Name() })
	for _, en := range ents {
		files = append(files, inspect(filepath.Join(dir, en.Name()), tile))
	}
	e["files"] = files
	out.Put(e)
	if err := os.RemoveAll(dir); err != nil {
		vlib.Fatal("%v", err)
	}
}

// TIFF files of other software
func foreign(r rnd, i int) {
	models := []string{"gray16", "rgba64", "gray", "rgba", "nrgba", "nrgba64", "paletted"}
	model := models[i%len(models)]
	w, h := 1+r.Intn(9), 1+r.Intn(9)
	rect := image.Rect(0, 0, w, h)
	top, planes := 255, 3
	var im image.Image
	v := make([]int, 3*w*h)
	at := func(x, y, p int) int { return v[p*w*h+y*w+x] }
	set := func(set func(x, y int)) {
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				set(x, y)
			}
		}
	}
	switch model {
	case "gray16", "rgba64", "nrgba64":
		top = 65535
	}
	for k := range v {
		v[k] = r.Intn(top + 1)
	}
	switch model {
	case "gray16":
		g := image.NewGray16(rect)
		set(func(x, y int) { g.SetGray16(x, y, color.Gray16{uint16(at(x, y, 0))}) })
		im, planes = g, 1
	case "gray":
		g := image.NewGray(rect)
		set(func(x, y int) { g.SetGray(x, y, color.Gray{uint8(at(x, y, 0))}) })
		im, planes = g, 1
	case "rgba64":
		g := image.NewRGBA64(rect)
		set(func(x, y int) { g.SetRGBA64(x, y, color.RGBA64{uint16(at(x, y, 0)), uint16(at(x, y, 1)), uint16(at(x, y, 2)), 65535}) })
		im = g
	case "nrgba64":
		g := image.NewNRGBA64(rect)
		set(func(x, y int) { g.SetNRGBA64(x, y, color.NRGBA64{uint16(at(x, y, 0)), uint16(at(x, y, 1)), uint16(at(x, y, 2)), 65535}) })
		im = g
	case "rgba":
		g := image.NewRGBA(rect)
		set(func(x, y int) { g.SetRGBA(x, y, color.RGBA{uint8(at(x, y, 0)), uint8(at(x, y, 1)), uint8(at(x, y, 2)), 255}) })
		im = g
	case "nrgba":
		g := image.NewNRGBA(rect)
		set(func(x, y int) { g.SetNRGBA(x, y, color.NRGBA{uint8(at(x, y, 0)), uint8(at(x, y, 1)), uint8(at(x, y, 2)), 255}) })
		im = g
	case "paletted":
		pal := color.Palette{}
		for k := 0; k < 7; k++ {
			pal = append(pal, color.RGBA{uint8(r.Intn(256)), uint8(r.Intn(256)), uint8(r.Intn(256)), 255})
		}
		g := image.NewPaletted(rect, pal)
		set(func(x, y int) {
			k := r.Intn(7)
			g.SetColorIndex(x, y, uint8(k))
			c := pal[k].(color.RGBA)
			v[y*w+x], v[w*h+y*w+x], v[2*w*h+y*w+x] = int(c.R), int(c.G), int(c.B)
		})
		im = g
	}
	opt := &tiff.Options{Compression: tiff.Uncompressed}
	if r.Intn(2) == 0 {
		opt = &tiff.Options{Compression: tiff.Deflate, Predictor: r.Intn(2) == 0 && model != "paletted"}
	}
	var b bytes.Buffer
	if err := tiff.Encode(&b, im, opt); err != nil {
		vlib.Fatal("%v", err)
	}
	name := []string{"in.tif", "in.TIFF", "in.Tif"}[r.Intn(3)]
	if err := ioutil.WriteFile(name, b.Bytes(), 0644); err != nil {
		vlib.Fatal("%v", err)
	}
	e := vlib.M{"k": "read", "model": model, "dims": dimsOf(w, h, planes), "px": v[:planes*w*h], "back": emptyBack()}
	vlib.Current(e)
	e["back"] = readBack(name)
	os.Remove(name)
	out.Put(e)
}

func main() {
	stats.LSEstimator = stats.LSEMeanStdDev
	signal.Ignore(syscall.SIGXFSZ)
	out = vlib.NewOut()
	defer out.Close()
	vlib.Watchdog(280 * time.Second)
	r := vlib.Rng(16)
	fh, err := os.Open(os.Args[2])
	if err != nil {
		vlib.Fatal("%v", err)
	}
	sc := bufio.NewScanner(fh)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var all []scen
	for sc.Scan() {
		var s scen
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			vlib.Fatal("%v", err)
		}
		all = append(all, s)
	}
	switch os.Args[1] {
	case "replay":
		for _, s := range all {
			session(s, r)
		}
	case "rand":
		n := 600
		if vlib.Thorough() {
			n = 6000
		}
		for i := 0; i < n; i++ {
			s := all[r.Intn(len(all))]
			s.C.Dims = append([]int32{}, s.C.Dims...)
			if len(s.C.Dims) > 1 {
				s.C.Dims[0], s.C.Dims[1] = int32(1+r.Intn(9)), int32(1+r.Intn(9))
			}
			s.C.P.Pre = []string{"a", "", "light-", "x.y_"}[r.Intn(4)]
			s.C.P.Post = []string{"", "b", ".c", "-1"}[r.Intn(4)]
			if s.C.P.Pre+s.C.P.Post == "" {
				s.C.P.Pre = "q"
			}
			s.C.Ids = []int{}
			for k := 0; k <= r.Intn(5); k++ {
				s.C.Ids = append(s.C.Ids, k*7+r.Intn(7))
			}
			if r.Intn(3) == 0 {
				s.C.Ids[0] = 1000 + r.Intn(1000000)
			}
			if r.Intn(2) == 0 {
				s.C.P.Num.Kind, s.C.P.Num.Width, s.C.P.Num.Zero = "padded", 1+r.Intn(9), r.Intn(2) == 0
			}
			if r.Intn(3) > 0 {
				g := [][2]int{{1, 1}, {2, 1}, {1, 2}, {3, 1}, {3, 2}, {4, 1}, {2, 3}}[r.Intn(7)]
				s.C.Ga, s.C.Gb = g[0], g[1]
				s.C.Mode = r.Intn(4)
			}
			session(s, r)
		}
		for i := 0; i < n/4; i++ {
			foreign(r, i)
		}
	}
}
