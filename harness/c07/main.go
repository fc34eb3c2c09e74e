// Records what writing images as FITS produces, and what reading it back yields.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	v "github.com/mlnoga/nightlight/zzverif/vlib"
)

func codes(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func kv(k string, x interface{}) v.M { return v.M{"k": codes(k), "v": x} }
func bits(f float32) []int {
	b := math.Float32bits(f)
	return []int{int(b >> 16), int(b & 0xffff)}
}

func describe(img *fits.Image) v.M {
	bools, ints, floats, strs, dates := []v.M{}, []v.M{}, []v.M{}, []v.M{}, []v.M{}
	for k, x := range img.Header.Bools {
		b := 0
		if x {
			b = 1
		}
		bools = append(bools, kv(k, b))
	}
	for k, x := range img.Header.Ints {
		ints = append(ints, kv(k, codes(strconv.Itoa(int(x)))))
	}
	for k, x := range img.Header.Floats {
		floats = append(floats, kv(k, bits(x)))
	}
	for k, x := range img.Header.Strings {
		strs = append(strs, kv(k, codes(x)))
	}
	for k, x := range img.Header.Dates {
		dates = append(dates, kv(k, codes(x)))
	}
	com, his := [][]int{}, [][]int{}
	for _, x := range img.Header.Comments {
		com = append(com, codes(x))
	}
	for _, x := range img.Header.History {
		his = append(his, codes(x))
	}
	dims := []int{}
	for _, d := range img.Naxisn {
		dims = append(dims, int(d))
	}
	hi, lo := []int{}, []int{}
	for _, x := range img.Data {
		b := bits(x)
		hi, lo = append(hi, b[0]), append(lo, b[1])
	}
	return v.M{"bools": bools, "ints": ints, "floats": floats, "strs": strs, "dates": dates, "comments": com, "history": his,
		"dims": dims, "hi": hi, "lo": lo, "expo": bits(img.Exposure)}
}

var tmp string

// writes the image to memory (name "") or a file, and reads it back
func run(out *v.Out, img *fits.Image, name string) {
	before := describe(img)
	v.Current(v.M{"img": before, "name": name})
	rec := v.M{"new": 1, "kind": "write", "img": before, "name": name}
	var err, berr, rerr error
	var raw []byte
	back := fits.NewImage()
	p := v.Try(func() {
		if name == "" {
			var bb bytes.Buffer
			err = img.Write(&bb)
			raw = bb.Bytes()
			berr = back.Read(bytes.NewReader(raw), true, ioutil.Discard)
		} else {
			fn := filepath.Join(tmp, name)
			err = img.WriteFile(fn)
			var b []byte
			if b, rerr = ioutil.ReadFile(fn); rerr == nil {
				raw = b
				if strings.HasSuffix(strings.ToLower(name), "gz") || strings.HasSuffix(strings.ToLower(name), "gzip") {
					gr, e := gzip.NewReader(bytes.NewReader(b))
					rerr = e
					if e == nil {
						raw, rerr = ioutil.ReadAll(gr)
					}
				}
			}
			back, berr = fits.NewImageFromFile(fn, 0, ioutil.Discard)
		}
	})
	after := describe(img)
	same := 1
	for _, k := range []string{"dims", "hi", "lo", "expo"} {
		if fmt.Sprint(before[k]) != fmt.Sprint(after[k]) {
			same = 0
		}
	}
	rec["same"], rec["panic"], rec["err"], rec["berr"], rec["rerr"] = same, p, v.ErrStr(err), v.ErrStr(berr), v.ErrStr(rerr)
	cards := [][]int{}
	endBlock := -1
	for i := 0; i+80 <= len(raw); i += 80 {
		c := string(raw[i : i+80])
		if endBlock >= 0 && i >= endBlock {
			break
		}
		cards = append(cards, codes(c))
		if strings.TrimSpace(c) == "END" && endBlock < 0 {
			endBlock = (i/2880 + 1) * 2880
		}
		if len(cards) > 3000 {
			break
		}
	}
	hlen := len(cards) * 80
	bhi, blo := []int{}, []int{}
	for i := 0; i < len(img.Data) && hlen+4*i+4 <= len(raw); i++ {
		b := raw[hlen+4*i:]
		bhi = append(bhi, int(b[0])<<8|int(b[1]))
		blo = append(blo, int(b[2])<<8|int(b[3]))
	}
	rec["cards"], rec["hlen"], rec["flen"], rec["bhi"], rec["blo"] = cards, hlen, len(raw), bhi, blo
	if berr == nil && p == "" {
		rec["back"] = describe(back)
	} else {
		rec["back"] = v.M{}
	}
	out.Put(rec)
}

type failing struct {
	limit int
	n     int
	short bool
}

func (f *failing) Write(p []byte) (int, error) {
	if f.n+len(p) <= f.limit {
		f.n += len(p)
		return len(p), nil
	}
	k := f.limit - f.n
	f.n = f.limit
	return k, errors.New("injected write error")
}

func fail(out *v.Out, img *fits.Image, target string, limit int) {
	rec := v.M{"new": 1, "kind": "fail", "target": target, "limit": limit, "npix": len(img.Data)}
	v.Current(rec)
	var err error
	total := 0
	p := v.Try(func() {
		if target == "writer" {
			var bb bytes.Buffer
			img.Write(&bb)
			total = bb.Len()
			err = img.Write(&failing{limit: limit})
		} else {
			err = img.WriteFile(target)
		}
	})
	rec["total"], rec["panic"], rec["err"] = total, p, v.ErrStr(err)
	out.Put(rec)
}

func image(r *rand.Rand, dims []int32) *fits.Image {
	img := fits.NewImageFromNaxisn(dims, nil)
	for i := range img.Data {
		switch r.Intn(12) {
		case 0:
			img.Data[i] = []float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1e-40, math.MaxFloat32, 1, -1}[r.Intn(9)]
		case 1:
			img.Data[i] = float32(r.Intn(65536))
		default:
			f := math.Float32frombits(r.Uint32())
			if f != f {
				f = 1.5
			}
			img.Data[i] = f
		}
	}
	return img
}

func word(r *rand.Rand, n int) string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;-+_=/()[]&'''"
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

func anyFloat(r *rand.Rand) float32 {
	switch r.Intn(4) {
	case 0:
		return []float32{0, 1, -1, 0.5, 1e6, 1e7, 123456789, 1e20, 1e21, 1e-5, 1e-4, 3e-7, math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 16777216, 0.1, 100000000}[r.Intn(18)]
	case 1:
		return float32(r.Intn(1000))
	case 2:
		return r.Float32()
	}
	f := math.Float32frombits(r.Uint32())
	if f != f || math.IsInf(float64(f), 0) {
		return 42
	}
	return f
}

func header(r *rand.Rand, img *fits.Image) {
	h := &img.Header
	n := r.Intn(10)
	if r.Intn(5) == 0 {
		n = 30 + r.Intn(40)
	}
	for i := 0; i < n; i++ {
		k := []string{fmt.Sprintf("K%d", i), fmt.Sprintf("KEY_%04d", i), fmt.Sprintf("A-%d", i)}[r.Intn(3)]
		switch r.Intn(8) {
		case 0:
			h.Bools[k] = r.Intn(2) == 0
		case 1:
			h.Ints[k] = []int32{0, 1, -1, math.MaxInt32, math.MinInt32, int32(r.Uint32())}[r.Intn(6)]
		case 2, 3:
			h.Floats[k] = anyFloat(r)
		case 4:
			h.Strings[k] = word(r, []int{0, 1, 5, 16, 17, 18, 19, 20, 60, 82, 83, 84, 85, 86, 150, 300}[r.Intn(16)])
		case 5:
			h.Dates[k] = []string{"2021-03-04T05:06:07", "2021-03-04T05:06:07.123456", "2021-03-04"}[r.Intn(3)]
		case 6:
			h.Comments = append(h.Comments, word(r, []int{0, 1, 10, 70, 71, 72, 100, 200}[r.Intn(8)]))
		case 7:
			h.History = append(h.History, word(r, []int{0, 1, 10, 70, 71, 72, 100, 200}[r.Intn(8)]))
		}
	}
	if r.Intn(3) > 0 {
		img.Exposure = anyFloat(r)
	}
	if r.Intn(5) == 0 {
		h.Strings["PROGRAM"] = "other"
		h.Strings["CREATOR"] = "some camera"
	}
}

func main() {
	v.Watchdog(30 * time.Second)
	var e error
	tmp, e = ioutil.TempDir(".", "c07")
	if e != nil {
		v.Fatal("%v", e)
	}
	defer os.RemoveAll(tmp)
	out := v.NewOut()
	defer out.Close()
	r := v.Rng(71)
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			v.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		sizes := []int32{3, 720, 721, 5000}
		nh := 0
		for sc.Scan() {
			var m struct {
				H            []int
				Len, Q, S, A int
			}
			m.Len = -1
			if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
				v.Fatal("%v", err)
			}
			if m.Len < 0 { // history of saves to one file: entries k = size index + 4 * (1 if gzipped name)
				nh++
				for step, k := range m.H {
					img := image(r, []int32{sizes[k%4]})
					img.Header.Strings["HIST"] = fmt.Sprintf("%d.%d", nh, step)
					name := fmt.Sprintf("h%d.fits", nh)
					if nh%2 == 0 {
						name += ".gz"
					}
					if k%4 == 3 {
						img = image(r, []int32{1200})
					}
					run(out, img, name)
				}
				continue
			}
			b := []byte(word(rand.New(rand.NewSource(int64(m.Len))), m.Len))
			for i := range b {
				if b[i] == '\'' || b[i] == '&' {
					b[i] = 'x'
				}
			}
			for i := 0; i < m.Q; i++ {
				b[m.S-1+i] = '\''
			}
			if m.A == 1 && m.Len > 0 && b[m.Len-1] != '\'' {
				b[m.Len-1] = '&'
			}
			img := image(r, []int32{2})
			img.Header.Strings["STR"] = string(b)
			run(out, img, "")
		}
		return
	}
	scale := 1
	if v.Thorough() {
		scale = 10
	}
	allDims := [][]int32{{1}, {7}, {3, 2}, {10, 9}, {24, 30}, {4, 3, 3}, {240, 3}, {2, 2, 2, 2}, {721}, {720}, {36, 40}}
	for n := 0; n < 80; n++ { // every fill level of the header blocks
		img := image(r, [][]int32{{3}, {2, 2}, {720}, {9, 80}}[n%4])
		for i := 0; i < n; i++ {
			img.Header.Ints[fmt.Sprintf("N%d", i)] = int32(i)
		}
		run(out, img, []string{"", "b.fits", "b.fits.gz"}[n%3])
	}
	for it := 0; it < 350*scale; it++ {
		img := image(r, allDims[r.Intn(len(allDims))])
		header(r, img)
		name := ""
		if r.Intn(3) == 0 {
			name = []string{"a.fits", "b.fits.gz", "c.FIT.GZIP", "d.fit"}[r.Intn(4)]
		}
		run(out, img, name)
		if r.Intn(10) == 0 { // write what was read
			var bb bytes.Buffer
			img.Write(&bb)
			b2 := fits.NewImage()
			if b2.Read(&bb, true, ioutil.Discard) == nil {
				run(out, b2, name)
			}
		}
	}
	for it := 0; it < 3*scale; it++ { // several output buffers
		img := image(r, []int32{[]int32{4095, 4096, 4097, 8192, 9001}[r.Intn(5)]})
		run(out, img, []string{"", "l.fits", "m.fits.gz"}[it%3])
	}
	os.Symlink("/dev/full", filepath.Join(tmp, "full.fits"))
	os.Symlink("/dev/full", filepath.Join(tmp, "full.fits.gz"))
	os.Mkdir(filepath.Join(tmp, "dir.fits"), 0755)
	for _, d := range [][]int32{{1}, {700}, {9001}} {
		img := image(r, d)
		header(r, img)
		var bb bytes.Buffer
		img.Write(&bb)
		total := bb.Len()
		for _, l := range []int{0, 1, 2879, 2880, 2881, total - 1, total, total + 1, total - 2880, r.Intn(total)} {
			fail(out, img, "writer", l)
		}
		for _, t := range []string{"full.fits", "full.fits.gz", "nodir/x.fits", "dir.fits"} {
			fail(out, img, filepath.Join(tmp, t), -1)
		}
	}
}
