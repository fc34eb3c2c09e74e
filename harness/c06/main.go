// Records what reading FITS streams yields.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/mlnoga/nightlight/internal/fits"
	v "github.com/mlnoga/nightlight/zzverif/vlib"
)

func codes(s string) []int {
	r := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int(s[i])
	}
	return r
}

func card(s string) string {
	if len(s) > 80 {
		s = s[:80]
	}
	return s + strings.Repeat(" ", 80-len(s))
}

// chunked delivers bytes in the given portions, then ends in the given way
type chunked struct {
	b     []byte
	pos   int
	hist  []int
	calls int
	mode  string
	skip  int // leading bytes delivered at once (the header)
	rnd   *rand.Rand
}

func (c *chunked) Read(p []byte) (n int, err error) {
	k := len(p)
	if c.pos < c.skip {
		if k > c.skip-c.pos {
			k = c.skip - c.pos
		}
	} else if c.rnd != nil {
		sizes := []int{0, 1, 2, 3, 5, 7, 9, 100, 1000, 2881, 4095, 8191, 16383, 16384, 1 << 20}
		if m := sizes[c.rnd.Intn(len(sizes))]; k > m {
			k = m
		}
	} else if c.calls < len(c.hist) {
		if k > c.hist[c.calls] {
			k = c.hist[c.calls]
		}
		c.calls++
	}
	if k > len(c.b)-c.pos {
		k = len(c.b) - c.pos
	}
	copy(p, c.b[c.pos:c.pos+k])
	c.pos += k
	end := io.EOF
	if c.mode == "fail" {
		end = errors.New("injected read error")
	}
	if c.pos == len(c.b) && (c.mode == "with" || k == 0) && c.pos > 0 {
		return k, end
	}
	return k, nil
}

func me(x float32) (m, e int) {
	f := float64(x)
	if math.IsNaN(f) {
		return 0, 999
	}
	if math.IsInf(f, 1) {
		return 1, 998
	}
	if math.IsInf(f, -1) {
		return -1, 998
	}
	if f == 0 {
		return 0, 0
	}
	fr, ex := math.Frexp(f)
	m = int(fr * (1 << 24))
	e = ex - 24
	for m%2 == 0 {
		m /= 2
		e++
	}
	return
}

type scen struct {
	cards  []string // 80 characters each
	bitpix int
	dims   []int
	w, n   int
	form   []int
	data   []byte // data bytes to deliver
	hdrcut int
	meta   bool
	mode   string
	hist   []int
	rnd    *rand.Rand
	file   string // "", ".fits", ".fits.gz", ".FITS.GZIP"
	bz, bs [2]int
}

func formByte(form []int, bitpix, w, j int) byte {
	x := (j*form[0] + form[1]) % 251
	r := j % w
	switch bitpix {
	case 32:
		if r == 3 {
			x = 0
		}
	case 64:
		if r > 2 {
			x = 0
		}
	case -32:
		if r == 0 {
			x = 60 + x%7
		}
	case -64:
		switch {
		case r == 0:
			x = 63
		case r == 1:
			x = 224 + x%16
		case r == 4:
			x = 32 * (x % 8)
		case r > 4:
			x = 0
		}
	}
	return byte(x)
}

var tmp string

func kv(k string, x interface{}) v.M { return v.M{"k": codes(k), "v": x} }

func run(out *v.Out, s *scen) {
	hdr := strings.Join(s.cards, "")
	full := hdr
	if r := len(full) % 2880; r != 0 {
		full += strings.Repeat(" ", 2880-r)
	}
	hb := []byte(full)
	if s.hdrcut > 0 {
		hb = hb[:len(hb)-s.hdrcut]
	}
	all := append([]byte{}, hb...)
	if s.hdrcut == 0 {
		all = append(all, s.data...)
	}
	cc := make([][]int, len(s.cards))
	for i, c := range s.cards {
		cc[i] = codes(c)
	}
	bytesOut := []int{}
	form := s.form
	if form == nil {
		form = []int{}
		if !s.meta {
			bytesOut = make([]int, len(s.data))
			for i, b := range s.data {
				bytesOut[i] = int(b)
			}
		}
	}
	rec := v.M{"new": 1, "cards": cc, "bitpix": s.bitpix, "form": form, "bytes": bytesOut, "avail": len(s.data), "hdrcut": s.hdrcut,
		"data": 1, "bz": s.bz, "bs": s.bs, "mode": s.mode, "file": s.file, "hist": append([]int{}, s.hist...)}
	if s.meta {
		rec["data"] = 0
	}
	v.Current(v.M{"cards": s.cards, "avail": len(s.data), "mode": s.mode, "hist": s.hist, "file": s.file})
	img := fits.NewImage()
	var err error
	p := v.Try(func() {
		if s.file == "" {
			c := &chunked{b: all, hist: s.hist, mode: s.mode, skip: len(hb), rnd: s.rnd}
			err = img.Read(c, !s.meta, ioutil.Discard)
		} else {
			fn := filepath.Join(tmp, "x"+s.file)
			b := all
			if strings.Contains(strings.ToLower(s.file), "gz") {
				var bb bytes.Buffer
				gw := gzip.NewWriter(&bb)
				gw.Write(all)
				gw.Close()
				b = bb.Bytes()
				if s.mode == "fail" { // cut the compressed stream
					b = b[:len(b)*2/3]
				}
			}
			if e := ioutil.WriteFile(fn, b, 0644); e != nil {
				v.Fatal("%v", e)
			}
			if s.meta {
				img, err = fits.NewImageMasterDataFromFile(fn, 0, ioutil.Discard)
			} else {
				img, err = fits.NewImageFromFile(fn, 0, ioutil.Discard)
			}
			os.Remove(fn)
		}
	})
	rec["panic"] = p
	rec["err"] = 0
	if err != nil {
		rec["err"] = 1
		rec["msg"] = err.Error()
	}
	o := v.M{}
	rec["o"] = o
	if err == nil && p == "" {
		bools, ints, floats, strs, dates := []v.M{}, []v.M{}, []v.M{}, []v.M{}, []v.M{}
		for k, x := range img.Header.Bools {
			b := 0
			if x {
				b = 1
			}
			bools = append(bools, kv(k, b))
		}
		for k, x := range img.Header.Ints {
			ints = append(ints, kv(k, codes(strconv.Itoa(int(x)))))
		}
		for k, x := range img.Header.Floats {
			floats = append(floats, kv(k, v.Fix(float64(x), 1e6)))
		}
		for k, x := range img.Header.Strings {
			strs = append(strs, kv(k, codes(x)))
		}
		for k, x := range img.Header.Dates {
			dates = append(dates, kv(k, codes(x)))
		}
		com, his := [][]int{}, [][]int{}
		for _, x := range img.Header.Comments {
			com = append(com, codes(x))
		}
		for _, x := range img.Header.History {
			his = append(his, codes(x))
		}
		pm, pe := []int{}, []int{}
		for _, x := range img.Data {
			m, e := me(x)
			pm = append(pm, m)
			pe = append(pe, e)
		}
		dims := []int{}
		for _, d := range img.Naxisn {
			dims = append(dims, int(d))
		}
		bzm, bze := me(img.Bzero)
		bsm, bse := me(img.Bscale)
		o["bools"], o["ints"], o["floats"], o["strs"], o["dates"] = bools, ints, floats, strs, dates
		o["comments"], o["history"], o["pm"], o["pe"], o["dims"] = com, his, pm, pe, dims
		o["bz"], o["bs"] = []int{bzm, bze}, []int{bsm, bse}
		o["exposure"] = v.Fix(float64(img.Exposure), 1e6)
	}
	out.Put(rec)
}

func vcard(r *rand.Rand, key, val string) string {
	c := ""
	if r != nil {
		c = []string{"", " / a comment", "/x", " / it's a 'quoted' = comment", "     "}[r.Intn(5)]
		if r.Intn(4) == 0 && !strings.HasPrefix(val, "'") {
			return card(fmt.Sprintf("%-8s= %s%s", key, val, c))
		}
	}
	if strings.HasPrefix(val, "'") {
		return card(fmt.Sprintf("%-8s= %-20s%s", key, val, c))
	}
	return card(fmt.Sprintf("%-8s= %20s%s", key, val, c))
}

var bzTab = []struct {
	txt string
	m   [2]int
}{{"", [2]int{0, 0}}, {"0", [2]int{0, 0}}, {"0.0", [2]int{0, 0}}, {"32768", [2]int{1, 15}}, {"32768.", [2]int{1, 15}}, {"3.2768E4", [2]int{1, 15}},
	{"-5", [2]int{-5, 0}}, {"2.5", [2]int{5, -1}}, {"-128.0", [2]int{-1, 7}}, {"1.0D1", [2]int{5, 1}}, {"-1E2", [2]int{-25, 2}}, {"+12.25", [2]int{49, -2}}}
var bsTab = []struct {
	txt string
	m   [2]int
}{{"", [2]int{1, 0}}, {"1", [2]int{1, 0}}, {"1.0", [2]int{1, 0}}, {"2", [2]int{1, 1}}, {"0.5", [2]int{1, -1}}, {"-1", [2]int{-1, 0}}, {"3.0E0", [2]int{3, 0}}, {".25", [2]int{1, -2}}, {"4D-1", [2]int{0, 0}}}

func word(r *rand.Rand, n int) string {
	const a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;-+_=/()[]&"
	b := make([]byte, n)
	for i := range b {
		b[i] = a[r.Intn(len(a))]
	}
	return string(b)
}

// random further cards, with distinct keys
func extra(r *rand.Rand) (cs []string) {
	n := r.Intn(12)
	if r.Intn(6) == 0 {
		n = 30 + r.Intn(50)
	}
	exp := r.Intn(6)
	et := []string{"30", "1.5", "300.0", "2.5E2", "7.5E-1", "1.20D2", "0.001", "12E1", "+45"}
	if exp == 1 || exp == 3 {
		cs = append(cs, vcard(r, "EXPOSURE", et[r.Intn(len(et))]))
	}
	if exp == 2 || exp == 3 {
		cs = append(cs, vcard(r, "EXPTIME", et[r.Intn(len(et))]))
	}
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("K%d", i)
		switch r.Intn(12) {
		case 0:
			cs = append(cs, vcard(r, k, "T"))
		case 1:
			cs = append(cs, vcard(r, k+"-B_", "F"))
		case 2:
			cs = append(cs, vcard(r, k, strconv.Itoa(r.Intn(2000001)-1000000)))
		case 3:
			cs = append(cs, vcard(r, k, []string{"2147483647", "-2147483648", "+0007", "0", "-0", "007"}[r.Intn(6)]))
		case 4:
			cs = append(cs, vcard(r, k, []string{"1.5", "-0.25", "1.", ".5", "+3.75E1", "1.25E-2", "5D2", "1.0E+03", "-7.5D-01", "2E0", "0.0", "123.456"}[r.Intn(12)]))
		case 5:
			cs = append(cs, vcard(r, k, "'"+word(r, r.Intn(20))+"'"))
		case 6:
			w := word(r, r.Intn(16))
			for j := 0; j < 3 && len(w) > 0; j++ {
				p := r.Intn(len(w) + 1)
				w = w[:p] + "''" + w[p:]
			}
			cs = append(cs, vcard(r, k, "'"+w+"'"))
		case 7: // continued string
			cs = append(cs, card(fmt.Sprintf("%-8s= '%s&'", k, word(r, 10)+"x")))
			for j := r.Intn(3); j > 0; j-- {
				cs = append(cs, card(fmt.Sprintf("CONTINUE  '%s''%s&'", word(r, r.Intn(20)), word(r, r.Intn(20)))))
			}
			cs = append(cs, card(fmt.Sprintf("CONTINUE  '%s' / c", word(r, r.Intn(20))+"x")))
		case 8:
			cs = append(cs, card("COMMENT "+[]string{"", "x", " "}[r.Intn(3)]+word(r, r.Intn(60))))
		case 9:
			cs = append(cs, card("HISTORY "+word(r, r.Intn(70))))
		case 10:
			cs = append(cs, vcard(r, k, []string{"2021-03-04T05:06:07", "'2021-03-04T05:06:07.123'", "2020-12-31T23:59:59.5"}[r.Intn(3)]))
		case 11:
			cs = append(cs, []string{card(""), card(fmt.Sprintf("%-8s=", k)), card(fmt.Sprintf("%-8s= / no value", k)), card("HIERARCH ESO DET = 5")}[r.Intn(4)])
		}
	}
	return
}

func widthOf(bitpix int) int {
	if bitpix < 0 {
		return -bitpix / 8
	}
	return bitpix / 8
}

// random sample bytes whose value is exact in 32-bit floating point under the offset and scale
func sample(r *rand.Rand, bitpix int, plain bool) []byte {
	be := func(x uint64, w int) []byte {
		b := make([]byte, w)
		for i := range b {
			b[i] = byte(x >> uint(8*(w-1-i)))
		}
		return b
	}
	switch bitpix {
	case 8:
		return be(uint64(r.Intn(256)), 1)
	case 16:
		return be(uint64(r.Intn(65536)), 2)
	case 32:
		if plain && r.Intn(2) == 0 {
			return be(uint64(int64(int32(r.Uint32()))&^0xff), 4)
		}
		return be(uint64(int64(r.Intn(1<<20)-(1<<19))), 4)
	case 64:
		if plain && r.Intn(2) == 0 {
			return be(uint64(int64(int32(r.Uint32()))&^0xff)<<32, 8)
		}
		return be(uint64(int64(r.Intn(1<<20)-(1<<19))), 8)
	case -32:
		if plain {
			switch r.Intn(8) {
			case 0:
				return be(uint64(math.Float32bits([]float32{0, float32(math.Copysign(0, -1)), float32(math.Inf(1)), float32(math.Inf(-1)), float32(math.NaN()), 1e-40, math.MaxFloat32, math.SmallestNonzeroFloat32}[r.Intn(8)])), 4)
			default:
				return be(uint64(r.Uint32()), 4)
			}
		}
		return be(uint64(math.Float32bits(float32(r.Intn(1<<16)-(1<<15))/16)), 4)
	case -64:
		if plain && r.Intn(2) == 0 {
			return be(math.Float64bits(float64(math.Float32frombits(uint32(r.Intn(1<<30))|1<<29))), 8)
		}
		return be(math.Float64bits(float64(r.Intn(1<<16)-(1<<15))/16), 8)
	}
	return make([]byte, widthOf(bitpix))
}

func base(r *rand.Rand, bitpix int, dims []int) (cs []string) {
	cs = append(cs, vcard(r, "SIMPLE", "T"), vcard(r, "BITPIX", strconv.Itoa(bitpix)), vcard(r, "NAXIS", strconv.Itoa(len(dims))))
	for i, d := range dims {
		cs = append(cs, vcard(r, fmt.Sprintf("NAXIS%d", i+1), strconv.Itoa(d)))
	}
	return
}

func prod(d []int) int {
	n := 1
	for _, x := range d {
		n *= x
	}
	return n
}

func pick(r *rand.Rand, s *scen) {
	i, j := r.Intn(len(bzTab)), r.Intn(len(bsTab)-1)
	if bzTab[i].txt != "" {
		s.cards = append(s.cards, vcard(r, "BZERO", bzTab[i].txt))
	}
	if bsTab[j].txt != "" {
		s.cards = append(s.cards, vcard(r, "BSCALE", bsTab[j].txt))
	}
	s.bz, s.bs = bzTab[i].m, bsTab[j].m
}

var bitpixes = []int{8, 16, 32, 64, -32, -64}

func finish(r *rand.Rand, s *scen) {
	ex := extra(r)
	s.cards = append(s.cards, ex...)
	s.cards = append(s.cards, card("END"))
}

func main() {
	v.Watchdog(30 * time.Second)
	var e error
	tmp, e = ioutil.TempDir(".", "c06")
	if e != nil {
		v.Fatal("%v", e)
	}
	defer os.RemoveAll(tmp)
	out := v.NewOut()
	defer out.Close()
	one := [2]int{1, 0}
	if os.Args[1] == "replay" {
		f, err := os.Open(os.Args[2])
		if err != nil {
			v.Fatal("%v", err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		r := v.Rng(61)
		for sc.Scan() {
			var m struct {
				W, N, Avail int
				Mode        string
				Hist        []int
			}
			if err := json.Unmarshal(sc.Bytes(), &m); err != nil {
				v.Fatal("%v", err)
			}
			for _, bp := range bitpixes {
				if widthOf(bp) != m.W {
					continue
				}
				s := &scen{bitpix: bp, dims: []int{m.N}, mode: m.Mode, hist: m.Hist, bs: one}
				s.cards = append(base(nil, bp, s.dims), card("END"))
				for i := 0; i < m.N; i++ {
					s.data = append(s.data, sample(r, bp, true)...)
				}
				if m.Avail > len(s.data) {
					s.data = append(s.data, 255)
				}
				s.data = s.data[:m.Avail]
				run(out, s)
			}
		}
		return
	}
	scale := 1
	if v.Thorough() {
		scale = 8
	}
	r := v.Rng(62)
	// random small images
	for it := 0; it < 700*scale; it++ {
		bp := bitpixes[it%6]
		dims := [][]int{{1}, {5}, {3, 2}, {7, 5}, {1, 9}, {4, 3, 3}, {2, 2, 1, 2}}[r.Intn(7)]
		s := &scen{bitpix: bp, dims: dims, bs: one, mode: []string{"after", "with"}[r.Intn(2)]}
		s.cards = base(r, bp, dims)
		plain := r.Intn(2) == 0
		if !plain {
			pick(r, s)
		} else if (bp == 32 || bp == 64) && r.Intn(2) == 0 { // unsigned integers
			if bp == 32 {
				s.cards = append(s.cards, vcard(r, "BZERO", []string{"2147483648", "2147483648.0", "2.147483648E9"}[r.Intn(3)]))
				s.bz = [2]int{1, 31}
			} else {
				s.cards = append(s.cards, vcard(r, "BZERO", "9223372036854775808"))
				s.bz = [2]int{1, 63}
			}
		}
		finish(r, s)
		for i := 0; i < prod(dims); i++ {
			b := sample(r, bp, plain)
			if s.bz[1] >= 31 {
				if bp == 32 {
					u := uint32(r.Uint32()) &^ 0xff
					b = []byte{byte(u >> 24), byte(u >> 16), byte(u >> 8), 0}
				} else {
					b = []byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), 0, 0, 0, 0, 0}
				}
			}
			s.data = append(s.data, b...)
		}
		need := len(s.data)
		switch r.Intn(8) {
		case 0:
			s.data = s.data[:r.Intn(need)]
		case 1, 2:
			s.data = append(s.data, make([]byte, 2880-need%2880)...)
		case 3:
			s.meta = true
			if r.Intn(2) == 0 {
				s.data = nil
			}
		}
		if r.Intn(3) == 0 {
			s.file = []string{".fits", ".fits.gz", ".FIT.GZIP", ".fit"}[r.Intn(4)]
		} else {
			s.rnd = r
		}
		if r.Intn(25) == 0 {
			s.hdrcut = 1 + r.Intn(2879)
		}
		run(out, s)
	}
	// larger images: several input buffers
	big := 36
	if v.Thorough() {
		big = 120
	}
	for it := 0; it < big; it++ {
		bp := bitpixes[it%6]
		w := widthOf(bp)
		n := []int{16384/w - 1, 16384/w + 1, 16384 / w, 2*16384/w + 3, 20001 / w}[r.Intn(5)]
		s := &scen{bitpix: bp, bs: one, mode: []string{"after", "with"}[r.Intn(2)], form: []int{1 + r.Intn(250), r.Intn(251)}, rnd: r}
		s.dims = []int{n}
		if n%3 == 0 {
			s.dims = []int{n / 3, 3}
		}
		s.cards = base(r, bp, s.dims)
		if bp == 8 || bp == 16 {
			if r.Intn(4) > 0 {
				pick(r, s)
			}
		} else if r.Intn(2) == 0 { // scaling by a power of two is exact
			for k := r.Intn(len(bsTab) - 1); ; k = (k + 1) % (len(bsTab) - 1) {
				if m := bsTab[k].m[0]; m == 1 || m == -1 {
					if bsTab[k].txt != "" {
						s.cards = append(s.cards, vcard(r, "BSCALE", bsTab[k].txt))
					}
					s.bs = bsTab[k].m
					break
				}
			}
		}
		s.cards = append(s.cards, card("END"))
		for j := 0; j < n*w; j++ {
			s.data = append(s.data, formByte(s.form, bp, w, j))
		}
		switch r.Intn(6) {
		case 0:
			s.data = s.data[:len(s.data)-1-r.Intn(9)]
		case 1:
			s.file = []string{".fits", ".fits.gz"}[r.Intn(2)]
		}
		run(out, s)
	}
	// malformed headers
	for it := 0; it < 150*scale; it++ {
		bp := bitpixes[r.Intn(6)]
		dims := []int{3, 2}
		s := &scen{bitpix: bp, dims: dims, bs: one, mode: "after"}
		cs := base(nil, bp, dims)
		switch r.Intn(12) {
		case 0:
			cs = cs[1:]
		case 1:
			cs[0] = vcard(nil, "SIMPLE", "F")
		case 2:
			cs = append(cs[:1], cs[2:]...)
		case 3:
			cs[1] = vcard(nil, "BITPIX", []string{"24", "0", "-16", "1000", "'16'", "T"}[r.Intn(6)])
			s.bitpix = 8
		case 4:
			cs[2] = vcard(nil, "NAXIS", []string{"-1", "-2000000000", "3", "100", "4", "5000000000"}[r.Intn(6)])
		case 5:
			cs[3] = vcard(nil, "NAXIS1", []string{"-3", "0", "'3'", "5000000000", "-2147483648"}[r.Intn(5)])
		case 6:
			cs[3] = vcard(nil, "NAXIS1", "65536")
			cs[4] = vcard(nil, "NAXIS2", []string{"65536", "32768", "99999"}[r.Intn(3)])
		case 7:
			cs = append(cs[:4], cs[5:]...)
		case 8:
			cs[2] = vcard(nil, "NAXIS", "0")
			s.bitpix = bp
		case 9:
			cs[3] = vcard(nil, "NAXIS1", "-3")
			cs[4] = vcard(nil, "NAXIS2", "-2")
		case 10: // no end
			s.cards = cs
			run(out, s)
			continue
		case 11: // noise
			for i := range cs {
				b := make([]byte, 80)
				for j := range b {
					b[j] = byte(r.Intn(256))
				}
				if r.Intn(2) == 0 {
					cs[i] = string(b)
				}
			}
			cs[0] = card("SIMPLX  =                    T")
		}
		s.cards = append(cs, card("END"))
		if r.Intn(2) == 0 {
			s.meta = true
		}
		s.data = make([]byte, 6*widthOf(bp))
		if r.Intn(4) == 0 {
			s.data = nil
		}
		run(out, s)
	}
	_ = sort.Strings
}
