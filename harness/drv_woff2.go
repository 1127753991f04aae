package main

import (
	"bytes"
	"encoding/binary"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"fontverif/fb"

	"github.com/andybalholm/brotli"
	font "github.com/tdewolff/font"
)

// The WOFF2 driver: fonts in every legal encoding, damaged files, and the files the package writes.

func init() {
	checks["woff2"] = &check{n: counts(450, 9000), run: runWoff2}
	checks["woff2real"] = &check{n: counts(150, 700), run: runWoff2Real}
	checks["w2write"] = &check{n: counts(120, 3000), run: runW2Write}
}

type w2Plan struct {
	Glyf  bool   `json:"glyf"`
	Trip  string `json:"trip"`
	Form  string `json:"form"`
	Bbox  string `json:"bbox"`
	Ov    string `json:"ov"`
	Fmt   int    `json:"fmt"`
	Hm    int    `json:"hm"`
	Nhm   int    `json:"nhm"`
	Tag   string `json:"tag"`
	Order string `json:"order"`
	Fault string `json:"fault"`
}

const w2Limit = 1 << 20

func unbrotli(b []byte) M {
	m := M{"st": "bad", "data": []int{}}
	data, err := io.ReadAll(io.LimitReader(brotli.NewReader(bytes.NewReader(b)), w2Limit+1))
	if err != nil && strings.Contains(err.Error(), "xcessive") {
		// something follows the stream
		data, err = io.ReadAll(io.LimitReader(brotli.NewReader(iotest.OneByteReader(bytes.NewReader(b))), w2Limit+1))
		m["st"], m["data"] = "odd", ints(data)
		if err != nil && !strings.Contains(err.Error(), "xcessive") {
			m["st"] = "bad"
		}
		return m
	}
	if err == nil {
		m["st"], m["data"] = "ok", ints(data)
	}
	return m
}

// compressed finds the Brotli stream in b: the directory has to be read for that.
func compressed(b []byte) []byte {
	if len(b) < 48 {
		return nil
	}
	n, p := int(binary.BigEndian.Uint16(b[12:])), 48
	num := func() bool {
		for k := 0; k < 5; k++ {
			if len(b) <= p {
				return false
			}
			p++
			if b[p-1] < 128 {
				return true
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		if len(b) <= p {
			return nil
		}
		f := b[p]
		p++
		tag := ""
		if f&63 == 63 {
			if len(b) < p+4 {
				return nil
			}
			tag = string(b[p : p+4])
			p += 4
		} else {
			tag = fb.Known[f&63]
		}
		if !num() {
			return nil
		}
		gl := tag == "glyf" || tag == "loca"
		if gl && f>>6 == 0 || !gl && f>>6 != 0 {
			if !num() {
				return nil
			}
		}
	}
	size := int64(binary.BigEndian.Uint32(b[20:]))
	if int64(len(b)-p) < size {
		return nil
	}
	return b[p : p+int(size)]
}

func (c *ctx) woff2(b []byte) {
	m := M{"op": "woff2", "b": ints(b), "err": "", "out": []int{}, "d": M{"st": "bad", "data": []int{}}}
	if s := compressed(b); s != nil {
		d := unbrotli(s)
		if w2Limit < len(d["data"].([]int)) {
			return
		}
		m["d"] = d
	}
	buf := append([]byte{}, b...)
	var out []byte
	m["panic"] = guard(func() {
		var err error
		out, err = font.ParseWOFF2(buf)
		m["err"] = errStr(err)
		if err != nil {
			out = nil
		}
	})
	m["out"], m["kept"] = ints(out), bytes.Equal(b, buf)
	c.ev(m)
}

// w2Font draws a font whose coordinates, counts and boxes are at the edges of the encodings.
func w2Font(r *rand.Rand, nhm int) *FontDesc {
	edge := []int{0, 0, 1, 2, 63, 64, 65, 66, 255, 256, 257, 512, 513, 767, 768, 769, 770, 1023, 1024, 1279, 1280, 1281, 4095, 4096, 4097, 16000, 30000}
	n := []int{1, 2, 3, 4, 5, 7, 8, 9, 31, 32, 33, 40}[r.Intn(12)]
	if 0 < nhm {
		n = max(n, nhm)
	}
	d := genFont(r, genOpts{kind: "tt", n: n, names: 0, base: 65})
	ins := func() []byte {
		k := []int{0, 0, 1, 5, 252, 253, 254, 505, 506, 508, 509, 510, 761, 762, 800}[r.Intn(15)]
		if 4 < n {
			k = min(k, 5)
		}
		return randBytes(r, k)
	}
	for i := range d.Glyphs {
		g := &d.Glyphs[i]
		if 0 < len(g.Comps) {
			g.Ins = ins()
			if r.Intn(4) == 0 {
				g.BBox = &[4]int{-32768, 32767, 255, -256}
			}
			continue
		} else if len(g.Contours) == 0 || 8 < n && r.Intn(3) != 0 {
			continue
		}
		nc := 1 + r.Intn(3)
		g.Contours = nil
		x, y := 0, 0
		near := r.Intn(2) == 0
		for k := 0; k < nc; k++ {
			np := 1 + r.Intn(6)
			if n < 4 && r.Intn(3) == 0 {
				np = []int{252, 253, 254, 505, 506, 508, 509, 761, 762, 763}[r.Intn(10)]
			}
			var c []fb.Point
			for j := 0; j < np; j++ {
				move := func(v int) int {
					e := edge[r.Intn(len(edge))]
					if near {
						e = min(e, 300)
					}
					if r.Intn(2) == 0 {
						e = -e
					}
					if v+e < -31000 || 31000 < v+e {
						e = -e
					}
					return v + e
				}
				switch r.Intn(4) {
				case 0:
					x = move(x)
				case 1:
					y = move(y)
				default:
					x, y = move(x), move(y)
				}
				if x < -31000 || 31000 < x {
					x = 0
				}
				if y < -31000 || 31000 < y {
					y = 0
				}
				c = append(c, fb.Point{X: x, Y: y, On: r.Intn(2) == 0})
			}
			g.Contours = append(g.Contours, c)
		}
		if r.Intn(4) == 0 {
			g.Contours[0][0].Ov = true
		}
		if r.Intn(3) == 0 {
			b := g.Box()
			b[r.Intn(4)] += []int{-1, 1, 300}[r.Intn(3)]
			g.BBox = &b
		}
		g.Ins = ins()
	}
	return d
}

// genW2 encodes a font; the plan fixes the choices.
func genW2(r *rand.Rand, pl *w2Plan) []byte {
	var d *FontDesc
	kind := "tt"
	nhmWant := 0
	if pl != nil {
		nhmWant = 4
	} else if r.Intn(6) == 0 {
		kind = "cff"
	}
	if kind == "cff" {
		d = smallFont(r, "cff")
	} else {
		d = w2Font(r, nhmWant)
	}
	ts := d.Tables()
	flags := 0
	glyf := kind == "tt" && r.Intn(5) != 0
	format := r.Intn(2)
	nhm := 1 + r.Intn(d.N())
	if pl != nil {
		glyf, flags, format = pl.Glyf, pl.Hm, pl.Fmt
		nhm = map[int]int{1: 1, 3: max(1, d.N()-1), 4: d.N()}[pl.Nhm]
	} else if kind == "tt" && r.Intn(4) != 0 {
		flags = 1 + r.Intn(3)
	}
	if kind == "tt" {
		d.Enc.Pad = []int{4, 2, 1}[r.Intn(3)]
		if l, _ := fb.GlyfLoca(d.Glyphs, 1, d.Enc); format == 0 && 100000 < len(l) {
			format = 1
		}
		d.Loca = format
	}
	// the tables as they are in the bare font
	if kind == "tt" {
		adv, lsb := make([]int, d.N()), make([]int, d.N())
		for g := range d.Glyphs {
			adv[g], lsb[g] = []int{0, 1, 500, 65535, r.Intn(65536)}[r.Intn(5)], r.Intn(65536)-32768
			x := 0
			if 0 < len(d.Glyphs[g].Contours) || 0 < len(d.Glyphs[g].Comps) {
				x = d.Glyphs[g].Box()[0]
			}
			if g < nhm && flags&1 != 0 || nhm <= g && flags&2 != 0 {
				lsb[g] = x
			}
		}
		ts = fb.Set(ts, "hmtx", fb.Mtx(adv, lsb, nhm))
		ts = fb.Set(ts, "hhea", fb.Hhea(800, -200, 90, 1500, nhm))
		gl, lo := fb.GlyfLoca(d.Glyphs, format, d.Enc)
		ts = fb.Set(ts, "glyf", gl)
		ts = fb.Set(ts, "loca", lo)
	}
	head := append([]byte{}, fb.Get(ts, "head")...)
	head[16] |= 8
	head[51] = byte(format)
	if pl != nil && pl.Fault == "bit11" {
		head[16] &^= 8
	}
	ts = fb.Set(ts, "head", head)
	if pl == nil {
		for r.Intn(3) == 0 {
			ts = fb.Set(ts, []string{"cvt ", "ZZZZ", "Sill", "sbix", "fpgm", "aaaa", "\x01\x02\x03\x04"}[r.Intn(7)], randBytes(r, []int{0, 1, 2, 3, 127, 128, 129, 300}[r.Intn(8)]))
		}
	} else {
		ts = fb.Set(ts, "ZZZZ", []byte{5, 6, 7})
		if pl.Fault == "dsig" {
			ts = fb.Set(ts, "DSIG", []byte{1})
		} else if pl.Fault == "head" {
			ts = without(ts, "head")
		}
	}
	// encode
	pick := func(n int) int { return r.Intn(n) }
	o := &fb.W2Opts{Pick: pick, Format: format, Overlap: r.Intn(2) == 0}
	dense := r.Intn(3)
	o.Bbox = func(need bool) bool { return need || dense == 0 || dense == 1 && r.Intn(2) == 0 }
	if pl != nil {
		first := pl.Trip == "first"
		o.Pick = func(n int) int {
			if first {
				return 0
			}
			return n - 1
		}
		o.Bbox = func(need bool) bool { return need || pl.Bbox == "all" }
		o.Overlap = pl.Ov != "none"
		for g := range d.Glyphs {
			if 0 < len(d.Glyphs[g].Contours) {
				d.Glyphs[g].Contours[0][0].Ov = pl.Ov == "set" && g%2 == 1
			}
		}
	} else if kind == "tt" && !o.Overlap {
		for g := range d.Glyphs {
			if 0 < len(d.Glyphs[g].Contours) {
				d.Glyphs[g].Contours[0][0].Ov = false
			}
		}
	}
	var es []fb.W2Table
	for _, t := range ts {
		e := fb.W2Table{Tag: t.Tag, Data: t.Data, Orig: len(t.Data)}
		e.Spell = pl == nil && r.Intn(8) == 0 || pl != nil && pl.Tag == "spelt"
		switch {
		case t.Tag == "glyf" || t.Tag == "loca":
			if !glyf {
				e.TV = 3
				break
			}
			e.Tr = true
			e.Data = nil
			if t.Tag == "glyf" {
				e.Data, _ = fb.W2Glyf(d.Glyphs, o)
				if pl != nil {
					e.Data = faultGlyf(e.Data, d, pl)
				}
				if r.Intn(3) == 0 {
					e.Orig = r.Intn(100000) // is only a hint
				}
			} else if pl != nil && pl.Fault == "loca" {
				e.Data = []byte{1}
			} else if pl != nil && pl.Fault == "locasize" {
				e.Orig += 2
			}
		case t.Tag == "hmtx" && flags != 0:
			e.Tr, e.TV = true, 1
			e.Data = fb.W2Hmtx(t.Data, nhm, d.N(), flags)
			if pl != nil {
				switch pl.Fault {
				case "hmshort":
					e.Data = e.Data[:len(e.Data)-1]
				case "hmlong":
					e.Data = append(e.Data, 0)
				case "hmbits":
					e.Data[0] |= 4
				}
			}
		case pl != nil && pl.Fault == "tv" && t.Tag == "maxp":
			e.TV = 1
		}
		es = append(es, e)
	}
	// any order, loca right after glyf
	if pl == nil && r.Intn(2) == 0 {
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	} else if pl != nil && pl.Order == "down" {
		sort.SliceStable(es, func(i, j int) bool { return es[j].Tag < es[i].Tag })
	}
	var loca *fb.W2Table
	var l []fb.W2Table
	for i := range es {
		if es[i].Tag == "loca" {
			loca = &es[i]
		}
	}
	for _, e := range es {
		if e.Tag != "loca" {
			l = append(l, e)
		}
		if e.Tag == "glyf" && loca != nil {
			l = append(l, *loca)
		}
	}
	var stream []byte
	for _, e := range l {
		stream = append(stream, e.Data...)
	}
	if pl != nil && pl.Fault == "tables" {
		stream = append(stream, 0)
	}
	if pl == nil && r.Intn(5) == 0 && 0 < len(stream) {
		spoilStream(r, l, &stream)
	}
	comp := enbrotli(r, stream)
	if pl != nil && pl.Fault == "brotli" {
		comp = comp[:len(comp)-1]
	}
	var meta, priv []byte
	if pl == nil && r.Intn(5) == 0 {
		meta = enbrotli(r, []byte("<metadata version=\"1.0\"></metadata>"))
	}
	if pl == nil && r.Intn(5) == 0 {
		priv = randBytes(r, 1+r.Intn(9))
	}
	total := len(fb.SFNT(d.Version(), ts, fb.Layout{}))
	if pl == nil && r.Intn(6) == 0 {
		total = r.Intn(100000) // is only a hint
	}
	flavor := d.Version()
	if kind == "tt" && r.Intn(5) == 0 {
		flavor = 0x74727565
	}
	b := fb.W2File(flavor, len(l), fb.W2Dir(l), comp, total, meta, priv)
	if pl != nil {
		switch pl.Fault {
		case "sig":
			b[3]++
		case "length":
			b[11]++
		case "reserved":
			b[15] = 1
		}
	}
	return b
}

func enbrotli(r *rand.Rand, b []byte) []byte {
	var buf bytes.Buffer
	w := brotli.NewWriterOptions(&buf, brotli.WriterOptions{Quality: []int{0, 1, 4, 6, 9, 11}[r.Intn(6)], LGWin: []int{0, 10, 16, 22}[r.Intn(4)]})
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// faultGlyf puts the fault of the plan into a transformed glyf table.
func faultGlyf(t []byte, d *FontDesc, pl *w2Plan) []byte {
	at := 36
	for k := 0; k < 5; k++ {
		at += int(binary.BigEndian.Uint32(t[8+4*k:]))
	}
	size := binary.BigEndian.Uint32(t[28:])
	switch pl.Fault {
	case "boxempty":
		// the box of the first glyph that has none goes to a glyph that is empty
		for g := range d.Glyphs {
			if len(d.Glyphs[g].Contours) == 0 && len(d.Glyphs[g].Comps) == 0 && t[at+g/8]&(1<<(7-g%8)) == 0 {
				t[at+g/8] |= 1 << (7 - g%8)
				t = append(t[:at+int(size)], append(make([]byte, 8), t[at+int(size):]...)...)
				binary.BigEndian.PutUint32(t[28:], size+8)
				break
			}
		}
	case "nobox":
		for g := range d.Glyphs {
			if 0 < len(d.Glyphs[g].Comps) {
				t[at+g/8] &^= 1 << (7 - g%8)
				break
			}
		}
	case "stream":
		if n := binary.BigEndian.Uint32(t[32:]); 0 < n {
			i := at + int(size) + int(n)
			t = append(t[:i-1], t[i:]...)
			binary.BigEndian.PutUint32(t[32:], n-1)
		}
	}
	return t
}

// spoilStream damages the tables before they are compressed.
func spoilStream(r *rand.Rand, l []fb.W2Table, stream *[]byte) {
	b := append([]byte{}, *stream...)
	at := 0
	for i := range l {
		e := &l[i]
		n := len(e.Data)
		if e.Tr && e.Tag == "glyf" && 36 <= n && r.Intn(2) == 0 {
			switch r.Intn(6) {
			case 0: // sizes of the streams
				p := at + 8 + 4*r.Intn(7)
				v := binary.BigEndian.Uint32(b[p:])
				binary.BigEndian.PutUint32(b[p:], []uint32{v + 1, v - 1, 0, 0xFFFFFFFF, v + 4, 0x80000000}[r.Intn(6)])
			case 1: // move a byte from one stream to the next
				k := r.Intn(6)
				p := at + 8 + 4*k
				v, w := binary.BigEndian.Uint32(b[p:]), binary.BigEndian.Uint32(b[p+4:])
				s := uint32(1 - 2*r.Intn(2))
				binary.BigEndian.PutUint32(b[p:], v+s)
				binary.BigEndian.PutUint32(b[p+4:], w-s)
			case 2:
				b[at+[]int{1, 3, 4, 5, 7}[r.Intn(5)]] ^= byte(1 + r.Intn(3))
			case 3, 4: // contents
				p := at + 36 + r.Intn(max(1, n-36))
				b[min(p, at+n-1)] = []byte{0, 1, 127, 128, 253, 254, 255}[r.Intn(7)]
			case 5: // cut the last stream that is there
				if p := at + n - 1; 0 < n {
					b = append(b[:p], b[p+1:]...)
					e.Data = e.Data[:n-1]
					for k := 6; 0 <= k; k-- {
						q := at + 8 + 4*k
						if v := binary.BigEndian.Uint32(b[q:]); 0 < v && b[at+3]&1 == 0 {
							binary.BigEndian.PutUint32(b[q:], v-1)
							break
						}
					}
				}
			}
			break
		} else if e.Tr && e.Tag == "hmtx" && 0 < n && r.Intn(2) == 0 {
			if r.Intn(2) == 0 {
				b[at] ^= byte(1 << r.Intn(3))
			} else {
				b = append(b[:at+n-1], b[at+n:]...)
				e.Data = e.Data[:n-1]
			}
			break
		} else if (e.Tag == "maxp" || e.Tag == "hhea") && r.Intn(3) == 0 {
			p := at + map[string]int{"maxp": 5, "hhea": 35}[e.Tag]
			b[p] += byte(1 + 254*r.Intn(2))
			break
		} else if e.Tag == "head" && r.Intn(6) == 0 {
			b[at+[]int{16, 50, 51}[r.Intn(3)]] ^= byte(1 << r.Intn(8))
			break
		}
		at += len(e.Data)
	}
	*stream = b
}

// spoilW2 damages the file.
func spoilW2(r *rand.Rand, b []byte) []byte {
	end := len(b) - len(compressed(b))
	switch r.Intn(7) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = b[:r.Intn(len(b)+1)]
		if 12 <= len(b) {
			binary.BigEndian.PutUint32(b[8:], uint32(len(b)))
		}
	case 2: // the directory
		p := 48 + r.Intn(max(1, min(end, len(b))-48))
		b[p] = []byte{0, 1, 63, 64, 127, 128, 192, 255, b[p] + 1, b[p] - 1, b[p] ^ 0x40, b[p] ^ 0x80}[r.Intn(12)]
	case 3: // sizes in the header
		p := []int{8, 16, 20, 28, 32, 40, 44}[r.Intn(7)]
		v := binary.BigEndian.Uint32(b[p:])
		binary.BigEndian.PutUint32(b[p:], []uint32{v + 1, v - 1, 0, 0xFFFFFFFF, v + 4, 0x80000000}[r.Intn(6)])
	case 4:
		b[[]int{0, 3, 4, 5, 7, 12, 13, 14, 15}[r.Intn(9)]] ^= byte(1 << r.Intn(8))
	case 5: // the stream
		if end < len(b) {
			b[end+r.Intn(len(b)-end)] ^= byte(1 << r.Intn(8))
		}
	case 6:
		b = append(b, randBytes(r, 1+r.Intn(5))...)
		if r.Intn(2) == 0 {
			binary.BigEndian.PutUint32(b[8:], uint32(len(b)))
		}
	}
	return b
}

func runWoff2(c *ctx) {
	r := c.r
	var pl w2Plan
	if c.plan(&pl) {
		c.woff2(genW2(r, &pl))
		return
	}
	b := genW2(r, nil)
	if r.Intn(4) == 0 {
		b = spoilW2(r, b)
	}
	c.woff2(b)
}

// runWoff2Real decodes the samples of the repository.
func runWoff2Real(c *ctx) {
	var files []string
	for _, g := range []string{"testdata/woff2_decoder/*.woff2", "testdata/woff2_format/*.woff2", "resources/*.woff2"} {
		l, _ := filepath.Glob("/repo/" + g)
		files = append(files, l...)
	}
	sort.Strings(files)
	if len(files) == 0 {
		return
	}
	k := c.i
	if c.tier == "quick" {
		k = c.i*7 + int(c.seed)
	}
	f := files[k%len(files)]
	b, err := os.ReadFile(f)
	if err != nil || 20000 < len(b) && (c.tier == "quick" || len(files) <= k) {
		return
	}
	c.Info["file"] = f
	c.woff2(b)
}

// runW2Write reads the files the package writes.
func runW2Write(c *ctx) {
	r := c.r
	var d *FontDesc
	if r.Intn(5) == 0 {
		d = smallFont(r, "cff")
	} else {
		d = w2Font(r, 0)
	}
	if d.Kind == "tt" && r.Intn(2) == 0 {
		for g := range d.Glyphs {
			if b := d.Glyphs[g].Box(); 0 < len(d.Glyphs[g].Contours) || 0 < len(d.Glyphs[g].Comps) {
				d.Glyphs[g].Lsb = b[0]
			}
		}
	}
	if l, _ := fb.GlyfLoca(d.Glyphs, 1, d.Enc); d.Loca == 0 && 100000 < len(l) {
		d.Loca = 1
	}
	for r.Intn(3) == 0 {
		d.Extra = append(d.Extra, fb.Table{Tag: []string{"cvt ", "ZZZZ", "Sill", "fpgm", "DSIG"}[r.Intn(5)], Data: randBytes(r, []int{1, 2, 3, 127, 128, 129, 300}[r.Intn(7)])})
		break
	}
	in := d.Bytes()
	m := M{"op": "written", "b": []int{}, "err": "", "out": []int{}, "d": M{"st": "bad", "data": []int{}}, "kept": true}
	m["panic"] = guard(func() {
		s, err := font.ParseSFNT(append([]byte{}, in...), 0)
		if err != nil {
			m["err"] = "cannot be opened: " + err.Error()
			return
		}
		var ts []fb.Table
		for tag, data := range s.Tables {
			if tag == "DSIG" {
				continue
			}
			data = append([]byte{}, data...)
			if tag == "head" {
				data[16] |= 8
			}
			ts = append(ts, fb.Table{Tag: tag, Data: data})
		}
		b, err := s.WriteWOFF2()
		m["err"] = errStr(err)
		m["b"] = ints(b)
		if s := compressed(b); s != nil {
			m["d"] = unbrotli(s)
		}
		m["out"] = ints(fb.SFNT(d.Version(), fb.SortTables(ts), fb.Layout{}))
	})
	c.ev(m)
}
