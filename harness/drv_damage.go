package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"strings"
	"syscall"

	"github.com/andybalholm/brotli"
	font "github.com/tdewolff/font"

	"fontverif/fb"
)

func init() {
	checks["damage"] = &check{n: counts(1200, 20000), run: runDamage}
}

// target is a part of a file that is damaged.
type target struct {
	buf   []byte
	build func([]byte) []byte
	parse func([]byte) (*font.SFNT, bool, error) // the font, if there is one; whether there is an error
	n     int                                    // number of glyphs
}

func parseWith(f func([]byte, int) (*font.SFNT, error), index int) func([]byte) (*font.SFNT, bool, error) {
	return func(b []byte) (*font.SFNT, bool, error) {
		s, err := f(b, index)
		return s, err == nil, err
	}
}

func cloneTables(t []fb.Table) []fb.Table { return append([]fb.Table{}, t...) }

// damageTarget makes a sound file and picks the part of it.
func (c *ctx) damageTarget(f, part string) *target {
	r := c.r
	t := &target{build: func(b []byte) []byte { return b }}
	kind := "tt"
	if f == "cff" || f == "emb" {
		kind = "cff"
	}
	gen := func(kind string) *FontDesc {
		return genFont(r, genOpts{kind: kind, n: 3 + r.Intn(6), names: r.Intn(3), kern: r.Intn(3) != 0, vert: r.Intn(3) != 0, multiCmap: r.Intn(2) == 0, nl: r.Intn(4), ng: r.Intn(3), base: 65})
	}
	d := gen(kind)
	t.n = d.N()
	t.parse = parseWith(font.ParseSFNT, 0)
	if f == "emb" {
		t.parse = parseWith(font.ParseEmbeddedSFNT, 0)
	}
	ts := d.Tables()
	if part == "cmap" {
		// all formats
		n := d.N()
		ts = fb.Set(ts, "cmap", cmapOf(r, n))
	} else if part == "name" {
		ts = fb.Set(ts, "name", genName(r))
	} else if part == "OS/2" {
		ts = fb.Set(ts, "OS/2", genOS2(r))
	} else if part == "kern" {
		ts = fb.Set(ts, "kern", c.genKernTable(map[[2]int]bool{}))
	} else if part == "post" {
		ts = fb.Set(ts, "post", genPostTable(r, kind == "tt", d.N()))
	} else if (part == "vhea" || part == "vmtx") && !d.Vert {
		d.Vert = true
		ts = d.Tables()
	}
	if f == "emb" {
		for _, tag := range []string{"OS/2", "name", "post", "head", "hhea", "hmtx", "maxp", "cmap"} {
			if r.Intn(2) == 0 && tag != part {
				ts = without(ts, tag)
			}
		}
	}
	ver := d.Version()
	rebuild := func(ts []fb.Table) []byte { return fb.SFNT(ver, ts, fb.Layout{}) }
	setting := func(tag string, lo, hi int) {
		data := append([]byte{}, fb.Get(ts, tag)...)
		lo, hi = min(lo, len(data)), min(hi, len(data))
		t.buf = data[lo:hi]
		t.build = func(b []byte) []byte {
			x := append(append(append([]byte{}, data[:lo]...), b...), data[hi:]...)
			return rebuild(fb.Set(cloneTables(ts), tag, x))
		}
	}
	head := func(b []byte, n int) {
		n = min(n, len(b))
		t.buf = b[:n]
		t.build = func(x []byte) []byte { return append(append([]byte{}, x...), b[n:]...) }
	}

	switch f {
	case "ttc":
		var fonts [][]fb.Table
		var vers []uint32
		for k := 1 + r.Intn(3); 0 < k; k-- {
			d := gen([]string{"tt", "cff"}[r.Intn(2)])
			fonts, vers = append(fonts, d.Tables()), append(vers, d.Version())
		}
		b := fb.TTC(vers, fonts, 1+r.Intn(2))
		i := r.Intn(len(fonts) + 1)
		t.parse = parseWith(font.ParseSFNT, i)
		if part == "dir" {
			head(b, 12+4*len(fonts)+12+12+16*len(fonts[0]))
		} else {
			t.buf = b
		}
		return t
	case "woff":
		wf, b := genWoff(r, nil)
		t.parse = func(b []byte) (*font.SFNT, bool, error) {
			x, err := font.ParseWOFF(b)
			if err != nil {
				return nil, false, err
			}
			s, err := font.ParseSFNT(x, 0)
			return s, err == nil, err
		}
		switch part {
		case "dir":
			head(b, 44+20*len(wf.tables))
		case "body":
			at := min(44+20*len(wf.tables), len(b))
			t.buf = b[at:]
			t.build = func(x []byte) []byte { return append(append([]byte{}, b[:at]...), x...) }
		case "inner":
			tag := ts[r.Intn(len(ts))].Tag
			setting(tag, 0, 1<<20)
			rebuild = func(ts []fb.Table) []byte {
				f := &woffFile{flavor: ver, tables: ts}
				for i, x := range ts {
					z := x.Data
					if y := deflate(x.Data, 9); len(y) < len(z) {
						z = y
					}
					f.comp, f.order = append(f.comp, z), append(f.order, i)
				}
				return f.bytes()
			}
		default:
			t.buf = b
		}
		return t
	case "woff2":
		b := genW2(r, nil)
		for k := 0; compressed(b) == nil && k < 20; k++ {
			b = genW2(r, nil)
		}
		t.parse = func(b []byte) (*font.SFNT, bool, error) {
			x, err := font.ParseWOFF2(b)
			if err != nil {
				return nil, false, err
			}
			s, err := font.ParseSFNT(x, 0)
			return s, err == nil, err
		}
		comp := compressed(b)
		at := bytes.Index(b, comp)
		if comp == nil || part == "file" {
			t.buf = b
			return t
		} else if part == "dir" {
			head(b, at)
			return t
		}
		stream, _ := io.ReadAll(brotli.NewReader(bytes.NewReader(comp)))
		lo, hi := 0, len(stream)
		for _, x := range w2Parts(b) {
			if strings.HasPrefix(part, x.tag) && x.size <= len(stream)-x.at {
				lo, hi = x.at, x.at+x.size
				if part == "glyfhead" {
					hi = min(hi, lo+36)
				}
			}
		}
		t.buf = stream[lo:hi]
		t.build = func(x []byte) []byte {
			s := append(append(append([]byte{}, stream[:lo]...), x...), stream[hi:]...)
			var buf bytes.Buffer
			w := brotli.NewWriterLevel(&buf, 1)
			w.Write(s)
			w.Close()
			for buf.Len()%4 != 0 {
				buf.WriteByte(0)
			}
			y := append(append([]byte{}, b[:at]...), buf.Bytes()...)
			binary.BigEndian.PutUint32(y[8:], uint32(len(y)))
			binary.BigEndian.PutUint32(y[20:], uint32(buf.Len()))
			copy(y[24:48], make([]byte, 24)) // the extra data is gone
			return y
		}
		return t
	case "eot":
		ef, b := genEot(r, nil)
		t.parse = func(b []byte) (*font.SFNT, bool, error) {
			x, err := font.ParseEOT(b)
			if err != nil {
				return nil, false, err
			}
			s, err := font.ParseSFNT(x, 0)
			return s, err == nil, err
		}
		switch part {
		case "dir":
			head(b, max(0, len(b)-len(ef.font)-ef.tail))
		case "inner":
			t.buf = ef.font
			t.build = func(x []byte) []byte {
				y := *ef
				y.font = x
				return y.bytes()
			}
		default:
			t.buf = b
		}
		return t
	case "afm":
		lines := c.afmText()
		eol := []string{"\n", "\r\n", "\r"}[r.Intn(3)]
		t.parse = func(b []byte) (*font.SFNT, bool, error) {
			a, err := font.ParseAFM(b)
			if err != nil {
				return nil, false, err
			}
			askAfm(a)
			return nil, true, nil
		}
		text := strings.Join(lines, eol) + eol
		switch part {
		case "number", "word":
			// the damage is a choice of words, whatever its kind
			ws := strings.FieldsFunc(text, func(x rune) bool { return x == '\n' || x == '\r' })
			t.buf = make([]byte, 8)
			t.build = func(x []byte) []byte {
				h := rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(append(x, make([]byte, 8)...)))))
				l := append([]string{}, ws...)
				for k := 1 + h.Intn(3); 0 < k; k-- {
					i := h.Intn(len(l))
					fs := strings.Fields(l[i])
					if len(fs) == 0 {
						continue
					}
					j := h.Intn(len(fs))
					if part == "number" {
						j = len(fs) - 1 - h.Intn(min(3, len(fs)))
						fs[j] = []string{"-1", "0", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967296", "9223372036854775807", "9223372036854775808", "1e9", "NaN", "-", "--1", ".", "-.", "1.", ".5", "0x10", "99999999999999999999999", "+5"}[h.Intn(21)]
					} else {
						switch h.Intn(5) {
						case 0:
							fs = append(fs[:j], fs[j+1:]...)
						case 1:
							fs[j] = fs[h.Intn(len(fs))]
						case 2:
							fs = append(fs, fs[j])
						case 3:
							m := strings.Fields(l[h.Intn(len(l))])
							if 0 < len(m) {
								fs[j] = m[h.Intn(len(m))]
							}
						default:
							fs[j] = []string{"<", "<>", "<0", ";", "", "EndCharMetrics", "StartKernPairs", "StartCharMetrics", "EndKernPairs", "C", "KPX", "L", "B", "N", "é", "\x00"}[h.Intn(16)]
						}
					}
					l[i] = strings.Join(fs, " ")
				}
				return []byte(strings.Join(l, eol))
			}
		default:
			t.buf = []byte(text)
		}
		return t
	}

	switch part {
	case "dir":
		head(rebuild(ts), 12+16*len(ts))
	case "file":
		t.buf = rebuild(ts)
	case "simple", "composite":
		raw := append([][]byte{}, randomGlyphs(r)...)
		if part == "composite" {
			raw = chainGlyphs(r)
		}
		for 60 < len(raw) {
			raw = raw[:60]
		}
		g := r.Intn(len(raw))
		for k := 0; k < 50 && (len(raw[g]) == 0 || part == "composite" && raw[g][0] < 128 || part == "simple" && 128 <= raw[g][0]); k++ {
			g = r.Intn(len(raw))
		}
		t.n, t.buf = len(raw), raw[g]
		loca, upem := r.Intn(2), 1000
		t.build = func(b []byte) []byte {
			l := append([][]byte{}, raw...)
			l[g] = b
			d := &FontDesc{Kind: "tt", Upem: upem, Loca: loca, Enc: fb.Enc{Pad: 4}, Post: 3, PostHd: make([]byte, 28)}
			for i, x := range l {
				d.Glyphs = append(d.Glyphs, fb.Glyph{Raw: x, Adv: 500 + i})
			}
			return d.Bytes()
		}
	case "charstring", "subrs":
		cf := *d.CFF
		pick := &cf.CharStrings
		if part == "subrs" {
			if 0 < len(cf.LSubrs) && 0 < len(cf.LSubrs[0]) {
				pick = &cf.LSubrs[0]
			} else if 0 < len(cf.GSubrs) {
				pick = &cf.GSubrs
			}
		}
		i := r.Intn(len(*pick))
		orig := append([][]byte{}, *pick...)
		t.buf = orig[i]
		t.build = func(b []byte) []byte {
			l := append([][]byte{}, orig...)
			l[i] = b
			e, x := *d, *d.CFF
			switch {
			case part == "charstring" || pick == &cf.CharStrings:
				x.CharStrings = l
			case pick == &cf.GSubrs:
				x.GSubrs = l
			default:
				x.LSubrs = append([][][]byte{l}, x.LSubrs[1:]...)
			}
			e.CFF = &x
			return e.Bytes()
		}
	default:
		if strings.HasPrefix(part, "CFF") {
			n, k := len(fb.Get(ts, "CFF ")), int(part[3]-'1')
			setting("CFF ", n*k/6, n*(k+1)/6)
		} else {
			setting(part, 0, 1<<20)
		}
	}
	return t
}

// cmapOf makes a table with one to three subtables of any format.
func cmapOf(r *rand.Rand, n int) []byte {
	var l []rawSub
	for k := 1 + r.Intn(3); 0 < k; k-- {
		l = append(l, genRawSub(r, n))
	}
	return rawCmapTable(l, r)
}

type w2Part struct {
	tag      string
	at, size int
}

// w2Parts tells where the tables are in the stream of a WOFF2 file, which is sound.
func w2Parts(b []byte) (l []w2Part) {
	n, p, at := int(binary.BigEndian.Uint16(b[12:])), 48, 0
	num := func() (v int) {
		for k := 0; k < 5; k++ {
			p++
			v = v<<7 | int(b[p-1]&127)
			if b[p-1] < 128 {
				break
			}
		}
		return v
	}
	for i := 0; i < n; i++ {
		f := b[p]
		p++
		tag := ""
		if f&63 == 63 {
			tag = string(b[p : p+4])
			p += 4
		} else {
			tag = fb.Known[f&63]
		}
		size := num()
		gl := tag == "glyf" || tag == "loca"
		if gl && f>>6 == 0 || !gl && f>>6 != 0 {
			size = num()
		}
		l = append(l, w2Part{tag, at, size})
		at += size
	}
	return l
}

// damages lists how many ways there are to damage n bytes, and applies one of them.
func damages(how string, n, glyphs int, r *rand.Rand) (count int, apply func(k int, b []byte) []byte) {
	get2 := func(b []byte, p int) int { return int(b[p])<<8 | int(b[p+1]) }
	get4 := func(b []byte, p int) int { return get2(b, p)<<16 | get2(b, p+2) }
	put := func(b []byte, p, w, v int) []byte {
		for i := w - 1; 0 <= i; i-- {
			b[p+i] = byte(v)
			v >>= 8
		}
		return b
	}
	edge := func(w, k int, b []byte, p int) int {
		switch w {
		case 1:
			v := int(b[p])
			return []int{0, 1, 2, 3, 0x7F, 0x80, 0xFE, 0xFF, v + 1, v - 1, v ^ 0x10, v ^ 0x40}[k%12]
		case 2:
			v := get2(b, p)
			return []int{0, 1, 2, 3, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, v + 1, v - 1, v + 2, v - 2, 2 * v, v / 2, glyphs, glyphs - 1, glyphs + 1, n, n - 2, 0x00FF, 0x0100, 0xFF00, 0x4000, 0xC000}[k%24]
		}
		v := get4(b, p)
		return []int{0, 1, 2, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFC, v + 1, v - 1, v + 4, v - 4, 2 * v, n, n - 4, n - 8, n + 1, 0x10000, 0xFFFF, 0x1000000, (1 << 32) - v, (1 << 32) - p, 0x40000000, 0x10FFFF}[k%24]
	}
	width := map[string]int{"edge1": 1, "edge2": 2, "edge4": 4}
	switch how {
	case "edge1", "edge2", "edge4":
		w := width[how]
		m := 24
		if w == 1 {
			m = 12
		}
		return max(0, n-w+1) * m, func(k int, b []byte) []byte { return put(b, k/m, w, edge(w, k%m, b, k/m)) }
	case "near":
		return max(0, n-1) * 8, func(k int, b []byte) []byte {
			return put(b, k/8, 2, get2(b, k/8)+[]int{-4, -3, -2, -1, 1, 2, 3, 4}[k%8])
		}
	case "flip":
		return n * 8, func(k int, b []byte) []byte { b[k/8] ^= 1 << (k % 8); return b }
	case "trunc":
		return n, func(k int, b []byte) []byte { return b[:k] }
	case "grow":
		return 40, func(k int, b []byte) []byte {
			x := make([]byte, []int{1, 2, 3, 4, 5, 8, 16, 40, 300, 70000}[k/4])
			switch k % 4 {
			case 1:
				x = bytes.Repeat([]byte{255}, len(x))
			case 2:
				x = randBytes(r, len(x))
			case 3:
				for i := range x {
					if 0 < len(b) {
						x[i] = b[i%len(b)]
					}
				}
			}
			return append(b, x...)
		}
	case "cut":
		return max(0, n-1) * 4, func(k int, b []byte) []byte {
			p := k / 4
			return append(b[:p:p], b[min(len(b), p+1+k%4*2):]...)
		}
	case "put":
		return n * 4, func(k int, b []byte) []byte {
			p := k / 4
			x := [][]byte{{0}, {0, 0}, {255, 255}, randBytes(r, 4)}[k%4]
			return append(append(append([]byte{}, b[:p]...), x...), b[p:]...)
		}
	case "swap":
		return max(0, n-3) * 8, func(k int, b []byte) []byte {
			w := []int{1, 2, 2, 4}[k%4]
			q := r.Intn(n - w + 1)
			x := append([]byte{}, b[q:q+w]...)
			copy(b[k/8:], x)
			return b
		}
	case "same":
		return n * 4, func(k int, b []byte) []byte {
			p := k / 4
			v := []byte{0, 255}[k%2]
			m := 2 + r.Intn(14)
			if k%4 < 2 {
				m = r.Intn(n + 1)
			}
			for i := p; i < p+m && i < len(b); i++ {
				b[i] = v
			}
			return b
		}
	}
	return n * n * 4, func(k int, b []byte) []byte {
		for i := 0; i < 2; i++ {
			w := []int{1, 2, 2, 4}[r.Intn(4)]
			if w <= len(b) {
				p := r.Intn(len(b) - w + 1)
				put(b, p, w, edge(w, r.Intn(24), b, p))
			}
		}
		return b
	}
}

func cpuMS() int {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return int((u.Utime.Sec+u.Stime.Sec)*1000 + (u.Utime.Usec+u.Stime.Usec)/1000)
}

func allocKB() int {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.TotalAlloc >> 10)
}

// where runs f and tells where in the library it panics.
func where(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if 100 < len(p) {
				p = p[:100]
			}
			pc := make([]uintptr, 50)
			fr := runtime.CallersFrames(pc[:runtime.Callers(1, pc)])
			for {
				x, more := fr.Next()
				if strings.Contains(x.Function, "tdewolff/font.") {
					p = fmt.Sprint(x.Function[strings.LastIndex(x.Function, "font.")+5:], ":", x.Line, ": ", p)
					break
				}
				if !more {
					break
				}
			}
		}
	}()
	f()
	return ""
}

type countRec struct{ n int }

func (p *countRec) MoveTo(x, y float64)             { p.n++ }
func (p *countRec) LineTo(x, y float64)             { p.n++ }
func (p *countRec) QuadTo(a, b, x, y float64)       { p.n++ }
func (p *countRec) CubeTo(a, b, c, d, x, y float64) { p.n++ }
func (p *countRec) Close()                          { p.n++ }

func askAfm(a *font.AFM) {
	n := int(a.NumGlyphs())
	for _, g := range []uint16{0, 1, uint16(n / 2), uint16(n - 1), uint16(n), 65535} {
		a.FindGlyphName(a.GlyphName(g))
		a.GlyphAdvance(g)
		a.GlyphBounds(g)
		a.GlyphIndex(rune(g))
		a.Kerning(g, g)
		a.Kerning(g, 1)
	}
}

// askAll makes every query.
func askAll(s *font.SFNT, runes []int) {
	n := int(s.NumGlyphs())
	s.UnitsPerEm()
	s.VerticalMetrics()
	ids := []uint16{0, 1, 2, 3, uint16(n / 2), uint16(n - 1), uint16(n), 65535}
	for g := 4; g < n && g < 12; g++ {
		ids = append(ids, uint16(g))
	}
	for _, x := range runes {
		s.GlyphIndex(rune(x))
	}
	for _, g := range ids {
		for _, x := range s.GlyphToUnicode(g) {
			s.GlyphIndex(x)
		}
		s.FindGlyphName(s.GlyphName(g))
		s.GlyphAdvance(g)
		s.GlyphVerticalAdvance(g)
		s.GlyphBounds(g)
		p := &countRec{}
		s.GlyphPath(p, g, uint16(g)%3*10, 1, 2, 0.5, font.NoHinting)
		s.Kerning(g, 1)
		s.Kerning(1, g)
		if s.Glyf != nil {
			s.Glyf.Get(g)
			s.Glyf.IsComposite(g)
			s.Glyf.Dependencies(g)
			if ct, _ := s.Glyf.Contour(g); ct != nil {
				_ = ct.String()
			}
		}
		if s.Loca != nil {
			s.Loca.Get(g)
		}
		if s.Hmtx != nil {
			s.Hmtx.Advance(g)
			s.Hmtx.LeftSideBearing(g)
		}
		if s.Vmtx != nil {
			s.Vmtx.Advance(g)
			s.Vmtx.TopSideBearing(g)
		}
		if s.Post != nil {
			s.Post.Find(s.Post.Get(g))
		}
		if s.CFF != nil {
			s.CFF.GlyphName(g)
			s.CFF.PrivateDICT(g)
			s.CFF.TopDICT()
			s.CFF.Version()
		}
	}
	s.FindGlyphName("no such name")
	if s.Name != nil {
		for i := 0; i < 26; i++ {
			for k, x := range s.Name.Get(font.NameID(i)) {
				if k < 3 {
					_ = x.String()
				}
			}
		}
		for i, x := range s.Name.NameRecord {
			if i < 40 {
				_ = x.String()
			}
		}
		for _, x := range s.Name.LangTag {
			_ = x.String()
		}
	}
}

var soundFonts = map[string][]byte{}

// deed does something with a font; the result may be an error.
func (c *ctx) deed(s *font.SFNT, what string, runes []int) error {
	r := c.r
	n := int(s.NumGlyphs())
	again := func(b []byte) {
		if t, err := font.ParseSFNT(b, 0); err == nil {
			askAll(t, runes)
		}
	}
	switch what {
	case "ask":
		askAll(s, runes)
	case "subset":
		ids := []uint16{0}
		for g := 1; g < n && g < 40; g++ {
			if r.Intn(2) == 0 {
				ids = append(ids, uint16(g))
			}
		}
		if r.Intn(3) == 0 {
			r.Shuffle(len(ids)-1, func(i, j int) { ids[i+1], ids[j+1] = ids[j+1], ids[i+1] })
		}
		if r.Intn(10) == 0 {
			ids = append(ids, uint16(r.Intn(n+2)))
		}
		t, err := s.Subset(ids, font.SubsetOptions{Tables: [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}[r.Intn(3)]})
		if err != nil {
			return err
		}
		askAll(t, runes)
		again(t.Write())
	case "rename":
		m := n
		if r.Intn(8) == 0 {
			m = r.Intn(n + 3)
		}
		names := []string{}
		for i := 0; i < m; i++ {
			names = append(names, fmt.Sprint("n", i))
		}
		if err := s.SetGlyphNames(names); err != nil {
			return err
		}
		askAll(s, runes)
	case "write":
		again(s.Write())
	case "pack":
		b, err := s.WriteWOFF2()
		if err != nil {
			return err
		}
		if x, err := font.ToSFNT(b); err == nil {
			again(x)
		}
	case "merge":
		kind := "tt"
		if s.IsCFF {
			kind = "cff"
		}
		b := soundFonts[kind]
		if b == nil {
			b = smallFont(rand.New(rand.NewSource(5)), kind).Bytes()
			soundFonts[kind] = b
		}
		t, err := font.ParseSFNT(b, 0)
		if err != nil {
			panic("HARNESS-BUG: " + err.Error())
		}
		err = t.Merge(s, font.MergeOptions{RearrangeCmap: r.Intn(2) == 0})
		if err == nil {
			askAll(t, runes)
			again(t.Write())
		}
		t, _ = font.ParseSFNT(b, 0)
		if err2 := s.Merge(t, font.MergeOptions{}); err2 != nil {
			return err2
		}
		askAll(s, runes)
		return err
	}
	return nil
}

var damageHows = []string{"edge1", "edge2", "edge4", "near", "flip", "trunc", "grow", "cut", "put", "swap", "same", "two"}
var damageDeeds = []string{"ask", "subset", "rename", "write", "pack", "merge"}

func runDamage(c *ctx) {
	r := c.r
	var plan struct {
		F     string `json:"f"`
		Part  string `json:"part"`
		How   string `json:"how"`
		First string `json:"first"`
	}
	if !c.plan(&plan) {
		if len(rawPlans) == 0 {
			panic("no plans")
		}
		// a random pair of kinds of damage, or the same as in a plan on another font
		jsonInto(rawPlans[r.Intn(len(rawPlans))], &plan)
		if r.Intn(2) == 0 && plan.Part != "bomb" {
			plan.How = "two"
		}
	}
	limit := 1 << 20
	if r.Intn(3) == 0 {
		limit = 1 << 24
	}
	font.MaxMemory = uint32(limit)
	lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	var t *target
	if plan.Part == "bomb" {
		f, how := plan.F, plan.How
		t = c.damageTarget(f, "file")
		if f == "ttc" {
			t.parse = parseWith(font.ParseSFNT, []int{0, 1, 5000, 65534}[r.Intn(4)])
		}
		t.build = func([]byte) []byte { return c.bomb(f, how) }
	} else {
		t = c.damageTarget(plan.F, plan.Part)
	}
	budget := 100
	if c.tier == "thorough" {
		budget = 300
	}
	count, apply := damages(plan.How, len(t.buf), t.n, r)
	if plan.Part == "bomb" {
		count, apply = 3, func(k int, b []byte) []byte { return b }
	}
	order := []int{}
	if count <= budget {
		for k := 0; k < count; k++ {
			order = append(order, k)
		}
	} else {
		for k := 0; k < budget; k++ {
			order = append(order, r.Intn(count))
		}
	}
	deeds := []string{plan.First, damageDeeds[r.Intn(len(damageDeeds))], damageDeeds[r.Intn(len(damageDeeds))]}
	if plan.F == "afm" {
		deeds = []string{}
	}
	runes := []int{0, 65, 66, 70, 0xFF, 0x100, 0x4E00, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, -1, 1 << 30}
	runs, notes, where0 := [][]int{}, []string{}, []int{}
	for _, k := range order {
		b := t.build(apply(k, append([]byte{}, t.buf...)))
		in := append([]byte{}, b...)
		var s *font.SFNT
		ok := false
		kb, ms := allocKB(), cpuMS()
		note := where(func() {
			if m, err := font.MediaType(in); err == nil && m != "" {
				font.Extension(in)
			}
			s, ok, _ = t.parse(in)
		})
		run := []int{len(b), 2}
		bad := ""
		if note != "" {
			run[1], bad = 3, "parse: "+note
		} else if ok {
			run[1] = 1
		}
		for _, d := range deeds {
			if s == nil || !ok || bad != "" {
				run = append(run, 0)
				continue
			}
			var err error
			note := where(func() { err = c.deed(s, d, runes) })
			switch {
			case strings.Contains(note, "HARNESS-BUG"):
				panic(note)
			case note != "":
				run = append(run, 3)
				bad += d + ": " + note + " "
			case err != nil:
				run = append(run, 2)
			default:
				run = append(run, 1)
			}
		}
		run = append(run, cpuMS()-ms, allocKB()-kb)
		runs = append(runs, run)
		if bad != "" {
			notes = append(notes, bad)
			where0 = append(where0, k)
		}
	}
	c.Info["at"] = where0
	c.ev(M{"op": "damage", "f": plan.F, "part": plan.Part, "how": plan.How, "deeds": deeds, "limit": limit, "count": count, "runs": runs, "notes": uniqStr(notes)})
}
