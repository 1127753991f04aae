package main

import (
	"math"
	"math/rand"
	"os"
	"sort"
	"time"
	"unicode/utf16"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The fixed tables driver: raw table bytes and the values the library exposes for them.

func init() {
	checks["tables"] = &check{n: counts(900, 15000), run: runTables}
}

type tablesPlan struct {
	K    string           `json:"k"`
	N    int              `json:"n"`
	Hhea []int            `json:"hhea"`
	OS2  []int            `json:"os2"`
	T    map[string][]int `json:"t"`
}

func bts(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

var corner = []int{0, 1, 2, 127, 128, 255, 256, 0x7FFE, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF}

func word(r *rand.Rand) int {
	if r.Intn(3) == 0 {
		return corner[r.Intn(len(corner))]
	}
	return r.Intn(0x10000)
}

func words(r *rand.Rand, n int) *fb.W {
	w := &fb.W{}
	for i := 0; i < n; i++ {
		w.U16(word(r))
	}
	return w
}

func utf16BE(s []uint16) []byte {
	w := &fb.W{}
	for _, u := range s {
		w.U16(int(u))
	}
	return w.B
}

func genName(r *rand.Rand) []byte {
	var recs []fb.NameRec
	var store [][]byte
	for i := r.Intn(6); 0 <= i; i-- {
		rec := fb.NameRec{Plat: []int{0, 1, 1, 2, 3, 3, 3, 4}[r.Intn(8)], Enc: []int{0, 0, 1, 1, 3, 10, 25}[r.Intn(7)], Lang: []int{0, 0x409, 0x413, 0x8000, 5}[r.Intn(5)], ID: []int{0, 1, 2, 4, 6, 16, 17, 21, 25, 300, 0xFFFF}[r.Intn(11)]}
		switch r.Intn(7) {
		case 0:
		case 1: // any bytes
			rec.Val = make([]byte, r.Intn(12))
			r.Read(rec.Val)
		case 2: // Mac Roman
			rec.Plat, rec.Enc = 1, 0
			rec.Val = make([]byte, r.Intn(12))
			r.Read(rec.Val)
		case 3: // beyond the basic plane
			rec.Val = utf16BE(utf16.Encode([]rune{'A', 0x1F600 + rune(r.Intn(50)), 0x10FFFF, 'z'}))
		case 4: // broken pairs, byte order marks
			rec.Val = utf16BE([]uint16{0xFEFF, 'a', []uint16{0xD83D, 0xDE00, 'b'}[r.Intn(3)], 'c'}[:1+r.Intn(4)])
		case 5:
			if 0 < len(store) { // shared
				rec.Val = store[r.Intn(len(store))]
			}
		default:
			rec.Val = fb.U16BE([]string{"Family", "Regular", "日本語", "é", "A"}[r.Intn(5)])
		}
		store = append(store, rec.Val)
		recs = append(recs, rec)
	}
	var tags [][]byte
	if r.Intn(3) == 0 {
		tags = [][]byte{}
		for i := r.Intn(3); 0 < i; i-- {
			tags = append(tags, fb.U16BE([]string{"en", "nl-NL", ""}[r.Intn(3)]))
		}
	}
	return fb.NameTable(recs, tags)
}

func genPostTable(r *rand.Rand, tt bool, n int) []byte {
	head := words(r, 14).B
	v := 3
	if tt {
		v = 1 + r.Intn(3)
	}
	var idx []int
	var strs []string
	if v == 2 {
		for i := r.Intn(6); 0 < i; i-- {
			b := make([]byte, []int{0, 1, 4, 62, 63, 3}[r.Intn(6)])
			for j := range b {
				b[j] = "abcXYZ.1"[r.Intn(8)]
			}
			if r.Intn(8) == 0 {
				r.Read(b)
			}
			strs = append(strs, string(b))
		}
		if r.Intn(3) == 0 {
			strs = append(strs, "space", "A")
		}
		for i := 0; i < n; i++ {
			switch k := r.Intn(6); {
			case k < 2:
				idx = append(idx, r.Intn(258))
			case k == 2:
				idx = append(idx, []int{0, 257, 258 + len(strs), 258 + len(strs) - 1, 0xFFFF, 3}[r.Intn(6)])
			default:
				idx = append(idx, 258+r.Intn(len(strs)+1))
			}
		}
	}
	return fb.PostTable(v, head, idx, strs)
}

func genHead(r *rand.Rand, loc int) []byte {
	w := &fb.W{}
	w.U16(1)
	w.U16(0)
	w.Raw(words(r, 4).B)
	w.U32(0x5F0F3CF5)
	w.Raw(words(r, 2).B)
	for i := 0; i < 2; i++ {
		switch r.Intn(4) {
		case 0:
			w.U64(uint64(r.Int63()))
		case 1:
			w.U64([]uint64{0, 1, math.MaxInt64, math.MaxInt64 - 1, 1 << 33, 9223372036, 9223372037, 1 << 32}[r.Intn(8)])
		default:
			w.U64(uint64(r.Int63n(8e9)))
		}
	}
	w.Raw(words(r, 7).B)
	w.U16(loc)
	w.U16(word(r))
	return w.B
}

func genXhea(r *rand.Rand, n int, vert bool) []byte {
	w := &fb.W{}
	w.U16(1)
	if vert && r.Intn(2) == 0 {
		w.U16(0x1000)
	} else {
		w.U16(0)
	}
	w.Raw(words(r, 15).B)
	w.U16(n)
	return w.B
}

func genOS2(r *rand.Rand) []byte {
	v := r.Intn(6)
	n := []int{78, 86, 96, 96, 96, 100}[v]
	if v == 0 && r.Intn(2) == 0 {
		n = 68
	}
	w := &fb.W{}
	w.U16(v)
	w.Raw(words(r, (n-2)/2).B)
	return w.B
}

// spoil breaks a table in one way, or not at all.
func spoil(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch r.Intn(6) {
	case 0: // shorter
		return b[:r.Intn(len(b)+1)]
	case 1:
		return b[:max(0, len(b)-1-r.Intn(4))]
	case 2:
		return append(b, make([]byte, 1+r.Intn(4))...)
	case 3:
		if 4 <= len(b) {
			b[r.Intn(4)] = byte(corner[r.Intn(len(corner))])
		}
	default:
		if 0 < len(b) {
			b[r.Intn(len(b))] = byte(corner[r.Intn(len(corner))])
		}
	}
	return b
}

var fixedTags = []string{"head", "maxp", "hhea", "hmtx", "vhea", "vmtx", "OS/2", "post", "name"}

func genTables(c *ctx) (d *FontDesc, set map[string][]byte) {
	r := c.r
	n := []int{1, 2, 3, 5, 9, 12}[r.Intn(6)]
	tt := r.Intn(3) != 0
	if tt && r.Intn(30) == 0 {
		n = 258 + r.Intn(5) - 2
	}
	d = &FontDesc{Kind: "tt", Upem: 1000, Post: 3, Loca: r.Intn(2)}
	for i := 0; i < n; i++ {
		d.Glyphs = append(d.Glyphs, fb.Glyph{Contours: poly(r, i), Adv: 500 + i})
	}
	if !tt {
		d.Kind = "cff"
		d.CFF = genCFF(r, n, 0, 0)
	}
	set = map[string][]byte{}
	var pl tablesPlan
	if c.plan(&pl) {
		if pl.K == "v" {
			n = 1
			d.Glyphs = d.Glyphs[:1]
			if !tt {
				d.CFF = genCFF(r, 1, 0, 0)
			}
			set["hhea"] = bts(pl.Hhea)
			if 0 < len(pl.OS2) {
				set["OS/2"] = bts(pl.OS2)
			}
			return d, set
		}
		d = &FontDesc{Kind: "tt", Upem: 1000, Post: 3, Loca: r.Intn(2)}
		for i := 0; i < pl.N; i++ {
			d.Glyphs = append(d.Glyphs, fb.Glyph{Contours: poly(r, i), Adv: 500 + i})
		}
		for tag, v := range pl.T {
			if 0 < len(v) {
				set[tag] = bts(v)
			}
		}
		return d, set
	}
	set["head"] = genHead(r, d.Loca)
	if tt {
		set["maxp"] = append(fb.Maxp(true, n, nil)[:6], words(r, 13).B...)
	}
	k := 1 + r.Intn(n)
	set["hhea"] = genXhea(r, k, false)
	set["hmtx"] = words(r, k+n).B
	if r.Intn(2) == 0 {
		k := 1 + r.Intn(n)
		set["vhea"] = genXhea(r, k, true)
		if r.Intn(8) != 0 {
			set["vmtx"] = words(r, k+n).B
		}
	}
	if r.Intn(4) != 0 {
		set["OS/2"] = genOS2(r)
	}
	set["post"] = genPostTable(r, tt, n)
	set["name"] = genName(r)
	if r.Intn(4) == 0 {
		tag := fixedTags[r.Intn(len(fixedTags))]
		if _, ok := set[tag]; ok {
			set[tag] = spoil(r, set[tag])
		}
	}
	return d, set
}

func u32w(v uint32) []int { return []int{int(v >> 16), int(v & 0xFFFF)} }

func dateWords(t time.Time) []int {
	v := uint64(t.Unix() + 2082844800)
	return []int{int(v >> 48), int(v >> 32 & 0xFFFF), int(v >> 16 & 0xFFFF), int(v & 0xFFFF)}
}

func flagWord(f [16]bool) (v int) {
	for i, x := range f {
		if x {
			v |= 1 << i
		}
	}
	return
}

func cat(vs ...[]int) []int {
	o := []int{}
	for _, v := range vs {
		o = append(o, v...)
	}
	return o
}

func runesOf(s string) []int {
	v := []int{}
	for _, r := range s {
		v = append(v, int(r))
	}
	return v
}

// fieldsOf lists the exposed values in the order of the format documents.
func fieldsOf(s *font.SFNT) M {
	m := M{"vhea": []int{}, "os2": []int{}, "hhea": []int{}, "post": []int{}, "names": []M{}, "lang": [][]int{}}
	h := s.Head
	m["head"] = cat(u32w(h.FontRevision), []int{flagWord(h.Flags), int(h.UnitsPerEm)}, dateWords(h.Created), dateWords(h.Modified),
		[]int{int(h.XMin), int(h.YMin), int(h.XMax), int(h.YMax), flagWord(h.MacStyle), int(h.LowestRecPPEM), int(h.FontDirectionHint), int(h.IndexToLocFormat), int(h.GlyphDataFormat)})
	x := s.Maxp
	m["maxp"] = cat(u32w(x.Version), []int{int(x.NumGlyphs), int(x.MaxPoints), int(x.MaxContours), int(x.MaxCompositePoints), int(x.MaxCompositeContours), int(x.MaxZones), int(x.MaxTwilightPoints), int(x.MaxStorage),
		int(x.MaxFunctionDefs), int(x.MaxInstructionDefs), int(x.MaxStackElements), int(x.MaxSizeOfInstructions), int(x.MaxComponentElements), int(x.MaxComponentDepth)})
	if e := s.Hhea; e != nil {
		m["hhea"] = []int{int(e.Ascender), int(e.Descender), int(e.LineGap), int(e.AdvanceWidthMax), int(e.MinLeftSideBearing), int(e.MinRightSideBearing), int(e.XMaxExtent), int(e.CaretSlopeRise), int(e.CaretSlopeRun), int(e.CaretOffset), int(e.MetricDataFormat), int(e.NumberOfHMetrics)}
	}
	if e := s.Vhea; e != nil {
		m["vhea"] = []int{int(e.Ascender), int(e.Descender), int(e.LineGap), int(e.AdvanceHeightMax), int(e.MinTopSideBearing), int(e.MinBottomSideBearing), int(e.YMaxExtent), int(e.CaretSlopeRise), int(e.CaretSlopeRun), int(e.CaretOffset), int(e.MetricDataFormat), int(e.NumberOfVMetrics)}
	}
	if o := s.OS2; o != nil {
		m["os2"] = cat([]int{int(o.Version), int(o.XAvgCharWidth), int(o.UsWeightClass), int(o.UsWidthClass), int(o.FsType), int(o.YSubscriptXSize), int(o.YSubscriptYSize), int(o.YSubscriptXOffset), int(o.YSubscriptYOffset),
			int(o.YSuperscriptXSize), int(o.YSuperscriptYSize), int(o.YSuperscriptXOffset), int(o.YSuperscriptYOffset), int(o.YStrikeoutSize), int(o.YStrikeoutPosition), int(o.SFamilyClass),
			int(o.BFamilyType), int(o.BSerifStyle), int(o.BWeight), int(o.BProportion), int(o.BContrast), int(o.BStrokeVariation), int(o.BArmStyle), int(o.BLetterform), int(o.BMidline), int(o.BXHeight)},
			u32w(o.UlUnicodeRange1), u32w(o.UlUnicodeRange2), u32w(o.UlUnicodeRange3), u32w(o.UlUnicodeRange4), ints(o.AchVendID[:]),
			[]int{int(o.FsSelection), int(o.UsFirstCharIndex), int(o.UsLastCharIndex), int(o.STypoAscender), int(o.STypoDescender), int(o.STypoLineGap), int(o.UsWinAscent), int(o.UsWinDescent)},
			u32w(o.UlCodePageRange1), u32w(o.UlCodePageRange2), []int{int(o.SxHeight), int(o.SCapHeight), int(o.UsDefaultChar), int(o.UsBreakChar), int(o.UsMaxContent), int(o.UsLowerOpticalPointSize), int(o.UsUpperOpticalPointSize)})
	}
	if p := s.Post; p != nil {
		a := p.ItalicAngle * 65536
		aw := []int{-1, -1}
		if a == math.Trunc(a) {
			aw = u32w(uint32(int32(a)))
		}
		m["post"] = cat(aw, []int{int(p.UnderlinePosition), int(p.UnderlineThickness)}, u32w(p.IsFixedPitch), u32w(p.MinMemType42), u32w(p.MaxMemType42), u32w(p.MinMemType1), u32w(p.MaxMemType1))
	}
	if s.Name != nil {
		names := []M{}
		for _, r := range s.Name.NameRecord {
			names = append(names, M{"r": []int{int(r.Platform), int(r.Encoding), int(r.Language), int(r.Name)}, "v": ints(r.Value), "s": runesOf(r.String())})
		}
		m["names"] = names
		lang := [][]int{}
		for _, l := range s.Name.LangTag {
			lang = append(lang, runesOf(l.String()))
		}
		m["lang"] = lang
	}
	return m
}

func runTables(c *ctx) {
	var file []byte
	tt := true
	n, loc := 0, 0
	raw := map[string][]byte{}
	if c.r.Intn(60) == 0 && len(rawPlans) <= c.i {
		path := realFonts[c.r.Intn(len(realFonts))]
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		file = b
		tt = string(b[:4]) != "OTTO"
		for tag, v := range rawTables(b) {
			raw[tag] = v
		}
		n, loc = int(raw["maxp"][4])<<8|int(raw["maxp"][5]), int(raw["head"][51])
	} else {
		d, set := genTables(c)
		tt = d.Kind == "tt"
		n, loc = d.N(), d.Loca
		ts := d.Tables()
		for tag, v := range set {
			ts = fb.Set(ts, tag, v)
		}
		file = fb.SFNT(d.Version(), fb.SortTables(ts), fb.Layout{})
		for _, t := range ts {
			raw[t.Tag] = t.Data
			if t.Tag == "head" && 12 <= len(t.Data) {
				raw[t.Tag] = rawTables(file)["head"]
			}
		}
	}
	t := M{}
	for _, tag := range fixedTags {
		if b, ok := raw[tag]; ok {
			t[tag] = ints(b)
		}
	}
	var s *font.SFNT
	var err error
	var f M = M{"head": []int{}, "maxp": []int{}, "hhea": []int{}, "vhea": []int{}, "os2": []int{}, "post": []int{}, "names": []M{}, "lang": [][]int{}}
	p := guard(func() {
		s, err = font.ParseSFNT(file, 0)
		if err == nil {
			f = fieldsOf(s)
		}
	})
	c.ev(M{"op": "font", "tt": tt, "n": n, "loc": loc, "t": t, "err": errStr(err), "panic": p, "f": f})
	if err != nil || p != "" {
		return
	}
	gs := []int{0, n - 1, n, n + 1, 65535}
	if n < 20 {
		for g := 1; g < n-1; g++ {
			gs = append(gs, g)
		}
	} else {
		for i := 0; i < 12; i++ {
			gs = append(gs, c.r.Intn(n))
		}
	}
	nms := map[string]bool{"nosuchname": true, "A": true, ".notdef": true, "": true}
	for _, g := range gs {
		if g < 0 || 65535 < g {
			continue
		}
		m := M{"op": "metric", "g": g, "adv": 0, "lsb": 0, "vadv": 0, "tsb": 0}
		m["panic"] = guard(func() {
			m["adv"], m["vadv"] = int(s.GlyphAdvance(uint16(g))), int(s.GlyphVerticalAdvance(uint16(g)))
			m["lsb"] = int(s.Hmtx.LeftSideBearing(uint16(g)))
			if s.Vmtx != nil {
				m["tsb"] = int(s.Vmtx.TopSideBearing(uint16(g)))
			}
		})
		c.ev(m)
		nm := ""
		m = M{"op": "gname", "g": g}
		m["panic"] = guard(func() { nm = s.GlyphName(uint16(g)) })
		m["nm"] = ints([]byte(nm))
		nms[nm] = true
		if c.r.Intn(4) == 0 {
			nms[nm+"x"] = true
		}
		c.ev(m)
	}
	for _, nm := range sortedNames(nms) {
		m := M{"op": "find", "nm": ints([]byte(nm)), "g": 0}
		m["panic"] = guard(func() { m["g"] = int(s.FindGlyphName(nm)) })
		c.ev(m)
	}
	m := M{"op": "vm", "v": []int{}}
	m["panic"] = guard(func() {
		a, b, e := s.VerticalMetrics()
		m["v"] = []int{int(a), int(b), int(e)}
	})
	c.ev(m)
}

func sortedNames(m map[string]bool) []string {
	v := []string{}
	for k := range m {
		v = append(v, k)
	}
	sort.Strings(v)
	return v
}
