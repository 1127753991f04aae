package main

import (
	"math"
	"math/rand"
	"sort"
	"strconv"
	"strings"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The CFF table driver: the names of the glyphs and the values of the dictionaries of a font whose
// CFF table is given, and the table of a subset that has all glyphs.

func init() {
	checks["cff"] = &check{n: counts(300, 6000), run: runCFF}
}

type cffPlan struct {
	B []int `json:"b"`
	N int   `json:"n"`
}

// decimal gives a number as sign, digits and exponent.
func decimal(f float64) []any {
	if f == 0.0 {
		return []any{0, []int{}, 0}
	}
	neg := 0
	if f < 0.0 {
		neg, f = 1, -f
	}
	s := strconv.FormatFloat(f, 'e', -1, 32)
	if f == math.Trunc(f) && f < 1e10 {
		s = strconv.FormatFloat(f, 'e', -1, 64)
	}
	i := strings.IndexByte(s, 'e')
	if i < 0 {
		return []any{neg, []int{}, 999} // not a number
	}
	digits := []int{}
	for _, ch := range s[:i] {
		if ch != '.' {
			digits = append(digits, int(ch-'0'))
		}
	}
	e, _ := strconv.Atoi(s[i+1:])
	for 0 < len(digits) && digits[len(digits)-1] == 0 {
		digits = digits[:len(digits)-1]
	}
	return []any{neg, digits, e}
}

func same(v []int) any { return v }

// byOp lists the values of operators.
func byOp[T any](m map[int]T, f func(T) any) []any {
	ops := []int{}
	for op := range m {
		ops = append(ops, op)
	}
	sort.Ints(ops)
	l := []any{}
	for _, op := range ops {
		l = append(l, []any{op, f(m[op])})
	}
	return l
}

func decimals(fs []float64) any {
	l := []any{}
	for _, f := range fs {
		l = append(l, decimal(f))
	}
	return l
}

func floats(v []int) []float64 {
	fs := []float64{}
	for _, x := range v {
		fs = append(fs, float64(x))
	}
	return fs
}

func orEmpty(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

// genReal gives the text of a number with at most six digits.
func genReal(r *rand.Rand) string {
	d := func(n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += string(rune('0' + r.Intn(10)))
		}
		return s
	}
	s := ""
	if r.Intn(3) == 0 {
		s = "-"
	}
	switch r.Intn(7) {
	case 0:
		s += d(1+r.Intn(3)) + "." + d(1+r.Intn(3))
	case 1:
		s += "." + d(1+r.Intn(6))
	case 2:
		s += d(1+r.Intn(5)) + "."
	case 3:
		s += "0." + strings.Repeat("0", r.Intn(9)) + d(1+r.Intn(6))
	case 4:
		s += d(1+r.Intn(6)) + strings.Repeat("0", r.Intn(8))
	case 5:
		s += d(1) + "." + d(1+r.Intn(5)) + "E" + strconv.Itoa(r.Intn(14))
	case 6:
		s += d(1+r.Intn(6)) + "E-" + strconv.Itoa(r.Intn(14))
	}
	return s
}

func genOperand(r *rand.Rand, real bool) []byte {
	if real && r.Intn(2) == 0 {
		return fb.DictReal(genReal(r))
	}
	v := 0
	switch r.Intn(6) {
	case 0:
		v = r.Intn(215) - 107
	case 1:
		v = []int{107, 108, 363, 364, 1131, 1132, 1387, 1388, 32767, 32768, 40000, 65535, 65536, 1000000}[r.Intn(14)]
	case 2:
		v = -[]int{107, 108, 363, 364, 1131, 1132, 1387, 1388, 32767, 32768, 32769, 65536, 1000000}[r.Intn(13)]
	case 3:
		v = r.Intn(2400) - 1200
	case 4:
		v = []int{1000, 2000, 10000, 100000, -1000, -20000, 1000000, 30000000, 16777217, 20000001, -100000001, 2147483647}[r.Intn(12)]
	case 5:
		v = 0
	}
	if r.Intn(8) == 0 && -32768 <= v && v <= 32767 {
		return []byte{28, byte(v >> 8), byte(v)}
	}
	return fb.DictInt(v, r.Intn(8) == 0)
}

func dictOp(op int) []byte {
	if 1000 <= op {
		return []byte{12, byte(op - 1000)}
	}
	return []byte{byte(op)}
}

var cffStrOps = []int{0, 1, 1000, 2, 3, 4, 1021, 1022}
var cffTopReal = []int{1002, 1003, 1004, 1008}
var cffTopInt = []int{1001, 1005, 13, 1020}
var cffPrivOne = []int{1009, 1010, 1011, 10, 11, 1018, 20, 21}
var cffPrivMany = []int{6, 7, 8, 9, 1012, 1013}

// genTopExtra draws entries of a top dictionary; strings are numbered from 391 on.
func genTopExtra(r *rand.Rand, nstr int) []byte {
	w := &fb.W{}
	for k := r.Intn(8); 0 < k; k-- {
		switch r.Intn(8) {
		case 0, 1, 2:
			sid := r.Intn(391)
			if 0 < nstr && r.Intn(3) != 0 {
				sid = 391 + r.Intn(nstr)
			} else if r.Intn(3) == 0 {
				sid = []int{0, 1, 228, 229, 378, 379, 390}[r.Intn(7)]
			}
			w.Raw(fb.DictInt(sid, false))
			w.Raw(dictOp(cffStrOps[r.Intn(len(cffStrOps))]))
		case 3:
			w.Raw(genOperand(r, true))
			w.Raw(dictOp(cffTopReal[r.Intn(len(cffTopReal))]))
		case 4:
			w.Raw(genOperand(r, false))
			w.Raw(dictOp(cffTopInt[r.Intn(len(cffTopInt))]))
		case 5:
			for i := 0; i < 4; i++ {
				w.Raw(genOperand(r, r.Intn(3) == 0))
			}
			w.Raw(dictOp(5))
		case 6:
			if r.Intn(2) == 0 {
				for i := 0; i < 6; i++ {
					w.Raw(genOperand(r, true))
				}
				w.Raw(dictOp(1007))
			} else {
				w.Raw(fb.DictInt(2, r.Intn(2) == 0))
				w.Raw(dictOp(1006))
			}
		case 7:
			n := r.Intn(5)
			if r.Intn(6) == 0 {
				n = []int{16, 47, 48}[r.Intn(3)]
			}
			for i := 0; i < n; i++ {
				w.Raw(genOperand(r, false))
			}
			w.Raw(dictOp([]int{14, 1023}[r.Intn(2)]))
		}
	}
	return w.B
}

func genPrivExtra(r *rand.Rand) []byte {
	w := &fb.W{}
	for k := r.Intn(8); 0 < k; k-- {
		switch r.Intn(4) {
		case 0, 1:
			w.Raw(genOperand(r, true))
			w.Raw(dictOp(cffPrivOne[r.Intn(len(cffPrivOne))]))
		case 2:
			n := r.Intn(8)
			if r.Intn(8) == 0 {
				n = []int{14, 48}[r.Intn(2)]
			}
			for i := 0; i < n; i++ {
				w.Raw(genOperand(r, r.Intn(3) == 0))
			}
			w.Raw(dictOp(cffPrivMany[r.Intn(len(cffPrivMany))]))
		case 3:
			w.Raw(genOperand(r, false))
			w.Raw(dictOp([]int{1014, 1017, 1019}[r.Intn(3)]))
		}
	}
	return w.B
}

func genCFFTable(r *rand.Rand) ([]byte, int) {
	c := &fb.CFF{Name: "Table", OffSize: r.Intn(5), StdStrings: stdIndex}
	n := 1 + r.Intn(8)
	switch r.Intn(12) {
	case 0:
		n = []int{228, 229, 255, 256, 257, 258, 300}[r.Intn(7)]
	case 1:
		n = 1 + r.Intn(40)
	}
	for i := 0; i < n; i++ {
		cs := []byte{14}
		if r.Intn(3) == 0 {
			cs = append(fb.CSNum(r.Intn(300)-100), 14)
		}
		c.CharStrings = append(c.CharStrings, cs)
	}
	for i := r.Intn(4); 0 < i; i-- {
		c.GSubrs = append(c.GSubrs, []byte{11})
	}
	nstr := r.Intn(4)
	for i := 0; i < nstr; i++ {
		c.Strings = append(c.Strings, []string{"Copyright 2024", "My Family", "Bold", "A", "1.234", "", "Naïve", "x", strings.Repeat("long ", 60)}[r.Intn(9)])
	}
	c.TopExtra = genTopExtra(r, nstr)
	nfd := 1
	if r.Intn(4) == 0 {
		nfd = 1 + r.Intn(3)
		c.FDFmt = []int{0, 3}[r.Intn(2)]
		last := 0
		for i := 0; i < n; i++ {
			if r.Intn(3) == 0 {
				last = r.Intn(nfd)
			}
			c.FD = append(c.FD, last)
		}
		c.CharsetFmt = r.Intn(3)
	} else if n != 1 && r.Intn(8) != 0 || 229 < n {
		c.CharsetFmt = r.Intn(3)
		c.Names = []string{".notdef"}
		pool := []string{"A", "B", "C", "D", "Z", "a", "b", "space", "exclam", "Regular", "Semibold", ".notdef"}
		run := r.Intn(2) == 0
		std := 1 + r.Intn(380)
		for i := 1; i < n; i++ {
			switch {
			case run && r.Intn(20) != 0:
				c.Names = append(c.Names, "g"+strconv.Itoa(i))
			case r.Intn(4) == 0:
				c.Names = append(c.Names, "n"+strconv.Itoa(r.Intn(10)))
			case r.Intn(3) == 0 && 0 < nstr:
				c.Names = append(c.Names, c.Strings[r.Intn(nstr)])
			default:
				c.Names = append(c.Names, pool[r.Intn(len(pool))])
			}
		}
		if r.Intn(4) == 0 && n < 300 {
			// runs of standard strings: names are looked up by their number here
			c.StdStrings = map[string]int{".notdef": 0}
			for i := 1; i < n; i++ {
				c.Names[i] = "std" + strconv.Itoa(i)
				if std++; 390 < std || r.Intn(6) == 0 {
					std = 1 + r.Intn(390)
				}
				c.StdStrings[c.Names[i]] = std
			}
		}
	}
	for i := 0; i < nfd; i++ {
		c.PrivExtras = append(c.PrivExtras, genPrivExtra(r))
		l := [][]byte{}
		for j := r.Intn(3); 0 < j; j-- {
			l = append(l, []byte{11})
		}
		c.LSubrs = append(c.LSubrs, l)
	}
	b := c.Bytes()
	if r.Intn(10) == 0 {
		b = spoil(r, b)
	}
	return b, n
}

func runCFF(c *ctx) {
	r := c.r
	var b []byte
	var n int
	var pl cffPlan
	if c.plan(&pl) {
		b, n = bts(pl.B), pl.N
	} else {
		b, n = genCFFTable(r)
	}
	d := &FontDesc{Kind: "cff", Upem: 1000, Post: 3, CFF: &fb.CFF{Name: "X", CharStrings: [][]byte{{14}}}}
	for i := 0; i < n; i++ {
		d.Glyphs = append(d.Glyphs, fb.Glyph{Adv: 500})
	}
	file := fb.SFNT(d.Version(), fb.Set(d.Tables(), "CFF ", b), fb.Layout{})
	var s *font.SFNT
	var err error
	m := M{"op": "cff", "b": ints(b), "n": n, "names": []any{}, "find": []any{}, "top": M{"str": []any{}, "num": []any{}, "int": []any{}}, "priv": []any{}}
	m["panic"] = guard(func() { s, err = font.ParseSFNT(file, 0) })
	m["err"] = errStr(err)
	if m["panic"] != "" || err != nil {
		c.ev(m)
		return
	}
	m["panic"] = guard(func() {
		names := []any{}
		cands := map[string]bool{".notdef": true, "A": true, "no such glyph": true}
		cid := s.CFF.TopDICT().IsCID
		for g := 0; g < n; g++ {
			nm := s.GlyphName(uint16(g))
			names = append(names, ints([]byte(nm)))
			if len(cands) < 40 || r.Intn(20) == 0 {
				cands[nm] = true
			}
		}
		if !cid {
			m["names"] = names
			find := []any{}
			list := []string{}
			for nm := range cands {
				list = append(list, nm)
			}
			sort.Strings(list)
			for _, nm := range list {
				find = append(find, []any{ints([]byte(nm)), int(s.FindGlyphName(nm))})
			}
			m["find"] = find
		}
		t := s.CFF.TopDICT()
		str, num, it := []any{}, []any{}, []any{}
		str = byOp(map[int]string{0: t.Version, 1: t.Notice, 1000: t.Copyright, 2: t.FullName, 3: t.FamilyName, 4: t.Weight, 1021: t.PostScript, 1022: t.BaseFontName, 1038: t.FontName}, func(v string) any { return ints([]byte(v)) })
		num = byOp(map[int][]float64{1002: {t.ItalicAngle}, 1003: {t.UnderlinePosition}, 1004: {t.UnderlineThickness}, 1007: t.FontMatrix[:], 5: t.FontBBox[:], 1008: {t.StrokeWidth}, 1023: floats(t.BaseFontBlend)}, decimals)
		fixed := 0
		if t.IsFixedPitch {
			fixed = 1
		}
		it = append(it, byOp(map[int][]int{1001: {fixed}, 1005: {t.PaintType}, 1006: {t.CharstringType}, 13: {t.UniqueID}, 1020: {t.SyntheticBase}, 14: orEmpty(t.XUID)}, same)...)
		if cid {
			it = append(it, byOp(map[int][]int{1031: {t.CIDFontVersion}, 1032: {t.CIDFontRevision}, 1033: {t.CIDFontType}, 1034: {t.CIDCount}, 1035: {t.UIDBase}}, same)...)
		}
		m["top"] = M{"str": str, "num": num, "int": it}
		privs := []any{}
		for g := 0; g < n; g++ {
			if !cid && 0 < g && g < n-1 || cid && 24 < g && r.Intn(10) != 0 {
				continue
			}
			p, err := s.CFF.PrivateDICT(uint16(g))
			if err != nil || p == nil {
				privs = append(privs, []any{g, M{"num": []any{}, "int": []any{[]any{1014, []int{-1}}}}})
				continue
			}
			num, it := []any{}, []any{}
			num = byOp(map[int][]float64{6: p.BlueValues, 7: p.OtherBlues, 8: p.FamilyBlues, 9: p.FamilyOtherBlues, 1009: {p.BlueScale}, 1010: {p.BlueShift}, 1011: {p.BlueFuzz}, 10: {p.StdHW}, 11: {p.StdVW}, 1012: p.StemSnapH, 1013: p.StemSnapV,
				1018: {p.ExpansionFactor}, 20: {p.DefaultWidthX}, 21: {p.NominalWidthX}}, decimals)
			bold := 0
			if p.ForceBold {
				bold = 1
			}
			it = append(it, byOp(map[int][]int{1014: {bold}, 1017: {p.LanguageGroup}, 1019: {p.InitialRandomSeed}}, same)...)
			privs = append(privs, []any{g, M{"num": num, "int": it}})
		}
		m["priv"] = privs
	})
	c.ev(m)
	if m["panic"] != "" {
		return
	}
	// written: the table of a subset that has all glyphs
	w := M{"op": "written", "b": []int{}, "err": ""}
	w["panic"] = guard(func() {
		ids := []uint16{}
		for g := 0; g < n; g++ {
			ids = append(ids, uint16(g))
		}
		sub, err := s.Subset(ids, font.SubsetOptions{Tables: font.KeepAllTables})
		if err == nil {
			w["b"] = ints(rawTables(sub.Write())["CFF "])
		} else {
			w["err"] = errStr(err)
		}
	})
	c.ev(w)
}
