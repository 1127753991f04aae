package main

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	font "github.com/tdewolff/font"
)

func init() {
	checks["afm"] = &check{n: counts(700, 12000), run: runAfm}
	checks["afmreal"] = &check{n: counts(6, 100), run: runAfmReal}
}

var afmNames = strings.Fields(`space exclam quotedbl numbersign dollar percent ampersand quotesingle parenleft parenright asterisk plus comma hyphen period slash zero one two three four five six seven eight nine
colon semicolon less equal greater question at bracketleft backslash bracketright asciicircum underscore grave braceleft bar braceright asciitilde exclamdown cent sterling yen section copyright
registered degree questiondown Agrave Aacute AE Ccedilla Eth Ntilde multiply Oslash Thorn germandbls adieresis aring ae eth divide oslash thorn ydieresis OE oe Scaron florin endash emdash
quoteleft quoteright quotedblleft quotedblright dagger bullet ellipsis Euro trademark`)

func init() {
	for c := 'A'; c <= 'Z'; c++ {
		afmNames = append(afmNames, string(c), string(c+32))
	}
}

// afm reads a text and records what it is read as.
func (c *ctx) afm(b []byte) {
	codes := func(s string) []int { return ints([]byte(s)) }
	e := M{"op": "afm", "b": ints(b), "err": "", "num": M{}, "txt": M{}, "angle": 0, "bbox": []int{}, "fixed": false, "cw": []int{}, "n": 0, "c": []M{}, "kern": [][4]int{}, "lig": [][3]int{}, "q": [][2]int{}, "nk": [][3]int{}, "far": true}
	in := append([]byte{}, b...)
	e["panic"] = guard(func() {
		a, err := font.ParseAFM(in)
		if err != nil {
			e["err"] = err.Error()
			return
		}
		box := func(v [4]int16) []int { return []int{int(v[0]), int(v[1]), int(v[2]), int(v[3])} }
		e["num"] = M{"CapHeight": int(a.CapHeight), "XHeight": int(a.XHeight), "Ascender": int(a.Ascender), "Descender": int(a.Descender), "UnderlinePosition": int(a.UnderlinePosition), "UnderlineThickness": int(a.UnderlineThickness)}
		e["txt"] = M{"FontName": codes(a.FontName), "FullName": codes(a.FullName), "FamilyName": codes(a.FamilyName), "Weight": codes(a.Weight)}
		m := math.Round(1000 * a.ItalicAngle)
		if math.Abs(m) < 1e9 && math.Abs(1000*a.ItalicAngle-m) < 1e-4 {
			e["angle"] = int(m)
		} else {
			e["angle"] = -999999999
		}
		e["bbox"], e["fixed"], e["cw"] = box(a.FontBBox), a.IsFixedPitch, []int{int(a.CharWidth[0]), int(a.CharWidth[1])}
		n := int(a.NumGlyphs())
		e["n"] = n
		cs := []M{}
		for i, x := range a.CharMetrics {
			g := uint16(i)
			x0, y0, x1, y1 := a.GlyphBounds(g)
			cs = append(cs, M{"code": x.CharacterCode, "name": codes(x.Name), "q": codes(a.GlyphName(g)), "find": int(a.FindGlyphName(a.GlyphName(g))), "wx": int(x.Width), "adv": int(a.GlyphAdvance(g)), "bb": box(x.BBox), "qb": box([4]int16{x0, y0, x1, y1})})
		}
		e["c"] = cs
		kern := [][4]int{}
		for k, v := range a.KernPairs {
			kern = append(kern, [4]int{int(k[0]), int(k[1]), int(v), int(a.Kerning(k[0], k[1]))})
		}
		sort.Slice(kern, func(i, j int) bool { return fmt.Sprint(kern[i]) < fmt.Sprint(kern[j]) })
		e["kern"] = kern
		lig := [][3]int{}
		for k, v := range a.Ligatures {
			lig = append(lig, [3]int{int(k[0]), int(k[1]), int(v)})
		}
		e["lig"] = lig
		q := [][2]int{}
		for r := rune(30); r < 256; r++ {
			q = append(q, [2]int{int(r), int(a.GlyphIndex(r))})
		}
		for _, r := range []rune{338, 339, 352, 402, 8211, 8212, 8216, 8217, 8220, 8221, 8224, 8226, 8230, 8364, 8482, 0, -1, 0x10FFFF, 0x263A} {
			q = append(q, [2]int{int(r), int(a.GlyphIndex(r))})
		}
		e["q"] = q
		nk := [][3]int{}
		for i := 0; i < 40; i++ {
			l, r := c.r.Intn(n+2), c.r.Intn(n+2)
			nk = append(nk, [3]int{l, r, int(a.Kerning(uint16(l), uint16(r)))})
		}
		e["nk"] = nk
		for _, g := range []int{n, n + 1, 65535} {
			if g < n || 65535 < g {
				continue
			}
			x0, y0, x1, y1 := a.GlyphBounds(uint16(g))
			if a.GlyphName(uint16(g)) != "" || x0 != 0 || y0 != 0 || x1 != 0 || y1 != 0 || !a.IsFixedPitch && a.GlyphAdvance(uint16(g)) != 0 {
				e["far"] = false
			}
		}
		if a.FindGlyphName("no such name") != 0 || a.FindGlyphName("") != 0 {
			e["far"] = false
		}
	})
	e["kept"] = string(in) == string(b)
	c.ev(e)
}

func (c *ctx) afmNumber(m int) string {
	s := ""
	if m < 0 {
		s, m = "-", -m
	}
	s += strconv.Itoa(m / 1000)
	if m%1000 != 0 || c.r.Intn(6) == 0 {
		f := fmt.Sprintf(".%03d", m%1000)
		for 2 < len(f) && f[len(f)-1] == '0' && c.r.Intn(2) == 0 {
			f = f[:len(f)-1]
		}
		s += f
	}
	return s
}

func (c *ctx) afmValue(lo, hi int) string {
	v := lo + c.r.Intn(hi-lo+1)
	if c.r.Intn(3) != 0 {
		v *= 1000
	} else {
		v = 1000*v + c.r.Intn(1000)
	}
	return c.afmNumber(v)
}

func (c *ctx) afmText() []string {
	r := c.r
	pick := func(v ...string) string { return v[r.Intn(len(v))] }
	sp := func() string { return pick(" ", " ", " ", " ", "  ", "\t", " \t ") }
	num := c.afmValue
	globals := []string{}
	g := func(f string, v ...any) {
		if r.Intn(5) != 0 {
			globals = append(globals, fmt.Sprintf(f, v...)+pick("", "", "", " ", "\t "))
		}
	}
	g("FontName%s%s", sp(), pick("A", "Some-Font", "x1"))
	g("FullName%s%s", sp(), pick("A", "Some Font Bold Italic", "x  y"))
	g("FamilyName%s%s", sp(), pick("A", "Some Font", "x1"))
	g("Weight%s%s", sp(), pick("Bold", "Semi Bold", "Medium"))
	g("ItalicAngle%s%s", sp(), num(-30, 30))
	if r.Intn(4) == 0 {
		g("IsFixedPitch%s%s", sp(), "true")
		if r.Intn(2) == 0 {
			g("CharWidth %s %s", num(0, 1000), num(0, 3))
		}
	} else {
		g("IsFixedPitch%s%s", sp(), "false")
	}
	g("FontBBox%s%s%s%s%s%s%s%s", sp(), num(-1000, 100), sp(), num(-1000, 0), sp(), num(0, 3000), sp(), num(0, 32000))
	for _, k := range []string{"CapHeight", "XHeight", "Ascender", "UnderlineThickness"} {
		g("%s%s%s", k, sp(), num(0, 2000))
	}
	g("UnderlinePosition%s%s", sp(), num(-300, 100))
	g("Descender%s%s", sp(), num(-3000, 100))
	g("Comment Version EndKernData 4")
	g("Notice Copyright (c) ; all rights reserved")
	g("EncodingScheme AdobeStandardEncoding")
	g("StdHW 76")
	r.Shuffle(len(globals), func(i, j int) { globals[i], globals[j] = globals[j], globals[i] })

	n := r.Intn(30)
	if r.Intn(20) == 0 {
		n = 0
	}
	perm := r.Perm(len(afmNames))
	names := []string{}
	for i := 0; i < n; i++ {
		x := afmNames[perm[i]]
		if r.Intn(60) == 0 {
			x = pick(".notdef", "a109", "foo.alt", "uni0041", "Delta", "fi", "Aogonek")
		}
		names = append(names, x)
	}
	lines := []string{"StartFontMetrics " + pick("2.0", "3.0", "4.1")}
	cut := len(globals)
	if r.Intn(3) == 0 {
		cut = r.Intn(cut + 1)
	}
	lines = append(lines, globals[:cut]...)
	if r.Intn(15) != 0 {
		lines = append(lines, fmt.Sprintf("StartCharMetrics %d", n))
		for i := 0; i < n; i++ {
			code := fmt.Sprintf("C%s%d", sp(), r.Intn(257)-1)
			if r.Intn(6) == 0 {
				code = fmt.Sprintf(pick("CH%s<%02x>", "CH%s<%X>", "CH%s<%04X>"), sp(), r.Intn(4000))
			}
			parts := []string{"N" + sp() + names[i]}
			if r.Intn(8) != 0 {
				parts = append(parts, "WX"+sp()+num(0, pickInt(r.Intn(4), 1000, 300, 2000, 65000)))
			}
			if r.Intn(6) == 0 {
				parts = append(parts, "WY "+num(0, 100))
			}
			if r.Intn(8) != 0 {
				parts = append(parts, "B"+sp()+num(-200, 100)+sp()+num(-300, 10)+sp()+num(0, 1000)+sp()+num(-20, 1000))
			}
			for r.Intn(8) == 0 {
				parts = append(parts, "L"+sp()+names[r.Intn(n)]+sp()+names[r.Intn(n)])
			}
			if r.Intn(4) == 0 {
				r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			} else if 1 < len(parts) {
				parts[0], parts[1] = parts[1], parts[0]
			}
			lines = append(lines, code+sp()+";"+sp()+strings.Join(parts, sp()+";"+sp())+pick(" ;", " ;", " ; ", "", " "))
		}
		lines = append(lines, "EndCharMetrics")
	}
	lines = append(lines, globals[cut:]...)
	if r.Intn(4) != 0 && 0 < n {
		lines = append(lines, "StartKernData")
		if r.Intn(3) == 0 {
			lines = append(lines, "StartTrackKern 2", "TrackKern -1 14 0 72 1.89", "TrackKern 1 1 2 3 4", "EndTrackKern")
		}
		type pair struct{ l, r string }
		seen := map[pair]bool{}
		kp := []string{}
		for k := r.Intn(50); 0 < k; k-- {
			p := pair{names[r.Intn(n)], names[r.Intn(n)]}
			if seen[p] {
				continue
			}
			seen[p] = true
			kp = append(kp, "KPX"+sp()+p.l+sp()+p.r+sp()+num(-200, pickInt(r.Intn(2), 100, 32000)))
		}
		lines = append(lines, fmt.Sprintf(pick("StartKernPairs %d", "StartKernPairs0 %d"), len(kp)))
		lines = append(append(lines, kp...), "EndKernPairs", "EndKernData")
	}
	if r.Intn(6) == 0 {
		lines = append(lines, "StartComposites 1", "CC Aacute 2 ; PCC A 0 0 ; PCC acute 194 214 ;", "EndComposites")
	}
	lines = append(lines, "EndFontMetrics")
	if r.Intn(5) == 0 { // damage
		i := r.Intn(len(lines))
		w := strings.Fields(lines[i])
		switch r.Intn(8) {
		case 0:
			lines = append(lines[:i], lines[i+1:]...)
		case 1:
			lines = lines[:i]
		case 2:
			lines = append(lines[:i+1], lines[i:]...)
		case 3:
			if 0 < len(w) {
				k := r.Intn(len(w))
				w[k] = pick("", "x", "-1", "1e3", ";", "N", "nosuchname", "99999999999", "-", ".", "70000", "<>", "<41", "-5.", "Start")
				lines[i] = strings.Join(w, " ")
			}
		case 4:
			b := []byte(lines[i])
			if 0 < len(b) {
				b[r.Intn(len(b))] ^= 1 << r.Intn(8)
			}
			lines[i] = string(b)
		case 5:
			for k, l := range lines {
				if strings.HasPrefix(l, "Start") && r.Intn(3) == 0 {
					if f := strings.Fields(l); 1 < len(f) {
						lines[k] = f[0] + " " + pick("-1", "-1000000", "0", "1", "65535", "65536", "2000000000", "99999999999999999999", "x", "1.5", "")
					}
				}
			}
		case 6:
			lines[i] = lines[i][:r.Intn(len(lines[i])+1)]
		case 7:
			j := r.Intn(len(lines))
			lines[i], lines[j] = lines[j], lines[i]
		}
	}
	return lines
}

func pickInt(i int, v ...int) int { return v[i%len(v)] }

func runAfm(c *ctx) {
	var plan struct {
		B []int `json:"b"`
	}
	if c.plan(&plan) {
		b := make([]byte, len(plan.B))
		for i, x := range plan.B {
			b[i] = byte(x)
		}
		c.afm(b)
		return
	}
	lines := c.afmText()
	eol := []string{"\n", "\r\n", "\r", "\n"}[c.r.Intn(4)]
	s := strings.Join(lines, eol)
	if c.r.Intn(4) != 0 {
		s += eol
	}
	c.afm([]byte(s))
}

// runAfmReal reads a built-in file, cut down to some of its kerning pairs in the quick tier.
func runAfmReal(c *ctx) {
	fs, _ := filepath.Glob("/repo/resources/pdfcorefonts/*.afm")
	if len(fs) == 0 {
		return
	}
	sort.Strings(fs)
	b, err := os.ReadFile(fs[c.r.Intn(len(fs))])
	if err != nil {
		return
	}
	lines := strings.Split(strings.ReplaceAll(string(b), "\r\n", "\n"), "\n")
	kept := []string{}
	kp, at := 0, -1
	for _, l := range lines {
		if strings.HasPrefix(l, "KPX") {
			if c.r.Intn(8) != 0 {
				continue
			}
			kp++
		} else if strings.HasPrefix(l, "StartKernPairs") {
			at = len(kept)
		}
		kept = append(kept, l)
	}
	if 0 <= at {
		kept[at] = fmt.Sprintf("StartKernPairs %d", kp)
	}
	eol := []string{"\n", "\r\n", "\r"}[c.r.Intn(3)]
	c.afm([]byte(strings.Join(kept, eol)))
}
