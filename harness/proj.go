package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	font "github.com/tdewolff/font"
)

// ---- path recording

// pathRec records what is drawn; closing when no contour is open draws nothing.
type pathRec struct {
	sb   strings.Builder
	open bool
}

func num(v float64) string {
	if v == 0 {
		v = 0 // no negative zero
	}
	return strconv.FormatFloat(v, 'g', -1, 64)
}
func (p *pathRec) w(op string, vs ...float64) {
	if op == "Z" {
		if !p.open {
			return
		}
		p.open = false
	} else {
		p.open = true
	}
	p.sb.WriteString(op)
	for i, v := range vs {
		if i > 0 {
			p.sb.WriteByte(' ')
		}
		p.sb.WriteString(num(v))
	}
}
func (p *pathRec) MoveTo(x, y float64)             { p.w("M", x, y) }
func (p *pathRec) LineTo(x, y float64)             { p.w("L", x, y) }
func (p *pathRec) QuadTo(a, b, x, y float64)       { p.w("Q", a, b, x, y) }
func (p *pathRec) CubeTo(a, b, c, d, x, y float64) { p.w("C", a, b, c, d, x, y) }
func (p *pathRec) Close()                          { p.w("Z") }

func token(s string) string {
	if len(s) <= 48 {
		return s
	}
	h := sha1.Sum([]byte(s))
	return "#" + hex.EncodeToString(h[:8])
}

func digest(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

func hashBytes(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:8])
}

// guard runs f and reports a panic as a string.
func guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint("panic: ", r)
			if len(p) > 200 {
				p = p[:200]
			}
		}
	}()
	f()
	return ""
}

// ---- projection of a font object to the abstract state of the specification

type GlyphP struct {
	Path string `json:"p"`
	Box  []int  `json:"b"`
	Adv  int    `json:"a"`
	Lsb  int    `json:"l"`
	VAdv int    `json:"v"`
	Tsb  int    `json:"t"`
	Name string `json:"m"`
	Ins  string `json:"i"`
	Comp []int  `json:"c"` // direct components, read from the raw glyf table
}

type FontP struct {
	Kind string   `json:"k"`
	N    int      `json:"n"`
	Ids  []int    `json:"ids"`
	G    []GlyphP `json:"g"`
	Cm   [][2]int `json:"cm"`
	Uni  [][]int  `json:"uni"`
	Kern [][3]int `json:"kern"`
	KTab [][3]int `json:"ktab"` // the same as read from the bytes of the table
	KSet bool     `json:"kset"` // whether all of that is settled
	Tabs []string `json:"tabs"`
	VM   []int    `json:"vm"`
	Upem int      `json:"upem"`
	Meta M        `json:"meta"`
	Dns  bool     `json:"dense"` // ids are 0..n-1
	Tok  M        `json:"tok"`   // digests of the raw tables
	Find [][2]any `json:"find"`  // names looked up
	Fail string   `json:"fail"`  // panic during projection
	Nm   bool     `json:"nm"`    // has glyph names
	Hm   bool     `json:"hm"`    // has horizontal metrics
	Vt   bool     `json:"vt"`    // has vertical metrics
	Lay  []int    `json:"lay"`   // location formats, numbers of metrics and glyphs
}

// probe says what to look at.
type probe struct {
	ids   []int // nil: all glyphs
	runes []int
	find  bool
}

func glyphPath(s *font.SFNT, gid int) string {
	p := &pathRec{}
	if err := s.GlyphPath(p, uint16(gid), 0, 0, 0, 1, font.NoHinting); err != nil {
		return "error"
	}
	return token(p.sb.String())
}

func project(s *font.SFNT, pr probe) *FontP {
	f := &FontP{Ids: []int{}, G: []GlyphP{}, Cm: [][2]int{}, Uni: [][]int{}, Kern: [][3]int{}, KTab: [][3]int{}, Lay: []int{}, Tabs: []string{}, VM: []int{}, Find: [][2]any{}, Meta: M{}, Tok: M{}}
	f.Fail = guard(func() {
		f.Kind = "tt"
		if s.IsCFF {
			f.Kind = "cff"
		}
		f.N = int(s.NumGlyphs())
		f.Upem = int(s.UnitsPerEm())
		if pr.ids == nil {
			for i := 0; i < f.N; i++ {
				f.Ids = append(f.Ids, i)
			}
		} else {
			f.Ids = pr.ids
		}
		f.Dns = len(f.Ids) == f.N
		f.Hm = s.Hmtx != nil
		f.Vt = s.Vmtx != nil
		for _, i := range f.Ids {
			g := GlyphP{Path: glyphPath(s, i), Box: []int{}}
			x0, y0, x1, y1 := s.GlyphBounds(uint16(i))
			g.Box = append(g.Box, int(x0), int(y0), int(x1), int(y1))
			g.Adv = int(s.GlyphAdvance(uint16(i)))
			if s.Hmtx != nil {
				g.Lsb = int(s.Hmtx.LeftSideBearing(uint16(i)))
			}
			if s.Head != nil || s.Vmtx != nil {
				g.VAdv = int(s.GlyphVerticalAdvance(uint16(i)))
			}
			if s.Vmtx != nil {
				g.Tsb = int(s.Vmtx.TopSideBearing(uint16(i)))
			}
			g.Name = s.GlyphName(uint16(i))
			if g.Name != "" {
				f.Nm = true
			}
			if s.IsTrueType && s.Glyf != nil {
				if c, err := s.Glyf.Contour(uint16(i)); err == nil {
					g.Ins = token(hex.EncodeToString(c.Instructions))
				}
			}
			g.Comp = rawComps(s.Tables, s.Loca != nil && s.Head != nil, i)
			f.G = append(f.G, g)
			u := []int{}
			for _, r := range s.GlyphToUnicode(uint16(i)) {
				u = append(u, int(r))
			}
			f.Uni = append(f.Uni, u)
		}
		for _, r := range pr.runes {
			if g := s.GlyphIndex(rune(r)); g != 0 {
				f.Cm = append(f.Cm, [2]int{r, int(g)})
			}
		}
		if s.Kern != nil && len(f.Ids) <= 300 {
			for _, l := range f.Ids {
				for _, r := range f.Ids {
					if v := s.Kerning(uint16(l), uint16(r)); v != 0 {
						f.Kern = append(f.Kern, [3]int{l, r, int(v)})
					}
				}
			}
		}
		f.KTab, f.KSet = kernOf(s.Tables["kern"], f.Ids)
		for t := range s.Tables {
			f.Tabs = append(f.Tabs, t)
		}
		sort.Strings(f.Tabs)
		if s.Hhea != nil && s.OS2 != nil {
			a, d, l := s.VerticalMetrics()
			f.VM = []int{int(a), int(d), int(l)}
		}
		f.Meta = metaOf(s)
		f.Lay = []int{-1, -1, -1, -1, -1}
		if s.Head != nil {
			f.Lay[0] = int(s.Head.IndexToLocFormat)
		}
		if s.Loca != nil && s.IsTrueType {
			f.Lay[1] = int(s.Loca.Format)
		}
		if s.Hhea != nil {
			f.Lay[2] = int(s.Hhea.NumberOfHMetrics)
		}
		if s.Vhea != nil {
			f.Lay[3] = int(s.Vhea.NumberOfVMetrics)
		}
		if s.Maxp != nil {
			f.Lay[4] = int(s.Maxp.NumGlyphs)
		}
		for t, b := range s.Tables {
			f.Tok[t] = hashBytes(b)
		}
		if pr.find {
			for i := range f.G {
				n := f.G[i].Name
				if n == "" {
					continue // no name
				}
				f.Find = append(f.Find, [2]any{n, int(s.FindGlyphName(n))})
			}
			f.Find = append(f.Find, [2]any{"no such name", int(s.FindGlyphName("no such name"))})
		}
	})
	return f
}

// rawComps reads the components of a composite glyph from the raw tables.
func rawComps(t map[string][]byte, ok bool, gid int) []int {
	cs := []int{}
	glyf, loca, head := t["glyf"], t["loca"], t["head"]
	if !ok || glyf == nil || len(head) < 54 {
		return cs
	}
	u16 := func(b []byte, p int) int {
		if p < 0 || len(b) < p+2 {
			return -1
		}
		return int(b[p])<<8 | int(b[p+1])
	}
	at := func(i int) int {
		if head[51] == 0 {
			return 2 * u16(loca, 2*i)
		}
		return u16(loca, 4*i)<<16 | u16(loca, 4*i+2)
	}
	a, b := at(gid), at(gid+1)
	if a < 0 || b <= a || len(glyf) < b {
		return cs
	}
	g := glyf[a:b]
	if u16(g, 0) < 0x8000 {
		return cs
	}
	for p := 10; p+4 <= len(g); {
		f := u16(g, p)
		cs = append(cs, u16(g, p+2))
		p += 6
		if f&1 != 0 {
			p += 2
		}
		if f&8 != 0 {
			p += 2
		} else if f&0x40 != 0 {
			p += 4
		} else if f&0x80 != 0 {
			p += 8
		}
		if f&0x20 == 0 {
			break
		}
	}
	return cs
}

// metaOf covers the font-wide values, per table.
func metaOf(s *font.SFNT) M {
	m := M{"head": "", "hhea": "", "vhea": "", "post": "", "os2": "", "cff": "", "priv": "", "name": "", "maxp": []int{}, "range": []int{}, "fixed": 0, "mem": []int{}}
	if s.Head != nil {
		h := *s.Head
		flags := h.Flags
		flags[11] = false // WOFF2 sets it
		m["head"] = digest([]any{h.FontRevision, flags, h.UnitsPerEm, h.Created.Unix(), h.XMin, h.YMin, h.XMax, h.YMax, h.MacStyle, h.LowestRecPPEM, h.FontDirectionHint, h.GlyphDataFormat})
	}
	if s.Hhea != nil {
		h := *s.Hhea
		h.NumberOfHMetrics = 0
		m["hhea"] = digest(h)
	}
	if s.Vhea != nil {
		h := *s.Vhea
		h.NumberOfVMetrics = 0
		m["vhea"] = digest(h)
	}
	if s.Maxp != nil {
		x := s.Maxp
		m["maxp"] = []int{int(x.MaxPoints), int(x.MaxContours), int(x.MaxCompositePoints), int(x.MaxCompositeContours), int(x.MaxZones), int(x.MaxTwilightPoints), int(x.MaxStorage), int(x.MaxFunctionDefs),
			int(x.MaxInstructionDefs), int(x.MaxStackElements), int(x.MaxSizeOfInstructions), int(x.MaxComponentElements), int(x.MaxComponentDepth)}
	}
	if s.Post != nil {
		m["post"] = digest([]any{s.Post.ItalicAngle, s.Post.UnderlinePosition, s.Post.UnderlineThickness})
		m["fixed"] = int(min(s.Post.IsFixedPitch, 1))
		mem := []int{} // halves, the lower one first
		for _, v := range []uint32{s.Post.MinMemType42, s.Post.MaxMemType42, s.Post.MinMemType1, s.Post.MaxMemType1} {
			mem = append(mem, int(v&0xFFFF), int(v>>16))
		}
		m["mem"] = mem
	}
	if s.OS2 != nil {
		o := *s.OS2
		bits := []int{}
		for i, v := range []uint32{o.UlUnicodeRange1, o.UlUnicodeRange2, o.UlUnicodeRange3, o.UlUnicodeRange4} {
			for j := 0; j < 32; j++ {
				if v&(1<<j) != 0 {
					bits = append(bits, 32*i+j)
				}
			}
		}
		m["range"] = bits
		if o.Version < 2 {
			o.SxHeight, o.SCapHeight = 0, 0 // not in the file
		}
		o.UlUnicodeRange1, o.UlUnicodeRange2, o.UlUnicodeRange3, o.UlUnicodeRange4 = 0, 0, 0, 0
		m["os2"] = digest(o)
	}
	if s.CFF != nil && s.CFF.TopDICT() != nil {
		t := *s.CFF.TopDICT()
		t.Charset, t.Encoding, t.CharStrings, t.PrivateOffset, t.PrivateLength, t.FDArray, t.FDSelect = 0, 0, 0, 0, 0, 0, 0
		t.UIDBase = 0
		m["cff"] = digest(t)
		if p, err := s.CFF.PrivateDICT(0); err == nil && p != nil {
			q := *p
			q.Subrs = 0
			m["priv"] = digest(q)
		}
	}
	if s.Name != nil {
		rs := []string{}
		for id := 0; id < 26; id++ {
			for _, r := range s.Name.Get(font.NameID(id)) {
				rs = append(rs, fmt.Sprint(id, r.Platform, r.Encoding, r.Language, r.String()))
			}
		}
		if 0 < len(rs) {
			m["name"] = digest(rs)
		}
	}
	return m
}

func isInt(f float64) bool { return f == math.Trunc(f) }

// kernOf reads the kerning of the glyphs from the bytes of a kern table, independently of the library.
// It is unsettled if a subtable is not of horizontal values or minima, or lists a pair twice.
func kernOf(b []byte, ids []int) ([][3]int, bool) {
	none := [][3]int{}
	u16 := func(i int) int { return int(b[i])<<8 | int(b[i+1]) }
	if 300 < len(ids) {
		return none, true // not observed
	} else if len(b) < 4 || u16(0) != 0 {
		return none, false
	}
	in := map[int]bool{}
	for _, i := range ids {
		in[i] = true
	}
	sum := map[[2]int]int{}
	p := 4
	for j := u16(2); 0 < j; j-- {
		if len(b) < p+14 || u16(p) != 0 || b[p+4] != 0 || b[p+5] != 1 && b[p+5] != 3 {
			return none, false
		}
		n := u16(p + 6)
		if len(b) < p+14+6*n || j != 1 && u16(p+2) < 14+6*n {
			return none, false
		}
		seen := map[[2]int]bool{}
		for i := 0; i < n; i++ {
			q := p + 14 + 6*i
			k := [2]int{u16(q), u16(q + 2)}
			v := int(int16(u16(q + 4)))
			if !in[k[0]] || !in[k[1]] {
				continue
			} else if seen[k] {
				return none, false
			}
			seen[k] = true
			if b[p+5] == 1 {
				sum[k] += v
			} else if sum[k] < v {
				sum[k] = v
			}
		}
		p += u16(p + 2)
	}
	t := none
	for _, l := range ids {
		for _, r := range ids {
			if v := sum[[2]int{l, r}]; v != 0 {
				if v < -32768 || 32767 < v {
					return none, false
				}
				t = append(t, [3]int{l, r, v})
			}
		}
	}
	return t, true
}
