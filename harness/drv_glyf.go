package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The TrueType outline driver: raw glyph data and what is drawn for it.

func init() {
	checks["glyf"] = &check{n: counts(500, 8000), run: runGlyf}
}

type glyfPlan struct {
	Glyphs [][]int `json:"glyphs"`
}

// opsRec records a path with coordinates times mul.
type opsRec struct {
	mul  float64
	ops  [][]int
	frac bool
}

func (p *opsRec) v(k int, xs ...float64) {
	o := []int{k}
	for _, x := range xs {
		y := math.Round(x * p.mul)
		if math.IsNaN(x) || math.Abs(y) > 1e9 || y != x*p.mul {
			p.frac = true
			y = 0
		}
		o = append(o, int(y))
	}
	p.ops = append(p.ops, o)
}
func (p *opsRec) MoveTo(x, y float64)             { p.v(0, x, y) }
func (p *opsRec) LineTo(x, y float64)             { p.v(1, x, y) }
func (p *opsRec) QuadTo(a, b, x, y float64)       { p.v(2, a, b, x, y) }
func (p *opsRec) CubeTo(a, b, c, d, x, y float64) { p.v(3, a, b, c, d, x, y) }
func (p *opsRec) Close()                          { p.v(4) }

// glyfFont builds a font around raw glyph data.
func glyfFont(r *rand.Rand, raw [][]byte) (*FontDesc, []byte, []int) {
	d := &FontDesc{Kind: "tt", Upem: 1000, Loca: r.Intn(2), Enc: fb.Enc{Pad: []int{1, 2, 4}[r.Intn(3)]}}
	for i, b := range raw {
		d.Glyphs = append(d.Glyphs, fb.Glyph{Raw: b, Adv: 500 + i})
	}
	d.Post = 3
	pad := d.Enc.Pad
	if d.Loca == 0 && pad == 1 {
		pad = 2
		d.Enc.Pad = 2
	}
	g, l := fb.GlyfLoca(d.Glyphs, d.Loca, d.Enc)
	var loca []int
	for i := 0; i <= len(raw); i++ {
		if d.Loca == 0 {
			loca = append(loca, 2*(int(l[2*i])<<8|int(l[2*i+1])))
		} else {
			loca = append(loca, int(l[4*i])<<24|int(l[4*i+1])<<16|int(l[4*i+2])<<8|int(l[4*i+3]))
		}
	}
	return d, g, loca
}

func runGlyf(c *ctx) {
	var pl glyfPlan
	var raw [][]byte
	planned := c.plan(&pl)
	if planned {
		if len(pl.Glyphs) == 1 { // a simple glyph: also as a component
			raw = append(raw, nil, toBytes(pl.Glyphs[0]), (&fb.Glyph{Comps: []fb.Comp{{G: 1, DX: 300, DY: -7, Words: true}, {G: 1, Xf: []int{-0x4000}, DX: 3}}}).Bytes(fb.Enc{}))
		} else {
			for _, g := range pl.Glyphs {
				raw = append(raw, toBytes(g))
			}
		}
	} else {
		switch c.r.Intn(8) {
		case 0:
			raw = realGlyphs(c.r)
		case 1:
			raw = chainGlyphs(c.r)
		default:
			raw = randomGlyphs(c.r)
		}
	}
	d, glyf, loca := glyfFont(c.r, raw)
	file := d.Bytes()
	var s *font.SFNT
	var err error
	p := guard(func() { s, err = font.ParseSFNT(file, 0) })
	msg := p + errStr(err)
	c.ev(M{"op": "font", "n": len(raw), "loca": loca, "glyf": ints(glyf), "err": msg})
	if msg != "" {
		return
	}
	for g := 0; g < len(raw)+1; g++ {
		if len(raw) == g && c.r.Intn(4) != 0 {
			continue
		}
		f4 := []int{4, 4, 2, 1, 8, 12, -4}[c.r.Intn(7)]
		x, y := 0, 0
		if c.r.Intn(2) == 0 {
			x, y = c.r.Intn(4000)-2000, c.r.Intn(4000)-2000
		}
		m := M{"op": "glyph", "g": g, "f4": f4, "x8": x, "y8": y, "err": false, "frac": false, "box": []int{}, "ins": []int{}, "deps": []int{}, "comp": false}
		rec := &opsRec{mul: 8, ops: [][]int{}}
		m["panic"] = guard(func() {
			// a glyph is drawn twice: the second time counts
			for k := 0; k < 2; k++ {
				rec = &opsRec{mul: 8, ops: [][]int{}}
				err = s.GlyphPath(rec, uint16(g), 0, float64(x)/8, float64(y)/8, float64(f4)/4, font.NoHinting)
			}
			m["err"] = err != nil
			a, b, e, f := s.GlyphBounds(uint16(g))
			m["box"] = []int{int(a), int(b), int(e), int(f)}
			if ct, err := s.Glyf.Contour(uint16(g)); err == nil {
				m["ins"] = ints(ct.Instructions)
			}
			if ds, err := s.Glyf.Dependencies(uint16(g)); err == nil {
				v := []int{}
				for _, x := range ds {
					v = append(v, int(x))
				}
				m["deps"] = v
			}
			m["comp"] = s.Glyf.IsComposite(uint16(g))
		})
		m["ops"] = rec.ops
		m["frac"] = rec.frac
		c.ev(m)
	}
}

func toBytes(v []int) []byte {
	b := make([]byte, len(v))
	for i, x := range v {
		b[i] = byte(x)
	}
	return b
}

// randomGlyphs draws simple and composite glyphs of all forms, some of them damaged.
func randomGlyphs(r *rand.Rand) [][]byte {
	n := 3 + r.Intn(6)
	raw := [][]byte{nil}
	damage := r.Intn(3) == 0
	for i := 1; i < n; i++ {
		g := &fb.Glyph{}
		e := fb.Enc{NoRepeat: r.Intn(3) == 0, Long: r.Intn(4) == 0, NoSame: r.Intn(4) == 0}
		if i < 3 || r.Intn(2) == 0 {
			g.Contours = shape(r)
		} else {
			for k := 1 + r.Intn(4); 0 < k; k-- {
				c := fb.Comp{G: r.Intn(i), DX: r.Intn(256) - 128, DY: r.Intn(256) - 128, Words: r.Intn(2) == 0}
				if r.Intn(20) == 0 {
					c.G = r.Intn(n + 1)
				}
				if r.Intn(2) == 0 {
					c.DX, c.DY = r.Intn(4000)-2000, r.Intn(4000)-2000
				}
				t := func() int {
					if r.Intn(2) == 0 {
						return []int{0x4000, -0x4000, 0x2000, 0, 0x6000, -0x2000}[r.Intn(6)]
					}
					return r.Intn(65536) - 32768
				}
				switch r.Intn(6) {
				case 0:
					c.Xf = []int{t()}
				case 1:
					c.Xf = []int{t(), t()}
				case 2:
					c.Xf = []int{t(), t(), t(), t()}
				}
				c.Flags = []int{0, 0x200, 0x404, 0x1000, 4, 0x200}[r.Intn(6)]
				c.Match = r.Intn(25) == 0
				if r.Intn(30) == 0 {
					c.Flags |= 0x800
				}
				g.Comps = append(g.Comps, c)
			}
			g.BBox = &[4]int{-r.Intn(30000), -r.Intn(300), r.Intn(30000), r.Intn(300)}
		}
		if r.Intn(3) == 0 {
			for k := r.Intn(8); 0 < k; k-- {
				g.Ins = append(g.Ins, byte(r.Intn(256)))
			}
		}
		b := g.Bytes(e)
		if damage && r.Intn(3) == 0 && 10 < len(b) {
			b = append([]byte{}, b...)
			switch r.Intn(3) {
			case 0:
				b = b[:r.Intn(len(b))]
			case 1:
				b[r.Intn(len(b))] = byte(r.Intn(256))
			case 2:
				k := 10 + r.Intn(min(len(b)-10, 8))
				b[k] ^= 1 << r.Intn(8)
			}
		}
		raw = append(raw, b)
	}
	return raw
}

// shape draws contours with many arrangements of points on and off the curve.
func shape(r *rand.Rand) [][]fb.Point {
	var cs [][]fb.Point
	if r.Intn(12) == 0 {
		return nil
	}
	for k := 1 + r.Intn(3); 0 < k; k-- {
		var pts []fb.Point
		np := 1 + r.Intn(9)
		if r.Intn(15) == 0 {
			np = 255 + r.Intn(40)
		}
		m := []int{5, 200, 400, 3000}[r.Intn(4)]
		onp := r.Intn(4)
		line := r.Intn(6) == 0
		for i := 0; i < np; i++ {
			p := fb.Point{X: r.Intn(2*m) - m, Y: r.Intn(2*m) - m, On: r.Intn(3) < onp, Ov: r.Intn(20) == 0}
			if 0 < i {
				if r.Intn(4) == 0 || line {
					p.X = pts[i-1].X
				}
				if r.Intn(4) == 0 {
					p.Y = pts[i-1].Y
				}
			}
			pts = append(pts, p)
		}
		cs = append(cs, pts)
	}
	return cs
}

// chainGlyphs nests composites deeply.
func chainGlyphs(r *rand.Rand) [][]byte {
	raw := [][]byte{nil, (&fb.Glyph{Contours: shape(r)}).Bytes(fb.Enc{})}
	for n := 4 + r.Intn(9); 0 < n; n-- {
		g := &fb.Glyph{Comps: []fb.Comp{{G: len(raw) - 1, DX: r.Intn(20)}}}
		if r.Intn(4) == 0 {
			g.Comps = append(g.Comps, fb.Comp{G: 1, DY: 5})
		}
		raw = append(raw, g.Bytes(fb.Enc{}))
	}
	return raw
}

var dejavu []byte

// realGlyphs takes glyphs and their components from a real font.
func realGlyphs(r *rand.Rand) [][]byte {
	if dejavu == nil {
		b, err := os.ReadFile(realFonts[0])
		if err != nil {
			panic(err)
		}
		dejavu = b
	}
	t := rawTables(dejavu)
	loca, glyf := t["loca"], t["glyf"]
	n := (int(t["maxp"][4]) << 8) | int(t["maxp"][5])
	at := func(i int) int {
		if t["head"][51] == 0 {
			return 2 * (int(loca[2*i])<<8 | int(loca[2*i+1]))
		}
		return int(loca[4*i])<<24 | int(loca[4*i+1])<<16 | int(loca[4*i+2])<<8 | int(loca[4*i+3])
	}
	idx := map[int]int{0: 0}
	raw := [][]byte{nil}
	var add func(g int) int
	add = func(g int) int {
		if k, ok := idx[g]; ok {
			return k
		}
		b := append([]byte{}, glyf[at(g):at(g+1)]...)
		if 600 < len(b) {
			return 0
		}
		k := len(raw)
		idx[g] = k
		raw = append(raw, nil)
		if 10 < len(b) && b[0]&0x80 != 0 {
			for p := 10; ; {
				f := int(b[p])<<8 | int(b[p+1])
				x := add(int(b[p+2])<<8 | int(b[p+3]))
				b[p+2], b[p+3] = byte(x>>8), byte(x)
				p += 6
				if f&1 != 0 {
					p += 2
				}
				if f&8 != 0 {
					p += 2
				} else if f&0x40 != 0 {
					p += 4
				} else if f&0x80 != 0 {
					p += 8
				}
				if f&0x20 == 0 {
					break
				}
			}
		}
		raw[k] = b
		return k
	}
	for i := 0; i < 4; i++ {
		add(1 + r.Intn(n-1))
	}
	return raw
}

// rawTables splits a well-formed file.
func rawTables(b []byte) map[string][]byte {
	t := map[string][]byte{}
	u32 := func(p int) int { return int(b[p])<<24 | int(b[p+1])<<16 | int(b[p+2])<<8 | int(b[p+3]) }
	for i := 0; i < int(b[4])<<8|int(b[5]); i++ {
		p := 12 + 16*i
		t[string(b[p:p+4])] = b[u32(p+8) : u32(p+8)+u32(p+12)]
	}
	if len(t) == 0 {
		panic(fmt.Sprint("no tables"))
	}
	return t
}
