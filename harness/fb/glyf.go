package fb

// Point is one contour point.
type Point struct {
	X, Y   int
	On, Ov bool
}

// Comp is one component of a composite glyph.
type Comp struct {
	G      int
	DX, DY int
	Flags  int   // extra flag bits (rounding, metrics, overlap, ...)
	Xf     []int // 0, 1, 2 or 4 F2Dot14 values
	Words  bool
	Match  bool // point matching instead of offsets
}

// Glyph is an abstract TrueType glyph.
type Glyph struct {
	Contours [][]Point
	Comps    []Comp
	Ins      []byte
	BBox     *[4]int // nil: computed for simple glyphs, zero for composites
	Raw      []byte  // if not nil: used as is
	Adv, Lsb int
	VAdv     int
	Tsb      int
}

// Enc chooses among the legal encodings of a simple glyph.
type Enc struct {
	NoRepeat bool // never use repeat flags
	Long     bool // never use short vectors
	NoSame   bool // never use the same-coordinate bit
	Pad      int  // alignment of glyph data (1, 2 or 4)
}

func (g *Glyph) Box() [4]int {
	if g.BBox != nil {
		return *g.BBox
	}
	first := true
	var b [4]int
	for _, c := range g.Contours {
		for _, p := range c {
			if first {
				b = [4]int{p.X, p.Y, p.X, p.Y}
				first = false
			}
			b[0], b[1] = min(b[0], p.X), min(b[1], p.Y)
			b[2], b[3] = max(b[2], p.X), max(b[3], p.Y)
		}
	}
	return b
}

// Bytes encodes the glyph.
func (g *Glyph) Bytes(e Enc) []byte {
	if g.Raw != nil {
		return g.Raw
	}
	w := &W{}
	if 0 < len(g.Comps) {
		w.U16(-1)
		for _, v := range g.Box() {
			w.U16(v)
		}
		for i, c := range g.Comps {
			f := c.Flags &^ 0x01FF
			f |= c.Flags & 0x0004
			if !c.Match {
				f |= 2
			}
			words := c.Words || c.DX < -128 || 127 < c.DX || c.DY < -128 || 127 < c.DY
			if words {
				f |= 1
			}
			switch len(c.Xf) {
			case 1:
				f |= 8
			case 2:
				f |= 0x40
			case 4:
				f |= 0x80
			}
			if i+1 < len(g.Comps) {
				f |= 0x20
			} else if 0 < len(g.Ins) {
				f |= 0x100
			}
			w.U16(f)
			w.U16(c.G)
			if words {
				w.U16(c.DX)
				w.U16(c.DY)
			} else {
				w.U8(c.DX)
				w.U8(c.DY)
			}
			for _, x := range c.Xf {
				w.U16(x)
			}
		}
		if 0 < len(g.Ins) {
			w.U16(len(g.Ins))
			w.Raw(g.Ins)
		}
		return w.B
	}
	if len(g.Contours) == 0 {
		return nil
	}
	w.U16(len(g.Contours))
	for _, v := range g.Box() {
		w.U16(v)
	}
	n := 0
	var pts []Point
	for _, c := range g.Contours {
		n += len(c)
		pts = append(pts, c...)
		w.U16(n - 1)
	}
	w.U16(len(g.Ins))
	w.Raw(g.Ins)
	flags := make([]int, n)
	xs, ys := &W{}, &W{}
	px, py := 0, 0
	for i, p := range pts {
		f := 0
		if p.On {
			f |= 1
		}
		if p.Ov {
			f |= 0x40
		}
		enc := func(d, short, same int, out *W) {
			if d == 0 && !e.NoSame {
				f |= same
			} else if !e.Long && -256 < d && d < 256 {
				f |= short
				if 0 <= d {
					f |= same
					out.U8(d)
				} else {
					out.U8(-d)
				}
			} else {
				out.U16(d)
			}
		}
		enc(p.X-px, 2, 0x10, xs)
		enc(p.Y-py, 4, 0x20, ys)
		px, py = p.X, p.Y
		flags[i] = f
	}
	for i := 0; i < n; {
		j := i + 1
		for j < n && flags[j] == flags[i] && j-i < 256 {
			j++
		}
		if 1 < j-i && !e.NoRepeat {
			w.U8(flags[i] | 8)
			w.U8(j - i - 1)
			i = j
		} else {
			w.U8(flags[i])
			i++
		}
	}
	w.Raw(xs.B)
	w.Raw(ys.B)
	return w.B
}

// GlyfLoca encodes the glyf and loca tables.
func GlyfLoca(glyphs []Glyph, format int, e Enc) (glyf, loca []byte) {
	g, l := &W{}, &W{}
	put := func() {
		if format == 0 {
			l.U16(g.Len() / 2)
		} else {
			l.U32(uint32(g.Len()))
		}
	}
	pad := e.Pad
	if pad == 0 {
		pad = 4
	}
	if format == 0 && pad == 1 {
		pad = 2
	}
	put()
	for i := range glyphs {
		g.Raw(glyphs[i].Bytes(e))
		for g.Len()%pad != 0 {
			g.U8(0)
		}
		put()
	}
	return g.B, l.B
}
