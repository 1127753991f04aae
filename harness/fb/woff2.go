package fb

import "encoding/binary"

// Known are the tags that WOFF2 has a number for.
var Known = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "cvt ", "fpgm", "glyf", "loca", "prep", "CFF ", "VORG", "EBDT", "EBLC", "gasp", "hdmx", "kern", "LTSH", "PCLT",
	"VDMX", "vhea", "vmtx", "BASE", "GDEF", "GPOS", "GSUB", "EBSC", "JSTF", "MATH", "CBDT", "CBLC", "COLR", "CPAL", "SVG ", "sbix", "acnt", "avar", "bdat", "bloc", "bsln", "cvar", "fdsc",
	"feat", "fmtx", "fvar", "gvar", "hsty", "just", "lcar", "mort", "morx", "opbd", "prop", "trak", "Zapf", "Silf", "Glat", "Gloc", "Feat", "Sill"}

// W2Opts are the choices of a WOFF2 encoder; Pick chooses one of n.
type W2Opts struct {
	Pick    func(n int) int
	Bbox    func(needed bool) bool // is the box of a simple glyph written
	Overlap bool                   // write the overlap bitmap
	Format  int
}

// Base128 is the one encoding of v.
func Base128(v uint32) []byte {
	b := []byte{byte(v & 0x7F)}
	for v >>= 7; v != 0; v >>= 7 {
		b = append([]byte{byte(v&0x7F) | 0x80}, b...)
	}
	return b
}

// U255 is one of the encodings of v.
func U255(v int, pick func(int) int) []byte {
	f := [][]byte{{253, byte(v >> 8), byte(v)}}
	if v < 253 {
		f = append(f, []byte{byte(v)})
	}
	if 253 <= v && v < 253+256 {
		f = append(f, []byte{255, byte(v - 253)})
	}
	if 506 <= v && v < 506+256 {
		f = append(f, []byte{254, byte(v - 506)})
	}
	return f[pick(len(f))]
}

type tripRow struct{ xb, yb, ax, ay, sx, sy int }

// the table of coordinate codes of the WOFF2 specification
var tripRows = func() (t [128]tripRow) {
	sign := func(b int) int {
		if b == 0 {
			return -1
		}
		return 1
	}
	for i := range t {
		switch {
		case i < 10:
			t[i] = tripRow{0, 8, 0, 256 * (i / 2), 0, sign(i % 2)}
		case i < 20:
			t[i] = tripRow{8, 0, 256 * ((i - 10) / 2), 0, sign(i % 2), 0}
		case i < 84:
			t[i] = tripRow{4, 4, 1 + 16*((i-20)/16), 1 + 16*((i-20)%16/4), sign(i % 2), sign((i - 20) / 2 % 2)}
		case i < 120:
			t[i] = tripRow{8, 8, 1 + 256*((i-84)/12), 1 + 256*((i-84)%12/4), sign(i % 2), sign((i - 84) / 2 % 2)}
		case i < 124:
			t[i] = tripRow{12, 12, 0, 0, sign(i % 2), sign((i - 120) / 2 % 2)}
		default:
			t[i] = tripRow{16, 16, 0, 0, sign(i % 2), sign((i - 124) / 2 % 2)}
		}
	}
	return t
}()

// Triplets returns the codes that stand for a change of coordinates.
func Triplets(dx, dy int) (codes []int) {
	fits := func(v, sign, add, bits int) bool {
		a := v * sign
		if sign == 0 {
			return v == 0
		}
		return 0 <= a && add <= a && a < add+1<<bits
	}
	for i, r := range tripRows {
		if fits(dx, r.sx, r.ax, r.xb) && fits(dy, r.sy, r.ay, r.yb) {
			codes = append(codes, i)
		}
	}
	return codes
}

func tripBytes(i, dx, dy int) []byte {
	r := tripRows[i]
	x, y := 0, 0
	if r.sx != 0 {
		x = dx*r.sx - r.ax
	}
	if r.sy != 0 {
		y = dy*r.sy - r.ay
	}
	v := uint64(x)<<r.yb | uint64(y)
	n := (r.xb + r.yb) / 8
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v)
	return b[8-n:]
}

// W2Glyf is the transformed glyf table and the left side of each glyph.
func W2Glyf(glyphs []Glyph, o *W2Opts) ([]byte, []int) {
	n := len(glyphs)
	var s [7]W
	bm := make([]byte, (n+31)/32*4)
	ov := make([]byte, len(bm))
	var box W
	xmin := make([]int, n)
	for g := range glyphs {
		gl := &glyphs[g]
		bit := byte(1 << (7 - g%8))
		putBox := func() {
			bm[g/8] |= bit
			for _, v := range gl.Box() {
				box.U16(v)
			}
		}
		if 0 < len(gl.Comps) {
			xmin[g] = gl.Box()[0]
			s[0].U16(-1)
			raw := gl.Bytes(Enc{})[10:]
			if 0 < len(gl.Ins) {
				raw = raw[:len(raw)-2-len(gl.Ins)]
			}
			s[4].Raw(raw)
			putBox()
			if 0 < len(gl.Ins) {
				s[3].Raw(U255(len(gl.Ins), o.Pick))
				s[6].Raw(gl.Ins)
			}
			continue
		}
		if len(gl.Contours) == 0 {
			s[0].U16(0)
			continue
		}
		xmin[g] = gl.Box()[0]
		s[0].U16(len(gl.Contours))
		x, y := 0, 0
		for _, c := range gl.Contours {
			s[1].Raw(U255(len(c), o.Pick))
			for _, p := range c {
				codes := Triplets(p.X-x, p.Y-y)
				i := codes[o.Pick(len(codes))]
				f := i
				if !p.On {
					f |= 128
				}
				s[2].U8(f)
				s[3].Raw(tripBytes(i, p.X-x, p.Y-y))
				x, y = p.X, p.Y
			}
		}
		if gl.Contours[0][0].Ov {
			ov[g/8] |= bit
		}
		s[3].Raw(U255(len(gl.Ins), o.Pick))
		s[6].Raw(gl.Ins)
		own := Glyph{Contours: gl.Contours}
		if o.Bbox(own.Box() != gl.Box()) {
			putBox()
		}
	}
	s[5].Raw(bm)
	s[5].Raw(box.B)
	w := &W{}
	w.U16(0)
	if o.Overlap {
		w.U16(1)
	} else {
		w.U16(0)
	}
	w.U16(n)
	w.U16(o.Format)
	for i := range s {
		w.U32(uint32(s[i].Len()))
	}
	for i := range s {
		w.Raw(s[i].B)
	}
	if o.Overlap {
		w.Raw(ov)
	}
	return w.B, xmin
}

// W2Hmtx transforms an hmtx table; flags: 1 leaves out the side bearings of the long metrics, 2 the others.
func W2Hmtx(hmtx []byte, nhm, n, flags int) []byte {
	w := &W{}
	w.U8(flags)
	for i := 0; i < nhm; i++ {
		w.Raw(hmtx[4*i : 4*i+2])
	}
	if flags&1 == 0 {
		for i := 0; i < nhm; i++ {
			w.Raw(hmtx[4*i+2 : 4*i+4])
		}
	}
	if flags&2 == 0 {
		w.Raw(hmtx[4*nhm : 4*nhm+2*(n-nhm)])
	}
	return w.B
}

// W2Table is one entry of the directory.
type W2Table struct {
	Tag   string
	Data  []byte // in the stream
	Orig  int
	Tr    bool // transformed
	TV    int  // transformation
	Spell bool // the tag is written in full
}

// W2Dir is the directory.
func W2Dir(ts []W2Table) []byte {
	w := &W{}
	for _, t := range ts {
		k := 63
		if !t.Spell {
			for i, s := range Known {
				if s == t.Tag {
					k = i
				}
			}
		}
		w.U8(t.TV<<6 | k)
		if k == 63 {
			w.Str(t.Tag)
		}
		w.Raw(Base128(uint32(t.Orig)))
		if t.Tr {
			w.Raw(Base128(uint32(len(t.Data))))
		}
	}
	return w.B
}

// W2File puts a file together from a directory and a compressed stream.
func W2File(flavor uint32, n int, dir, comp []byte, total int, meta, priv []byte) []byte {
	w := &W{}
	w.Str("wOF2")
	w.U32(flavor)
	w.U32(0)
	w.U16(n)
	w.U16(0)
	w.U32(uint32(total))
	w.U32(uint32(len(comp)))
	w.U16(1)
	w.U16(2)
	w.Zero(20)
	w.Raw(dir)
	w.Raw(comp)
	w.Pad4()
	if meta != nil {
		w.Put32(28, uint32(w.Len()))
		w.Put32(32, uint32(len(meta)))
		w.Put32(36, uint32(3*len(meta)))
		w.Raw(meta)
		if priv != nil {
			w.Pad4()
		}
	}
	if priv != nil {
		w.Put32(40, uint32(w.Len()))
		w.Put32(44, uint32(len(priv)))
		w.Raw(priv)
	}
	w.Put32(8, uint32(w.Len()))
	return w.B
}
