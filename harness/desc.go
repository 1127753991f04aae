package main

import (
	"fmt"
	"math/rand"
	"sort"

	"fontverif/fb"
)

// FontDesc is the abstract description from which a font file is built.
type FontDesc struct {
	Kind   string // tt or cff
	Glyphs []fb.Glyph
	CFF    *fb.CFF
	CMap   map[int]int // effective mapping
	Cmaps  []fb.Cmap
	Kern   []fb.KernSub // nil: no kern table
	Post   int
	Names  []string // for post 2 or the CFF charset; nil: none
	Vert   bool
	NHM    int
	NVM    int
	Loca   int
	Enc    fb.Enc
	OS2    *fb.OS2
	Asc    [3]int
	Upem   int
	Extra  []fb.Table
	PostHd []byte
	Maxima []int // of the maxp table
	NameTb []byte
	CFFX   []byte
	CFFP   []byte
}

// macNames is filled from the font itself: standard names are only used through lookups of other fonts.
func (d *FontDesc) N() int {
	return len(d.Glyphs)
}

func (d *FontDesc) Tables() []fb.Table {
	n := d.N()
	var t []fb.Table
	adv, lsb, vadv, tsb := make([]int, n), make([]int, n), make([]int, n), make([]int, n)
	for i, g := range d.Glyphs {
		adv[i], lsb[i], vadv[i], tsb[i] = g.Adv, g.Lsb, g.VAdv, g.Tsb
	}
	nh := func(a []int, want int) int {
		k := n
		for 1 < k && a[k-1] == a[k-2] {
			k--
		}
		if k < want && want <= n {
			k = want
		}
		return k
	}
	t = append(t, fb.Table{Tag: "head", Data: fb.Head(d.Upem, d.Loca, [4]int{-100, -200, 1000, 900})})
	k := nh(adv, d.NHM)
	t = append(t, fb.Table{Tag: "hhea", Data: fb.Hhea(d.Asc[0], d.Asc[1], d.Asc[2], 1500, k)})
	t = append(t, fb.Table{Tag: "hmtx", Data: fb.Mtx(adv, lsb, k)})
	if d.Vert {
		k := nh(vadv, d.NVM)
		t = append(t, fb.Table{Tag: "vhea", Data: fb.Hhea(500, -500, 0, 1200, k)})
		t = append(t, fb.Table{Tag: "vmtx", Data: fb.Mtx(vadv, tsb, k)})
	}
	t = append(t, fb.Table{Tag: "maxp", Data: fb.Maxp(d.Kind == "tt", n, d.Maxima)})
	if d.OS2 != nil {
		t = append(t, fb.Table{Tag: "OS/2", Data: d.OS2.Bytes()})
	}
	if d.NameTb != nil {
		t = append(t, fb.Table{Tag: "name", Data: d.NameTb})
	} else {
		t = append(t, fb.Table{Tag: "name", Data: fb.NameTable([]fb.NameRec{{Plat: 3, Enc: 1, Lang: 0x409, ID: 1, Val: fb.U16BE("Family")}, {Plat: 3, Enc: 1, Lang: 0x409, ID: 2, Val: fb.U16BE("Regular")}}, nil)})
	}
	var cm []byte
	if d.Cmaps != nil {
		cm = fb.CmapTable(d.Cmaps)
	} else {
		cm = fb.CmapTable(nil)
	}
	t = append(t, fb.Table{Tag: "cmap", Data: cm})
	if d.Kern != nil {
		t = append(t, fb.Table{Tag: "kern", Data: fb.KernTable(d.Kern)})
	}
	if d.Kind == "tt" {
		g, l := fb.GlyfLoca(d.Glyphs, d.Loca, d.Enc)
		t = append(t, fb.Table{Tag: "glyf", Data: g}, fb.Table{Tag: "loca", Data: l})
		post := d.Post
		var idx []int
		var strs []string
		if post == 2 {
			seen := map[string]int{}
			for _, nm := range d.Names {
				if m, ok := macIndex[nm]; ok {
					idx = append(idx, m)
				} else if m, ok := seen[nm]; ok {
					idx = append(idx, m)
				} else {
					seen[nm] = 258 + len(strs)
					idx = append(idx, 258+len(strs))
					strs = append(strs, nm)
				}
			}
		}
		t = append(t, fb.Table{Tag: "post", Data: fb.PostTable(post, d.PostHd, idx, strs)})
	} else {
		c := *d.CFF
		c.Names = d.Names
		c.TopExtra = d.CFFX
		c.PrivExtra = d.CFFP
		c.StdStrings = stdIndex
		t = append(t, fb.Table{Tag: "CFF ", Data: c.Bytes()})
		t = append(t, fb.Table{Tag: "post", Data: fb.PostTable(3, d.PostHd, nil, nil)})
	}
	t = append(t, d.Extra...)
	return fb.SortTables(t)
}

func (d *FontDesc) Version() uint32 {
	if d.Kind == "cff" {
		return 0x4F54544F
	}
	return 0x00010000
}

func (d *FontDesc) Bytes() []byte {
	return fb.SFNT(d.Version(), d.Tables(), fb.Layout{})
}

// macIndex and stdIndex hold a few standard names (Macintosh order and CFF standard strings),
// transcribed from the specifications.
var macIndex = map[string]int{".notdef": 0, ".null": 1, "space": 3, "exclam": 4, "A": 36, "B": 37, "C": 38, "Z": 61, "a": 68, "b": 69, "z": 93, "Adieresis": 98, "dcroat": 257}
var stdIndex = map[string]int{".notdef": 0, "space": 1, "exclam": 2, "A": 34, "B": 35, "C": 36, "D": 37, "Z": 59, "a": 66, "b": 67, "z": 91, "exclamdown": 96, "Semibold": 390, "Regular": 388, "Roman": 389, "Medium": 386, "Light": 385, "Bold": 384, "Book": 386 - 1 - 0}

func init() {
	// strings 379..390: 001.000 001.001 001.002 001.003 Black Bold Book Light Medium Regular Roman Semibold
	for i, s := range []string{"001.000", "001.001", "001.002", "001.003", "Black", "Bold", "Book", "Light", "Medium", "Regular", "Roman", "Semibold"} {
		stdIndex[s] = 379 + i
	}
}

// ---- shapes

func poly(r *rand.Rand, seed int) [][]fb.Point {
	nc := 1 + r.Intn(2)
	var cs [][]fb.Point
	if r.Intn(24) == 0 {
		// runs of points with the same flags, around the limits of repeat counts and of contour lengths
		var pts []fb.Point
		dx, dy := r.Intn(3)-1, r.Intn(3)-1
		n := []int{250, 254, 255, 256, 257, 258, 300, 510, 511, 512, 515, 760, 770}[r.Intn(13)]
		for i := 0; i < n; i++ {
			pts = append(pts, fb.Point{X: dx * i, Y: dy * i, On: true})
		}
		pts = append(pts, fb.Point{X: 300 + seed%50, Y: 700, On: true}, fb.Point{X: 10, Y: 900, On: false})
		cs = append(cs, pts)
		nc = r.Intn(2)
	}
	for c := 0; c < nc; c++ {
		np := 3 + r.Intn(4)
		var pts []fb.Point
		for i := 0; i < np; i++ {
			m := 700
			if r.Intn(4) == 0 {
				m = 90
			}
			pts = append(pts, fb.Point{X: r.Intn(2*m) - m/2, Y: r.Intn(2*m) - m/2, On: r.Intn(4) != 0})
		}
		pts[0].X += seed % 50
		cs = append(cs, pts)
	}
	return cs
}

// genCFFOutline draws a small program for glyph gid. Subroutine calls are given by index and
// written once the subroutine counts are known.
type csProg struct {
	toks []any // int numbers, or csOp, or csCall
}
type csOp struct{ b []byte }
type csCall struct {
	global bool
	idx    int
}

// callNum encodes the number of a subroutine; some in the three byte form, which any number may take.
func callNum(v int) []byte {
	if v == -694 || (v&0xff)%5 == 3 { // 28 253 74 ends in the two byte form of the same number
		return []byte{28, byte(v >> 8), byte(v)}
	}
	return fb.CSNum(v)
}

func bias(n int) int {
	if n < 1240 {
		return 107
	} else if n < 33900 {
		return 1131
	}
	return 32768
}

func (p csProg) bytes(nl, ng int) []byte {
	var b []byte
	for _, t := range p.toks {
		switch v := t.(type) {
		case int:
			b = append(b, fb.CSNum(v)...)
		case csOp:
			b = append(b, v.b...)
		case csCall:
			if v.global {
				b = append(b, callNum(v.idx-bias(ng))...)
				b = append(b, 29)
			} else {
				b = append(b, callNum(v.idx-bias(nl))...)
				b = append(b, 10)
			}
		}
	}
	return b
}

func op1(b ...byte) csOp { return csOp{b} }

// segToks is a random piece of path.
func segToks(r *rand.Rand) []any {
	v := func() int { return r.Intn(400) - 200 }
	switch r.Intn(6) {
	case 0:
		return []any{v(), v(), op1(5)}
	case 1:
		return []any{v(), op1(6)}
	case 2:
		return []any{v(), v(), v(), op1(7)}
	case 3:
		return []any{v(), v(), v(), v(), v(), v(), op1(8)}
	case 4:
		return []any{v(), v(), v(), v(), op1(31)}
	}
	return []any{v(), v(), v(), v(), op1(27)}
}

// genCFF makes a CFF description with n glyphs, nl local and ng global subroutines forming a DAG.
func genCFF(r *rand.Rand, n, nl, ng int) *fb.CFF {
	c := &fb.CFF{Name: fmt.Sprintf("Font%d", r.Intn(1000))}
	var ls [][]byte
	for i := 0; i < ng; i++ {
		// limit nesting: global subroutines at multiples of 3 call nothing
		if i%3 == 0 {
			c.GSubrs = append(c.GSubrs, csProg{toks: append(segToks(r), op1(11))}.bytes(nl, ng))
		} else {
			p := csProg{toks: segToks(r)}
			p.toks = append(p.toks, csCall{true, i - 1}, op1(11))
			c.GSubrs = append(c.GSubrs, p.bytes(nl, ng))
		}
	}
	for i := 0; i < nl; i++ {
		p := csProg{toks: segToks(r)}
		if i%3 != 0 {
			p.toks = append(p.toks, csCall{false, i - 1})
		} else if 0 < ng && r.Intn(2) == 0 {
			p.toks = append(p.toks, csCall{true, r.Intn(ng)})
		}
		if r.Intn(3) == 0 {
			p.toks = append(p.toks, segToks(r)...)
		}
		p.toks = append(p.toks, op1(11))
		ls = append(ls, p.bytes(nl, ng))
	}
	if ls != nil {
		c.LSubrs = [][][]byte{ls}
	}
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(8) == 0 {
			c.CharStrings = append(c.CharStrings, []byte{14})
			continue
		}
		p := csProg{}
		if r.Intn(3) == 0 {
			p.toks = append(p.toks, r.Intn(100)) // width
		}
		if r.Intn(4) == 0 {
			// hstemhm 10 20, vstemhm 5 30, then an implicit vstem before the hintmask: three stems
			p.toks = append(p.toks, 10, 20, op1(18), 5, 30, op1(23), 7, 9, op1(19, 0xE0))
		}
		p.toks = append(p.toks, 10*i-300, r.Intn(600)-300, op1(21))
		k := 1 + r.Intn(3)
		for j := 0; j < k; j++ {
			switch {
			case 0 < nl && r.Intn(3) == 0:
				p.toks = append(p.toks, csCall{false, pick(r, nl)})
			case 0 < ng && r.Intn(3) == 0:
				p.toks = append(p.toks, csCall{true, pick(r, ng)})
			default:
				p.toks = append(p.toks, segToks(r)...)
			}
		}
		p.toks = append(p.toks, op1(14))
		c.CharStrings = append(c.CharStrings, p.bytes(nl, ng))
	}
	return c
}

// pick favours the ends of a range, where biases and encodings change.
func pick(r *rand.Rand, n int) int {
	switch r.Intn(4) {
	case 0:
		return n - 1 - r.Intn(min(n, 4))
	case 1:
		return r.Intn(min(n, 4))
	case 2:
		if 437 < n {
			return 437 // number -694 with the bias of 1131
		}
	}
	return r.Intn(n)
}

// ---- random fonts

type genOpts struct {
	kind       string
	n          int
	runes      []int // candidate characters; nil: random ranges
	names      int   // 0 none, 1 unique, 2 with standard and repeated names
	kern       bool
	vert       bool
	nl, ng     int
	multiCmap  bool
	wide       bool
	noOS2      bool
	base       int // first character, 0: random
	bigGlyphs  int // pad glyphs with instructions so that glyf grows
	nestedComp bool
}

func sortedKeys(m map[int]int) []int {
	k := make([]int, 0, len(m))
	for x := range m {
		k = append(k, x)
	}
	sort.Ints(k)
	return k
}

// genMap draws a character map over n glyphs in one of several styles.
func genMap(r *rand.Rand, n int, base int) map[int]int {
	m := map[int]int{}
	if n < 2 {
		return m
	}
	g := func() int { return 1 + r.Intn(n-1) }
	style := r.Intn(8)
	switch style {
	case 0: // contiguous run
		for i := 1; i < n; i++ {
			m[base+i] = i
		}
	case 1: // run split in two with a jump of glyphs
		k := 1 + r.Intn(n-1)
		for i := 1; i < n; i++ {
			if i < k {
				m[base+i] = n - k + i
			} else {
				m[base+i] = i - k + 1
			}
		}
		for c := range m {
			if m[c] >= n || m[c] < 1 {
				m[c] = g()
			}
		}
	case 2: // permutation
		p := r.Perm(n - 1)
		for i := range p {
			m[base+i] = 1 + p[i]
		}
	case 3: // sparse with gaps
		c := base
		for i := 1; i < n; i++ {
			c += 1 + r.Intn(3)
			m[c] = i
		}
	case 4: // identity: glyph index equals code point
		for i := 1; i < n; i++ {
			if r.Intn(5) != 0 {
				m[i] = i
			}
		}
	case 5: // shared glyphs
		for i := 0; i < n+3; i++ {
			m[base+i+r.Intn(2)*i] = g()
		}
	case 6: // runs of random length
		c, x := base, 1+r.Intn(n-1)
		for len(m) < n {
			l := 1 + r.Intn(14)
			for j := 0; j < l; j++ {
				m[c] = x
				c++
				x++
				if n <= x {
					x = 1
				}
			}
			if r.Intn(2) == 0 {
				c += r.Intn(3)
			}
			x = g()
		}
	case 7: // supplementary and mixed planes
		for i := 1; i < n; i++ {
			switch r.Intn(4) {
			case 0:
				m[0x10000+base+i] = i
			case 1:
				m[0xFFF0+r.Intn(15)] = i
			case 2:
				m[0x1F600+i*(1+r.Intn(2))] = g()
			default:
				m[base+i] = i
			}
		}
	}
	return m
}

// genFont draws a font.
func genFont(r *rand.Rand, o genOpts) *FontDesc {
	d := &FontDesc{Kind: o.kind, Upem: []int{1000, 2048, 500}[r.Intn(3)], Asc: [3]int{r.Intn(1000), -r.Intn(400), r.Intn(100)}}
	n := o.n
	d.Enc = fb.Enc{NoRepeat: r.Intn(4) == 0, Long: r.Intn(5) == 0, NoSame: r.Intn(5) == 0, Pad: []int{2, 4, 4, 1}[r.Intn(4)]}
	d.Loca = r.Intn(2)
	if d.Loca == 0 && d.Enc.Pad == 1 {
		d.Enc.Pad = 2
	}
	d.Vert = o.vert
	d.NHM = r.Intn(n + 1)
	d.NVM = r.Intn(n + 1)
	d.Glyphs = make([]fb.Glyph, n)
	tailAdv := r.Intn(n + 1)
	for i := range d.Glyphs {
		g := &d.Glyphs[i]
		g.Adv, g.Lsb = 200+r.Intn(900), r.Intn(200)-100
		g.VAdv, g.Tsb = 500+r.Intn(900), r.Intn(200)-100
		if tailAdv <= i {
			g.Adv, g.VAdv = 600, 700
		}
	}
	if o.kind == "tt" {
		for i := range d.Glyphs {
			g := &d.Glyphs[i]
			switch {
			case i > 0 && r.Intn(8) == 0:
				// empty
			case i > 1 && r.Intn(3) == 0:
				k := 1 + r.Intn(3)
				for j := 0; j < k; j++ {
					c := fb.Comp{G: 1 + r.Intn(i-1), DX: r.Intn(600) - 300, DY: r.Intn(100) - 50, Words: r.Intn(2) == 0}
					if depthOf(d.Glyphs, c.G) > 4 {
						c.G = 1
					}
					if r.Intn(10) == 0 && i+1 < n && len(d.Glyphs[i+1].Comps) == 0 && o.nestedComp {
						c.G = i + 1 // forward reference to a glyph that will be simple
					}
					switch r.Intn(6) {
					case 0:
						c.Xf = []int{0x2000}
					case 1:
						c.Xf = []int{0x4000, -0x4000}
					case 2:
						c.Xf = []int{0, 0x4000, -0x4000, 0}
					}
					c.Flags = []int{0, 0x200, 0x404, 0x1000}[r.Intn(4)]
					g.Comps = append(g.Comps, c)
				}
				g.BBox = &[4]int{-r.Intn(100), -r.Intn(100), r.Intn(900), r.Intn(900)}
				if r.Intn(3) == 0 {
					g.Ins = []byte{byte(i), 1, 2, 3}
				}
			default:
				g.Contours = poly(r, i*7)
				if r.Intn(4) == 0 {
					g.Ins = []byte{byte(i), 9}
				}
				if r.Intn(5) == 0 {
					g.Contours[0][0].Ov = true
				}
				if 0 < o.bigGlyphs {
					g.Ins = make([]byte, o.bigGlyphs+r.Intn(7))
					for j := range g.Ins {
						g.Ins[j] = byte(j*i + 1)
					}
				}
			}
		}
		// forward references must point at simple or empty glyphs without cycles
		for i := range d.Glyphs {
			for j := range d.Glyphs[i].Comps {
				if c := &d.Glyphs[i].Comps[j]; i <= c.G && 0 < len(d.Glyphs[c.G].Comps) {
					c.G = 1
					if i == 1 {
						c.G = 0
					}
				}
			}
		}
	} else {
		d.CFF = genCFF(r, n, o.nl, o.ng)
	}
	if d.Loca == 0 && o.kind == "tt" {
		if g, _ := fb.GlyfLoca(d.Glyphs, 1, d.Enc); 131000 < len(g) {
			d.Loca = 1
		}
	}
	// characters
	base := []int{33, 65, 0x370, 0x4E00, 1000}[r.Intn(5)]
	if 0 < o.base {
		base = o.base
	}
	d.CMap = genMap(r, n, base)
	if o.wide { // characters at the edges of Unicode blocks
		m := map[int]int{}
		old := []int{}
		for c := range d.CMap {
			old = append(old, c)
		}
		sort.Ints(old)
		for _, c := range old {
			g := d.CMap[c]
			if r.Intn(4) != 0 {
				c = 16*[]int{[]int{0x31C, 0x31F, 0xD7B, 0xD7F, 0xFFF}[r.Intn(5)], r.Intn(0x320), r.Intn(0x1000), 0xA00 + r.Intn(0x100), 0xF80 + r.Intn(0x80), 0x1000 + r.Intn(0x280), 0x1D00 + r.Intn(0x80), 0x1F00 + r.Intn(0x20), r.Intn(0x11000)}[r.Intn(9)] + r.Intn(3) - 1
			}
			if 0 < c && c < 0xD800 || 0xDFFF < c && c <= 0x10FFFF && c&0xFFFE != 0xFFFE {
				m[c] = g
			}
		}
		d.CMap = m
	}
	d.setCmaps(r, o.multiCmap)
	// names
	if 0 < o.names {
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("g%d.%c", i, 'a'+rune(r.Intn(26)))
			if o.names == 2 {
				switch r.Intn(6) {
				case 0:
					nm = []string{"A", "B", "a", "space", "Z"}[r.Intn(5)]
				case 1:
					nm = "dup"
				}
			}
			if i == 0 {
				nm = ".notdef"
			}
			d.Names = append(d.Names, nm)
		}
		d.Post = 2
	} else {
		d.Post = 3
		if o.kind == "cff" && 228 < n {
			o.names = 1
			for i := 0; i < n; i++ {
				d.Names = append(d.Names, fmt.Sprintf("n%d", i))
			}
			d.Names[0] = ".notdef"
		}
	}
	if o.kern {
		d.Kern = genKern(r, n, r.Intn(3) == 0)
	}
	if !o.noOS2 {
		d.OS2 = &fb.OS2{Version: []int{3, 4, 5, 2}[r.Intn(4)], FsSelection: []int{0x40, 0xC0}[r.Intn(2)], TypoAsc: 700 + r.Intn(200), TypoDesc: -r.Intn(300), Gap: r.Intn(200), WinAsc: r.Intn(1000), WinDesc: r.Intn(300), Weight: 400, Width: 5, XHeight: 500, CapHeight: 700,
			Ranges: [4]uint32{uint32(r.Int31()), uint32(r.Int31()), uint32(r.Int31()), 0}}
	}
	d.PostHd = make([]byte, 28)
	r.Read(d.PostHd[:2])
	d.PostHd[0] &= 0x0F
	if r.Intn(2) == 0 {
		d.PostHd[0] |= 0xF0
	}
	d.PostHd[2] = byte(r.Intn(256))
	d.PostHd[5], d.PostHd[7] = byte(r.Intn(100)), byte(r.Intn(100))
	d.PostHd[11] = byte(r.Intn(2))
	if r.Intn(3) != 0 {
		for i := 0; i < 13; i++ {
			d.Maxima = append(d.Maxima, word(r))
		}
		r.Read(d.PostHd[12:])
	}
	return d
}

func depthOf(g []fb.Glyph, i int) int {
	m := 0
	for _, c := range g[i].Comps {
		if c.G < i {
			if x := 1 + depthOf(g, c.G); m < x {
				m = x
			}
		}
	}
	return m
}

func genKern(r *rand.Rand, n int, withMin bool) []fb.KernSub {
	mk := func(cov int) fb.KernSub {
		m := map[[2]int]int{}
		for k := 0; k < 2*n; k++ {
			v := r.Intn(200) - 100
			m[[2]int{r.Intn(n), r.Intn(n)}] = v
		}
		s := fb.KernSub{Cov: cov}
		for p, v := range m {
			s.Pairs = append(s.Pairs, [3]int{p[0], p[1], v})
		}
		sort.Slice(s.Pairs, func(i, j int) bool {
			a, b := s.Pairs[i], s.Pairs[j]
			return a[0] < b[0] || a[0] == b[0] && a[1] < b[1]
		})
		if r.Intn(3) == 0 { // readers must not rely on the order
			r.Shuffle(len(s.Pairs), func(i, j int) { s.Pairs[i], s.Pairs[j] = s.Pairs[j], s.Pairs[i] })
			if r.Intn(2) == 0 {
				sort.SliceStable(s.Pairs, func(i, j int) bool { return s.Pairs[i][0] < s.Pairs[j][0] })
			}
		}
		return s
	}
	var ks []fb.KernSub
	for i := 1 + r.Intn(2); 0 < i; i-- {
		ks = append(ks, mk(1))
	}
	if withMin {
		ks = append(ks, mk(3))
	}
	return ks
}

// setCmaps encodes d.CMap as subtables; with multi a second, shadowed or extending subtable is added.
func (d *FontDesc) setCmaps(r *rand.Rand, multi bool) {
	bmp, full := map[int]int{}, false
	for c, g := range d.CMap {
		if c < 0xFFFF {
			bmp[c] = g
		} else {
			full = true
		}
	}
	arr := r.Intn(3)
	four := fb.Cmap{Plat: 3, Enc: 1, Fmt: 4, Segs: fb.AutoCmap4(bmp, func(i int) bool { return arr == 0 || arr == 1 && i%2 == 0 })}
	twelve := fb.Cmap{Plat: 3, Enc: 10, Fmt: 12, Grps: fb.AutoCmap12(d.CMap)}
	switch {
	case full && multi:
		d.Cmaps = []fb.Cmap{four, twelve}
	case full:
		d.Cmaps = []fb.Cmap{{Plat: 0, Enc: 4, Fmt: 12, Grps: twelve.Grps}, twelve}
		if r.Intn(2) == 0 {
			d.Cmaps = d.Cmaps[1:]
		} else {
			d.Cmaps[1].Same = 1
		}
	default:
		d.Cmaps = []fb.Cmap{{Plat: 0, Enc: 3, Fmt: 4, Segs: four.Segs}, four}
		d.Cmaps[1].Same = 1
		switch r.Intn(3) {
		case 0:
			d.Cmaps = d.Cmaps[:1]
		case 1:
			if len(d.CMap) > 0 {
				d.Cmaps = []fb.Cmap{twelve}
			}
		}
	}
	if multi && d.N() < 256 && r.Intn(2) == 0 {
		// a Macintosh table in front or behind; in front it covers (and shadows) codes 0..255
		a := make([]int, 256)
		for c := range a {
			if r.Intn(3) == 0 && 1 < d.N() {
				a[c] = 1 + r.Intn(d.N()-1)
			}
		}
		six := fb.Cmap{Plat: 1, Enc: 0, Fmt: 6, First: 40, Arr: a[40:90]}
		if r.Intn(2) == 0 {
			six = fb.Cmap{Plat: 1, Enc: 0, Fmt: 0, Arr: a}
		}
		if r.Intn(2) == 0 {
			for i := range d.Cmaps {
				if 0 < d.Cmaps[i].Same {
					d.Cmaps[i].Same++
				}
			}
			d.Cmaps = append([]fb.Cmap{six}, d.Cmaps...)
		} else {
			d.Cmaps = append(d.Cmaps, six)
		}
	}
	d.CMap = evalCmaps(d.Cmaps)
}

// evalCmaps gives the effective mapping: the first subtable that covers a character decides.
func evalCmaps(subs []fb.Cmap) map[int]int {
	m := map[int]int{}
	for _, s := range subs {
		set := func(c, g int) {
			if _, ok := m[c]; !ok {
				m[c] = g
			}
		}
		if 0 < s.Same {
			continue
		}
		switch s.Fmt {
		case 0:
			for c := 0; c < 256; c++ {
				g := 0
				if c < len(s.Arr) {
					g = s.Arr[c]
				}
				set(c, g)
			}
		case 4:
			for _, x := range s.Segs {
				for c := x.Start; c <= x.End; c++ {
					if x.Arr != nil {
						set(c, x.Arr[c-x.Start])
					} else {
						set(c, (c+x.Delta)&0xFFFF)
					}
				}
			}
		case 6:
			for i, g := range s.Arr {
				set(s.First+i, g)
			}
		case 12:
			for _, x := range s.Grps {
				for c := x.Start; c <= x.End; c++ {
					set(c, x.Gid+c-x.Start)
				}
			}
		}
	}
	return m
}
