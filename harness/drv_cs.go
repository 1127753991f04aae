package main

import (
	"math/rand"
	"os"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The charstring driver: charstrings with subroutines and what is drawn for them.

func init() {
	checks["cs"] = &check{n: counts(500, 8000), run: runCS}
}

type csPlan struct {
	CS [][]int   `json:"cs"`
	G  [][]int   `json:"g"`
	L  [][][]int `json:"l"`
	FD []int     `json:"fd"`
}

func bytesOf(v [][]int) [][]byte {
	var r [][]byte
	for _, x := range v {
		r = append(r, toBytes(x))
	}
	return r
}

func intsOf(v [][]byte) [][]int {
	r := [][]int{}
	for _, x := range v {
		r = append(r, ints(x))
	}
	return r
}

// csGen writes random programs.
type csGen struct {
	r      *rand.Rand
	nl, ng int // subroutine counts
	frac   bool
}

func (g *csGen) num(v int) []byte {
	if g.frac && g.r.Intn(3) == 0 {
		w := &fb.W{}
		w.U8(255)
		w.U16(v)
		w.U16(4096 * g.r.Intn(16))
		return w.B
	}
	switch g.r.Intn(12) {
	case 0:
		w := &fb.W{}
		w.U8(28)
		w.U16(v)
		return w.B
	case 1:
		w := &fb.W{}
		w.U8(255)
		w.U16(v)
		w.U16(0)
		return w.B
	}
	return fb.CSNum(v)
}

func (g *csGen) val() int {
	switch g.r.Intn(6) {
	case 0:
		return []int{107, 108, -107, -108, 1131, 1132, -1131, -1132, 0, 1, -1}[g.r.Intn(11)]
	case 1:
		return g.r.Intn(2000) - 1000
	}
	return g.r.Intn(120) - 60
}

func (g *csGen) args(n int) []byte {
	var b []byte
	for ; 0 < n; n-- {
		b = append(b, g.num(g.val())...)
	}
	return b
}

// drawOp returns a path operator with operands; now and then their number is wrong.
func (g *csGen) drawOp() []byte {
	r := g.r
	big := r.Intn(6) == 0
	k := func(m int) int {
		if big {
			return 1 + r.Intn(m)
		}
		return 1 + r.Intn(3)
	}
	var n int
	var op []byte
	switch r.Intn(14) {
	case 0:
		n, op = 2*k(24), []byte{5}
	case 1:
		n, op = k(48), []byte{6}
	case 2:
		n, op = k(48), []byte{7}
	case 3:
		n, op = 6*k(8), []byte{8}
	case 4:
		n, op = 6*k(7)+2, []byte{24}
	case 5:
		n, op = 2*k(21)+6, []byte{25}
	case 6:
		n, op = 4*k(11)+r.Intn(2), []byte{26}
	case 7:
		n, op = 4*k(11)+r.Intn(2), []byte{27}
	case 8:
		n, op = 4*k(11)+r.Intn(2), []byte{30}
	case 9:
		n, op = 4*k(11)+r.Intn(2), []byte{31}
	case 10:
		n, op = 13, []byte{12, 35}
	case 11:
		n, op = 7, []byte{12, 34}
	case 12:
		n, op = 9, []byte{12, 36}
	case 13:
		n, op = 11, []byte{12, 37}
	}
	if 48 < n {
		n = 48
	}
	if r.Intn(60) == 0 {
		n += r.Intn(5) - 2
		if n < 0 {
			n = 0
		}
	}
	return append(g.args(n), op...)
}

func (g *csGen) call(global bool, i int) []byte {
	n, op := g.nl, byte(10)
	if global {
		n, op = g.ng, 29
	}
	return append(g.num0(i-bias(n)), op)
}

// num0 encodes a number that has to be exact.
func (g *csGen) num0(v int) []byte {
	f := g.frac
	g.frac = false
	b := g.num(v)
	g.frac = f
	return b
}

// glyph writes a program; pieces may be moved into subroutines by put.
func (g *csGen) glyph(put func([]byte) []byte) []byte {
	r := g.r
	var b []byte
	first := true
	width := func() []byte {
		if first {
			first = false
			if r.Intn(2) == 0 {
				return g.num(g.val())
			}
		}
		return nil
	}
	stems := 0
	for r.Intn(3) == 0 {
		n := 1 + r.Intn(3)
		if r.Intn(8) == 0 {
			n = 1 + r.Intn(23)
		}
		x := append(width(), g.args(2*n)...)
		b = append(b, put(append(x, []byte{1, 3, 18, 23}[r.Intn(4)]))...)
		stems += n
	}
	mask := func(op byte, implicit bool) []byte {
		var x []byte
		if implicit && r.Intn(2) == 0 {
			n := 1 + r.Intn(4)
			x = append(width(), g.args(2*n)...)
			stems += n
		} else if implicit && 0 < stems {
			x = width()
		}
		first = false
		x = append(x, op)
		for i := 0; i < (stems+7)/8; i++ {
			x = append(x, byte(r.Intn(256)))
		}
		return x
	}
	if r.Intn(3) == 0 && 0 < stems || r.Intn(8) == 0 {
		b = append(b, put(mask(19+byte(r.Intn(2)), true))...)
	}
	for k := r.Intn(4); 0 < k; k-- {
		var x []byte
		switch r.Intn(3) {
		case 0:
			x = append(append(width(), g.args(2)...), 21)
		case 1:
			x = append(append(width(), g.args(1)...), 22)
		case 2:
			x = append(append(width(), g.args(1)...), 4)
		}
		first = false
		b = append(b, put(x)...)
		for j := r.Intn(5); 0 < j; j-- {
			b = append(b, put(g.drawOp())...)
			if 0 < stems && r.Intn(6) == 0 {
				b = append(b, put(mask(19+byte(r.Intn(2)), false))...)
			}
		}
	}
	if first && r.Intn(2) == 0 {
		b = append(b, g.num(g.val())...)
	}
	return append(b, 14)
}

func genCS(r *rand.Rand) *csPlan {
	fds := 1
	cid := r.Intn(4) == 0
	if cid {
		fds = 1 + r.Intn(4)
	}
	n := 3 + r.Intn(6)
	p := &csPlan{}
	// subroutine counts are fixed beforehand: some slots stay a lone return
	ngl := r.Intn(8)
	if r.Intn(25) == 0 {
		ngl = 1238 + r.Intn(5)
	}
	G := make([][]byte, ngl)
	L := make([][][]byte, fds)
	for i := range L {
		k := r.Intn(8)
		if r.Intn(40) == 0 {
			k = 1238 + r.Intn(5)
		}
		L[i] = make([][]byte, k)
	}
	frac := r.Intn(3) == 0
	free := func(s [][]byte) int {
		if len(s) == 0 {
			return -1
		}
		i := pick(r, len(s))
		if s[i] == nil {
			return i
		}
		return -1
	}
	for i := 0; i < n; i++ {
		fd := r.Intn(fds)
		if i == 0 && !cid {
			fd = 0
		}
		p.FD = append(p.FD, fd+1)
		g := &csGen{r: r, nl: len(L[fd]), ng: ngl, frac: frac}
		var put func(x []byte) []byte
		depth := 0
		put = func(x []byte) []byte {
			if depth < 4 && r.Intn(4) == 0 {
				global := r.Intn(2) == 0
				s := L[fd]
				if global {
					s = G
				}
				// the body of a global subroutine may call local ones of this glyph's dictionary only if there is one dictionary
				if k := free(s); 0 <= k {
					s[k] = []byte{11}
					cut := 0
					if r.Intn(2) == 0 && x[len(x)-1] < 32 && len(x) < 100 {
						// leave the leading operands outside
						cut = leading(x, r)
					}
					body := append([]byte{}, x[cut:]...)
					depth++
					if (!global || fds == 1) && r.Intn(3) == 0 {
						body = put(body)
					}
					depth--
					if body[len(body)-1] != 14 || r.Intn(2) == 0 {
						body = append(body, 11)
					}
					s[k] = body
					return append(append([]byte{}, x[:cut]...), g.call(global, k)...)
				}
			}
			return x
		}
		b := g.glyph(put)
		if i == 0 && r.Intn(2) == 0 {
			b = []byte{14}
		}
		switch r.Intn(16) {
		case 0:
			b = append([]byte{}, b...)
			b[r.Intn(len(b))] = byte(r.Intn(256))
		case 1:
			b = b[:r.Intn(len(b))]
		case 2:
			if 0 < len(L[fd]) {
				b = g.call(false, r.Intn(len(L[fd])))
			}
		case 3: // subroutine numbers at the limits
			b = append(append([]byte{}, b[:len(b)-1]...), append(g.num0([]int{-108, -107, g.nl - 108, g.nl - 107, -1131, -1132, g.nl - 1131, g.nl - 1132}[r.Intn(8)]), 10)...)
			b = append(b, 14)
		}
		if len(b) == 0 {
			b = []byte{0}
		}
		p.CS = append(p.CS, ints(b))
	}
	for i := range G {
		if G[i] == nil {
			G[i] = []byte{11}
			if 0 < i && r.Intn(3) == 0 && ngl < 100 {
				g := &csGen{r: r, ng: ngl}
				G[i] = append(g.call(true, i-1), 11)
			}
		}
	}
	for d := range L {
		for i := range L[d] {
			if L[d][i] == nil {
				L[d][i] = []byte{11}
			}
		}
		p.L = append(p.L, intsOf(L[d]))
	}
	p.G = intsOf(G)
	if !cid {
		p.FD = nil
	}
	return p
}

// leading returns the length of some of the numbers x starts with.
func leading(x []byte, r *rand.Rand) int {
	i := 0
	for i < len(x) && (32 <= x[i] || x[i] == 28) {
		switch {
		case x[i] == 28:
			i += 3
		case x[i] == 255:
			i += 5
		case 247 <= x[i]:
			i += 2
		default:
			i++
		}
		if r.Intn(4) == 0 {
			break
		}
	}
	return i
}

// nestCS calls subroutines deeper and deeper.
func nestCS(r *rand.Rand) *csPlan {
	p := &csPlan{CS: [][]int{{14}}}
	n := 14
	g := &csGen{r: r, nl: n, ng: n}
	var G, L [][]byte
	for i := 0; i < n; i++ {
		if i == 0 {
			G = append(G, []byte{140, 141, 5, 11})
			L = append(L, []byte{142, 140, 5, 11})
			continue
		}
		G = append(G, append(g.call(r.Intn(2) == 0, i-1), 11))
		L = append(L, append(g.call(r.Intn(2) == 0, i-1), 11))
	}
	for i := 6; i < n; i++ {
		b := append([]byte{139, 139, 21}, g.call(r.Intn(2) == 0, i)...)
		b = append(b, 150, 151, 5, 14)
		p.CS = append(p.CS, ints(b))
	}
	p.G, p.L = intsOf(G), [][][]int{intsOf(L)}
	return p
}

var garamond *csPlan

// realCS takes charstrings from a real font.
func realCS(r *rand.Rand) *csPlan {
	if garamond == nil {
		b, err := os.ReadFile(realFonts[1])
		if err != nil {
			panic(err)
		}
		garamond = splitCFF(rawTables(b)["CFF "])
	}
	p := &csPlan{G: garamond.G, L: garamond.L, CS: [][]int{{14}}}
	for len(p.CS) < 12 {
		x := garamond.CS[r.Intn(len(garamond.CS))]
		if len(x) < 400 {
			p.CS = append(p.CS, x)
		}
	}
	return p
}

// splitCFF reads the charstrings and subroutines of a well-formed CFF table that is not CID-keyed.
func splitCFF(b []byte) *csPlan {
	index := func(p int) ([][]byte, int) {
		n := int(b[p])<<8 | int(b[p+1])
		if n == 0 {
			return nil, p + 2
		}
		sz := int(b[p+2])
		off := func(i int) int {
			v := 0
			for k := 0; k < sz; k++ {
				v = v<<8 | int(b[p+3+i*sz+k])
			}
			return v
		}
		base := p + 3 + (n+1)*sz - 1
		var items [][]byte
		for i := 0; i < n; i++ {
			items = append(items, b[base+off(i):base+off(i+1)])
		}
		return items, base + off(n)
	}
	dict := func(d []byte) map[int][]int {
		m := map[int][]int{}
		var st []int
		for i := 0; i < len(d); {
			c := int(d[i])
			i++
			switch {
			case c == 28:
				st = append(st, int(int16(int(d[i])<<8|int(d[i+1]))))
				i += 2
			case c == 29:
				st = append(st, int(int32(uint32(d[i])<<24|uint32(d[i+1])<<16|uint32(d[i+2])<<8|uint32(d[i+3]))))
				i += 4
			case c == 30:
				for d[i]&15 != 15 {
					i++
				}
				i++
				st = append(st, 0)
			case 32 <= c && c <= 246:
				st = append(st, c-139)
			case 247 <= c && c <= 250:
				st = append(st, (c-247)*256+int(d[i])+108)
				i++
			case 251 <= c:
				st = append(st, -(c-251)*256-int(d[i])-108)
				i++
			default:
				if c == 12 {
					c = 256 + int(d[i])
					i++
				}
				m[c] = st
				st = nil
			}
		}
		return m
	}
	_, p := index(int(b[2]))
	top, p := index(p)
	_, p = index(p)
	gs, _ := index(p)
	t := dict(top[0])
	cs, _ := index(t[17][0])
	pl := &csPlan{CS: intsOf(cs), G: intsOf(gs)}
	pr := dict(b[t[18][1] : t[18][1]+t[18][0]])
	var ls [][]byte
	if s, ok := pr[19]; ok {
		ls, _ = index(t[18][1] + s[0])
	}
	pl.L = [][][]int{intsOf(ls)}
	return pl
}

func runCS(c *ctx) {
	pl := &csPlan{}
	if !c.plan(pl) {
		switch k := c.r.Intn(40); {
		case k == 0:
			pl = realCS(c.r)
		case k < 3:
			pl = nestCS(c.r)
		default:
			pl = genCS(c.r)
		}
	} else {
		pl.FD = nil
	}
	n := len(pl.CS)
	d := &FontDesc{Kind: "cff", Upem: 1000, Post: 3, CFF: &fb.CFF{Name: "CS", CharStrings: bytesOf(pl.CS), GSubrs: bytesOf(pl.G), OffSize: c.r.Intn(5)}}
	for _, l := range pl.L {
		d.CFF.LSubrs = append(d.CFF.LSubrs, bytesOf(l))
	}
	fd := pl.FD
	if fd == nil {
		for i := 0; i < n; i++ {
			fd = append(fd, 1)
		}
		if n < 200 && c.r.Intn(2) == 0 {
			d.Names = []string{".notdef"}
			for i := 1; i < n; i++ {
				d.Names = append(d.Names, string(rune('a'+i%26))+string(rune('a'+i/26)))
			}
			d.CFF.CharsetFmt = c.r.Intn(3)
		}
	} else {
		for _, x := range fd {
			d.CFF.FD = append(d.CFF.FD, x-1)
		}
		d.CFF.FDFmt = []int{0, 3}[c.r.Intn(2)]
		d.CFF.CharsetFmt = c.r.Intn(3)
	}
	for i := 0; i < n; i++ {
		d.Glyphs = append(d.Glyphs, fb.Glyph{Adv: 500 + i})
	}
	file := d.Bytes()
	var s *font.SFNT
	var err error
	p := guard(func() { s, err = font.ParseSFNT(file, 0) })
	msg := p + errStr(err)
	if pl.L == nil {
		pl.L = [][][]int{{}}
	}
	if pl.G == nil {
		pl.G = [][]int{}
	}
	c.ev(M{"op": "font", "cs": pl.CS, "g": pl.G, "l": pl.L, "fd": fd, "err": msg})
	if msg != "" {
		return
	}
	for g := 0; g < n+1; g++ {
		if g == n && c.r.Intn(4) != 0 {
			continue
		}
		f4 := []int{4, 4, 2, 1, 8, 12, -4}[c.r.Intn(7)]
		x, y := 0, 0
		if c.r.Intn(2) == 0 {
			x, y = c.r.Intn(4000)-2000, c.r.Intn(4000)-2000
		}
		m := M{"op": "glyph", "g": g, "f4": f4, "x64": x, "y64": y, "err": false, "box": []int{}}
		rec := &opsRec{mul: 64, ops: [][]int{}}
		m["panic"] = guard(func() {
			for k := 0; k < 2; k++ {
				rec = &opsRec{mul: 64, ops: [][]int{}}
				err = s.GlyphPath(rec, uint16(g), 0, float64(x)/64, float64(y)/64, float64(f4)/4, font.NoHinting)
			}
			m["err"] = err != nil
			a, b, e, f := s.GlyphBounds(uint16(g))
			m["box"] = []int{int(a), int(b), int(e), int(f)}
		})
		m["ops"] = rec.ops
		m["frac"] = rec.frac
		c.ev(m)
	}
}
