package main

import (
	"bytes"
	"math/rand"
	"sort"

	font "github.com/tdewolff/font"
)

// The font file driver: histories of operations as for the font library, and after each of them the bytes
// of the file the library writes for the font next to everything the font object answers.

func init() {
	checks["file"] = &check{n: counts(350, 6000), run: runFile}
}

// fileRunes are the characters asked for.
func fileRunes(descs []*FontDesc) []int {
	m := map[int]bool{0: true, 0xFFFE: true, 0xFFFF: true, 0x10000: true, 0x10FFFF: true}
	for _, d := range descs {
		for c := range d.CMap {
			m[c] = true
			m[c+1] = true
			if 0 < c {
				m[c-1] = true
			}
		}
	}
	for i := 30; i < 64; i++ {
		m[i] = true // after rearranging
	}
	var rs []int
	for c := range m {
		if c <= 0x10FFFF {
			rs = append(rs, c)
		}
	}
	sort.Ints(rs)
	return rs
}

// isNew tells whether a table is that of none of the source fonts.
func isNew(src []map[string][]byte, tag string, b []byte) bool {
	for _, t := range src {
		if x, ok := t[tag]; ok && bytes.Equal(x, b) {
			return false
		}
	}
	return true
}

func fileEvent(s *font.SFNT, src []map[string][]byte, runes []int) M {
	m := M{"op": "file"}
	var b []byte
	m["fail"] = guard(func() {
		b = s.Write()
		n := int(s.NumGlyphs())
		m["emb"] = isEmbedded(s)
		nw := []string{"head"}
		for tag, t := range s.Tables {
			if tag != "head" && isNew(src, tag, t) {
				nw = append(nw, tag)
			}
		}
		sort.Strings(nw)
		m["new"] = nw
		m["n"] = n
		m["upem"] = int(s.UnitsPerEm())
		cm := [][2]int{}
		if s.Cmap != nil {
			for _, c := range runes {
				cm = append(cm, [2]int{c, int(s.GlyphIndex(rune(c)))})
			}
		}
		m["cm"] = cm
		adv, lsb, vadv, tsb, names, gl, kern := []int{}, []int{}, []int{}, []int{}, [][]int{}, []M{}, [][3]int{}
		for g := 0; g < n; g++ {
			i := uint16(g)
			if s.Hmtx != nil {
				adv = append(adv, int(s.GlyphAdvance(i)))
				lsb = append(lsb, int(s.Hmtx.LeftSideBearing(i)))
			}
			if s.Vmtx != nil {
				vadv = append(vadv, int(s.GlyphVerticalAdvance(i)))
				tsb = append(tsb, int(s.Vmtx.TopSideBearing(i)))
			}
			names = append(names, ints([]byte(s.GlyphName(i))))
			if s.Kern != nil {
				for r := 0; r < n; r++ {
					if k := int(s.Kerning(i, uint16(r))); k != 0 {
						kern = append(kern, [3]int{g, r, k})
					}
				}
			}
			p := M{"x8": 0, "y8": 0, "x64": 0, "y64": 0, "f4": 4, "box": []int{}, "ins": []int{}}
			rec := &opsRec{mul: 64, ops: [][]int{}}
			if s.IsTrueType {
				rec.mul = 8
			}
			p["err"] = s.GlyphPath(rec, i, 0, 0, 0, 1, font.NoHinting) != nil
			x0, y0, x1, y1 := s.GlyphBounds(i)
			p["box"] = []int{int(x0), int(y0), int(x1), int(y1)}
			if s.IsTrueType {
				if c, err := s.Glyf.Contour(i); err == nil {
					p["ins"] = ints(c.Instructions)
				}
			}
			p["ops"], p["frac"] = rec.ops, rec.frac
			gl = append(gl, p)
		}
		m["adv"], m["lsb"], m["vadv"], m["tsb"], m["names"], m["gl"], m["kern"] = adv, lsb, vadv, tsb, names, gl, kern
	})
	m["b"] = ints(b)
	return m
}

// manySubrs tells whether there are long tables of subroutines, which say nothing more here.
func manySubrs(descs []*FontDesc) bool {
	for _, d := range descs {
		if d.CFF == nil {
			continue
		}
		k := len(d.CFF.GSubrs)
		for _, x := range d.CFF.LSubrs {
			k += len(x)
		}
		if 40 < k {
			return true
		}
	}
	return false
}

func runFile(c *ctx) {
	var pl libPlan
	planned := c.plan(&pl)
	focus := "C16"
	if !planned && c.r.Intn(3) == 0 {
		focus = "C12"
	}
	descs := poolOf(c.r, focus, pl.Comps)
	for manySubrs(descs) {
		descs = poolOf(c.r, focus, pl.Comps)
	}
	l := newLibRun(descs, c.r.Int63())
	src := []map[string][]byte{}
	for _, b := range l.pool {
		src = append(src, rawTables(b))
	}
	runes := fileRunes(descs)
	var ops []libOp
	do := func(op libOp) bool {
		k := len(l.objs)
		if l.step(op) == nil {
			return false
		}
		ops = append(ops, op)
		o := op.O - 1
		if k < len(l.objs) {
			o = k
		} else if op.Op != "merge" && op.Op != "rename" {
			return true
		}
		if s := l.objs[o].s; 0 < s.NumGlyphs() && s.NumGlyphs() < 40 && (s.IsCFF || s.Glyf != nil) {
			if f := fileEvent(s, src, runes); len(f["b"].([]int)) < 40000 {
				c.ev(f)
			}
		}
		return true
	}
	if planned {
		for _, op := range pl.Ops {
			do(op)
		}
	} else {
		if do(libOp{Op: "load", B: 0}) && 0 < len(l.objs) {
			do(libOp{Op: "load", B: 1})
			if c.r.Intn(3) == 0 {
				do(libOp{Op: "load", B: len(l.pool) - 1})
			}
			for i := 2 + c.r.Intn(3); 0 < i && len(l.objs) < 7; i-- {
				do(l.fileOp(c.r, focus))
			}
		}
	}
	c.Info["kinds"] = l.kinds
	c.Info["ops"] = ops
}

// fileOp draws an operation that makes a file of its own.
func (l *libRun) fileOp(r *rand.Rand, focus string) libOp {
	for {
		op := l.randomOp(r, focus)
		if op.Op == "subset" || op.Op == "merge" || op.Op == "rename" || op.Op == "woff2" && r.Intn(2) == 0 {
			return op
		}
	}
}
