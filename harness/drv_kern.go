package main

import (
	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The kern table driver: raw tables, the kerning of pairs, and the table written again.

func init() {
	checks["kern"] = &check{n: counts(400, 8000), run: runKern}
}

type kernPlan struct {
	B []int `json:"b"`
}

func (c *ctx) genKernTable(pairs map[[2]int]bool) []byte {
	r := c.r
	ver := 0
	if r.Intn(4) == 0 {
		ver = 1
	}
	glyphs := []int{0, 1, 2, 3, 5, 7, 20, 0x7FFF, 0x8000, 0xFFFF}
	nsub := 1 + r.Intn(4)
	w := &fb.W{}
	if ver == 0 {
		w.U16(0)
		w.U16(nsub)
	} else {
		w.U16(1)
		w.U16(0)
		w.U32(uint32(nsub))
	}
	big := r.Intn(150) == 0
	for i := 0; i < nsub; i++ {
		body := &fb.W{}
		seen := map[[2]int]bool{}
		var list [][2]int
		n := r.Intn(12)
		if r.Intn(4) == 0 {
			n = []int{0, 1, 2, 31, 32, 33}[r.Intn(6)]
		}
		if big && i == nsub-1 {
			n = 10921 + r.Intn(40)
		}
		for len(list) < n {
			p := [2]int{glyphs[r.Intn(len(glyphs))], glyphs[r.Intn(len(glyphs))]}
			if 20 < n || r.Intn(3) == 0 {
				p = [2]int{r.Intn(200), r.Intn(200)}
			}
			if !seen[p] || r.Intn(60) == 0 {
				seen[p] = true
				list = append(list, p)
			}
		}
		if r.Intn(3) != 0 {
			sortPairs(list)
		}
		body.U16(len(list))
		body.U16(word(r))
		body.U16(word(r))
		body.U16(word(r))
		for _, p := range list {
			body.U16(p[0])
			body.U16(p[1])
			v := r.Intn(400) - 200
			if r.Intn(10) == 0 {
				v = []int{-32768, 32767, 0, -1}[r.Intn(4)]
			}
			body.U16(v)
			if len(pairs) < 40 {
				pairs[p] = true
				pairs[[2]int{p[1], p[0]}] = true
			}
		}
		if r.Intn(5) == 0 && !(big && i == nsub-1) {
			body.Zero(r.Intn(7))
		}
		skip := r.Intn(6) == 0
		if ver == 0 {
			sv := 0
			if skip && r.Intn(2) == 0 {
				sv = 1
			}
			w.U16(sv)
			w.U16(6 + body.Len())
			if skip && sv == 0 {
				w.U8(1 + r.Intn(3))
			} else {
				w.U8(0)
			}
			w.U8([]int{1, 1, 1, 3, 3, 0, 5, 9}[r.Intn(8)])
		} else {
			w.U32(uint32(8 + body.Len()))
			w.U8([]int{0, 0, 0, 0x80, 0x40, 0x20}[r.Intn(6)])
			if skip {
				w.U8(2)
			} else {
				w.U8(0)
			}
			w.U16(0)
		}
		w.Raw(body.B)
	}
	if r.Intn(6) == 0 {
		w.Zero(r.Intn(5))
	}
	if r.Intn(12) == 0 {
		return spoil(r, w.B)
	}
	return w.B
}

func sortPairs(l [][2]int) {
	for i := 1; i < len(l); i++ {
		for j := i; 0 < j && (l[j][0] < l[j-1][0] || l[j][0] == l[j-1][0] && l[j][1] < l[j-1][1]); j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

func runKern(c *ctx) {
	var pl kernPlan
	var b []byte
	pairs := map[[2]int]bool{}
	if c.plan(&pl) {
		b = bts(pl.B)
		for _, l := range []int{0, 1, 2, 65535} {
			for _, r := range []int{0, 1, 2, 65535} {
				pairs[[2]int{l, r}] = true
			}
		}
	} else {
		b = c.genKernTable(pairs)
		for i := 0; i < 6; i++ {
			pairs[[2]int{c.r.Intn(30), c.r.Intn(30)}] = true
		}
	}
	d := &FontDesc{Kind: "tt", Upem: 1000, Post: 3}
	for i := 0; i < 10; i++ {
		d.Glyphs = append(d.Glyphs, fb.Glyph{Contours: poly(c.r, i), Adv: 500 + i})
	}
	ts := fb.Set(d.Tables(), "kern", b)
	file := fb.SFNT(d.Version(), fb.SortTables(ts), fb.Layout{})
	var s, s2 *font.SFNT
	var err error
	msg := ""
	w := []byte{}
	p := guard(func() {
		s, err = font.ParseSFNT(file, 0)
		msg = errStr(err)
		if err != nil {
			return
		}
		// written again
		w = s.Kern.Write()
		file2 := fb.SFNT(d.Version(), fb.SortTables(fb.Set(d.Tables(), "kern", w)), fb.Layout{})
		s2, err = font.ParseSFNT(file2, 0)
		if err != nil {
			msg = "written: " + errStr(err)
		}
	})
	c.ev(M{"op": "kern", "b": ints(b), "w": ints(w), "err": msg, "panic": p})
	if msg != "" || p != "" {
		return
	}
	var ps [][2]int
	for p := range pairs {
		ps = append(ps, p)
	}
	sortPairs(ps)
	for _, p := range ps {
		m := M{"op": "get", "l": p[0], "r": p[1], "v": 0, "w": 0}
		m["panic"] = guard(func() {
			m["v"], m["w"] = int(s.Kerning(uint16(p[0]), uint16(p[1]))), int(s2.Kerning(uint16(p[0]), uint16(p[1])))
		})
		c.ev(m)
	}
}
