package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"sync"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

func init() {
	checks["cmap"] = &check{n: counts(500, 6000), run: runCmap}
	checks["cmapconc"] = &check{n: counts(60, 500), run: runCmapConc}
}

// rawSub is a subtable in the terms of the specification (field names as in Cmap.tla).
type rawSub struct {
	F int     `json:"f"`
	S any     `json:"s,omitempty"` // int for format 6, []int for format 4
	E []int   `json:"e,omitempty"`
	D []int   `json:"d,omitempty"`
	O []int   `json:"o,omitempty"`
	A any     `json:"a,omitempty"`
	G [][]int `json:"g,omitempty"`
}

func toInts(v any) []int {
	switch x := v.(type) {
	case []int:
		return x
	case []any:
		r := []int{}
		for _, y := range x {
			r = append(r, int(y.(float64)))
		}
		return r
	}
	return nil
}

func toInt(v any) int {
	switch x := v.(type) {
	case int:
		return x
	case float64:
		return int(x)
	}
	return 0
}

func (s *rawSub) bytes() []byte {
	w := &fb.W{}
	a := toInts(s.A)
	switch s.F {
	case 0:
		w.U16(0)
		w.U16(262)
		w.U16(0)
		for i := 0; i < 256; i++ {
			w.U8(a[i])
		}
	case 4:
		st := toInts(s.S)
		n := len(st)
		w.U16(4)
		w.U16(16 + 8*n + 2*len(a))
		w.U16(0)
		w.U16(2 * n)
		es := 0
		for 1<<(es+1) <= n {
			es++
		}
		w.U16(2 << es)
		w.U16(es)
		w.U16(2*n - 2<<es)
		for _, x := range s.E {
			w.U16(x)
		}
		w.U16(0)
		for _, x := range st {
			w.U16(x)
		}
		for _, x := range s.D {
			w.U16(x)
		}
		for _, x := range s.O {
			w.U16(x)
		}
		for _, x := range a {
			w.U16(x)
		}
	case 6:
		w.U16(6)
		w.U16(10 + 2*len(a))
		w.U16(0)
		w.U16(toInt(s.S))
		w.U16(len(a))
		for _, x := range a {
			w.U16(x)
		}
	case 12:
		w.U16(12)
		w.U16(0)
		w.U32(uint32(16 + 12*len(s.G)))
		w.U32(0)
		w.U32(uint32(len(s.G)))
		for _, g := range s.G {
			w.U32(uint32(g[0]))
			w.U32(uint32(g[1]))
			w.U32(uint32(g[2]))
		}
	}
	return w.B
}

func (s rawSub) trace() M {
	m := M{"f": s.F}
	switch s.F {
	case 0, 6:
		m["a"] = toInts(s.A)
		if s.F == 6 {
			m["s"] = toInt(s.S)
		}
	case 4:
		m["s"], m["e"], m["d"], m["o"], m["a"] = toInts(s.S), s.E, s.D, s.O, toInts(s.A)
	case 12:
		m["g"] = s.G
	}
	return m
}

var encOf = map[int][2]int{0: {1, 0}, 4: {3, 1}, 6: {1, 0}, 12: {3, 10}}

func rawCmapTable(subs []rawSub, r *rand.Rand) []byte {
	w := &fb.W{}
	w.U16(0)
	w.U16(len(subs))
	w.Zero(8 * len(subs))
	// data in any order; the records keep theirs
	order := r.Perm(len(subs))
	offs := make([]int, len(subs))
	for _, i := range order {
		offs[i] = w.Len()
		w.Raw(subs[i].bytes())
	}
	for i, s := range subs {
		w.Put16(4+8*i, encOf[s.F][0])
		w.Put16(4+8*i+2, encOf[s.F][1])
		w.Put32(4+8*i+4, uint32(offs[i]))
	}
	return w.B
}

func genRaw4(r *rand.Rand, n, base, spread int) rawSub {
	s := rawSub{F: 4}
	k := r.Intn(6)
	c := base + r.Intn(4)
	var st []int
	a := []int{}
	type ref struct{ i, at int }
	var refs []ref
	for i := 0; i < k && c < 0xFFF0; i++ {
		l := 1 + r.Intn(spread)
		if 0xFFFE < c+l {
			break
		}
		st = append(st, c)
		s.E = append(s.E, c+l-1)
		switch r.Intn(3) {
		case 0: // delta
			g := r.Intn(max(1, n-l+1))
			if n < l {
				s.E[len(s.E)-1] = c + n - 1
				l = n
				g = 0
			}
			s.D = append(s.D, (g-c)&0xFFFF)
		case 1: // array, fresh
			refs = append(refs, ref{len(st) - 1, len(a)})
			d := 0
			if r.Intn(3) == 0 {
				d = r.Intn(3) - 1
			}
			for j := 0; j < l; j++ {
				v := r.Intn(n)
				if 0 < v && (v+d < 0 || n <= v+d) {
					v = 0
				}
				a = append(a, v)
			}
			s.D = append(s.D, d&0xFFFF)
		case 2: // array, shared with earlier entries if they fit
			if len(a) < l {
				for len(a) < l {
					a = append(a, r.Intn(n))
				}
				refs = append(refs, ref{len(st) - 1, 0})
			} else {
				refs = append(refs, ref{len(st) - 1, r.Intn(len(a) - l + 1)})
			}
			s.D = append(s.D, 0)
		}
		c += l + r.Intn(4)
	}
	st = append(st, 0xFFFF)
	s.E = append(s.E, 0xFFFF)
	s.D = append(s.D, 1)
	s.O = make([]int, len(st))
	for _, x := range refs {
		s.O[x.i] = 2 * (len(st) - x.i + x.at)
	}
	s.S, s.A = st, a
	return s
}

func genRawSub(r *rand.Rand, n int) rawSub {
	bases := []int{0, 33, 65, 250, 0x370, 0x7FF0, 0x8000, 0xFFC0}
	base := bases[r.Intn(len(bases))]
	switch r.Intn(5) {
	case 0:
		a := make([]int, 256)
		for i := range a {
			if r.Intn(4) == 0 {
				a[i] = r.Intn(min(n, 256))
				if 30 < n && r.Intn(8) == 0 {
					a[i] = min(n, 256) - 1 - r.Intn(2)
				}
			}
		}
		return rawSub{F: 0, A: a}
	case 1:
		a := []int{}
		for i := r.Intn(20); 0 < i; i-- {
			a = append(a, r.Intn(n))
		}
		if 0xFFE0 < base+len(a) {
			base = 0xFF00
		}
		return rawSub{F: 6, S: base, A: a}
	case 2:
		g := [][]int{}
		c := base
		if r.Intn(2) == 0 {
			c += 0x10000
		}
		for i := r.Intn(6); 0 < i; i-- {
			l := 1 + r.Intn(min(n, 12))
			g = append(g, []int{c, c + l - 1, r.Intn(n - l + 1)})
			c += l + r.Intn(3)
			if r.Intn(4) == 0 {
				c += 0x10000
			}
		}
		return rawSub{F: 12, G: g}
	}
	return genRaw4(r, n, base, 14)
}

func subRanges(s rawSub) [][2]int {
	switch s.F {
	case 0:
		return [][2]int{{0, 255}}
	case 4:
		var v [][2]int
		for i, x := range toInts(s.S) {
			v = append(v, [2]int{x, s.E[i]})
		}
		return v
	case 6:
		return [][2]int{{toInt(s.S), toInt(s.S) + len(toInts(s.A)) - 1}}
	}
	var v [][2]int
	for _, g := range s.G {
		v = append(v, [2]int{g[0], g[1]})
	}
	return v
}

func cmapFont(c *ctx, n int, subs []rawSub) []byte {
	d := &FontDesc{Kind: "tt", Glyphs: make([]fb.Glyph, n), Upem: 1000, Post: 3}
	t := fb.Set(d.Tables(), "cmap", rawCmapTable(subs, c.r))
	return fb.SFNT(d.Version(), t, fb.Layout{})
}

func cmapCase(c *ctx) (int, []rawSub, []int) {
	var p struct {
		N    int      `json:"n"`
		Subs []rawSub `json:"subs"`
	}
	if !c.plan(&p) {
		p.N = 2 + c.r.Intn(30)
		if c.r.Intn(10) == 0 {
			p.N = 40000 // deltas beyond the signed range
		} else if c.r.Intn(8) == 0 {
			p.N = 254 + c.r.Intn(5) // around the last glyph a byte can name
		}
		for k := 1 + c.r.Intn(3); 0 < k; k-- {
			s := genRawSub(c.r, p.N)
			dup := false
			for _, x := range p.Subs {
				if x.F == s.F && c.r.Intn(2) == 0 {
					dup = true
				}
			}
			if !dup {
				p.Subs = append(p.Subs, s)
			}
		}
	}
	for i := range p.Subs {
		if p.Subs[i].F == 0 {
			a := make([]int, 256)
			copy(a, toInts(p.Subs[i].A))
			p.Subs[i].A = a
		}
	}
	set := map[int]bool{0: true, -1: true, 65535: true, 65536: true, 0x10FFFF: true}
	for _, s := range p.Subs {
		for _, x := range subRanges(s) {
			for q := x[0] - 1; q <= x[1]+1 && q < x[0]+40; q++ {
				set[q] = true
			}
			set[x[1]], set[x[1]+1] = true, true
			set[x[0]+65536], set[x[0]-65536] = true, true
		}
	}
	var qs []int
	for q := range set {
		qs = append(qs, q)
	}
	sort.Ints(qs)
	if 150 < len(qs) {
		c.r.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
		qs = qs[:150]
	}
	return p.N, p.Subs, qs
}

func runCmap(c *ctx) {
	n, subs, qs := cmapCase(c)
	b := cmapFont(c, n, subs)
	tr := []M{}
	for _, s := range subs {
		tr = append(tr, s.trace())
	}
	e := M{"op": "cmap", "n": n, "subs": tr, "err": "", "q": [][2]int{}, "rev": []any{}}
	var s *font.SFNT
	var err error
	if p := guard(func() { s, err = font.ParseSFNT(b, 0) }); p != "" {
		e["err"] = p
	} else if err != nil {
		e["err"] = err.Error()
	} else {
		q := [][2]int{}
		rev := []any{}
		p := guard(func() {
			for _, x := range qs {
				q = append(q, [2]int{x, int(s.GlyphIndex(rune(x)))})
			}
			gs := map[int]bool{0: true, n: true, n - 1: true, 65535: true, 254: true, 255: true, 256: true}
			for _, x := range q {
				gs[x[1]] = true
			}
			for g := 0; g < min(n, 12); g++ {
				gs[g] = true
			}
			for _, g := range sortedSet(gs) {
				rs := []int{}
				for _, r := range s.GlyphToUnicode(uint16(g)) {
					rs = append(rs, int(r))
				}
				rev = append(rev, []any{g, rs})
			}
		})
		e["err"], e["q"], e["rev"] = p, q, rev
	}
	c.ev(e)
}

func sortedSet(m map[int]bool) []int {
	v := []int{}
	for x := range m {
		v = append(v, x)
	}
	sort.Ints(v)
	return v
}

// raceSeen tells whether the race detector has written a report since the last call (only in the
// race-enabled build, which the driver starts with GORACE=log_path=...).
var raceSize int64

func raceSeen() bool {
	p := os.Getenv("FV_RACELOG")
	if p == "" {
		return false
	}
	var n int64
	fs, _ := filepath.Glob(p + ".*")
	for _, f := range fs {
		if st, err := os.Stat(f); err == nil {
			n += st.Size()
		}
	}
	seen := n != raceSize
	raceSize = n
	return seen
}

// runCmapConc lets several goroutines make the first reverse lookups at once.
func runCmapConc(c *ctx) {
	n, subs, qs := cmapCase(c)
	if 60 < n {
		n = 60
		subs = []rawSub{genRaw4(c.r, n, 40, 10), genRawSub(c.r, n)}
		qs = qs[:min(20, len(qs))]
	}
	if 30 < len(qs) {
		qs = qs[:30]
	}
	b := cmapFont(c, n, subs)
	tr := []M{}
	for _, s := range subs {
		tr = append(tr, s.trace())
	}
	e := M{"op": "conc", "n": n, "subs": tr, "err": "", "q": [][2]int{}, "rev": []any{}, "race": false}
	s, err := font.ParseSFNT(b, 0)
	if err != nil {
		e["err"] = err.Error()
		c.ev(e)
		return
	}
	const k = 6
	res := make([][][]int, k)
	qres := make([][][2]int, k)
	fails := make([]string, k)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for j := 0; j < k; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			fails[j] = guard(func() {
				for i := 0; i < n; i++ {
					g := (i*(j+1) + j) % n
					if j%2 == 0 {
						g = (g + n/2) % n
					}
					rs := []int{g}
					for _, r := range s.GlyphToUnicode(uint16(g)) {
						rs = append(rs, int(r))
					}
					res[j] = append(res[j], rs)
				}
				for _, x := range qs {
					qres[j] = append(qres[j], [2]int{x, int(s.GlyphIndex(rune(x)))})
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	byG := map[int]map[string][]int{}
	q := [][2]int{}
	for j := 0; j < k; j++ {
		if fails[j] != "" {
			e["err"] = fails[j]
		}
		for _, rs := range res[j] {
			if byG[rs[0]] == nil {
				byG[rs[0]] = map[string][]int{}
			}
			byG[rs[0]][digest(rs)] = rs[1:]
		}
		for _, x := range qres[j] {
			q = append(q, x)
		}
	}
	rev := []any{}
	for g := 0; g < n; g++ {
		vs := [][]int{}
		for _, v := range byG[g] {
			vs = append(vs, v)
		}
		rev = append(rev, []any{g, vs})
	}
	e["rev"], e["q"] = rev, q
	e["race"] = raceSeen()
	c.ev(e)
}
