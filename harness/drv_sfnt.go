package main

import (
	"math/rand"
	"sort"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The container driver: files and collections in every layout, and files written by the library.

func init() {
	checks["sfnt"] = &check{n: counts(700, 12000), run: runSfnt}
	checks["sfntw"] = &check{n: counts(200, 3000), run: runSfntWrite}
}

type sfntPlan struct {
	K     string `json:"k"`
	Fonts int    `json:"fonts"`
	Index int    `json:"index"`
	Miss  int    `json:"miss"`
	Rec   string `json:"rec"`
	Data  string `json:"data"`
	Gap   int    `json:"gap"`
	Cut   string `json:"cut"`
	Spare int    `json:"spare"`
	Share bool   `json:"share"`
	Major int    `json:"major"`
}

// coll says how the fonts are laid out in a file.
type coll struct {
	ver    []uint32
	fonts  [][]fb.Table // in the order of the records
	ttc    bool
	major  int
	order  func(n int) []int // order of the blocks
	gap    func() int        // bytes before a block (multiple of 4)
	share  bool              // equal tables are stored once
	inside bool              // directories between the tables
	spare  int
	noPad  bool // the last table is not padded
	sums   bool
}

type collBlock struct{ f, t, off int } // t < 0: directory

func (c *coll) bytes() []byte {
	w := &fb.W{}
	if c.ttc {
		w.Str("ttcf")
		w.U16(c.major)
		w.U16(0)
		w.U32(uint32(len(c.fonts)))
		w.Zero(4 * len(c.fonts))
		if c.major == 2 {
			w.Zero(12)
		}
	}
	var dirs, blocks []collBlock
	for f := range c.fonts {
		dirs = append(dirs, collBlock{f, -1, 0})
		for t := range c.fonts[f] {
			blocks = append(blocks, collBlock{f, t, 0})
		}
	}
	perm := func(l []collBlock) (m []collBlock) {
		for _, i := range c.order(len(l)) {
			m = append(m, l[i])
		}
		return m
	}
	all := append(append([]collBlock{}, dirs...), perm(blocks)...)
	if c.ttc && c.inside {
		all = perm(append(append([]collBlock{}, dirs...), blocks...))
	} else if c.ttc {
		all = append(perm(dirs), perm(blocks)...)
	}
	at := make([]int, len(c.fonts))
	offs := make([][]int, len(c.fonts))
	for f := range offs {
		offs[f] = make([]int, len(c.fonts[f]))
	}
	stored := map[string]int{}
	for i, x := range all {
		if x.t < 0 {
			at[x.f] = w.Len()
			w.Zero(12 + 16*len(c.fonts[x.f]))
			continue
		}
		d := c.fonts[x.f][x.t].Data
		if c.share {
			if o, ok := stored[string(d)]; ok && 0 < len(d) {
				offs[x.f][x.t] = o
				continue
			}
		}
		w.Zero(c.gap())
		offs[x.f][x.t] = w.Len()
		stored[string(d)] = w.Len()
		w.Raw(d)
		if !(c.noPad && i == len(all)-1) {
			w.Pad4()
		}
	}
	for f, ts := range c.fonts {
		if c.ttc {
			w.Put32(12+4*f, uint32(at[f]))
		}
		p, n, es := at[f], len(ts), 0
		for 1<<(es+1) <= n {
			es++
		}
		w.Put32(p, c.ver[f])
		w.Put16(p+4, n)
		w.Put16(p+6, 16<<es)
		w.Put16(p+8, es)
		w.Put16(p+10, 16*n-16<<es)
		for t, x := range ts {
			q := p + 12 + 16*t
			copy(w.B[q:], x.Tag)
			if c.sums {
				w.Put32(q+4, fb.Sum(x.Data))
			}
			w.Put32(q+8, uint32(offs[f][t]))
			w.Put32(q+12, uint32(len(x.Data)))
		}
	}
	if c.sums && !c.ttc {
		for t, x := range c.fonts[0] {
			if x.Tag == "head" {
				w.Put32(offs[0][t]+8, 0)
				w.Put32(offs[0][t]+8, 0xB1B0AFBA-fb.Sum(w.B))
			}
		}
	}
	w.B = append(w.B, make([]byte, c.spare)...)
	return w.B
}

func noSum(t fb.Table) fb.Table {
	if t.Tag == "head" && 12 <= len(t.Data) {
		t.Data = append([]byte{}, t.Data...)
		copy(t.Data[8:12], []byte{0, 0, 0, 0})
	}
	return t
}

func orderOf(o string, n int) []int {
	v := make([]int, n)
	for i := range v {
		switch o {
		case "down":
			v[i] = n - 1 - i
		case "turn":
			v[i] = (i + 1) % n
		default:
			v[i] = i
		}
	}
	return v
}

func smallFont(r *rand.Rand, kind string) *FontDesc {
	return genFont(r, genOpts{kind: kind, n: 1 + r.Intn(3), names: r.Intn(3), kern: r.Intn(4) == 0, vert: r.Intn(4) == 0, multiCmap: r.Intn(3) == 0, nl: r.Intn(2), ng: r.Intn(2), base: 65})
}

func tableList(s *font.SFNT) []M {
	var tags []string
	for t := range s.Tables {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	l := []M{}
	for _, t := range tags {
		l = append(l, M{"tag": ints([]byte(t)), "data": ints(s.Tables[t])})
	}
	return l
}

func (c *ctx) open(b []byte, index int, emb, sound bool, via int) *font.SFNT {
	clamp := index
	if clamp < -1 {
		clamp = -1
	} else if 1<<31-1 < clamp {
		clamp = 1<<31 - 1
	}
	m := M{"op": "open", "b": ints(b), "index": clamp, "emb": emb, "sound": sound, "err": "", "tables": []M{}, "tt": false, "cff": false}
	var s *font.SFNT
	buf := append([]byte{}, b...)
	m["panic"] = guard(func() {
		var err error
		if emb {
			s, err = font.ParseEmbeddedSFNT(buf, index)
		} else if via == 1 {
			s, err = font.ParseFont(buf, index)
		} else {
			s, err = font.ParseSFNT(buf, index)
		}
		m["err"] = errStr(err)
		if err != nil {
			s = nil
		}
	})
	if s != nil {
		m["tables"], m["tt"], m["cff"] = tableList(s), s.IsTrueType, s.IsCFF
	}
	c.ev(m)
	return s
}

func (c *ctx) written(s *font.SFNT) {
	m := M{"op": "write", "b": []int{}, "tables": tableList(s), "tt": s.IsTrueType}
	m["panic"] = guard(func() { m["b"] = ints(s.Write()) })
	c.ev(m)
}

func runSfnt(c *ctx) {
	r := c.r
	var pl sfntPlan
	if c.plan(&pl) {
		n := pl.Fonts
		if n == 0 {
			n = 1
		}
		co := &coll{ttc: pl.Fonts != 0, major: pl.Major, share: pl.Share, spare: pl.Spare, sums: true,
			order: func(n int) []int { return orderOf(pl.Data, n) }, gap: func() int { return pl.Gap }}
		tags := []string{"cmap", "glyf", "head", "hhea", "hmtx", "loca", "maxp", "name", "post"}
		if pl.K == "cff" {
			tags = []string{"CFF ", "cmap", "head", "hhea", "hmtx", "maxp", "name", "post"}
		}
		d := smallFont(r, pl.K)
		for i := 0; i < n; i++ {
			if !pl.Share {
				d = smallFont(r, pl.K)
			} else {
				d.Asc[0]++
			}
			var ts []fb.Table
			for _, t := range d.Tables() {
				if !(0 < pl.Miss && tags[pl.Miss-1] == t.Tag) {
					ts = append(ts, noSum(t))
				}
			}
			var rec []fb.Table
			for _, k := range orderOf(pl.Rec, len(ts)) {
				rec = append(rec, ts[k])
			}
			co.ver = append(co.ver, d.Version())
			co.fonts = append(co.fonts, rec)
		}
		b := co.bytes()
		switch pl.Cut {
		case "byte":
			b = b[:len(b)-pl.Spare-4]
		case "dir":
			b = b[:12+16*len(co.fonts[0])-1]
		case "head":
			b = b[:11]
		}
		c.open(b, pl.Index, false, pl.Cut == "no" && pl.Miss == 0, c.i%2)
		return
	}

	co := &coll{major: 1 + r.Intn(2), share: r.Intn(2) == 0, inside: r.Intn(2) == 0, sums: r.Intn(5) != 0, noPad: r.Intn(12) == 0}
	n := 1
	if r.Intn(2) == 0 {
		co.ttc = true
		n = 1 + r.Intn(4)
	}
	if !co.noPad && r.Intn(3) == 0 {
		co.spare = 1 + r.Intn(9)
	}
	gaps := r.Intn(3) == 0
	co.gap = func() int {
		if gaps {
			return 4 * r.Intn(3)
		}
		return 0
	}
	mode := r.Intn(3)
	co.order = func(n int) []int {
		if mode == 0 {
			return r.Perm(n)
		}
		return orderOf([]string{"", "up", "down"}[mode], n)
	}
	emb := r.Intn(5) == 0
	sound := co.sums
	var prev []fb.Table
	for i := 0; i < n; i++ {
		d := smallFont(r, []string{"tt", "cff"}[r.Intn(2)])
		ver := d.Version()
		if d.Kind == "tt" && r.Intn(3) == 0 {
			ver = 0x74727565
		}
		ts := d.Tables()
		for k := range ts {
			ts[k] = noSum(ts[k])
		}
		if co.ttc && prev != nil && co.share {
			for k := range ts {
				if ts[k].Tag == "name" || ts[k].Tag == "OS/2" {
					if x := fb.Get(prev, ts[k].Tag); x != nil {
						ts[k].Data = x
					}
				}
			}
		}
		prev = ts
		for r.Intn(2) == 0 {
			tag := []string{"DSIG", "cvt ", "prep", "gasp", "ZZZZ", "aaaa", "\x00\x01\x02\x03", "    ", "meta", "SVG ", "GDEF", "GPOS", "GSUB", "\xff\xfe\xfd\xfc"}[r.Intn(14)]
			data := make([]byte, r.Intn(23))
			if r.Intn(4) == 0 {
				data = make([]byte, r.Intn(900))
			}
			r.Read(data)
			ts = fb.Set(ts, tag, data)
		}
		if emb {
			drop := []string{"name", "post", "OS/2"}
			if d.Kind == "tt" {
				drop = append(drop, "cmap")
			}
			for _, t := range drop {
				if r.Intn(3) == 0 {
					ts = without(ts, t)
				}
			}
		}
		if r.Intn(8) == 0 {
			ts = without(ts, ts[r.Intn(len(ts))].Tag)
			sound = false
		}
		if r.Intn(30) == 0 && d.Kind == "cff" {
			ts = append(ts, fb.Table{Tag: "CFF2", Data: fb.Get(ts, "CFF ")})
			sound = false
		}
		if r.Intn(25) == 0 {
			x := ts[r.Intn(len(ts))]
			if r.Intn(2) == 0 {
				x = fb.Table{Tag: x.Tag, Data: []byte{1, 2, 3, 4, 5}}
			}
			ts = append(ts, x)
		}
		if r.Intn(3) == 0 {
			r.Shuffle(len(ts), func(i, j int) { ts[i], ts[j] = ts[j], ts[i] })
		} else {
			ts = fb.SortTables(ts)
		}
		co.ver = append(co.ver, ver)
		co.fonts = append(co.fonts, ts)
	}
	b := co.bytes()
	if r.Intn(3) == 0 {
		sound = false
		for k := 1 + r.Intn(2); 0 < k; k-- {
			b = c.spoilDir(b, co)
		}
	}
	idx := []int{0}
	if co.ttc {
		for i := 1; i < n; i++ {
			idx = append(idx, i)
		}
	}
	if r.Intn(2) == 0 {
		idx = append(idx, []int{-1, 1, n, n + 1, 255, 1 << 30, 1<<31 - 1, 1 << 32, 1<<32 + 1, -1 << 40, 1 << 62}[r.Intn(11)])
	}
	for _, i := range idx {
		if s := c.open(b, i, emb, sound, r.Intn(2)); s != nil && r.Intn(6) == 0 {
			c.written(s)
		}
	}
}

func without(ts []fb.Table, tag string) (l []fb.Table) {
	for _, t := range ts {
		if t.Tag != tag {
			l = append(l, t)
		}
	}
	return l
}

// spoilDir damages a directory, a collection header, or the end of a file.
func (c *ctx) spoilDir(b []byte, co *coll) []byte {
	r := c.r
	b = append([]byte{}, b...)
	put16 := func(p, v int) {
		if 0 <= p && p+2 <= len(b) {
			b[p], b[p+1] = byte(v>>8), byte(v)
		}
	}
	get32 := func(p int) uint32 {
		if p < 0 || len(b) < p+4 {
			return 0
		}
		return uint32(b[p])<<24 | uint32(b[p+1])<<16 | uint32(b[p+2])<<8 | uint32(b[p+3])
	}
	put32 := func(p int, v uint32) {
		put16(p, int(v>>16))
		put16(p+2, int(v&0xFFFF))
	}
	edge := func(v uint32) uint32 {
		l := uint32(len(b))
		e := []uint32{0, 1, l, l - 1, l - 4, l + 1, l + 4, l - 12, l - 8, l - 16, l - v, l - v + 1, l - v - 4, v + 1, v - 1, v + 4, v - 4, 0xFFFFFFFF, 0xFFFFFFFC, 0x80000000, 0x7FFFFFFF, 0x40000000, 1 << 24, -v, -v + l, -v - 4}
		return e[r.Intn(len(e))]
	}
	base := 0
	if co.ttc {
		base = int(get32(12 + 4*r.Intn(len(co.fonts))))
	}
	n := int(get32(base+2) & 0xFFFF)
	switch r.Intn(8) {
	case 0:
		return b[:r.Intn(len(b)+1)]
	case 1:
		return b[:len(b)-min(len(b), r.Intn(12))]
	case 2:
		put16(base+4, []int{0, 1, n - 1, n + 1, 2 * n, 65535, 4096}[r.Intn(7)])
	case 3:
		put32(base, []uint32{0, 0x00010001, 0x00020000, 0x74797031, 0x74727565, 0x4F54544F, 0x00010000, 0x74746366, 0x4F545400}[r.Intn(9)])
	case 4:
		if co.ttc {
			switch r.Intn(4) {
			case 0:
				put16(4, r.Intn(4))
			case 1:
				put16(6, r.Intn(3))
			case 2:
				put32(8, []uint32{0, uint32(len(co.fonts) - 1), uint32(len(co.fonts) + 1), edge(0) / 4, 0xFFFFFFFF, 1 << 30, 1<<30 + 1}[r.Intn(7)])
			case 3:
				p := 12 + 4*r.Intn(len(co.fonts))
				put32(p, edge(get32(p)))
			}
			break
		}
		fallthrough
	default:
		if n == 0 {
			break
		}
		p := base + 12 + 16*r.Intn(n)
		switch r.Intn(5) {
		case 0:
			if p+4 <= len(b) {
				b[p+r.Intn(4)] ^= 1 << r.Intn(8)
			}
		case 1, 2:
			put32(p+8, edge(get32(p+8)))
			if r.Intn(3) == 0 {
				put32(p+8, edge(get32(p+12)))
			}
		case 3:
			put32(p+12, edge(get32(p+12)))
			if r.Intn(3) == 0 {
				put32(p+12, edge(get32(p+8)))
			}
		case 4:
			put32(p+4, r.Uint32())
		}
	}
	return b
}

// runSfntWrite writes the fonts of a history of operations.
func runSfntWrite(c *ctx) {
	r := c.r
	descs := poolOf(r, "C02", nil)
	for _, d := range descs {
		for r.Intn(2) == 0 {
			data := make([]byte, r.Intn(9))
			r.Read(data)
			d.Extra = append(d.Extra, fb.Table{Tag: fmtTag(r), Data: data})
		}
	}
	l := newLibRun(descs, r.Int63())
	for i, n := 0, 2+r.Intn(4); i < n; i++ {
		was := len(l.objs)
		op := libOp{Op: "load"}
		if i != 0 {
			op = l.randomOp(r, "C16")
		}
		l.step(op)
		if len(l.objs) == 0 {
			break
		}
		for k, o := range l.objs {
			if o.s != nil && (was <= k || r.Intn(4) == 0) && sizeOf(o.s) < 24000 {
				c.written(o.s)
			}
		}
	}
}

func sizeOf(s *font.SFNT) (n int) {
	for _, t := range s.Tables {
		n += len(t)
	}
	return n
}

func fmtTag(r *rand.Rand) string {
	b := []byte("ABCZabcz019 ~!")
	t := []byte{}
	for len(t) < 4 {
		t = append(t, b[r.Intn(len(b))])
	}
	return string(t)
}
