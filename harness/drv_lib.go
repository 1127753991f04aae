package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The font library driver: a heap of font objects and histories of operations on them.

func init() {
	for _, k := range []string{"all", "C05", "C08", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C23", "C24", "C11"} {
		k := k
		checks["lib"+k] = &check{n: counts(400, 4000), run: func(c *ctx) { runLib(c, k) }}
	}
	checks["libreal"] = &check{n: counts(12, 80), run: runLibReal}
	checks["libbig"] = &check{n: counts(6, 40), run: runLibBig}
}

// libOp is one operation; the model checker exports histories of these.
type libOp struct {
	Op   string   `json:"op"`
	O    int      `json:"o"` // receiver (1-based)
	B    int      `json:"b"` // second operand, or pool index for load
	Gids []int    `json:"gids"`
	Keep []string `json:"keep"`
	Re   bool     `json:"re"`
	Nm   int      `json:"nm"`
}

type libPlan struct {
	Ops   []libOp   `json:"ops"`
	Comps [][][]int `json:"comps"` // per pool font and glyph: components
}

type libObj struct {
	s    *font.SFNT
	emb  bool // was written without tables ParseSFNT requires
	last *FontP
}

type libRun struct {
	pool  [][]byte
	kinds []string
	bufs  [][]byte // buffers handed to the library
	objs  []*libObj
	runes []int
	ids   map[int][]int // sparse ids per pool font
	hash  []string      // per operation, for the determinism check
	drv   *rand.Rand
	deep  bool
}

func parseAny(b []byte, emb bool) (s *font.SFNT, msg string) {
	p := guard(func() {
		var err error
		if emb {
			s, err = font.ParseEmbeddedSFNT(b, 0)
		} else {
			s, err = font.ParseSFNT(b, 0)
		}
		msg = errStr(err)
	})
	if p != "" {
		return nil, p
	}
	if msg != "" {
		return nil, "error: " + msg
	}
	return s, ""
}

var required = []string{"cmap", "head", "hhea", "hmtx", "maxp", "name", "post"}

func isEmbedded(s *font.SFNT) bool {
	for _, t := range required {
		if _, ok := s.Tables[t]; !ok {
			return true
		}
	}
	return false
}

// maskDate clears the modification date and the checksums that depend on it.
func maskDate(b []byte) []byte {
	b = append([]byte{}, b...)
	n := int(b[4])<<8 | int(b[5])
	for i := 0; i < n && 12+16*i+16 <= len(b); i++ {
		r := b[12+16*i:]
		if string(r[:4]) == "head" {
			off := int(r[8])<<24 | int(r[9])<<16 | int(r[10])<<8 | int(r[11])
			copy(r[4:8], []byte{0, 0, 0, 0})
			if off+36 <= len(b) {
				copy(b[off+8:off+12], []byte{0, 0, 0, 0})
				copy(b[off+28:off+36], make([]byte, 8))
			}
		}
	}
	return b
}

func (l *libRun) probe(o *libObj) probe {
	pr := probe{runes: l.runes, find: true}
	if n := int(o.s.NumGlyphs()); 400 < n {
		pr.ids = []int{0, 1, 2}
		for _, x := range l.sparse(n) {
			pr.ids = append(pr.ids, x)
		}
		pr.find = false
	}
	return pr
}

func (l *libRun) sparse(n int) []int {
	// deterministic choice: ends of the range and glyphs of interest
	var r []int
	for _, x := range l.ids[n] {
		if 2 < x && x < n {
			r = append(r, x)
		}
	}
	return r
}

// digestOf covers every answer and the written file.
func (l *libRun) digestOf(o *libObj) string {
	f := project(o.s, l.probe(o))
	var w []byte
	p := guard(func() { w = o.s.Write() })
	if p != "" || len(w) < 12 {
		return "write " + p
	}
	return digest(f) + hashBytes(maskDate(w))
}

func (l *libRun) digests() []string {
	ds := []string{}
	for _, o := range l.objs {
		ds = append(ds, l.digestOf(o))
	}
	return ds
}

func (l *libRun) bufDigests() []string {
	ds := []string{}
	for _, b := range l.bufs {
		if b == nil {
			ds = append(ds, "")
		} else {
			ds = append(ds, hashBytes(b))
		}
	}
	return ds
}

// observe records the state of an object after an operation, and of the font parsed from its bytes.
func (l *libRun) observe(m M, o *libObj) {
	f := project(o.s, l.probe(o))
	o.last = f
	m["f"] = f
	var w []byte
	werr := guard(func() { w = o.s.Write() })
	if werr == "" {
		o.emb = isEmbedded(o.s)
		var s2 *font.SFNT
		s2, werr = parseAny(w, o.emb)
		if werr == "" {
			g := project(s2, l.probe(&libObj{s: s2}))
			same := digest(strip(f)) == digest(strip(g))
			m["ws"] = same
			if !same {
				m["wf"] = g
			}
		}
		l.hash = append(l.hash, hashBytes(maskDate(w)))
	}
	m["werr"] = werr
	if werr != "" {
		m["ws"] = true
	}
	m["emb"] = o.emb
}

// strip removes what depends on the time of writing.
func strip(f *FontP) *FontP {
	g := *f
	t := M{}
	for k, v := range f.Tok {
		if k != "head" {
			t[k] = v
		}
	}
	g.Tok = t
	return &g
}

func (l *libRun) load(pool int) (*libObj, string) {
	b := l.pool[pool]
	if l.bufs[pool] == nil {
		l.bufs[pool] = append([]byte{}, b...)
	}
	s, err := parseAny(l.bufs[pool], false)
	if err != "" {
		return nil, err
	}
	return &libObj{s: s}, ""
}

// step performs one operation and describes it.
func (l *libRun) step(op libOp) M {
	m := M{"op": op.Op, "o": op.O, "b": op.B, "err": "", "args": true}
	get := func(i int) *libObj {
		if i < 1 || len(l.objs) < i {
			return nil
		}
		return l.objs[i-1]
	}
	switch op.Op {
	case "load":
		o, err := l.load(op.B)
		m["err"] = err
		if o != nil {
			l.objs = append(l.objs, o)
			l.observe(m, o)
		}
	case "subset":
		o := get(op.O)
		if o == nil {
			return nil
		}
		gids := make([]uint16, 0, len(op.Gids)+8)
		n := int(o.s.NumGlyphs())
		ig := []int{}
		for _, g := range op.Gids {
			if g < n {
				gids = append(gids, uint16(g))
				ig = append(ig, g)
			}
		}
		// the spare capacity belongs to the caller as well
		spare := gids[:cap(gids)]
		for i := len(gids); i < len(spare); i++ {
			spare[i] = 0xABCD
		}
		keep := append([]string{}, op.Keep...)
		var opt font.SubsetOptions
		switch {
		case len(keep) == 1 && keep[0] == "all":
			opt.Tables = font.KeepAllTables
		case len(keep) == 1 && keep[0] == "min":
			opt.Tables = font.KeepMinTables
		case len(keep) == 1 && keep[0] == "pdf":
			opt.Tables = font.KeepPDFTables
		default:
			opt.Tables = keep
		}
		var s2 *font.SFNT
		p := guard(func() {
			var err error
			s2, err = o.s.Subset(gids, opt)
			if err != nil {
				m["err"] = "error: " + err.Error()
			}
		})
		if p != "" {
			m["err"] = p
		}
		ok := fmt.Sprint(keep) == fmt.Sprint(op.Keep) && font.KeepAllTables[0] == "all" && font.KeepMinTables[0] == "min" && font.KeepPDFTables[0] == "pdf"
		for i, g := range spare {
			if i < len(ig) && int(g) != ig[i] || len(ig) <= i && g != 0xABCD {
				ok = false
			}
		}
		m["args"] = ok
		m["gids"] = ig
		m["keep"] = op.Keep
		if m["err"] == "" {
			x := &libObj{s: s2}
			l.objs = append(l.objs, x)
			l.observe(m, x)
		}
	case "merge":
		o, b := get(op.O), get(op.B)
		if o == nil || b == nil || o == b {
			return nil
		}
		m["re"] = op.Re
		p := guard(func() {
			if err := o.s.Merge(b.s, font.MergeOptions{RearrangeCmap: op.Re}); err != nil {
				m["err"] = "error: " + err.Error()
			}
		})
		if p != "" {
			m["err"] = p
		}
		l.observe(m, o)
	case "rename":
		o := get(op.O)
		if o == nil {
			return nil
		}
		names := l.names(op.Nm, int(o.s.NumGlyphs()))
		arg := append(make([]string, 0, len(names)+200), names...)
		p := guard(func() {
			if err := o.s.SetGlyphNames(arg); err != nil {
				m["err"] = "error: " + err.Error()
			}
		})
		if p != "" {
			m["err"] = p
		}
		for i := range arg {
			if arg[i] != names[i] {
				m["args"] = false
			}
		}
		m["names"] = names
		// the caller may reuse its slice
		for i := range arg {
			arg[i] = "clobbered"
		}
		l.observe(m, o)
	case "reparse":
		o := get(op.O)
		if o == nil {
			return nil
		}
		var s2 *font.SFNT
		err := guard(func() {
			w := o.s.Write()
			l.bufs = append(l.bufs, w)
			var e string
			s2, e = parseAny(w, isEmbedded(o.s))
			m["err"] = e
		})
		if err != "" {
			m["err"] = err
		}
		if m["err"] == "" {
			x := &libObj{s: s2}
			l.objs = append(l.objs, x)
			l.observe(m, x)
		}
	case "woff2":
		o := get(op.O)
		if o == nil {
			return nil
		}
		var s2 *font.SFNT
		err := guard(func() {
			w, e := o.s.WriteWOFF2()
			if e != nil {
				m["err"] = "error: " + e.Error()
				return
			}
			w2, e := o.s.WriteWOFF2()
			if e != nil || string(w) != string(w2) {
				m["err"] = "error: encoding again gives other bytes"
				return
			}
			l.bufs = append(l.bufs, w)
			b, e := font.ToSFNT(w)
			if e != nil {
				m["err"] = "decode error: " + e.Error()
				return
			}
			l.hash = append(l.hash, hashBytes(maskDate(b)))
			l.bufs = append(l.bufs, b)
			var es string
			s2, es = parseAny(b, isEmbedded(o.s))
			m["err"] = es
		})
		if err != "" {
			m["err"] = err
		}
		if m["err"] == "" {
			x := &libObj{s: s2}
			l.objs = append(l.objs, x)
			l.observe(m, x)
		}
	case "query":
		o := get(op.O)
		if o == nil {
			return nil
		}
		m["err"] = guard(func() {
			n := int(o.s.NumGlyphs())
			for i := 0; i < 6; i++ {
				g := uint16(l.drv.Intn(n + 2))
				rs := o.s.GlyphToUnicode(g)
				for j := range rs {
					rs[j] = -1 // the answer belongs to the caller
				}
				o.s.FindGlyphName(o.s.GlyphName(g))
				glyphPath(o.s, int(g))
				o.s.GlyphBounds(g)
				o.s.Kerning(g, uint16(l.drv.Intn(n+1)))
				b := o.s.Write()
				for j := range b {
					b[j] = 0xEE
				}
			}
		})
		l.observe(m, o)
	default:
		return nil
	}
	if l.deep || op.Op != "load" {
		m["dig"] = l.digests()
		m["bufs"] = l.bufDigests()
	} else {
		m["dig"] = l.digests()
		m["bufs"] = l.bufDigests()
	}
	return m
}

// names draws a list of glyph names.
func (l *libRun) names(style, n int) []string {
	k := n
	switch style % 4 {
	case 1:
		k = l.drv.Intn(n + 1)
	case 2:
		k = n + l.drv.Intn(3)
	}
	var ns []string
	for i := 0; i < k; i++ {
		nm := fmt.Sprintf("new%d.%d", style, i)
		switch {
		case i == 0:
			nm = ".notdef"
		case style%5 == 1 && l.drv.Intn(2) == 0:
			nm = []string{"A", "space", "a", "Adieresis", "B", "dup"}[l.drv.Intn(6)]
		case style%5 == 2 && i == 1:
			nm = string(make([]byte, 0)) + "x"
			for len(nm) < 255 {
				nm += "y"
			}
		case style%5 == 3 && l.drv.Intn(4) == 0:
			nm = "dup"
		}
		ns = append(ns, nm)
	}
	if ns == nil {
		ns = []string{}
	}
	return ns
}

// ---- sessions

// poolOf draws the fonts of a session.
func poolOf(r *rand.Rand, focus string, comps [][][]int) (descs []*FontDesc) {
	kind := []string{"tt", "cff"}[r.Intn(2)]
	if focus == "C18" {
		kind = "cff"
	}
	k := 2 + r.Intn(2)
	if comps != nil {
		k = len(comps)
	}
	bases := r.Perm(6)
	for i := 0; i < k; i++ {
		o := genOpts{kind: kind, n: 2 + r.Intn(14), names: r.Intn(3), kern: r.Intn(2) == 0 || focus == "C12", vert: r.Intn(3) == 0, multiCmap: r.Intn(3) == 0, nl: r.Intn(6), ng: r.Intn(5), nestedComp: true}
		if r.Intn(12) == 0 && comps == nil {
			o.kind = []string{"tt", "cff"}[r.Intn(2)]
		}
		if focus == "C18" || focus != "C16" && r.Intn(12) == 0 {
			switch r.Intn(5) {
			case 0:
				o.nl = 1236 + r.Intn(8)
			case 1:
				o.ng = 1236 + r.Intn(8)
			case 2:
				o.nl, o.ng = 600+r.Intn(700), 500+r.Intn(800)
			case 3:
				o.nl, o.ng = r.Intn(3), r.Intn(3)
			}
		}
		if focus == "C12" {
			o.n = 2 + r.Intn(30)
		}
		if focus == "C14" && r.Intn(4) == 0 {
			o.bigGlyphs = []int{3000, 9000}[r.Intn(2)]
		}
		if focus == "C13" && r.Intn(8) == 0 {
			o.bigGlyphs = 5000
		}
		if comps != nil {
			o.n = len(comps[i])
		}
		o.base = []int{33, 65, 0x370, 0x4E00, 1000, 0x2000}[bases[i]] + r.Intn(3)
		o.wide = focus == "C24" && r.Intn(3) != 0
		d := genFont(r, o)
		if comps != nil && kind == "tt" {
			for g := range d.Glyphs {
				d.Glyphs[g].Comps = nil
				for _, c := range comps[i][g] {
					d.Glyphs[g].Comps = append(d.Glyphs[g].Comps, fb.Comp{G: c, DX: 10 * c, DY: g})
				}
				if 0 < len(d.Glyphs[g].Comps) {
					d.Glyphs[g].Contours = nil
					d.Glyphs[g].BBox = &[4]int{-10, -10, 900 + g, 900}
				}
			}
		}
		if r.Intn(3) == 0 {
			d.Extra = append(d.Extra, fb.Table{Tag: "DSIG", Data: []byte{0, 0, 0, 1, 0, 0, 0, 0}})
		}
		if r.Intn(3) == 0 && kind == "tt" {
			d.Extra = append(d.Extra, fb.Table{Tag: "cvt ", Data: []byte{0, 1, byte(i), 3}}, fb.Table{Tag: "prep", Data: []byte{0xB0, 1, byte(i)}})
		}
		descs = append(descs, d)
	}
	return descs
}

func allRunes(descs []*FontDesc) []int {
	m := map[int]bool{0: true, 0xFFFE: true, 0xFFFF: true, 0x10000: true, 0x10FFFF: true}
	for _, d := range descs {
		for c := range d.CMap {
			m[c] = true
			m[c+1] = true
			if 0 < c {
				m[c-1] = true
			}
		}
	}
	for i := 30; i < 450; i++ {
		m[i] = true
	}
	var rs []int
	for c := range m {
		if c <= 0x10FFFF {
			rs = append(rs, c)
		}
	}
	sort.Ints(rs)
	return rs
}

func newLibRun(descs []*FontDesc, seed int64) *libRun {
	l := &libRun{drv: rand.New(rand.NewSource(seed))}
	for _, d := range descs {
		l.pool = append(l.pool, d.Bytes())
		l.kinds = append(l.kinds, d.Kind)
	}
	l.bufs = make([][]byte, len(l.pool))
	l.runes = allRunes(descs)
	return l
}

func customKeep(r *rand.Rand, kind string) []string {
	keep := []string{"head", "hhea", "hmtx", "maxp"}
	if kind == "tt" {
		keep = append(keep, "loca", "glyf")
	} else {
		keep = append(keep, "CFF ", "cmap")
	}
	for _, t := range []string{"post", "name", "cmap", "OS/2", "kern", "cvt ", "none"} {
		if r.Intn(3) > 0 && (t != "cmap" || kind == "tt") {
			keep = append(keep, t)
		}
	}
	if r.Intn(2) == 0 {
		keep = append(keep, "vmtx", "vhea")
	}
	r.Shuffle(len(keep), func(i, j int) { keep[i], keep[j] = keep[j], keep[i] })
	return keep
}

// randomOp draws the next operation for the state of a run.
func (l *libRun) randomOp(r *rand.Rand, focus string) libOp {
	n := len(l.objs)
	o := 1 + r.Intn(n)
	pick := r.Intn(20)
	switch focus {
	case "C05":
		if r.Intn(2) == 0 {
			pick = 15
		}
	case "C14":
		if r.Intn(2) == 0 {
			pick = 10
		}
	case "C12":
		pick = r.Intn(17)
	case "C17":
		if r.Intn(2) == 0 {
			pick = 13
		}
	case "C13", "C08":
		if r.Intn(2) == 0 {
			pick = 3
		}
	}
	switch {
	case pick < 7 || n == 1 && pick < 10: // subset
		s := l.objs[o-1].s
		ng := int(s.NumGlyphs())
		op := libOp{Op: "subset", O: o, Gids: []int{0}}
		if s.IsTrueType && r.Intn(12) == 0 {
			op.Gids = []int{}
		}
		p := r.Perm(ng)
		if r.Intn(3) == 0 {
			sort.Ints(p)
		}
		if 60 < len(p) {
			p = p[:60]
		}
		k := r.Intn(ng + 1)
		for _, g := range p {
			if 0 < g && k > 0 {
				op.Gids = append(op.Gids, g)
				k--
			}
		}
		if len(op.Gids) == 0 {
			op.Gids = []int{0}
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			op.Keep = []string{"all"}
		case 3, 4:
			op.Keep = []string{"min"}
		case 5:
			op.Keep = []string{"pdf"}
		default:
			kind := "tt"
			if s.IsCFF {
				kind = "cff"
			}
			op.Keep = customKeep(r, kind)
		}
		return op
	case pick < 12 && 1 < n: // merge
		b := 1 + r.Intn(n)
		if b == o {
			b = 1 + b%n
		}
		return libOp{Op: "merge", O: o, B: b, Re: r.Intn(4) == 0}
	case pick < 14:
		return libOp{Op: "rename", O: o, Nm: r.Intn(60)}
	case pick < 15:
		return libOp{Op: "reparse", O: o}
	case pick < 17:
		return libOp{Op: "woff2", O: o}
	case pick < 18:
		return libOp{Op: "query", O: o}
	}
	return libOp{Op: "load", B: r.Intn(len(l.pool))}
}

func runLib(c *ctx, focus string) {
	var pl libPlan
	planned := c.plan(&pl)
	descs := poolOf(c.r, focus, pl.Comps)
	seed := c.r.Int63()
	var ops []libOp
	l := newLibRun(descs, seed)
	do := func(op libOp) {
		if m := l.step(op); m != nil {
			ops = append(ops, op)
			c.ev(m)
		}
	}
	if planned {
		for _, op := range pl.Ops {
			do(op)
		}
	} else {
		do(libOp{Op: "load", B: 0})
		if 0 < len(l.objs) {
			if r := c.r.Intn(3); 0 < r {
				do(libOp{Op: "load", B: min(r, len(l.pool)-1)})
			}
			k := 3 + c.r.Intn(4)
			for i := 0; i < k && len(l.objs) < 7; i++ {
				do(l.randomOp(c.r, focus))
			}
		}
	}
	// the same history once more: results must be the same bytes
	l2 := newLibRun(descs, seed)
	for _, op := range ops {
		l2.step(op)
	}
	c.ev(M{"op": "again", "h1": l.hash, "h2": l2.hash})
	c.Info["kinds"] = l.kinds
	c.Info["ops"] = ops
}

// ---- real fonts

var realFonts = []string{"/repo/resources/DejaVuSerif.ttf", "/repo/resources/EBGaramond12-Regular.otf"}

func runLibReal(c *ctx) {
	b, err := os.ReadFile(realFonts[c.i%2])
	if err != nil {
		panic(err)
	}
	l := &libRun{drv: rand.New(rand.NewSource(c.r.Int63())), pool: [][]byte{b}, bufs: make([][]byte, 1), ids: map[int][]int{}}
	s, msg := parseAny(append([]byte{}, b...), false)
	if msg != "" {
		panic(msg)
	}
	n := int(s.NumGlyphs())
	set := map[int]bool{}
	var add func(g int)
	add = func(g int) {
		if set[g] {
			return
		}
		set[g] = true
		for _, x := range rawComps(s.Tables, true, g) {
			add(x)
		}
	}
	var want []int
	for i := 0; i < 30; i++ {
		g := 1 + c.r.Intn(n-1)
		if !set[g] {
			want = append(want, g)
		}
		add(g)
	}
	runes := map[int]bool{0: true, 0xFFFF: true}
	var ids []int
	for g := range set {
		ids = append(ids, g)
		for _, x := range s.GlyphToUnicode(uint16(g)) {
			runes[int(x)] = true
		}
	}
	for i := 33; i < 450; i++ {
		runes[i] = true
	}
	sort.Ints(ids)
	l.ids[n] = ids
	for x := range runes {
		l.runes = append(l.runes, x)
	}
	sort.Ints(l.runes)
	half := len(want) / 2
	keep := [][]string{{"all"}, {"min"}, {"pdf"}}[c.r.Intn(3)]
	ops := []libOp{{Op: "load", B: 0}, {Op: "subset", O: 1, Gids: append([]int{0}, want[:half]...), Keep: []string{"all"}}, {Op: "subset", O: 1, Gids: append([]int{0}, want[half:]...), Keep: keep},
		{Op: "merge", O: 2, B: 3, Re: c.r.Intn(2) == 0}, {Op: "woff2", O: 2}, {Op: "reparse", O: 2}, {Op: "subset", O: 2, Gids: []int{0, 3, 5, 2, 8}, Keep: []string{"min"}}, {Op: "rename", O: 2, Nm: 5}, {Op: "load", B: 0}}
	for _, op := range ops {
		if m := l.step(op); m != nil {
			c.ev(m)
		}
	}
	c.Info["ops"] = ops
}

// ---- fonts near the glyph limit

func runLibBig(c *ctx) {
	kind := []string{"tt", "cff"}[c.i%2]
	var descs []*FontDesc
	sizes := [][2]int{{40000, 25536}, {40000, 25537}, {33000, 20000}, {65000, 10}, {65535, 2}, {9000, 30000}}[c.i/2%6]
	for k := 0; k < 2; k++ {
		n := sizes[k]
		d := genFont(c.r, genOpts{kind: kind, n: 8, base: 0x3000 + 0x400*k, names: 0})
		for len(d.Glyphs) < n {
			d.Glyphs = append(d.Glyphs, fb.Glyph{Adv: 500 + len(d.Glyphs)%7, Lsb: len(d.Glyphs) % 100})
			if kind == "tt" && len(d.Glyphs)%1000 == 0 {
				d.Glyphs[len(d.Glyphs)-1].Contours = poly(c.r, len(d.Glyphs))
			}
			if kind == "cff" {
				d.CFF.CharStrings = append(d.CFF.CharStrings, []byte{14})
			}
		}
		if kind == "cff" {
			d.Names = nil
			for i := 0; i < len(d.Glyphs); i++ {
				d.Names = append(d.Names, fmt.Sprintf("b%d", i%20000))
			}
			d.Names[0] = ".notdef"
		}
		d.Loca = 1
		descs = append(descs, d)
	}
	l := newLibRun(descs, c.r.Int63())
	l.ids = map[int][]int{}
	tot := sizes[0] + sizes[1] - 1
	for _, n := range []int{sizes[0], sizes[1], tot} {
		ids := []int{3, 4, 5, 6, 7, 8, 500, 999, 1000, 1999, n / 2, n - 2, n - 1}
		if n == tot {
			for _, x := range []int{1, 2, 3, 4, 5, 6, 7, 8, 999, 1999, sizes[1] - 1} {
				ids = append(ids, sizes[0]-1+x)
			}
			ids = append(ids, sizes[0]-1)
		} else {
			ids = append(ids, 999, 1999)
		}
		l.ids[n] = uniq(ids)
		for _, x := range ids {
			l.runes = append(l.runes, x+32) // for rearranged characters
		}
	}
	l.runes = uniq(l.runes)
	ops := []libOp{{Op: "load", B: 0}, {Op: "load", B: 1}, {Op: "merge", O: 1, B: 2, Re: c.i%3 == 0}, {Op: "subset", O: 1, Gids: []int{0, 5, sizes[0] + 2, 2}, Keep: []string{"all"}}}
	for _, op := range ops {
		if m := l.step(op); m != nil {
			c.ev(m)
		}
	}
	c.Info["sizes"] = sizes
}
