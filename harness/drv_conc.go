package main

import (
	"fmt"
	"os"
	"sort"
	"sync"

	font "github.com/tdewolff/font"
)

func init() {
	checks["conc"] = &check{n: counts(160, 2500), run: runConc}
}

// concCall is a call on a font; its result is a digest of what it returns.
type concCall struct {
	kind string
	name string
	f    func(s *font.SFNT) string
}

type concFont struct {
	b     []byte
	n     int
	runes []int
	ids   []int // glyphs to ask about
}

func (c *ctx) concFont() *concFont {
	r := c.r
	f := &concFont{}
	if r.Intn(12) == 0 {
		b, err := os.ReadFile(realFonts[r.Intn(2)])
		if err != nil {
			panic(err)
		}
		f.b = b
	} else {
		kind := []string{"tt", "tt", "cff"}[r.Intn(3)]
		d := genFont(r, genOpts{kind: kind, n: 4 + r.Intn(12), names: r.Intn(3), kern: r.Intn(2) == 0, vert: r.Intn(3) == 0, multiCmap: r.Intn(2) == 0, nl: r.Intn(4), ng: r.Intn(3), base: 65})
		f.b = d.Bytes()
	}
	s, err := font.ParseSFNT(append([]byte{}, f.b...), 0)
	if err != nil {
		return nil
	}
	f.n = int(s.NumGlyphs())
	for i := 0; i < 12; i++ {
		g := r.Intn(f.n)
		f.ids = append(f.ids, g)
		for _, x := range s.GlyphToUnicode(uint16(g)) {
			f.runes = append(f.runes, int(x))
		}
	}
	f.runes = append(f.runes, 65, 66, 0x263A, 0)
	return f
}

func (f *concFont) call(c *ctx, kind string) concCall {
	r := c.r
	g := f.ids[r.Intn(len(f.ids))]
	x := f.runes[r.Intn(len(f.runes))]
	mk := func(name string, fn func(s *font.SFNT) string) concCall { return concCall{kind, name, fn} }
	switch kind {
	case "rev":
		if r.Intn(2) == 0 {
			return mk(fmt.Sprint("tounicode ", g), func(s *font.SFNT) string { return fmt.Sprint(s.GlyphToUnicode(uint16(g))) })
		}
		return mk("tounicode all", func(s *font.SFNT) string {
			v := ""
			for _, g := range f.ids {
				v += fmt.Sprint(s.GlyphToUnicode(uint16(g)))
			}
			return v
		})
	case "find":
		switch r.Intn(3) {
		case 0:
			return mk(fmt.Sprint("find name of ", g), func(s *font.SFNT) string { return fmt.Sprint(s.FindGlyphName(s.GlyphName(uint16(g)))) })
		case 1:
			return mk("find A", func(s *font.SFNT) string { return fmt.Sprint(s.FindGlyphName("A"), s.FindGlyphName("no such")) })
		}
		return mk("post find", func(s *font.SFNT) string {
			if s.Post == nil {
				return "-"
			}
			v := ""
			for _, g := range f.ids {
				y, ok := s.Post.Find(s.Post.Get(uint16(g)))
				v += fmt.Sprint(y, ok, " ")
			}
			return v
		})
	case "subset":
		ids := []uint16{0}
		seen := map[int]bool{0: true}
		for k := 1 + r.Intn(5); 0 < k; k-- {
			if g := f.ids[r.Intn(len(f.ids))]; !seen[g] {
				seen[g] = true
				ids = append(ids, uint16(g))
			}
		}
		tables := [][]string{font.KeepAllTables, font.KeepMinTables, font.KeepPDFTables}[r.Intn(3)]
		return mk(fmt.Sprint("subset ", ids, tables), func(s *font.SFNT) string {
			t, err := s.Subset(append([]uint16{}, ids...), font.SubsetOptions{Tables: tables})
			if err != nil {
				return err.Error()
			}
			return hashBytes(maskDate(t.Write())) + digest(project(t, probe{runes: f.runes, find: true}))
		})
	case "write":
		switch r.Intn(4) {
		case 0:
			if f.n < 400 {
				return mk("woff2", func(s *font.SFNT) string {
					b, err := s.WriteWOFF2()
					return fmt.Sprint(hashBytes(b), err)
				})
			}
		case 1:
			if f.n < 400 {
				return mk("merge from", func(s *font.SFNT) string {
					// the font is read only; the one it is merged into belongs to the call
					t, err := font.ParseSFNT(append([]byte{}, f.b...), 0)
					if err != nil {
						return err.Error()
					}
					if err = t.Merge(s, font.MergeOptions{}); err != nil {
						return err.Error()
					}
					return hashBytes(maskDate(t.Write()))
				})
			}
		}
		return mk("write", func(s *font.SFNT) string { return hashBytes(maskDate(s.Write())) })
	}
	h := f.ids[r.Intn(len(f.ids))]
	switch r.Intn(12) {
	case 0:
		return mk(fmt.Sprint("index ", x), func(s *font.SFNT) string { return fmt.Sprint(s.GlyphIndex(rune(x))) })
	case 1:
		return mk(fmt.Sprint("name ", g), func(s *font.SFNT) string { return s.GlyphName(uint16(g)) })
	case 2:
		return mk(fmt.Sprint("advance ", g), func(s *font.SFNT) string {
			return fmt.Sprint(s.GlyphAdvance(uint16(g)), s.GlyphVerticalAdvance(uint16(g)))
		})
	case 3:
		return mk(fmt.Sprint("bounds ", g), func(s *font.SFNT) string {
			a, b, c, d := s.GlyphBounds(uint16(g))
			return fmt.Sprint(a, b, c, d)
		})
	case 4, 5:
		ppem := r.Intn(2) * 20
		return mk(fmt.Sprint("path ", g, ppem), func(s *font.SFNT) string {
			p := &pathRec{}
			err := s.GlyphPath(p, uint16(g), uint16(ppem), 3, 4, 0.5, font.NoHinting)
			return fmt.Sprint(token(p.sb.String()), err)
		})
	case 6:
		return mk(fmt.Sprint("kern ", g, h), func(s *font.SFNT) string { return fmt.Sprint(s.Kerning(uint16(g), uint16(h))) })
	case 7:
		return mk("metrics", func(s *font.SFNT) string {
			a, b, c := s.VerticalMetrics()
			return fmt.Sprint(a, b, c, s.NumGlyphs(), s.UnitsPerEm())
		})
	case 8:
		return mk("names", func(s *font.SFNT) string {
			if s.Name == nil {
				return "-"
			}
			v := ""
			for i := 0; i < 20; i++ {
				for _, n := range s.Name.Get(font.NameID(i)) {
					v += n.String() + ";"
				}
			}
			return v
		})
	case 9:
		return mk(fmt.Sprint("glyf ", g), func(s *font.SFNT) string {
			if s.Glyf == nil {
				return "-"
			}
			d, err := s.Glyf.Dependencies(uint16(g))
			ct, err2 := s.Glyf.Contour(uint16(g))
			return fmt.Sprint(d, err, err2, ct != nil, hashBytes(s.Glyf.Get(uint16(g))), s.Glyf.IsComposite(uint16(g)))
		})
	case 10:
		return mk(fmt.Sprint("parse ", g, x), func(s *font.SFNT) string {
			t, err := font.ParseSFNT(append([]byte{}, f.b...), 0)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(t.NumGlyphs(), t.GlyphToUnicode(uint16(g)), t.GlyphIndex(rune(x)))
		})
	}
	return mk(fmt.Sprint("cff ", g), func(s *font.SFNT) string {
		if s.CFF == nil {
			return "-"
		}
		n, ok := s.CFF.GlyphName(uint16(g))
		_, err := s.CFF.PrivateDICT(uint16(g))
		return fmt.Sprint(n, ok, err, s.CFF.Version())
	})
}

func runConc(c *ctx) {
	r := c.r
	var plan struct {
		Th   [][]string `json:"th"`
		Warm []string   `json:"warm"`
	}
	e := M{"op": "conc", "err": "", "kind": M{}, "solo": M{}, "th": [][]string{}, "res": [][]string{}, "panics": []string{}, "race": false, "before": "", "after": ""}
	planned := c.plan(&plan)
	f := c.concFont()
	if f == nil {
		e["err"] = "the font is refused"
		c.ev(e)
		return
	}
	th := [][]concCall{}
	if planned {
		for _, ks := range plan.Th {
			cs := []concCall{}
			for _, k := range ks {
				cs = append(cs, f.call(c, k))
			}
			th = append(th, cs)
		}
	} else {
		kinds := []string{"plain", "plain", "plain", "rev", "find", "subset", "write"}
		first := kinds[r.Intn(len(kinds))]
		same := r.Intn(3) == 0
		for t := 2 + r.Intn(6); 0 < t; t-- {
			cs := []concCall{}
			for k, n := 0, 1+r.Intn(8); k < n; k++ {
				kind := kinds[r.Intn(len(kinds))]
				if k == 0 && same {
					kind = first // all start with the same kind of call
				}
				cs = append(cs, f.call(c, kind))
			}
			th = append(th, cs)
		}
		if r.Intn(3) == 0 {
			plan.Warm = []string{"rev"}
		}
	}
	s, err := font.ParseSFNT(append([]byte{}, f.b...), 0)
	if err != nil {
		e["err"] = err.Error()
		c.ev(e)
		return
	}
	if 0 < len(plan.Warm) {
		s.GlyphToUnicode(1)
	}
	raceSeen()
	res := make([][]string, len(th))
	panics := make([]string, len(th))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for t := range th {
		res[t] = []string{}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			panics[t] = guard(func() {
				for _, x := range th[t] {
					res[t] = append(res[t], x.f(s))
				}
			})
		}()
	}
	close(start)
	wg.Wait()
	e["race"] = raceSeen()

	// the same calls one by one, each on a font of its own
	solo, kind := M{}, M{}
	names := [][]string{}
	for _, cs := range th {
		ns := []string{}
		for _, x := range cs {
			ns = append(ns, x.name)
			if _, ok := solo[x.name]; !ok {
				a, err := font.ParseSFNT(append([]byte{}, f.b...), 0)
				if err != nil {
					panic(err)
				}
				v := ""
				if p := guard(func() { v = x.f(a) }); p != "" {
					v = p
				}
				solo[x.name], kind[x.name] = v, x.kind
			}
		}
		names = append(names, ns)
	}
	pr := probe{runes: f.runes, find: f.n < 400}
	if 400 <= f.n {
		pr.ids = f.ids
		sort.Ints(pr.ids)
	}
	fresh, _ := font.ParseSFNT(append([]byte{}, f.b...), 0)
	whole := func(s *font.SFNT) (v string) {
		if p := guard(func() { v = digest(project(s, pr)) + hashBytes(maskDate(s.Write())) }); p != "" {
			return p
		}
		return v
	}
	e["before"], e["after"] = whole(fresh), whole(s)
	e["solo"], e["kind"], e["th"], e["res"], e["panics"] = solo, kind, names, res, panics
	c.ev(e)
}
