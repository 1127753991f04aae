package main

import (
	"encoding/json"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unicode/utf16"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

func init() {
	checks["system"] = &check{n: counts(1500, 12000), run: runSystem}
	checks["systemfind"] = &check{n: counts(1000, 8000), run: runSystemFind}
}

func units(s string) []int {
	v := []int{}
	for _, u := range utf16.Encode([]rune(s)) {
		v = append(v, int(u))
	}
	return v
}

func text(v []int) string {
	u := []uint16{}
	for _, x := range v {
		u = append(u, uint16(x))
	}
	return string(utf16.Decode(u))
}

func utf16be(v []int) []byte {
	w := &fb.W{}
	for _, x := range v {
		w.U16(x)
	}
	return w.B
}

// world is a list of installed fonts together with the numbers of its files.
type world struct {
	c *ctx
	s *font.SystemFonts
	n map[string]int // file numbers by file name
}

func (w *world) add(fam string, st int, file int) {
	name := "/f/" + string(rune('a'+file%26)) + strings.Repeat("x", file/26)
	w.n[name] = file
	e := M{"op": "add", "fam": units(fam), "st": st, "file": file}
	e["panic"] = guard(func() {
		w.s.Add(font.FontMetadata{Filename: name, Family: fam, Style: font.Style(st)})
	})
	w.c.ev(e)
}

func (w *world) match(name string, st int) {
	e := M{"op": "match", "name": units(name), "st": st, "found": false, "fam": []int{}, "got": 0, "file": 0}
	e["panic"] = guard(func() {
		m, ok := w.s.Match(name, font.Style(st))
		if ok {
			f, known := w.n[m.Filename]
			if !known {
				f = -1
			}
			e["found"], e["fam"], e["got"], e["file"] = true, units(m.Family), int(m.Style), f
		}
	})
	w.c.ev(e)
}

type genList struct {
	name string
	list []string
	cap  int // spare room behind the list
}

// gen sets the generic lists; lists may share one array, as a caller that cuts them from one list has them.
func (w *world) gen(gs []genList, shared bool) {
	m := map[string][]string{}
	ev := []M{}
	all := []string{}
	for _, g := range gs {
		all = append(all, g.list...)
	}
	at := 0
	for _, g := range gs {
		l := all[at : at+len(g.list)]
		if !shared {
			l = append(make([]string, 0, len(g.list)+g.cap), g.list...)
		}
		at += len(g.list)
		m[g.name] = l
		x := [][]int{}
		for _, f := range g.list {
			x = append(x, units(f))
		}
		ev = append(ev, M{"name": units(g.name), "list": x})
	}
	w.s.Generics = m
	w.c.ev(M{"op": "gen", "gen": ev, "panic": ""})
}

func scratch() string {
	dir, err := os.MkdirTemp("", "fvsys")
	if err != nil {
		panic(err)
	}
	return dir
}

// reload saves the list and loads it, over what an earlier list may have left.
func (w *world) reload(old int) {
	dir := scratch()
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "cache")
	if 0 < old {
		os.WriteFile(path, randBytes(w.c.r, old), 0o644)
	}
	e := M{"op": "load", "err": "", "same": true}
	e["panic"] = guard(func() {
		if err := w.s.Save(path); err != nil {
			e["err"] = "save: " + err.Error()
			return
		}
		t, err := font.LoadSystemFonts(path)
		if err != nil {
			e["err"] = "load: " + err.Error()
			return
		}
		e["same"] = sameList(w.s, t)
		w.s = t
	})
	w.c.ev(e)
	if b, err := os.ReadFile(path); err == nil && w.c.r.Intn(3) == 0 {
		// a cache that is cut short or damaged gives an error or another list, but no panic
		if 0 < len(b) && w.c.r.Intn(2) == 0 {
			b = b[:w.c.r.Intn(len(b))]
		} else {
			for i := 0; i < 3 && 0 < len(b); i++ {
				b[w.c.r.Intn(len(b))] ^= 1 << w.c.r.Intn(8)
			}
		}
		os.WriteFile(path, b, 0o644)
		w.c.ev(M{"op": "load", "err": "", "same": true, "panic": guard(func() { font.LoadSystemFonts(path) })})
	}
}

func sameList(a, b *font.SystemFonts) bool {
	if len(a.Generics) != len(b.Generics) || len(a.Fonts) != len(b.Fonts) {
		return false
	}
	for k, v := range a.Generics {
		u, ok := b.Generics[k]
		if !ok || len(u) != len(v) || 0 < len(v) && !reflect.DeepEqual(u, v) {
			return false
		}
	}
	for k, v := range a.Fonts {
		if u, ok := b.Fonts[k]; !ok || !reflect.DeepEqual(u, v) {
			return false
		}
	}
	return true
}

var sysFamilies = []string{"Aa", "Bb", "Cc", "DejaVu Sans", "Noto Serif", "Ünïcode 字", "a", ""}

func (c *ctx) styleOf() int { return 1 + c.r.Intn(9) + 256*c.r.Intn(2) }

var weightWords = []string{"Thin", "Hairline", "ExtraLight", "UltraLight", "Extra Light", "ExtraLt", "Light", "Lt", "SemiLight", "Regular", "Normal", "Normál", "Reg", "Roman", "Text", "Book", "Medium", "Med",
	"SemiBold", "Semibold", "Demi", "Semi Bold", "Semibd", "Bold", "Negrita", "Gras", "Bol", "ExtraBold", "Extra Bold", "Black", "Heavy"}
var slantWords = []string{"Italic", "Oblique", "Slanted", "Italique", "Cursiva", "Slant", "Ita", "Obl"}

func (c *ctx) styleText() string {
	pick := func(v []string) string { return v[c.r.Intn(len(v))] }
	switch c.r.Intn(8) {
	case 0:
		return pick(weightWords)
	case 1:
		return pick(slantWords)
	case 2, 3:
		return pick(weightWords) + pick([]string{"", " ", "-"}) + pick(slantWords)
	case 4:
		return pick(weightWords) + pick([]string{"  ", "_", "--", "- "}) + pick(slantWords)
	case 5:
		return pick([]string{"", "x", " ", "Condensed "}) + pick(weightWords) + pick([]string{"", " ", "s"}) + pick(slantWords) + pick([]string{"", " ", "x", "\n"})
	case 6:
		s := []byte(pick(weightWords))
		switch c.r.Intn(3) {
		case 0:
			return strings.ToLower(string(s))
		case 1:
			return strings.ToUpper(string(s))
		}
		s[c.r.Intn(len(s))] ^= 1
		return strings.ToValidUTF8(string(s), "?")
	}
	return pick([]string{"", " ", "Condensed", "Bold Bold", "Italic Italic", "Italic Bold", "ItalicBold", "SemiBold Condensed", "Extra", "Semi", "Ultra", "Demi Bold", "RegularItalic", "Bold Obl", "Bol Ita"})
}

func runSystem(c *ctx) {
	w := &world{c: c, s: &font.SystemFonts{Fonts: map[string]map[font.Style]font.FontMetadata{}}, n: map[string]int{}}
	var plan struct {
		K string `json:"k"`
		F []struct {
			Fam []int `json:"fam"`
			St  int   `json:"st"`
		} `json:"f"`
		Q   []int             `json:"q"`
		St  int               `json:"st"`
		R   []json.RawMessage `json:"r"`
		Ver int               `json:"ver"`
	}
	if c.plan(&plan) {
		if plan.K == "table" {
			c.tablePlan(plan.R, plan.Ver)
			return
		}
		w.gen([]genList{{"gen", []string{"Bb", "Aa"}, c.r.Intn(3)}, {"empty", nil, c.r.Intn(2)}, {"self", []string{"self", "Aa"}, c.r.Intn(3)}}, c.r.Intn(2) == 0)
		for i, f := range plan.F {
			w.add(text(f.Fam), f.St, i+1)
		}
		for k := 0; k < 2; k++ {
			w.match(text(plan.Q), plan.St)
			if c.r.Intn(2) == 0 {
				w.match("gen,Bb,none", 4)
			}
		}
		w.match(text(plan.Q), plan.St)
		return
	}
	style := func(s string) {
		e := M{"op": "style", "s": units(s), "got": 0}
		e["panic"] = guard(func() { e["got"] = int(font.ParseStyle(s)) })
		c.ev(e)
	}
	css := func(wt int, it bool) {
		e := M{"op": "css", "w": wt, "it": it, "got": 0}
		e["panic"] = guard(func() { e["got"] = int(font.ParseStyleCSS(wt, it)) })
		c.ev(e)
	}
	if c.i == len(rawPlans) { // every name and every weight there is
		for _, s := range append([]string{""}, weightWords...) {
			style(s)
			for _, i := range slantWords {
				for _, z := range []string{"", " ", "-"} {
					style(s + z + i)
				}
			}
		}
		for wt := -120; wt <= 1120; wt++ {
			css(wt, wt%2 == 0)
		}
		return
	}
	if c.r.Intn(3) == 0 {
		for i := 0; i < 40; i++ {
			style(c.styleText())
			wt := []int{c.r.Intn(1100), 100*c.r.Intn(11) + 48 + c.r.Intn(5), -c.r.Intn(300), 1000 + c.r.Intn(1<<30), -c.r.Intn(1 << 30)}[c.r.Intn(5)]
			css(wt, c.r.Intn(2) == 0)
		}
		for st := -1; st < 270; st++ {
			e := M{"op": "string", "st": st, "s": []int{}, "weight": 0, "it": false}
			e["panic"] = guard(func() {
				x := font.Style(st)
				e["s"], e["weight"], e["it"] = units(x.String()), int(x.Weight()), x.Italic()
			})
			c.ev(e)
			if st == 9 {
				st = 256
			}
		}
		return
	}
	gname := []string{"serif", "sans-serif", "x", "y", "Aa"}
	fam := func() string { return sysFamilies[c.r.Intn(len(sysFamilies))] }
	file := 0
	for i, n := 0, 15+c.r.Intn(30); i < n; i++ {
		switch c.r.Intn(10) {
		case 0:
			if 0 < i && c.r.Intn(3) != 0 {
				continue
			}
			gs := []genList{}
			for _, g := range gname {
				if c.r.Intn(2) == 0 {
					l := []string{}
					for k := c.r.Intn(4); 0 < k; k-- {
						l = append(l, fam())
					}
					if c.r.Intn(6) == 0 {
						l = append(l, g)
					}
					gs = append(gs, genList{g, l, c.r.Intn(4)})
				}
			}
			if c.r.Intn(8) == 0 {
				gs = nil
				for k, v := range font.DefaultGenericFonts() {
					gs = append(gs, genList{k, v, 0})
				}
			}
			w.gen(gs, c.r.Intn(2) == 0)
		case 1, 2, 3:
			file++
			w.add(fam(), c.styleOf(), file)
		case 4:
			if c.r.Intn(3) == 0 {
				w.reload(c.r.Intn(2) * c.r.Intn(5000))
			}
		default:
			parts := []string{}
			for k := 1 + c.r.Intn(5); 0 < k; k-- {
				p := fam()
				if c.r.Intn(2) == 0 {
					p = gname[c.r.Intn(len(gname))]
				}
				if c.r.Intn(3) == 0 {
					p = []string{" ", "\t", "  "}[c.r.Intn(3)] + p
				}
				if c.r.Intn(4) == 0 {
					p += " "
				}
				parts = append(parts, p)
			}
			q := strings.Join(parts, ",")
			st := c.styleOf()
			w.match(q, st)
			if c.r.Intn(3) == 0 {
				w.match(q, st)
			}
		}
	}
}

// ---- directories

type sysFile struct {
	dir  []string
	name string
	ext  string
	reg  bool
	b    []byte
}

func (f *sysFile) path(root string) string {
	return filepath.Join(root, filepath.Join(f.dir...), f.name+f.ext)
}

// find writes the files below a scratch directory and searches the directories given, by path below it.
func (c *ctx) find(files []*sysFile, dirs [][]string, extra func(root string)) *world {
	root := scratch()
	defer os.RemoveAll(root)
	for _, f := range files {
		p := f.path(root)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if f.reg {
			if err := os.WriteFile(p, f.b, 0o644); err != nil {
				panic(err)
			}
			continue
		}
		switch c.r.Intn(3) {
		case 0:
			os.Mkdir(p, 0o755)
		case 1:
			os.Symlink("nowhere", p)
		case 2:
			syscall.Mkfifo(p, 0o644)
		}
	}
	if extra != nil {
		extra(root)
	}
	fe := []M{}
	for _, f := range files {
		b := f.b
		if !f.reg {
			b = nil
		}
		dir := f.dir
		if dir == nil {
			dir = []string{}
		}
		fe = append(fe, M{"dir": dir, "ext": f.ext, "reg": f.reg, "b": ints(b)})
	}
	paths := []string{}
	de := [][]string{}
	for _, d := range dirs {
		p := filepath.Join(root, filepath.Join(d...))
		switch c.r.Intn(4) {
		case 0:
			p += "/"
		case 1:
			p = filepath.Dir(p) + "/./" + filepath.Base(p)
		}
		paths = append(paths, p)
		de = append(de, append([]string{}, d...))
	}
	e := M{"op": "find", "files": fe, "dirs": de, "err": "", "found": []M{}}
	w := &world{c: c, s: &font.SystemFonts{Fonts: map[string]map[font.Style]font.FontMetadata{}}, n: map[string]int{}}
	for i, f := range files {
		w.n[f.path(root)] = i + 1
	}
	done := make(chan string, 1)
	var s *font.SystemFonts
	var err error
	go func() {
		done <- guard(func() { s, err = font.FindSystemFonts(paths) })
	}()
	select {
	case p := <-done:
		e["panic"] = p
		if err != nil {
			e["err"] = strings.ReplaceAll(err.Error(), root, "ROOT")
		}
		found := []M{}
		if p == "" && err == nil {
			w.s = s
			for fam, m := range s.Fonts {
				for st, x := range m {
					k, ok := w.n[filepath.Clean(x.Filename)]
					if !ok {
						k = -1
					}
					if x.Family != fam || x.Style != st {
						k = -2
					}
					found = append(found, M{"fam": units(fam), "st": int(st), "file": k})
					w.n[x.Filename] = k
				}
			}
		}
		e["found"] = found
	case <-time.After(20 * time.Second):
		e["panic"] = "the search does not return"
	}
	c.ev(e)
	return w
}

type sysRec struct {
	Pl int   `json:"pl"`
	En int   `json:"en"`
	La int   `json:"la"`
	ID int   `json:"id"`
	V  []int `json:"v"`
}

func sysName(rs []sysRec, ver int) []byte {
	recs := []fb.NameRec{}
	for _, r := range rs {
		recs = append(recs, fb.NameRec{Plat: r.Pl, Enc: r.En, Lang: r.La, ID: r.ID, Val: utf16be(r.V)})
	}
	var tags [][]byte
	if ver == 1 {
		tags = [][]byte{}
	}
	return fb.NameTable(recs, tags)
}

func sysFont(name []byte, before int) []byte {
	w := &fb.W{}
	w.U32(0x00010000)
	w.U16(1 + before)
	w.U16(16)
	w.U16(0)
	w.U16(0)
	at := 12 + 16*(1+before)
	for i := 0; i < before; i++ {
		w.Raw([]byte{'a', 'b', 'c', byte('a' + i)})
		w.U32(0)
		w.U32(uint32(at))
		w.U32(0)
	}
	w.Raw([]byte("name"))
	w.U32(0)
	w.U32(uint32(at))
	w.U32(uint32(len(name)))
	w.Raw(name)
	return w.B
}

func (c *ctx) tablePlan(raw []json.RawMessage, ver int) {
	rs := []sysRec{}
	for _, x := range raw {
		r := sysRec{En: 1}
		if err := json.Unmarshal(x, &r); err != nil {
			panic(err)
		}
		rs = append(rs, r)
	}
	c.find([]*sysFile{{name: "f", ext: ".ttf", reg: true, b: sysFont(sysName(rs, ver), 0)}}, [][]string{nil}, nil)
}

func (c *ctx) sysNames() []sysRec {
	fams := []string{"Aa", "Bb", "Cc Dd", "Ünïcode 字", "𝔸", "DejaVu Sans"}
	fam := func() []int { return units(fams[c.r.Intn(len(fams))]) }
	sub := func() []int {
		if c.r.Intn(3) == 0 {
			return units(c.styleText())
		}
		return units(weightWords[c.r.Intn(len(weightWords))])
	}
	rs := []sysRec{}
	en := []int{0x409, 0x809, 0xC09, 0x1009}[max(0, c.r.Intn(8)-4)]
	rec := func(pl, e, la, id int, v []int) { rs = append(rs, sysRec{pl, e, la, id, v}) }
	ids := []int{1, 2}
	if c.r.Intn(2) == 0 {
		ids = append(ids, 16, 17)
	}
	if c.r.Intn(8) == 0 {
		ids = ids[:c.r.Intn(len(ids))]
	}
	other := func() {
		for _, id := range ids {
			v := fam()
			if id%15 == 2 {
				v = sub()
			}
			switch c.r.Intn(5) {
			case 0:
				rec(1, 0, 0, id, v)
			case 1:
				rec(0, 3, 0, id, v)
			case 2:
				rec(3, 1, []int{0x407, 0x40C, 0x411, 0x40A}[c.r.Intn(4)], id, v)
			case 3:
				rec(1, 0, 9, id, v)
			case 4:
				rec(3, 1, en, []int{3, 4, 6, 18, 21, 22}[c.r.Intn(6)], v)
			}
		}
	}
	if c.r.Intn(2) == 0 {
		other()
	}
	if c.r.Intn(8) != 0 {
		c.r.Shuffle(len(ids), func(i, j int) {
			if c.r.Intn(3) == 0 {
				ids[i], ids[j] = ids[j], ids[i]
			}
		})
		for _, id := range ids {
			v := fam()
			if id%15 == 2 {
				v = sub()
			}
			rec(3, []int{1, 1, 1, 10, 0}[c.r.Intn(5)], en, id, v)
		}
		if c.r.Intn(3) == 0 {
			// the same in another English
			for _, x := range append([]sysRec{}, rs...) {
				if x.Pl == 3 && x.La == en {
					rec(3, 1, 0x809, x.ID, x.V)
				}
			}
		}
	}
	if c.r.Intn(2) == 0 {
		other()
	}
	return rs
}

// where asks for the default directories in an environment made up here.
func (c *ctx) where() {
	if runtime.GOOS != "linux" {
		return
	}
	dir := func() string {
		if c.r.Intn(4) == 0 {
			return ""
		}
		return []string{"/home/u", "/d", "/usr/share", "/usr/local/share", "/var/lib/x y/exports/share", "/opt/Ünï"}[c.r.Intn(6)]
	}
	dirs := []string{}
	for k := c.r.Intn(4); 0 < k; k-- {
		dirs = append(dirs, dir())
	}
	e := M{"op": "where", "home": dir(), "dataHome": dir(), "dataDirs": dirs, "got": []string{}}
	for k, v := range map[string]string{"HOME": e["home"].(string), "XDG_DATA_HOME": e["dataHome"].(string), "XDG_DATA_DIRS": strings.Join(dirs, ":")} {
		old, ok := os.LookupEnv(k)
		os.Setenv(k, v)
		defer func() {
			if os.Unsetenv(k); ok {
				os.Setenv(k, old)
			}
		}()
	}
	e["panic"] = guard(func() { e["got"] = append([]string{}, font.DefaultFontDirs()...) })
	c.ev(e)
}

func runSystemFind(c *ctx) {
	c.where()
	names := []string{"a", "b", "c", "d.ttf"}
	dir := func() []string {
		d := []string{}
		for k := c.r.Intn(4); 0 < k; k-- {
			d = append(d, names[c.r.Intn(len(names))])
		}
		return d
	}
	files := []*sysFile{}
	for i, n := 0, 1+c.r.Intn(9); i < n; i++ {
		f := &sysFile{dir: dir(), name: "f" + string(rune('a'+i)), reg: true}
		f.ext = []string{".ttf", ".otf", ".ttf", ".otf", ".ttf", ".txt", "", ".ttf.bak", ".gz"}[c.r.Intn(9)]
		switch c.r.Intn(12) {
		case 0:
			f.b = randBytes(c.r, c.r.Intn(60))
		case 1:
			f.reg = false
			f.ext = []string{".ttf", ".otf"}[c.r.Intn(2)]
		case 2:
			if 0 < i {
				f.b = append([]byte{}, files[c.r.Intn(i)].b...)
			}
		case 3:
			if b := smallFont(c.r, []string{"tt", "cff"}[c.r.Intn(2)]).Bytes(); len(b) < 6000 {
				f.b = b
			}
		default:
			ver := 0
			if c.r.Intn(5) == 0 {
				ver = 1
			}
			f.b = sysFont(sysName(c.sysNames(), ver), c.r.Intn(4)*c.r.Intn(8))
			if c.r.Intn(6) == 0 { // damage
				switch c.r.Intn(3) {
				case 0:
					f.b = f.b[:c.r.Intn(len(f.b))]
				case 1:
					f.b[c.r.Intn(len(f.b))] ^= 1 << c.r.Intn(8)
				case 2:
					f.b = append(f.b, randBytes(c.r, c.r.Intn(20))...)
				}
			}
		}
		files = append(files, f)
	}
	dirs := [][]string{}
	for k := 1 + c.r.Intn(3); 0 < k; k-- {
		switch c.r.Intn(4) {
		case 0:
			dirs = append(dirs, nil)
		case 1:
			dirs = append(dirs, []string{"nowhere"})
		default:
			f := files[c.r.Intn(len(files))]
			dirs = append(dirs, f.dir[:c.r.Intn(len(f.dir)+1)])
		}
	}
	if c.r.Intn(3) == 0 {
		dirs = append(dirs, dirs[c.r.Intn(len(dirs))])
	}
	w := c.find(files, dirs, func(root string) {
		if c.r.Intn(4) == 0 {
			os.Symlink(root, filepath.Join(root, "loop"))
			os.Symlink("..", filepath.Join(root, "loop.ttf"))
		}
	})
	gs := []genList{}
	for k, v := range w.s.Generics {
		gs = append(gs, genList{k, v, 0})
	}
	if 0 < len(gs) {
		g := w.s.Generics
		w.gen(gs, false)
		w.s.Generics = g
	} else {
		w.gen(nil, false)
	}
	qs := []string{"Aa", "Bb,Aa", "serif", "Cc Dd, sans-serif", "Ünïcode 字", "sans-serif,Bb"}
	ask := func() {
		for k := 0; k < 3; k++ {
			w.match(qs[(c.i+k)%len(qs)], 1+(c.i/3+k)%9+256*(k%2))
		}
	}
	ask()
	w.reload(c.r.Intn(2) * 3000)
	ask()
}
