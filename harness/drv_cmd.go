package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode"

	"fontverif/fb"
	font "github.com/tdewolff/font"
)

// The driver of the command line tool: runs of the program, built from /repo, in a scratch directory. What is
// in the directory before and after, the exit status and what is printed are recorded.

func init() {
	checks["cmd"] = &check{n: counts(600, 6000), run: runCmd}
}

type cmdRun struct {
	code        int
	stdout, err string
	crash       string
}

func (c *ctx) fontcmd(dir string, stdin string, args ...string) cmdRun {
	tx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(tx, os.Getenv("FV_FONTCMD"), args...)
	cmd.Dir = dir
	cmd.Stdin = strings.NewReader(stdin)
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	x := cmdRun{stdout: so.String(), err: se.String()}
	if cmd.ProcessState == nil {
		panic(fmt.Sprint("cannot run ", err))
	}
	x.code = cmd.ProcessState.ExitCode()
	switch {
	case tx.Err() != nil:
		x.crash = "does not end"
	case x.code < 0:
		x.crash = cmd.ProcessState.String()
	case strings.Contains(x.err, "goroutine ") || strings.Contains(x.err, "panic: "):
		x.crash = x.err
		if i := strings.Index(x.crash, "panic: "); 0 <= i {
			x.crash = x.crash[i:]
		}
		if i := strings.IndexByte(x.crash, '\n'); 0 <= i {
			x.crash = x.crash[:i]
		}
	}
	c.Info["run"] = append(c.infoRuns(), fmt.Sprintf("%q => %d %.300s", args, x.code, x.err))
	return x
}

func (c *ctx) infoRuns() []string {
	l, _ := c.Info["run"].([]string)
	return l
}

func runeInts(s string) []int {
	l := []int{}
	for _, r := range s {
		l = append(l, int(r))
	}
	return l
}

func namesOf(s *font.SFNT) [][]int {
	l := [][]int{}
	for g := 0; g < int(s.NumGlyphs()); g++ {
		l = append(l, ints([]byte(s.GlyphName(uint16(g)))))
	}
	return l
}

// packed is a font in one of the containers.
type packed struct {
	b     []byte
	src   string // as in the specification
	ext   string
	index int
}

func pack(r *rand.Rand, descs []*FontDesc, i int, how int) packed {
	d := descs[i]
	p := packed{b: d.Bytes(), src: d.Kind, ext: map[string]string{"tt": ".ttf", "cff": ".otf"}[d.Kind]}
	switch how {
	case 1:
		var vs []uint32
		var fs [][]fb.Table
		for _, d := range descs {
			vs = append(vs, d.Version())
			fs = append(fs, d.Tables())
		}
		p.b = fb.TTC(vs, fs, 1)
		p.src, p.ext, p.index = "tt", ".ttc", i // collections go as TrueType
	case 2:
		if s, msg := parseAny(p.b, false); msg == "" {
			if b, err := s.WriteWOFF2(); err == nil {
				p.b, p.src, p.ext = b, "woff2", ".woff2"
			}
		}
	case 3:
		f := &woffFile{flavor: d.Version(), tables: fb.SortTables(d.Tables())}
		for i := range f.tables {
			if f.tables[i].Tag == "head" {
				off := binary.BigEndian.Uint32(p.b[12+16*i+8:])
				f.tables[i].Data = append([]byte{}, p.b[off:off+54]...)
			}
		}
		for _, t := range f.tables {
			f.comp = append(f.comp, t.Data)
		}
		f.order = orderOf("up", len(f.tables))
		p.b, p.src, p.ext = f.bytes(), "other", ".woff"
	case 4:
		f := &eotFile{magic: 0x504C, font: p.b, version: 0x00020001}
		p.b, p.src, p.ext = f.bytes(), "other", ".eot"
	}
	return p
}

// opened gives the font as the library reads it.
func (p packed) opened() (s *font.SFNT) {
	guard(func() {
		if b, err := font.ToSFNT(append([]byte{}, p.b...)); err == nil {
			if x, err := font.ParseSFNT(b, p.index); err == nil {
				s = x
			}
		}
	})
	return
}

func beginsAs(b []byte) string {
	if len(b) < 4 {
		return "nothing"
	}
	switch string(b[:4]) {
	case "wOF2":
		return "woff2"
	case "OTTO":
		return "cff"
	case "\x00\x01\x00\x00", "true":
		return "tt"
	}
	return "something else"
}

const oldText = "what was there before"

// cmdOut is an output of a run.
type cmdOut struct {
	Ext    string `json:"ext"`
	Exists bool   `json:"exists"`
	Yes    bool   `json:"yes"`
	std    bool
	name   string
}

// outputs gives the arguments and prepares the directory; the answers are in the order of the questions.
func outputs(dir string, outs []cmdOut, r *rand.Rand) (args []string, stdin string) {
	for i := range outs {
		o := &outs[i]
		o.name = fmt.Sprintf("out%d%s", i, o.Ext)
		if r.Intn(8) == 0 {
			o.name = filepath.Join(dir, o.name)
		}
		if o.std {
			o.name = "-"
		} else if o.Exists {
			os.WriteFile(filepath.Join(dir, filepath.Base(o.name)), []byte(oldText), 0o644)
			switch {
			case o.Yes:
				stdin += []string{"y\n", "yes\n", "Y\n"}[r.Intn(3)]
			default:
				stdin += []string{"n\n", "\n", "no\n"}[r.Intn(3)]
			}
		}
		args = append(args, []string{"-o", "--outputs"}[0], o.name)
	}
	return
}

func (c *ctx) outputs(dir string, outs []cmdOut, enc, stdout string, runes []int) []M {
	l := []M{}
	for _, o := range outs {
		m := M{"ext": o.Ext, "exists": o.Exists, "yes": o.Yes, "state": "absent", "b64": false, "k": "", "err": "", "nb": [][]int{}}
		if o.std {
			m["ext"] = ""
		}
		b, err := os.ReadFile(filepath.Join(dir, filepath.Base(o.name)))
		if o.std {
			b, err = []byte(stdout), nil
			if stdout == "" {
				err = os.ErrNotExist
			}
		}
		if err == nil && string(b) == oldText {
			m["state"] = "old"
		} else if err == nil {
			m["state"] = "new"
			if enc == "base64" {
				if x, err := base64.StdEncoding.Strict().DecodeString(string(b)); err == nil && !bytes.ContainsAny(b, "\r\n") {
					m["b64"], b = true, x
				}
			}
			m["k"] = beginsAs(b)
			p := packed{b: b}
			if s := p.opened(); s != nil {
				m["f"] = project(s, probe{runes: runes})
				m["nb"] = namesOf(s)
			} else {
				m["err"] = "not a font"
			}
		}
		l = append(l, m)
	}
	return l
}

// selection of glyphs

type cmdRange struct {
	Known bool  `json:"known"`
	Has   []int `json:"has"`
}

type cmdSel struct {
	G [][]int    `json:"g"`
	C [][]int    `json:"c"`
	N [][]int    `json:"n"`
	U [][]int    `json:"u"`
	R []cmdRange `json:"r"`
}

func newSel() cmdSel {
	return cmdSel{[][]int{}, [][]int{}, [][]int{}, [][]int{}, []cmdRange{}}
}

func escapeChar(r *rand.Rand, c int, must bool) string {
	if c == ',' || c == '-' || c == '\\' || c < 32 || 0x7F <= c && c < 0xA0 || c == '[' || c == '{' {
		must = true
	}
	if !must && r.Intn(4) != 0 && !(0xD800 <= c && c < 0xE000) {
		return string(rune(c))
	}
	if i := bytes.IndexByte([]byte("\a\b\t\n\v\f\r\"',-\\"), byte(c)); c < 128 && 0 <= i && r.Intn(2) == 0 {
		return "\\" + string("abtnvfr\"',-\\"[i])
	}
	h := []string{"%02x", "%02X"}[r.Intn(2)]
	w := []string{"02", "04", "08"}
	k := r.Intn(3)
	if 255 < c && k == 0 {
		k = 1
	}
	if 65535 < c {
		k = 2
	}
	h = strings.Replace(h, "02", w[k], 1)
	return "\\" + []string{"x", "u", "U"}[k] + fmt.Sprintf(h, c)
}

var rangeNames []string

func init() {
	for n := range unicode.Categories {
		rangeNames = append(rangeNames, n)
	}
	for n := range unicode.Scripts {
		rangeNames = append(rangeNames, n)
	}
	sort.Strings(rangeNames)
}

func rangeTable(n string) *unicode.RangeTable {
	if t, ok := unicode.Categories[n]; ok {
		return t
	}
	return unicode.Scripts[n]
}

// draw draws a selection and the arguments for it.
func (c *ctx) draw(d *FontDesc, s *font.SFNT, a *cmdSel) (args []string) {
	r := c.r
	n := d.N()
	chars := []int{}
	for x := range d.CMap {
		chars = append(chars, x)
	}
	sort.Ints(chars)
	char := func() int {
		if len(chars) == 0 || r.Intn(8) == 0 {
			return []int{32, 45, 65, 44, 92, 0x10FFFF, 0xFFFF, 0x4E00, 9}[r.Intn(9)]
		}
		x := chars[r.Intn(len(chars))]
		if r.Intn(4) == 0 {
			x += r.Intn(3) - 1
		}
		if x < 0 || 0x10FFFF < x || 0xD800 <= x && x < 0xE000 || x == 0 {
			x = 66
		}
		return x
	}
	opt := func(short, long, v string) {
		switch r.Intn(3) {
		case 0:
			args = append(args, "--"+long, v)
		case 1:
			args = append(args, "-"+short+v)
		default:
			args = append(args, "-"+short, v)
		}
	}
	ord := func(a, b int) (int, int) {
		if b < a {
			return b, a
		}
		return a, b
	}
	for k := r.Intn(5); 0 <= k; k-- {
		switch r.Intn(6) {
		case 0: // glyphs
			var items []string
			for j := r.Intn(3); 0 <= j; j-- {
				x := r.Intn(n)
				it := fmt.Sprint(x)
				if r.Intn(2) == 0 {
					lo, hi := ord(x, r.Intn(n))
					it = fmt.Sprintf("%d-%d", lo, hi)
				}
				if r.Intn(25) == 0 {
					it = []string{fmt.Sprint(n), fmt.Sprint(n + 1), "65535", "65536", "32768", "x", "3-1", "-1", "1-", "0x1", "1-65535", "01", "70000-70001", "65530-65536"}[r.Intn(14)]
				}
				items = append(items, it)
				a.G = append(a.G, runeInts(it))
			}
			opt("g", "glyph", strings.Join(items, ","))
		case 1, 2: // characters
			var items []string
			for j := r.Intn(2); 0 <= j; j-- {
				it := ""
				for i := r.Intn(4); 0 <= i; i-- {
					x := char()
					it += escapeChar(r, x, it == "" && (x == '-' || x == '='))
					if r.Intn(3) == 0 {
						y := x + r.Intn(6)
						if r.Intn(3) == 0 {
							_, y = ord(x, char())
						}
						if 0x10FFFF < y || 0xD800 <= y && y < 0xE000 {
							y = x
						}
						it += "-" + escapeChar(r, y, false)
						if r.Intn(6) == 0 {
							it += "-"
						}
					}
				}
				if r.Intn(10) == 0 {
					it += "-"
				}
				if r.Intn(30) == 0 {
					it += []string{"\\", "\\q", "\\x4", "\\u12", "\\U0011", "\\xzz", "\\u12G4", "--", "z-a", "\\U7fffffff", "a-\\U7fffffff", "\\UFFFFFFFF-a"}[r.Intn(12)]
				}
				items = append(items, it)
				a.C = append(a.C, runeInts(it))
			}
			opt("c", "char", strings.Join(items, ","))
		case 3: // names
			nm := s.GlyphName(uint16(r.Intn(n)))
			if r.Intn(8) == 0 {
				nm = []string{"space", "nosuchname", "A", "uni0041"}[r.Intn(4)]
			}
			if nm == "" || strings.ContainsAny(nm, ",\\[]{}=") || nm[0] == '-' {
				continue
			}
			a.N = append(a.N, ints([]byte(nm)))
			opt("n", "name", nm)
		case 4: // codes
			x := char()
			h := []string{"%x", "%X", "%04x", "%06x"}[r.Intn(4)]
			it := fmt.Sprintf(h, x)
			if r.Intn(2) == 0 {
				lo, hi := ord(x, x+r.Intn(40))
				hi = min(hi, 0x10FFFF)
				it = fmt.Sprintf(h+"-"+h, lo, hi)
			}
			if r.Intn(25) == 0 {
				it = []string{"110000", "10fffe-7fffffff", "xyz", "41-", "42-41", "g", "U+41", "-41"}[r.Intn(8)]
			}
			a.U = append(a.U, runeInts(it))
			opt("u", "unicode", it)
		case 5:
			nm := rangeNames[r.Intn(len(rangeNames))]
			if r.Intn(2) == 0 {
				nm = []string{"L", "C", "Cn", "Latin", "Common", "Han", "Lu", "So", "Sm", "P", "Nd", "Zs", "Co", "Cs", "Greek"}[r.Intn(15)]
			}
			x := cmdRange{Has: []int{}}
			if t := rangeTable(nm); t != nil {
				x.Known = true
				for _, ch := range chars {
					if unicode.Is(t, rune(ch)) {
						x.Has = append(x.Has, ch)
					}
				}
			}
			if r.Intn(30) == 0 {
				nm, x = "nosuchscript", cmdRange{Has: []int{}}
			}
			a.R = append(a.R, x)
			opt("r", "range", nm)
		}
	}
	return args
}

func genPattern(r *rand.Rand) string {
	p := ""
	for k := 1 + r.Intn(3); 0 < k; k-- {
		p += []string{"%i", "%n", "%u", "g", "uni", ".alt", "%%", "x%iy", "%u"}[r.Intn(9)]
	}
	if r.Intn(30) == 0 {
		p += []string{"%", "%z", "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz"}[r.Intn(3)]
	}
	return p
}

// cmdPlan comes from the model.
type cmdPlan struct {
	P     string   `json:"p"`
	S     []int    `json:"s"`
	Cmd   string   `json:"cmd"`
	K     string   `json:"k"`
	T     string   `json:"t"`
	Src   string   `json:"src"`
	Force bool     `json:"force"`
	Outs  []cmdOut `json:"outs"`
}

func runesText(s []int) string {
	var b strings.Builder
	for _, c := range s {
		b.WriteRune(rune(c))
	}
	return b.String()
}

func runCmd(c *ctx) {
	r := c.r
	dir, err := os.MkdirTemp("", "fvcmd")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var pl cmdPlan
	if c.plan(&pl) {
		switch pl.P {
		case "char", "glyph", "code", "pattern":
			c.planText(dir, &pl)
		default:
			c.planOut(dir, &pl)
		}
		return
	}
	if r.Intn(60) == 0 {
		c.cmdBig(dir)
		return
	}
	descs := poolOf(r, []string{"", "C12", "C17"}[r.Intn(3)], nil)
	for _, d := range descs {
		if manySubrs([]*FontDesc{d}) {
			return
		}
	}
	if d := descs[0]; r.Intn(4) == 0 && 1 < d.N() { // characters that are written as escapes
		d.CMap = map[int]int{}
		for _, x := range []int{7, 8, 9, 10, 11, 12, 13, 34, 39, 44, 45, 92, 97, 118, 102, 120} {
			if r.Intn(4) != 0 {
				d.CMap[x] = 1 + r.Intn(d.N()-1)
			}
		}
		d.setCmaps(r, r.Intn(3) == 0)
	}
	if r.Intn(6) == 0 {
		c.cmdEdges(dir, descs)
		return
	}
	for k := 0; k < 3; k++ {
		sub := filepath.Join(dir, fmt.Sprint(k))
		if err := os.Mkdir(sub, 0o755); err != nil {
			panic(err)
		}
		switch r.Intn(11) {
		case 0, 1, 2, 3, 4, 5:
			c.cmdSubset(sub, descs, nil, nil)
		case 6, 7:
			c.cmdMerge(sub, descs, nil)
		case 8:
			c.cmdCSS(sub, descs)
		case 9:
			c.cmdInfo(sub, descs)
		case 10:
			c.cmdDraw(sub, descs)
		}
	}
}

// cmdEdges asks for each of some characters that are written as escapes, or for ranges of which the font has the
// characters at the edges; every character has a glyph of its own.
func (c *ctx) cmdEdges(dir string, descs []*FontDesc) {
	r := c.r
	d := descs[0]
	n := d.N()
	if n < 2 {
		return
	}
	sel := newSel()
	var args []string
	chars := []int{}
	special := []int{7, 8, 9, 10, 11, 12, 13, 34, 39, 44, 45, 92, 97, 98, 116, 110, 118, 102, 114}
	if r.Intn(2) == 0 {
		at := 0
		if n-1 < len(special) {
			at = r.Intn(len(special) - n + 2)
		}
		chars = special[at:]
		it := ""
		for k := r.Intn(3); 0 <= k; k-- {
			it += escapeChar(r, chars[r.Intn(min(len(chars), n-1))], true)
		}
		if r.Intn(3) == 0 { // a dash at the end is a character
			chars, it = append([]int{45}, chars...), it+"-"
		}
		if it[0] == '-' {
			return
		}
		sel.C, args = [][]int{runeInts(it)}, []string{"-c", it}
	} else {
		for k := r.Intn(2); 0 <= k; k-- {
			nm := rangeNames[r.Intn(len(rangeNames))]
			t := rangeTable(nm)
			for j := 0; j < 4; j++ {
				lo, hi, stride := 0, 0, 1
				if i := r.Intn(len(t.R16) + len(t.R32)); i < len(t.R16) {
					lo, hi, stride = int(t.R16[i].Lo), int(t.R16[i].Hi), int(t.R16[i].Stride)
				} else {
					i -= len(t.R16)
					lo, hi, stride = int(t.R32[i].Lo), int(t.R32[i].Hi), int(t.R32[i].Stride)
				}
				chars = append(chars, hi, lo, hi-stride, hi+1, lo+1, lo-1)
			}
			sel.R = append(sel.R, cmdRange{Known: true, Has: []int{}})
			args = append(args, "-r", nm)
		}
	}
	d.CMap = map[int]int{}
	for _, x := range chars {
		if 0 < x && x <= 0x10FFFD && !(0xD800 <= x && x < 0xE000) && x != 0xFFFF && d.CMap[x] == 0 && len(d.CMap) < n-1 {
			d.CMap[x] = 1 + len(d.CMap)
		}
	}
	if len(d.CMap) == 0 {
		return
	}
	for i := range sel.R {
		for _, x := range chars {
			if d.CMap[x] != 0 && unicode.Is(rangeTable(args[2*i+1]), rune(x)) {
				sel.R[i].Has = append(sel.R[i].Has, x)
			}
		}
	}
	d.setCmaps(r, false)
	c.cmdSubset(dir, descs[:1], &sel, args)
}

// cmdBig asks for glyphs with high numbers.
func (c *ctx) cmdBig(dir string) {
	r := c.r
	n := []int{32768, 32769, 40000, 65535}[r.Intn(4)]
	d := genFont(r, genOpts{kind: "tt", n: n, names: 1, base: 65, noOS2: true})
	d.Loca, d.Kern, d.Names, d.Post = 1, nil, nil, 3
	d.CMap = map[int]int{65: n - 1, 66: 1, 67: 32767}
	for g := range d.Glyphs {
		if r.Intn(50) != 0 {
			d.Glyphs[g].Contours = nil
		}
		d.Glyphs[g].Comps = nil
	}
	d.setCmaps(r, false)
	sel := newSel()
	ids := map[int]bool{0: true, n - 1: true, 32767: true, 1: true}
	for k := r.Intn(4); 0 <= k; k-- {
		lo := []int{n - 1, 32767, 32766, n - 3, r.Intn(n)}[r.Intn(5)]
		hi := min(lo+r.Intn(4), n-1)
		it := fmt.Sprint(lo)
		if lo < hi {
			it = fmt.Sprintf("%d-%d", lo, hi)
		}
		for g := lo; g <= hi; g++ {
			ids[g] = true
		}
		sel.G = append(sel.G, runeInts(it))
	}
	var args []string
	for _, it := range sel.G {
		args = append(args, "-g", runesText(it))
	}
	if r.Intn(2) == 0 {
		sel.C, args = [][]int{{65}}, append(args, "-cA")
	}
	p := packed{b: d.Bytes(), src: "tt", ext: ".ttf"}
	s := p.opened()
	if s == nil {
		return
	}
	var l []int
	for g := range ids {
		l = append(l, g)
	}
	sort.Ints(l)
	c.look = l
	c.subset(dir, p, s, []cmdOut{{Ext: []string{".ttf", ".woff2"}[r.Intn(2)]}}, "", false, "", "", sel, args, allRunes([]*FontDesc{d}))
}

func (c *ctx) genOuts(cmd string, kind string) (outs []cmdOut, typ string, force bool) {
	r := c.r
	good := map[string][]string{"tt": {".ttf", ".ttf", ".woff2", ".ttc"}, "cff": {".otf", ".otf", ".woff2", ".otc"}}[kind]
	for k := []int{1, 1, 1, 2, 3}[r.Intn(5)]; 0 < k; k-- {
		o := cmdOut{Ext: good[r.Intn(len(good))], Exists: r.Intn(5) == 0, Yes: r.Intn(2) == 0}
		if r.Intn(10) == 0 {
			o.Ext = []string{".woff", ".eot", ".ttf", ".otf", ".bin", "", ".otc", ".ttc"}[r.Intn(8)]
		}
		outs = append(outs, o)
	}
	if r.Intn(6) == 0 {
		typ = []string{"font/truetype", "font/opentype", "font/woff2", "font/woff", "text/plain"}[r.Intn(5)]
	}
	force = r.Intn(4) == 0
	if len(outs) == 1 && r.Intn(8) == 0 {
		outs[0] = cmdOut{std: true}
	}
	return
}

func (c *ctx) common(typ string, force bool, enc string) (args []string) {
	r := c.r
	if typ != "" {
		args = append(args, "-t", typ)
	}
	if force {
		args = append(args, []string{"-f", "--force"}[r.Intn(2)])
	}
	if enc != "" {
		args = append(args, []string{"-e", "--encoding"}[r.Intn(2)], enc)
	}
	if r.Intn(2) == 0 {
		args = append(args, "-q")
	}
	return
}

func (c *ctx) cmdSubset(dir string, descs []*FontDesc, sel *cmdSel, selArgs []string) {
	r := c.r
	how := 0
	if r.Intn(3) == 0 {
		how = r.Intn(5)
	}
	i := r.Intn(len(descs))
	p := pack(r, descs, i, how)
	d := descs[i]
	s := p.opened()
	if s == nil {
		return
	}
	outs, typ, force := c.genOuts("subset", d.Kind)
	enc := []string{"", "base64", "hex"}[[]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2}[r.Intn(15)]]
	pat := ""
	if r.Intn(3) == 0 {
		pat = genPattern(r)
	}
	if sel == nil {
		x := newSel()
		sel = &x
		selArgs = c.draw(d, s, sel)
	}
	if r.Intn(15) == 0 {
		outs = nil
	}
	c.subset(dir, p, s, outs, typ, force, enc, pat, *sel, selArgs, allRunes(descs))
}

func (c *ctx) subset(dir string, p packed, s *font.SFNT, outs []cmdOut, typ string, force bool, enc, pat string, sel cmdSel, selArgs []string, runes []int) {
	r := c.r
	in := "in" + p.ext
	os.WriteFile(filepath.Join(dir, in), p.b, 0o644)
	args := append([]string{"subset"}, selArgs...)
	args = append(args, c.common(typ, force, enc)...)
	oargs, stdin := outputs(dir, outs, r)
	self := false
	if outs == nil { // written in place
		self = true
		outs = []cmdOut{{Ext: p.ext, Exists: true, Yes: r.Intn(2) == 0, name: in}}
		if outs[0].Yes {
			stdin = "y\n"
		}
	}
	args = append(args, oargs...)
	if pat != "" {
		args = append(args, "--glyph-name", pat)
	}
	if 0 < p.index || r.Intn(8) == 0 {
		args = append(args, "-i", strconv.Itoa(p.index))
	}
	asked := false
	for _, o := range outs {
		asked = asked || o.Exists
	}
	if !asked && r.Intn(8) == 0 {
		args, stdin = append(args, "-"), string(p.b)
	} else {
		args = append(args, in)
	}
	nb := [][]int{}
	if c.look == nil {
		nb = namesOf(s)
	}
	e := M{"op": "subset", "f": project(s, probe{ids: c.look, runes: runes}), "nb": nb, "a": sel, "pat": runeBytes(pat), "t": typ, "src": p.src, "enc": enc, "force": force}
	x := c.fontcmd(dir, stdin, args...)
	e["code"], e["crash"] = x.code, x.crash
	l := c.outputs(dir, outs, enc, x.stdout, runes)
	if self {
		if b, err := os.ReadFile(filepath.Join(dir, in)); err == nil && bytes.Equal(b, p.b) {
			for k := range l[0] {
				switch k {
				case "f":
					delete(l[0], k)
				case "state":
					l[0][k] = "old"
				}
			}
		}
	}
	e["out"] = l
	c.ev(e)
}

func runeBytes(s string) []int { return ints([]byte(s)) }

func (c *ctx) cmdMerge(dir string, descs []*FontDesc, pl *cmdPlan) {
	r := c.r
	k := 1 + r.Intn(min(3, len(descs)))
	if k == 1 && r.Intn(3) != 0 {
		k = 2
	}
	var ss []*font.SFNT
	var names []string
	ps := []packed{}
	fs := []*FontP{}
	runes := allRunes(descs)
	for i := 0; i < k; i++ {
		how := 0
		if r.Intn(4) == 0 {
			how = 2 + r.Intn(3)
		}
		p := pack(r, descs, i, how)
		s := p.opened()
		if s == nil {
			return
		}
		ss = append(ss, s)
		ps = append(ps, p)
		fs = append(fs, project(s, probe{runes: runes}))
		n := fmt.Sprintf("in%d%s", i, p.ext)
		os.WriteFile(filepath.Join(dir, n), p.b, 0o644)
		names = append(names, n)
	}
	outs, typ, force := c.genOuts("merge", descs[0].Kind)
	enc := []string{"", "base64", "hex"}[[]int{0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 2}[r.Intn(15)]]
	re := r.Intn(3) == 0
	if pl != nil {
		outs, typ, force, enc, re = pl.Outs, pl.T, pl.Force, "", true
	}
	mid := fs[0]
	if k == 3 {
		if guard(func() {
			if ss[0].Merge(ss[1], font.MergeOptions{RearrangeCmap: re}) == nil {
				mid = project(ss[0], probe{runes: runes})
			}
		}) != "" {
			return
		}
	}
	args := append([]string{"merge"}, c.common(typ, force, enc)...)
	oargs, stdin := outputs(dir, outs, r)
	args = append(args, oargs...)
	if re {
		args = append(args, "--rearrange-cmap")
	}
	args = append(append(args, "--"), names...)
	e := M{"op": "merge", "fs": fs, "mid": mid, "re": re, "t": typ, "src": ps[0].src, "enc": enc, "force": force}
	x := c.fontcmd(dir, stdin, args...)
	e["code"], e["crash"] = x.code, x.crash
	e["out"] = c.outputs(dir, outs, enc, x.stdout, runes)
	c.ev(e)
}

func (c *ctx) cmdCSS(dir string, descs []*FontDesc) {
	r := c.r
	i := r.Intn(len(descs))
	p := pack(r, descs, i, r.Intn(5))
	s := p.opened()
	if s == nil {
		return
	}
	os.WriteFile(filepath.Join(dir, "in"+p.ext), p.b, 0o644)
	runes := allRunes(descs)
	pat := ".%n"
	args := []string{"css", "-o", "out.css"}
	if r.Intn(2) == 0 {
		pat = genPattern(r)
		args = append(args, "--selector", pat)
	}
	e := M{"op": "css", "f": project(s, probe{runes: runes}), "nb": namesOf(s), "pat": runeBytes(pat), "exists": r.Intn(2) == 0, "append": r.Intn(2) == 0, "force": r.Intn(2) == 0, "yes": r.Intn(2) == 0, "state": "absent", "kept": false}
	stdin := "n\n"
	if e["exists"].(bool) {
		os.WriteFile(filepath.Join(dir, "out.css"), []byte(oldText+"\n"), 0o644)
		if e["yes"].(bool) {
			stdin = "y\n"
		}
	}
	if e["append"].(bool) {
		args = append(args, []string{"-a", "--append"}[r.Intn(2)])
	}
	if e["force"].(bool) {
		args = append(args, "-f")
	}
	if 0 < p.index {
		args = append(args, "-i", strconv.Itoa(p.index))
	}
	x := c.fontcmd(dir, stdin, append(args, "in"+p.ext)...)
	e["code"], e["crash"] = x.code, x.crash
	lines := [][]int{}
	if b, err := os.ReadFile(filepath.Join(dir, "out.css")); err == nil {
		t := string(b)
		e["state"] = "new"
		if e["exists"].(bool) && t == oldText+"\n" {
			e["state"] = "old"
		}
		if strings.HasPrefix(t, oldText+"\n") {
			e["kept"] = true
			t = t[len(oldText)+1:]
		}
		for t != "" {
			l := t
			if k := strings.IndexByte(t, '\n'); 0 <= k {
				l, t = t[:k], t[k+1:]
			} else {
				t = ""
			}
			lines = append(lines, ints([]byte(l)))
		}
	}
	e["lines"] = lines
	c.ev(e)
}

func halves(v uint64) []int { return []int{int(v >> 16 & 0xFFFF), int(v & 0xFFFF)} }

func (c *ctx) cmdInfo(dir string, descs []*FontDesc) {
	r := c.r
	p := pack(r, descs, r.Intn(len(descs)), []int{0, 2, 3, 4}[r.Intn(4)])
	b, err := font.ToSFNT(append([]byte{}, p.b...))
	if err != nil || len(b) < 12 {
		return
	}
	n := int(binary.BigEndian.Uint16(b[4:]))
	os.WriteFile(filepath.Join(dir, "in"+p.ext), p.b, 0o644)
	x := c.fontcmd(dir, "", "info", "in"+p.ext)
	e := M{"op": "info", "code": x.code, "crash": x.crash, "dir": ints(b[:12+16*n]), "version": []int{}}
	rows := []M{}
	for _, l := range strings.Split(x.stdout, "\n") {
		if strings.HasPrefix(l, "sfntVersion: 0x") && 23 <= len(l) {
			if v, err := strconv.ParseUint(l[15:23], 16, 32); err == nil {
				e["version"] = halves(v)
			}
		}
		k := strings.Index(l, "checksum=0x")
		if k < 6 {
			continue
		}
		var sum, off, length uint64
		if m, _ := fmt.Sscanf(strings.ReplaceAll(strings.ReplaceAll(l[k:], "offset=", "offset= "), "length=", "length= "), "checksum=0x%X offset= %d length= %d", &sum, &off, &length); m != 3 {
			continue
		}
		rows = append(rows, M{"tag": ints([]byte(l[k-6 : k-2])), "sum": halves(sum), "off": halves(off), "len": halves(length)})
	}
	e["rows"] = rows
	c.ev(e)
}

func (c *ctx) cmdDraw(dir string, descs []*FontDesc) {
	r := c.r
	i := r.Intn(len(descs))
	p := pack(r, descs, i, r.Intn(2))
	s := p.opened()
	if s == nil {
		return
	}
	d := descs[i]
	os.WriteFile(filepath.Join(dir, "in"+p.ext), p.b, 0o644)
	runes := allRunes(descs)
	e := M{"op": "draw", "f": project(s, probe{runes: runes}), "nb": namesOf(s), "char": -1, "g": 0, "must": false, "gid": -1, "chars": []int{}, "name": []int{}}
	args := []string{"draw", "--ppem", "20"}
	if r.Intn(2) == 0 {
		args = append(args, "-o", "out.png")
	}
	cs := []int{}
	for ch := range d.CMap {
		if 32 < ch && ch != '-' && !(0xD800 <= ch && ch < 0xE000) {
			cs = append(cs, ch)
		}
	}
	sort.Ints(cs)
	switch k := r.Intn(3); {
	case k == 0 && 0 < len(cs):
		ch := cs[r.Intn(len(cs))]
		e["char"] = ch
		args = append(args, "-c", string(rune(ch)))
	case k == 1 && 0 < len(cs):
		ch := cs[r.Intn(len(cs))]
		e["char"], e["must"] = ch, true
		args = append(args, "-u", fmt.Sprintf("%x", ch))
	default:
		g := r.Intn(d.N())
		e["g"] = g
		args = append(args, "-g", strconv.Itoa(g))
	}
	if 0 < p.index {
		args = append(args, "-i", strconv.Itoa(p.index))
	}
	x := c.fontcmd(dir, "", append(args, "in"+p.ext)...)
	e["code"], e["crash"] = x.code, x.crash
	chars := []int{}
	for _, l := range strings.Split(x.stdout, "\n") {
		if strings.HasPrefix(l, "GlyphID: ") {
			if v, err := strconv.Atoi(l[9:]); err == nil {
				e["gid"] = v
			}
		} else if strings.HasPrefix(l, "Char: ") && strings.HasSuffix(l, ")") {
			if v, err := strconv.Atoi(l[strings.LastIndexByte(l, '(')+1 : len(l)-1]); err == nil {
				chars = append(chars, v)
			}
		} else if strings.HasPrefix(l, "Name: ") {
			e["name"] = ints([]byte(l[6:]))
		}
	}
	e["chars"] = chars
	c.ev(e)
}

// planText asks for what a text of the model says, of a font that has the characters of the model.
func (c *ctx) planText(dir string, pl *cmdPlan) {
	r := c.r
	kind := []string{"tt", "cff"}[r.Intn(2)]
	d := genFont(r, genOpts{kind: kind, n: 12, names: 1, base: 65})
	d.CMap = map[int]int{}
	for i, ch := range []int{7, 45, 65, 66, 67, 69, 92, 97, 98, 99, 120} {
		d.CMap[ch] = 1 + i
	}
	d.setCmaps(r, false)
	p := pack(r, []*FontDesc{d}, 0, 0)
	s := p.opened()
	if s == nil {
		return
	}
	sel, args, pat := newSel(), []string{}, ""
	t := runesText(pl.S)
	switch pl.P {
	case "char":
		sel.C, args = [][]int{pl.S}, []string{"-c", t}
	case "glyph":
		sel.G, args = [][]int{pl.S}, []string{"-g", t}
	case "code":
		sel.U, args = [][]int{pl.S}, []string{"-u", t}
	case "pattern":
		pat = t
		sel.G, args = [][]int{runeInts("0-4")}, []string{"-g", "0-4"}
	}
	if t == "" && pl.P != "pattern" {
		sel = newSel()
	}
	c.subset(dir, p, s, []cmdOut{{Ext: map[string]string{"tt": ".ttf", "cff": ".otf"}[kind]}}, "", false, "", pat, sel, args, allRunes([]*FontDesc{d}))
}

func (c *ctx) planOut(dir string, pl *cmdPlan) {
	r := c.r
	var descs []*FontDesc
	for i := 0; i < 2; i++ {
		descs = append(descs, genFont(r, genOpts{kind: pl.K, n: 4, names: 1, base: 65 + 100*i}))
	}
	if pl.Cmd == "merge" {
		c.cmdMerge(dir, descs, pl)
		return
	}
	p := pack(r, descs, 0, map[string]int{"woff2": 2, "other": 3}[pl.Src])
	s := p.opened()
	if s == nil || p.src != pl.Src {
		return
	}
	sel := newSel()
	sel.G = [][]int{runeInts("1-2")}
	if len(pl.Outs) == 0 {
		pl.Outs = nil
	}
	c.subset(dir, p, s, pl.Outs, pl.T, pl.Force, "", "", sel, []string{"-g", "1-2"}, allRunes(descs))
}
