package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"fontverif/fb"

	font "github.com/tdewolff/font"
)

// The wrapper driver: fonts in WOFF and EOT files, and recognition of formats.

func init() {
	checks["wrap"] = &check{n: counts(500, 10000), run: runWrap}
	checks["wrapreal"] = &check{n: counts(60, 400), run: runWrapReal}
}

type wrapPlan struct {
	K     string `json:"k"`
	Fl    string `json:"fl"`
	Z     []bool `json:"z"`
	Data  string `json:"data"`
	Gap   int    `json:"gap"`
	Meta  bool   `json:"meta"`
	Priv  bool   `json:"priv"`
	Fault string `json:"fault"`
	At    int    `json:"at"`
	V     int    `json:"v"`
	Xor   bool   `json:"xor"`
	Names []int  `json:"names"`
	Root  int    `json:"root"`
	Sig   int    `json:"sig"`
	Eudc  int    `json:"eudc"`
	Tail  int    `json:"tail"`
}

func deflate(b []byte, level int) []byte {
	var buf bytes.Buffer
	w, err := zlib.NewWriterLevel(&buf, level)
	if err != nil {
		panic(err)
	}
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// inflated is what a block of compressed data inflates to, up to limit+1 bytes.
func inflated(b []byte, limit int) M {
	m := M{"st": "bad", "data": []int{}}
	rd := bytes.NewReader(b)
	z, err := zlib.NewReader(rd)
	if err != nil {
		return m
	}
	data, err := io.ReadAll(io.LimitReader(z, int64(limit)+1))
	if err != nil {
		return m
	}
	m["st"], m["data"] = "ok", ints(data)
	if 0 < rd.Len() {
		m["st"] = "odd"
	}
	return m
}

// woffFile is a WOFF file to be written.
type woffFile struct {
	flavor  uint32
	tables  []fb.Table // sorted
	comp    [][]byte   // what is stored
	order   []int
	gap     []int
	meta    []byte
	priv    []byte
	offs    []int
	compLen []int
}

func (f *woffFile) bytes() []byte {
	w := &fb.W{}
	n := len(f.tables)
	total := 12 + 16*n
	for _, t := range f.tables {
		total += (len(t.Data) + 3) &^ 3
	}
	w.Str("wOFF")
	w.U32(f.flavor)
	w.U32(0)
	w.U16(n)
	w.U16(0)
	w.U32(uint32(total))
	w.U16(1)
	w.U16(3)
	w.Zero(20)
	w.Zero(20 * n)
	f.offs = make([]int, n)
	for _, i := range f.order {
		if i < len(f.gap) {
			w.Zero(f.gap[i])
		}
		f.offs[i] = w.Len()
		w.Raw(f.comp[i])
		w.Pad4()
	}
	for i, t := range f.tables {
		p := 44 + 20*i
		copy(w.B[p:], t.Tag)
		w.Put32(p+4, uint32(f.offs[i]))
		w.Put32(p+8, uint32(len(f.comp[i])))
		w.Put32(p+12, uint32(len(t.Data)))
		w.Put32(p+16, fb.Sum(noSum(t).Data))
	}
	if f.meta != nil {
		w.Put32(24, uint32(w.Len()))
		w.Put32(28, uint32(len(f.meta)))
		w.Put32(32, 2*uint32(len(f.meta)))
		w.Raw(f.meta)
		w.Pad4()
	}
	if f.priv != nil {
		w.Put32(36, uint32(w.Len()))
		w.Put32(40, uint32(len(f.priv)))
		w.Raw(f.priv)
	}
	w.Put32(8, uint32(w.Len()))
	return w.B
}

type eotFile struct {
	version uint32
	flags   uint32
	strs    [4][]byte
	root    []byte
	sig     []byte
	eudc    []byte
	font    []byte
	tail    int
	magic   int
}

func (f *eotFile) bytes() []byte {
	le16 := func(b []byte, v int) []byte { return binary.LittleEndian.AppendUint16(b, uint16(v)) }
	le32 := func(b []byte, v int) []byte { return binary.LittleEndian.AppendUint32(b, uint32(v)) }
	var b []byte
	b = le32(b, 0)
	b = le32(b, len(f.font))
	b = le32(b, int(f.version))
	b = le32(b, int(f.flags))
	b = append(b, make([]byte, 10)...)
	b = append(b, 1, 0)
	b = le32(b, 400)
	b = le16(b, 0)
	b = le16(b, f.magic)
	b = append(b, make([]byte, 24)...)
	b = le32(b, 0x12345678)
	b = append(b, make([]byte, 16)...)
	for _, s := range f.strs {
		b = le16(b, 0)
		b = le16(b, len(s))
		b = append(b, s...)
	}
	if f.version != 0x00010000 {
		b = le16(b, 0)
		b = le16(b, len(f.root))
		b = append(b, f.root...)
	}
	if f.version == 0x00020002 {
		b = le32(b, 0)
		b = le32(b, 0)
		b = le16(b, 0)
		b = le16(b, len(f.sig))
		b = append(b, f.sig...)
		b = le32(b, 0)
		b = le32(b, len(f.eudc))
		b = append(b, f.eudc...)
	}
	for _, x := range f.font {
		if f.flags&0x10000000 != 0 {
			x ^= 0x50
		}
		b = append(b, x)
	}
	b = append(b, make([]byte, f.tail)...)
	binary.LittleEndian.PutUint32(b, uint32(len(b)))
	return b
}

func (c *ctx) woff(b []byte) []byte {
	m := M{"op": "woff", "b": ints(b), "err": "", "out": []int{}, "kept": true}
	var zs []M
	if 44 <= len(b) {
		n := int(binary.BigEndian.Uint16(b[12:]))
		if 44+20*n <= len(b) {
			for i := 0; i < n; i++ {
				p := 44 + 20*i
				off, comp, orig := int64(binary.BigEndian.Uint32(b[p+4:])), int64(binary.BigEndian.Uint32(b[p+8:])), int64(binary.BigEndian.Uint32(b[p+12:]))
				z := M{"st": "ok", "data": []int{}}
				if comp < orig && off+comp <= int64(len(b)) {
					z = inflated(b[off:off+comp], int(min(orig, 1<<20)))
				}
				zs = append(zs, z)
			}
		}
	}
	if zs == nil {
		zs = []M{}
	}
	m["z"] = zs
	buf := append([]byte{}, b...)
	var out []byte
	m["panic"] = guard(func() {
		var err error
		out, err = font.ParseWOFF(buf)
		m["err"] = errStr(err)
		if err != nil {
			out = nil
		}
	})
	m["out"] = ints(out)
	m["kept"] = bytes.Equal(b, buf)
	c.ev(m)
	return out
}

func (c *ctx) eot(b []byte) []byte {
	m := M{"op": "eot", "b": ints(b), "err": "", "out": []int{}}
	buf := append([]byte{}, b...)
	var out []byte
	m["panic"] = guard(func() {
		var err error
		out, err = font.ParseEOT(buf)
		m["err"] = errStr(err)
		if err != nil {
			out = nil
		}
	})
	m["out"] = ints(out)
	m["kept"] = bytes.Equal(b, buf)
	c.ev(m)
	return out
}

// conv looks at the dispatch on the format of b.
func (c *ctx) conv(b []byte) {
	pre := b
	if 48 < len(pre) {
		pre = pre[:48]
	}
	m := M{"op": "media", "b": ints(pre), "media": "", "merr": "", "ext": ""}
	m["panic"] = guard(func() {
		s, err := font.MediaType(b)
		m["media"], m["merr"], m["ext"] = s, errStr(err), font.Extension(b)
	})
	c.ev(m)
	m = M{"op": "conv", "b": ints(pre), "err": "", "rerr": "", "derr": "", "same": false, "dsame": false, "rsame": false}
	m["panic"] = guard(func() {
		cp := func() []byte { return append([]byte{}, b...) }
		out, err := font.ToSFNT(cp())
		m["err"], m["same"] = errStr(err), bytes.Equal(out, b)
		rd, rerr := font.NewSFNTReader(bytes.NewReader(cp()))
		m["rerr"] = errStr(rerr)
		var rb []byte
		if rerr == nil {
			rb, _ = io.ReadAll(rd)
		}
		m["rsame"] = err != nil || bytes.Equal(rb, out)
		var dec []byte
		var derr error
		switch {
		case len(b) < 4:
		case string(b[:4]) == "wOFF":
			dec, derr = font.ParseWOFF(cp())
		case string(b[:4]) == "wOF2":
			dec, derr = font.ParseWOFF2(cp())
		default:
			dec, derr = font.ParseEOT(cp())
		}
		m["derr"], m["dsame"] = errStr(derr), bytes.Equal(dec, out)
	})
	c.ev(m)
}

// sameFont compares the tables of the font in b with those of the bare font.
func (c *ctx) sameFont(b, bare []byte) {
	m := M{"op": "font", "err": "", "bare": []M{}, "wrapped": []M{}}
	m["panic"] = guard(func() {
		s, err := font.ParseSFNT(append([]byte{}, bare...), 0)
		if err != nil {
			panic("harness: " + err.Error())
		}
		w, err := font.ParseSFNT(append([]byte{}, b...), 0)
		m["bare"] = tableList(s)
		m["err"] = errStr(err)
		if err == nil {
			m["wrapped"] = tableList(w)
		}
	})
	c.ev(m)
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func genWoff(r *rand.Rand, pl *wrapPlan) (*woffFile, []byte) {
	kind := []string{"tt", "cff"}[r.Intn(2)]
	f := &woffFile{}
	if pl != nil {
		kind = map[string]string{"1.0": "tt", "true": "tt", "OTTO": "cff"}[pl.Fl]
	}
	d := smallFont(r, kind)
	f.flavor = d.Version()
	if pl != nil && pl.Fl == "true" || pl == nil && kind == "tt" && r.Intn(4) == 0 {
		f.flavor = 0x74727565
	}
	ts := d.Tables()
	if pl == nil {
		for r.Intn(2) == 0 {
			x := randBytes(r, r.Intn(30))
			if r.Intn(2) == 0 {
				x = bytes.Repeat([]byte{byte(r.Intn(256))}, r.Intn(2000))
			}
			ts = fb.Set(ts, []string{"DSIG", "cvt ", "ZZZZ", "aaaa", "meta", "\x01\x02\x03\x04", "\xf0\x9f\x98\x81"}[r.Intn(7)], x)
		}
		if r.Intn(40) == 0 {
			ts = without(ts, ts[r.Intn(len(ts))].Tag)
		}
	}
	f.tables = fb.SortTables(ts)
	bare := fb.SFNT(f.flavor, f.tables, fb.Layout{})
	// the head table as it is in the bare font
	for i := range f.tables {
		if f.tables[i].Tag == "head" {
			q := 12 + 16*i
			off := binary.BigEndian.Uint32(bare[q+8:])
			f.tables[i].Data = append([]byte{}, bare[off:off+54]...)
		}
	}
	all := r.Intn(3)
	for i, t := range f.tables {
		z := all == 1 || all == 2 && r.Intn(2) == 0
		if pl != nil {
			z = pl.Z[i%len(pl.Z)]
		}
		x := t.Data
		if z {
			if y := deflate(t.Data, []int{-2, 1, 5, 9, 0, 6}[r.Intn(6)]); len(y) < len(x) {
				x = y
			}
		}
		f.comp = append(f.comp, x)
		if pl != nil {
			f.gap = append(f.gap, pl.Gap)
		} else if r.Intn(5) == 0 {
			f.gap = append(f.gap, 4*r.Intn(4))
		} else {
			f.gap = append(f.gap, 0)
		}
	}
	n := len(f.tables)
	f.order = orderOf("up", n)
	if pl != nil {
		f.order = orderOf(pl.Data, n)
	} else if r.Intn(2) == 0 {
		f.order = r.Perm(n)
	}
	if pl != nil && pl.Meta || pl == nil && r.Intn(4) == 0 {
		f.meta = deflate([]byte("<metadata version=\"1.0\"></metadata>"), 6)
	}
	if pl != nil && pl.Priv || pl == nil && r.Intn(4) == 0 {
		f.priv = randBytes(r, 1+r.Intn(20))
	}
	return f, bare
}

// faultWoff puts a fault of the plan into the file; tables are numbered as in the model.
func faultWoff(b []byte, f *woffFile, pl *wrapPlan) []byte {
	n := len(f.tables)
	i := (pl.At - 1) * (n - 1) / 3
	p := 44 + 20*i
	get := func(p int) uint32 { return binary.BigEndian.Uint32(b[p:]) }
	put := func(p int, v uint32) { binary.BigEndian.PutUint32(b[p:], v) }
	switch pl.Fault {
	case "sig":
		b[3]++
	case "ver":
		copy(b[4:], "ttcf")
	case "length":
		put(8, get(8)+1)
	case "total":
		put(16, get(16)+4)
	case "reserved":
		b[15] = 1
	case "sum":
		put(p+16, get(p+16)+0x01010101)
	case "outside":
		put(p+4, uint32(len(b)))
	case "overlap":
		put(44+20*(n-1)+4, get(44+4))
	case "indir":
		put(44+4, 60)
	case "order":
		x := append([]byte{}, b[44:64]...)
		copy(b[44:64], b[64:84])
		copy(b[64:84], x)
	case "short":
		put(p+12, get(p+12)+1)
	case "long":
		put(p+12, get(p+12)-1)
	case "broken":
		if len(f.comp[i]) < len(f.tables[i].Data) {
			o := f.offs[i]
			b[o] ^= 0xFF
		}
	case "cut":
		b = b[:len(b)-3]
	case "more":
		b = append(b, 0)
	case "grown":
		put(p+8, get(p+12)+1)
	}
	return b
}

func genEot(r *rand.Rand, pl *wrapPlan) (*eotFile, []byte) {
	d := smallFont(r, []string{"tt", "cff"}[r.Intn(2)])
	f := &eotFile{magic: 0x504C, font: d.Bytes()}
	vs := map[int]uint32{10: 0x00010000, 21: 0x00020001, 22: 0x00020002}
	if pl != nil {
		f.version = vs[pl.V]
		if pl.Xor {
			f.flags = 0x10000000
		}
		for i, n := range pl.Names {
			f.strs[i] = randBytes(r, n)
		}
		f.root, f.sig, f.eudc, f.tail = randBytes(r, pl.Root), randBytes(r, pl.Sig), randBytes(r, pl.Eudc), pl.Tail
		return f, f.font
	}
	f.version = vs[[]int{10, 21, 22}[r.Intn(3)]]
	f.flags = uint32(r.Intn(4)) << 28 & 0x10000000
	if r.Intn(3) == 0 {
		f.flags |= uint32([]int{1, 0x10, 0x20, 0x40, 0x80, 0x20000000, 0x08000000}[r.Intn(7)])
	}
	ln := func() int { return []int{0, 1, 2, 8, 13, 40, 255, 256, 300}[r.Intn(9)] }
	for i := range f.strs {
		f.strs[i] = randBytes(r, ln())
	}
	f.root, f.sig, f.eudc = randBytes(r, ln()), randBytes(r, ln()), randBytes(r, ln())
	if r.Intn(5) == 0 {
		f.tail = 1 + r.Intn(9)
	}
	if r.Intn(40) == 0 {
		f.strs[r.Intn(4)] = randBytes(r, 65535)
	}
	return f, f.font
}

func faultEot(b []byte, f *eotFile, pl *wrapPlan) []byte {
	switch pl.Fault {
	case "magic":
		b[34]++
	case "version":
		binary.LittleEndian.PutUint32(b[8:], 0x00020003)
	case "compressed":
		b[12] |= 4
	case "cut":
		b = b[:len(b)-len(f.font)-1]
	case "size":
		binary.LittleEndian.PutUint32(b[4:], uint32(len(f.font)+1))
	case "sub":
		b = b[:81]
	case "empty":
		b = b[:len(b)-len(f.font)]
		binary.LittleEndian.PutUint32(b[4:], 0)
	}
	return b
}

func runWrap(c *ctx) {
	r := c.r
	var pl wrapPlan
	if c.plan(&pl) {
		if pl.K == "woff" {
			f, bare := genWoff(r, &pl)
			b := faultWoff(f.bytes(), f, &pl)
			c.woff(b)
			c.conv(b)
			if pl.Fault == "no" {
				c.sameFont(b, bare)
			}
		} else {
			f, bare := genEot(r, &pl)
			b := faultEot(f.bytes(), f, &pl)
			c.eot(b)
			c.conv(b)
			if pl.Fault == "no" {
				c.sameFont(b, bare)
			}
		}
		return
	}
	switch k := r.Intn(10); {
	case k < 5:
		f, bare := genWoff(r, nil)
		b := f.bytes()
		bad := false
		for bad = r.Intn(3) == 0; bad; {
			b = spoilWoff(r, b, f)
			if r.Intn(2) == 0 {
				break
			}
		}
		c.woff(b)
		c.conv(b)
		if _, err := font.ParseSFNT(bare, 0); err == nil && !bad {
			c.sameFont(b, bare)
		}
	case k < 8:
		f, bare := genEot(r, nil)
		b := f.bytes()
		bad := r.Intn(3) == 0
		if bad {
			switch r.Intn(5) {
			case 0:
				b = b[:r.Intn(len(b)+1)]
			case 1:
				b = b[:len(b)-r.Intn(4)]
			case 2:
				b[r.Intn(min(len(b), 100))] ^= 1 << r.Intn(8)
			case 3:
				b = b[:min(len(b), 70+r.Intn(60))]
			case 4:
				p := 82 + r.Intn(len(b)-len(f.font)-f.tail-82)
				b[p] = []byte{0, 1, 255, 128}[r.Intn(4)]
			}
		}
		c.eot(b)
		c.conv(b)
		if !bad {
			c.sameFont(b, bare)
		}
	default:
		n := []int{0, 1, 3, 4, 5, 12, 35, 36, 37, 38, 60, 200}[r.Intn(12)]
		b := randBytes(r, n)
		if r.Intn(2) == 0 {
			copy(b, []string{"wOFF", "wOF2", "true", "ttcf", "OTTO", "\x00\x01\x00\x00", "typ1", "wOF3", "otto", "\x01\x00\x00\x00"}[r.Intn(10)])
		}
		if 36 <= n && r.Intn(2) == 0 {
			b[34], b[35] = 0x4C, 0x50
			if r.Intn(4) == 0 {
				b[35] = 0x51
			}
		}
		c.conv(b)
	}
}

func spoilWoff(r *rand.Rand, b []byte, f *woffFile) []byte {
	n := len(f.tables)
	if len(b) < 44+20*n {
		return b
	}
	get := func(p int) uint32 { return binary.BigEndian.Uint32(b[p:]) }
	put := func(p int, v uint32) { binary.BigEndian.PutUint32(b[p:], v) }
	i := r.Intn(n)
	p := 44 + 20*i
	edge := func(v uint32) uint32 {
		l := uint32(len(b))
		e := []uint32{0, 1, l, l - 1, l - 4, l - v, l - v + 1, v + 1, v - 1, v + 4, v - 4, 0xFFFFFFFF, 0xFFFFFFFC, 0x80000000, -v, 44, uint32(44 + 20*n), uint32(43 + 20*n), uint32(40 + 20*n), get(44 + 20*r.Intn(n) + 4)}
		return e[r.Intn(len(e))]
	}
	switch r.Intn(9) {
	case 0:
		b = b[:r.Intn(len(b)+1)]
	case 1:
		b = b[:r.Intn(len(b)+1)]
		if 12 <= len(b) {
			binary.BigEndian.PutUint32(b[8:], uint32(len(b)))
		}
	case 2:
		put(p+4, edge(get(p+4)))
	case 3:
		put(p+8, edge(get(p+8)))
	case 4:
		put(p+12, edge(get(p+12)))
	case 5:
		binary.BigEndian.PutUint16(b[12:], uint16([]int{0, n - 1, n + 1, 65535, 4096}[r.Intn(5)]))
	case 6:
		put([]int{0, 4, 8, 12, 16, p, p + 16}[r.Intn(7)], edge(get(16)))
	case 7:
		o := f.offs[i]
		if o < len(b) && 0 < len(f.comp[i]) {
			b[o+r.Intn(min(len(f.comp[i]), len(b)-o))] ^= 1 << r.Intn(8)
		}
	case 8:
		j := r.Intn(n)
		q := 44 + 20*j
		k := r.Intn(4) * 4
		put(p+k, get(q+k))
	}
	return b
}

// runWrapReal decodes the samples of the repository.
func runWrapReal(c *ctx) {
	var files []string
	for _, g := range []string{"testdata/woff_format/*.woff", "resources/*.eot", "resources/*.woff"} {
		l, _ := filepath.Glob("/repo/" + g)
		files = append(files, l...)
	}
	sort.Strings(files)
	if len(files) == 0 {
		return
	}
	k := c.i
	if c.tier == "quick" {
		k = c.i*7 + int(c.seed)
	}
	f := files[k%len(files)]
	b, err := os.ReadFile(f)
	if err != nil || 150000 < len(b) && c.tier == "quick" {
		return
	}
	c.Info["file"] = f
	if strings.HasSuffix(f, ".eot") {
		c.eot(b)
	} else {
		c.woff(b)
	}
	c.conv(b)
}
