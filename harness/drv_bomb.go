package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"github.com/andybalholm/brotli"

	"fontverif/fb"
)

// bomb makes a small file that asks for much.
func (c *ctx) bomb(f, how string) []byte {
	r := c.r
	be16 := func(v ...int) (b []byte) {
		for _, x := range v {
			b = binary.BigEndian.AppendUint16(b, uint16(x))
		}
		return b
	}
	be32 := func(v ...int) (b []byte) {
		for _, x := range v {
			b = binary.BigEndian.AppendUint32(b, uint32(x))
		}
		return b
	}
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	kind := "tt"
	if f == "cff" || f == "emb" {
		kind = "cff"
	}
	d := smallFont(r, kind)
	ts := d.Tables()
	file := func() []byte { return fb.SFNT(d.Version(), ts, fb.Layout{}) }
	set := func(tag string, b []byte) { ts = fb.Set(cloneTables(ts), tag, b) }
	// manyGlyphs gives the font n glyphs that are all alike
	manyGlyphs := func(n int) {
		set("maxp", fb.Maxp(true, n, nil))
		set("head", fb.Head(1000, 0, [4]int{0, 0, 10, 10}))
		set("hhea", fb.Hhea(500, -500, 0, 1000, 1))
		set("hmtx", append([]byte{1, 244}, make([]byte, 2*n)...))
		set("loca", make([]byte, 2*(n+1)))
		set("glyf", []byte{0, 0, 0, 0})
		ts = without(without(ts, "vhea"), "vmtx")
		set("post", fb.PostTable(3, make([]byte, 28), nil, nil))
	}
	switch how {
	case "groups": // format 12, all the groups as wide as is allowed
		n := 65535
		manyGlyphs(n)
		k := []int{1, 10, 1000, 20000}[r.Intn(4)]
		b := []byte{}
		wide := []int{n - 2, n - 2, 100}[r.Intn(3)]
		at := r.Intn(100)
		if r.Intn(3) == 0 {
			at = 0xFFFFFFFF - k*(wide+1) + 1 // to the very last code
		}
		m := 0
		for i := 0; i < k && at+wide <= 0xFFFFFFFF; i++ {
			b = append(b, be32(at, at+wide, 0)...)
			at += wide + 1
			m++
		}
		set("cmap", cat(be16(0, 1, 3, 10), be32(12), be16(12, 0), be32(16+len(b), 0, m), b))
	case "ranges": // format 4, many subtables of one range of all characters
		manyGlyphs(65535)
		k := []int{1, 20, 300, 2000}[r.Intn(4)]
		sub := cat(be16(4, 32, 0, 4, 0, 0, 0), be16(0xFFFE, 0xFFFF), be16(0), be16(0, 0xFFFF), be16(r.Intn(3), 1), be16(0, 0))
		if r.Intn(2) == 0 { // all characters are the same glyph
			var ends, starts, zeros, offs []int
			for i := 0; i < 256; i++ {
				starts, ends, zeros = append(starts, 256*i), append(ends, min(256*i+255, 0xFFFE)), append(zeros, 0)
				offs = append(offs, 2*(257-i))
			}
			starts, ends, zeros, offs = append(starts, 0xFFFF), append(ends, 0xFFFF), append(zeros, 1), append(offs, 0)
			sub = cat(be16(ends...), be16(0), be16(starts...), be16(zeros...), be16(offs...), bytes.Repeat(be16(r.Intn(3)), 256))
			sub = cat(be16(4, 14+len(sub), 0, 2*257, 0, 0, 0), sub)
		}
		hd := be16(0, k)
		for i := 0; i < k; i++ {
			hd = cat(hd, be16(i%4, i/4), be32(4+8*k+i*len(sub)))
		}
		set("cmap", cat(hd, bytes.Repeat(sub, k)))
	case "doubling", "cycle": // composites of the composite before, twice or more often
		m := []int{2, 3, 10, 60, 1000}[r.Intn(5)]
		levels := []int{3, 5, 7, 20, 60}[r.Intn(5)]
		raw := [][]byte{nil, (&fb.Glyph{Contours: shape(r)}).Bytes(fb.Enc{})}
		for i := 0; i < levels; i++ {
			g := &fb.Glyph{BBox: &[4]int{0, 0, 10, 10}}
			for k := 0; k < m; k++ {
				to := len(raw) - 1
				if how == "cycle" && k%2 == 1 {
					to = len(raw) + r.Intn(2)
				}
				g.Comps = append(g.Comps, fb.Comp{G: to, DX: k % 100})
			}
			raw = append(raw, g.Bytes(fb.Enc{}))
		}
		raw = append(raw, raw[len(raw)-1])
		e := &FontDesc{Kind: "tt", Upem: 1000, Loca: 1, Enc: fb.Enc{Pad: 4}, Post: 3, PostHd: make([]byte, 28)}
		for i, x := range raw {
			e.Glyphs = append(e.Glyphs, fb.Glyph{Raw: x, Adv: 500 + i})
		}
		return e.Bytes()
	case "glyphs":
		n := []int{5000, 32768, 65534, 65535}[r.Intn(4)]
		if kind == "tt" {
			if f == "woff2" {
				n = min(n, 65535)
				t := cat(be16(0, 0, n, r.Intn(2)), be32(2*n, 0, 0, 0, 0, 4*((n+31)>>5), 0), make([]byte, 2*n+4*((n+31)>>5)))
				manyGlyphs(n)
				return w2Of(r, d.Version(), ts, t, nil, 0)
			}
			manyGlyphs(n)
		} else {
			set("maxp", fb.Maxp(false, n, nil))
			set("hmtx", append([]byte{1, 244}, make([]byte, 2*n)...))
			set("hhea", fb.Hhea(500, -500, 0, 1000, 1))
			ts = without(without(ts, "vhea"), "vmtx")
			cf := *d.CFF
			cf.Names = nil
			cf.CharStrings = nil
			for i := 0; i < n; i++ {
				cf.CharStrings = append(cf.CharStrings, []byte{14})
			}
			cf.CIDs = nil
			set("CFF ", (&fb.CFF{Name: "A", CharStrings: cf.CharStrings, StdStrings: stdIndex, Names: seqNames(n)}).Bytes())
		}
	case "names": // many records of the same long string
		k, l := []int{10, 1000, 65535}[r.Intn(3)], []int{2, 1000, 65534}[r.Intn(3)]
		k = min(k, (65535-6)/12) // the strings come after the records
		b := be16(r.Intn(2), k, 6+12*k)
		for i := 0; i < k; i++ {
			b = append(b, be16(3, 1, 0x409, i%20, l, 0)...)
		}
		set("name", append(b, make([]byte, l)...))
	case "kerns":
		k := []int{100, 3000, 65535}[r.Intn(3)]
		b := be16(0, k)
		for i := 0; i < k && len(b) < 400000; i++ {
			b = append(b, be16(0, 14+6, 1, 1, 6, 0, 0, 1, 2, i%100)...)
		}
		set("kern", b)
	case "posts":
		n := []int{1000, 65535}[r.Intn(2)]
		manyGlyphs(n)
		idx := make([]int, n)
		l := []string{}
		for i := range idx {
			idx[i] = 258 + i%[]int{1, 300}[n%2]
		}
		for i := 0; i < 300; i++ {
			l = append(l, strings.Repeat("x", r.Intn(64)))
		}
		set("post", fb.PostTable(2, make([]byte, 28), idx, l))
	case "subtables": // many encodings of one subtable
		k := []int{100, 3000, 8000}[r.Intn(3)]
		sub := append(be16(0, 262, 0), make([]byte, 256)...)
		hd := be16(0, k)
		for i := 0; i < k; i++ {
			hd = cat(hd, be16(i%4, i/4), be32(4+8*k))
		}
		set("cmap", append(hd, sub...))
	case "calls", "recursion": // subroutines that call others many times
		m := []int{2, 3, 10, 60, 5000}[r.Intn(5)]
		levels := []int{3, 6, 9, 10, 12, 20}[r.Intn(6)]
		var subrs [][]byte
		leaf := []byte{fbNum(10), fbNum(10), 5, 11}
		subrs = append(subrs, leaf)
		for i := 1; i <= levels; i++ {
			to := i - 1
			if how == "recursion" && i%3 == 0 {
				to = i
			}
			one := []byte{fbNum(to - 107), []byte{10, 29}[0]}
			b := bytes.Repeat(one, m)
			subrs = append(subrs, append(b, 11))
		}
		cs := []byte{fbNum(0), fbNum(0), 21, fbNum(levels - 107), 10, 14}
		cf := &fb.CFF{Name: "A", CharStrings: [][]byte{{14}, cs, cs}, LSubrs: [][][]byte{subrs}, Names: []string{".notdef", "a", "b"}, StdStrings: stdIndex}
		if r.Intn(2) == 0 {
			cf.LSubrs, cf.GSubrs = nil, subrs
			for i := range subrs {
				subrs[i] = bytes.ReplaceAll(subrs[i], []byte{10}, []byte{29})
			}
			cf.CharStrings = [][]byte{{14}, bytes.ReplaceAll(cs, []byte{10}, []byte{29}), {14}}
		}
		e := *d
		e.Glyphs, e.Names, e.CFF = make([]fb.Glyph, 3), cf.Names, cf
		e.Kern, e.Cmaps = nil, nil
		return e.Bytes()
	case "indices": // counts in front of nothing
		b := append([]byte{}, fb.Get(ts, "CFF ")...)
		for k := 1 + r.Intn(3); 0 < k && 4 < len(b); k-- {
			copy(b[r.Intn(len(b)-4):], []byte{255, 255, byte(1 + r.Intn(4)), 255})
		}
		set("CFF ", b)
	case "fonts":
		n := []int{3, 1000, 65535, 1 << 20}[r.Intn(4)]
		w := &fb.W{}
		w.Str("ttcf")
		w.U16(1)
		w.U16(0)
		w.U32(uint32(n))
		m := min(n, 70000)
		base := 12 + 4*m
		for i := 0; i < m; i++ {
			w.U32(uint32(base))
		}
		w.Raw(fb.SFNT(d.Version(), ts, fb.Layout{Base: uint32(base)}))
		return w.B
	case "unpack", "claims", "tables":
		big := make([]byte, []int{1 << 21, 1 << 24, 40 << 20}[r.Intn(3)])
		says := []int{len(big), 100, 1 << 20, 0x7FFFFFFF, 0xFFFFFFFF, 31 << 20}[r.Intn(6)]
		if f == "woff" {
			wf := &woffFile{flavor: d.Version(), tables: ts}
			for i, x := range ts {
				wf.comp, wf.order = append(wf.comp, x.Data), append(wf.order, i)
			}
			if how == "tables" {
				// as many as there can be, of the same data
				n := []int{100, 4000, 65535}[r.Intn(3)]
				b := wf.bytes()[:44]
				binary.BigEndian.PutUint16(b[12:], uint16(n))
				binary.BigEndian.PutUint32(b[16:], uint32([]int{12 + 16*n, 1 << 20}[r.Intn(2)]))
				for i := 0; i < n; i++ {
					b = append(b, fmt.Sprintf("%04x", i)...)
					b = append(b, be32(44+20*n, r.Intn(2), r.Intn(2), 0)...)
				}
				b = append(b, make([]byte, 4)...)
				binary.BigEndian.PutUint32(b[8:], uint32(len(b)))
				return b
			}
			i := r.Intn(len(ts))
			if how == "unpack" {
				var z bytes.Buffer
				zw, _ := zlib.NewWriterLevel(&z, 9)
				zw.Write(big)
				zw.Close()
				wf.comp[i] = z.Bytes()
			}
			b := wf.bytes()
			binary.BigEndian.PutUint32(b[44+20*i+12:], uint32(says))
			if r.Intn(2) == 0 {
				binary.BigEndian.PutUint32(b[16:], uint32(says))
			}
			return b
		}
		if how == "tables" {
			n := []int{100, 4000, 65535}[r.Intn(3)]
			l := []fb.Table{}
			for i := 0; i < n; i++ {
				l = append(l, fb.Table{Tag: fmt.Sprintf("%04x", i)})
			}
			return w2Of(r, d.Version(), l, nil, nil, 0)
		}
		var z bytes.Buffer
		zw := brotli.NewWriterLevel(&z, 5)
		if how == "unpack" {
			zw.Write(big)
		}
		zw.Close()
		return w2Of(r, d.Version(), ts, nil, z.Bytes(), says)
	case "points": // many points and contours in little data
		n := 1 + r.Intn(3)
		np := []int{100, 32767, 65535}[r.Intn(3)]
		nc := []int{1, 100, 32767}[r.Intn(3)]
		t := cat(be16(0, 0, n, 0), be32(2*n, 0, 0, 0, 0, 4, 0))
		for i := 0; i < n; i++ {
			t = append(t, be16(nc)...)
		}
		for i := 0; i < nc && i < 100; i++ {
			t = append(t, 253, byte(np>>8), byte(np))
		}
		t = append(t, make([]byte, 4+r.Intn(3000))...)
		manyGlyphs(n)
		return w2Of(r, d.Version(), ts, t, nil, 0)
	case "counts":
		k := []string{"100000", "2147483647", "65536", "4294967295", "9223372036854775807", "-1"}[r.Intn(6)]
		l := c.afmText()
		for i := range l {
			if strings.HasPrefix(l[i], "Start") && 1 < len(strings.Fields(l[i])) {
				l[i] = strings.Fields(l[i])[0] + " " + k
			}
		}
		return []byte(strings.Join(l, "\n"))
	case "pairs":
		n := []int{100, 70000}[r.Intn(2)]
		var w strings.Builder
		fmt.Fprintf(&w, "StartFontMetrics 4.1\nFontName A\nStartCharMetrics %d\n", n)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&w, "C -1 ; WX 10 ; N g%d ;\n", i)
		}
		fmt.Fprintf(&w, "EndCharMetrics\nStartKernData\nStartKernPairs %d\n", n)
		for i := 0; i < n; i++ {
			fmt.Fprintf(&w, "KPX g%d g%d %d\n", i, r.Intn(n), i%50)
		}
		w.WriteString("EndKernPairs\nEndKernData\nEndFontMetrics\n")
		return []byte(w.String())
	default:
		panic("unknown bomb " + how)
	}
	if f == "woff2" {
		return w2Of(r, d.Version(), ts, nil, nil, 0)
	}
	return file()
}

func fbNum(v int) byte { return byte(v + 139) }

func seqNames(n int) []string {
	l := []string{".notdef"}
	for i := 1; i < n; i++ {
		l = append(l, fmt.Sprint("g", i))
	}
	return l
}

// w2Of writes a WOFF2 file. The glyf table may be given as it is when transformed, and the stream may be replaced; says is
// then the length that one of the tables claims.
func w2Of(r *rand.Rand, flavor uint32, ts []fb.Table, glyf []byte, stream []byte, says int) []byte {
	var l []fb.W2Table
	var all []byte
	total := 12
	for i, t := range ts {
		x := fb.W2Table{Tag: t.Tag, Data: t.Data, Orig: len(t.Data)}
		switch {
		case glyf != nil && t.Tag == "glyf":
			x.Data, x.Tr = glyf, true
		case glyf != nil && t.Tag == "loca":
			x.Data, x.Tr = nil, true
		case t.Tag == "glyf" || t.Tag == "loca":
			x.TV = 3
		}
		if stream != nil && i == len(ts)-1 {
			x.Orig = says
		}
		total += 16 + (len(t.Data)+3)&^3
		l = append(l, x)
		all = append(all, x.Data...)
	}
	if stream == nil {
		var z bytes.Buffer
		zw := brotli.NewWriterLevel(&z, 5)
		zw.Write(all)
		zw.Close()
		stream = z.Bytes()
	}
	return fb.W2File(flavor, len(l), fb.W2Dir(l), stream, total, nil, nil)
}
