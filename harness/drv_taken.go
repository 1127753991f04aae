package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sort"

	"fontverif/fb"

	"github.com/golang/freetype/truetype"
	font "github.com/tdewolff/font"
	"golang.org/x/image/font/sfnt"
)

// The driver of fonts taken over from other libraries: files in layouts in which the tables touch or overlap, read
// by golang/freetype or x/image and handed to this library.

func init() {
	checks["taken"] = &check{n: counts(500, 8000), run: runTaken}
}

type takenPlan struct {
	L    [][2]int `json:"l"`
	H    int      `json:"h"`
	Harm bool     `json:"harm"`
}

var opaque = []string{"cvt ", "fpgm", "hdmx", "prep"}

// layTouching writes the tables with gaps of any length between them, and then records for more tables, which
// are any part of the file.
func layTouching(r *rand.Rand, tables []fb.Table, gap func() int, more func(headOff int, size int) map[string][2]int) []byte {
	extra := map[string][2]int{}
	for tag := range more(1000, 2000) {
		extra[tag] = [2]int{}
	}
	n := len(tables) + len(extra)
	w := make([]byte, 12+16*n)
	off := map[string][2]int{}
	data := append([]fb.Table{}, tables...)
	r.Shuffle(len(data), func(i, j int) { data[i], data[j] = data[j], data[i] })
	headAt := 0
	for _, t := range data {
		for i := gap(); 0 < i; i-- {
			w = append(w, byte(1+r.Intn(255)))
		}
		if t.Tag == "head" {
			headAt = len(w)
		}
		off[t.Tag] = [2]int{len(w), len(t.Data)}
		w = append(w, t.Data...)
	}
	for i := gap(); 0 < i; i-- {
		w = append(w, byte(1+r.Intn(255)))
	}
	for tag, iv := range more(headAt, len(w)) {
		off[tag] = iv
	}
	var tags []string
	for t := range off {
		tags = append(tags, t)
	}
	sort.Strings(tags)
	e := 0
	for 2<<e <= n {
		e++
	}
	copy(w, []byte{0, 1, 0, 0, byte(n >> 8), byte(n), byte(16 << e >> 8), byte(16 << e), 0, byte(e), byte((16*n - 16<<e) >> 8), byte(16*n - 16<<e)})
	for i, t := range tags {
		p := 12 + 16*i
		copy(w[p:], t)
		binary.BigEndian.PutUint32(w[p+4:], r.Uint32())
		binary.BigEndian.PutUint32(w[p+8:], uint32(off[t][0]))
		binary.BigEndian.PutUint32(w[p+12:], uint32(off[t][1]))
	}
	return w
}

// intervals says where the additional tables lie, given the place of the head table and the size of the file.
func (pl *takenPlan) intervals(r *rand.Rand) func(int, int) map[string][2]int {
	h := pl.L[pl.H-1]
	u := 1 + r.Intn(5)
	tags := append([]string{}, opaque...)
	r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
	return func(head, size int) map[string][2]int {
		at := func(c int) int {
			switch {
			case c < h[0]:
				c = head - (h[0]-c)*u
			case c < h[0]+h[1]:
				c = head + 54*(c-h[0])/h[1]
			default:
				c = head + 54 + (c-h[0]-h[1])*u
			}
			if c < 0 {
				return 0
			} else if size < c {
				return size
			}
			return c
		}
		m, k := map[string][2]int{}, 0
		for i, l := range pl.L {
			if i+1 != pl.H && k < len(tags) {
				m[tags[k]] = [2]int{at(l[0]), at(l[0]+l[1]) - at(l[0])}
				k++
			}
		}
		return m
	}
}

func runTaken(c *ctx) {
	r := c.r
	kind := "tt"
	var pl takenPlan
	planned := c.plan(&pl)
	if !planned && r.Intn(4) == 0 {
		kind = "cff"
	}
	d := genFont(r, genOpts{kind: kind, n: 1 + r.Intn(8), names: r.Intn(3), kern: r.Intn(2) == 0, vert: r.Intn(3) == 0, multiCmap: r.Intn(4) == 0, noOS2: r.Intn(5) == 0, nl: r.Intn(2), ng: r.Intn(2), base: 65})
	var b []byte
	if kind == "cff" {
		b = d.Bytes()
	} else {
		var tables []fb.Table
		for _, t := range d.Tables() {
			drop := t.Tag == "cvt " || t.Tag == "fpgm" || t.Tag == "prep" || t.Tag == "hdmx" || (t.Tag == "vhea" && r.Intn(2) == 0) || (t.Tag == "name" && r.Intn(6) == 0)
			if !drop {
				tables = append(tables, t)
			}
			if t.Tag == "head" {
				tables[len(tables)-1].Data = append([]byte{}, t.Data...)
				r.Read(tables[len(tables)-1].Data[8:12])
			}
		}
		gaps := [][]int{{0}, {0, 0, 1, 2, 3}, {4}, {0, 5, 9}}[r.Intn(4)]
		more := func(head, size int) map[string][2]int { return nil }
		if planned {
			more = pl.intervals(r)
		} else {
			m := map[string][2]int{}
			for _, t := range opaque {
				if r.Intn(2) == 0 {
					m[t] = [2]int{r.Intn(200), r.Intn(40)}
				}
			}
			more = func(head, size int) map[string][2]int { return m }
		}
		b = layTouching(r, tables, func() int { return gaps[r.Intn(len(gaps))] }, more)
		if r.Intn(5) == 0 { // the first font of a collection
			pre := 16 + 4*r.Intn(3)
			t := make([]byte, pre, pre+len(b))
			copy(t, []byte{'t', 't', 'c', 'f', 0, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, byte(pre)})
			for i, n := 0, int(b[4])<<8|int(b[5]); i < n; i++ {
				p := 12 + 16*i + 8
				binary.BigEndian.PutUint32(b[p:], binary.BigEndian.Uint32(b[p:])+uint32(pre))
			}
			b = append(t, b...)
		}
	}
	p := d.Bytes()
	for i := r.Intn(3) * r.Intn(6); 0 < i; i-- {
		p = append(p, byte(r.Intn(256)))
	}
	c.takenBy(d, p, "sfnt", d.allRunes())
	if kind == "tt" {
		c.takenBy(d, b, "freetype", d.allRunes())
	}
}

func (d *FontDesc) allRunes() []int {
	var rs []int
	for x := range d.CMap {
		rs = append(rs, x, x+1)
	}
	sort.Ints(rs)
	return rs
}

func (c *ctx) takenBy(d *FontDesc, b []byte, lib string, runes []int) {
	// room behind the file that must stay as it is
	buf := make([]byte, len(b), len(b)+64)
	copy(buf, b)
	room := buf[len(buf):cap(buf)]
	for i := range room {
		room[i] = 0xA5
	}
	m := M{"op": lib, "b": []int{}, "out": []int{}, "same": true, "again": true, "panic": "", "err": "", "named": false, "how": "bytes"}
	var out []byte
	refused := false
	m["panic"] = guard(func() {
		if lib == "freetype" {
			var f *truetype.Font
			var err error
			if p := guard(func() { f, err = truetype.Parse(buf) }); p != "" || err != nil {
				refused = true
				c.Info["refused"] = fmt.Sprint(p, err)
				return
			}
			out = font.FromGoFreetype(f)
			m["again"] = bytes.Equal(out, font.FromGoFreetype(f))
		} else {
			var f *sfnt.Font
			var err error
			reader := c.r.Intn(2) == 0
			if p := guard(func() {
				if reader {
					m["how"] = "reader"
					f, err = sfnt.ParseReaderAt(bytes.NewReader(buf))
				} else {
					f, err = sfnt.Parse(buf)
				}
			}); p != "" || err != nil {
				refused = true
				c.Info["refused"] = fmt.Sprint(p, err)
				return
			}
			out = font.FromGoSFNT(f)
			m["again"] = bytes.Equal(out, font.FromGoSFNT(f))
		}
	})
	if refused {
		return
	}
	m["same"] = bytes.Equal(buf, b) && bytes.Count(room, []byte{0xA5}) == len(room)
	if lib == "sfnt" {
		m["b"], m["out"] = ints(b), ints(out)
		read := func(b []byte) (e string) {
			if p := guard(func() {
				_, err := font.ParseSFNT(append([]byte{}, b...), 0)
				e = errStr(err)
			}); p != "" {
				e = "panic: " + p
			}
			return
		}
		m["err0"], m["err"] = read(b), read(out)
	} else {
		m["b"], m["out"] = ints(b), ints(out)
		s0, err0 := font.ParseSFNT(d.Bytes(), 0)
		if err0 == nil {
			m["f"] = project(s0, probe{runes: runes})
		}
		var s *font.SFNT
		if p := guard(func() {
			var err error
			s, err = font.ParseSFNT(append([]byte{}, out...), 0)
			m["err"] = errStr(err)
		}); p != "" {
			m["err"] = "panic: " + p
		}
		if m["err"] == "" && err0 == nil {
			m["g"] = project(s, probe{runes: runes})
		} else if err0 == nil && m["err"] != "" {
			m["g"] = m["f"]
		} else {
			c.Info["source"] = errStr(err0)
			return
		}
	}
	c.ev(m)
}
