package fb

import (
	"sort"
	"unicode/utf16"
)

// Seg4 is a format 4 segment: if Arr is nil the delta applies, else the glyph array (and delta).
type Seg4 struct {
	Start, End, Delta int
	Arr               []int
}

// Grp is a format 12 group.
type Grp struct{ Start, End, Gid int }

// Cmap is one character map subtable.
type Cmap struct {
	Plat, Enc int
	Fmt       int
	Arr       []int // formats 0 and 6
	First     int   // format 6
	Segs      []Seg4
	Grps      []Grp
	Same      int // 1+index of an earlier subtable to share
}

func (c *Cmap) Bytes() []byte {
	w := &W{}
	switch c.Fmt {
	case 0:
		w.U16(0)
		w.U16(262)
		w.U16(0)
		for i := 0; i < 256; i++ {
			if i < len(c.Arr) {
				w.U8(c.Arr[i])
			} else {
				w.U8(0)
			}
		}
	case 4:
		n := len(c.Segs)
		w.U16(4)
		w.U16(0)
		w.U16(0)
		w.U16(2 * n)
		es := 0
		for 1<<(es+1) <= n {
			es++
		}
		w.U16(2 << es)
		w.U16(es)
		w.U16(2*n - 2<<es)
		for _, s := range c.Segs {
			w.U16(s.End)
		}
		w.U16(0)
		for _, s := range c.Segs {
			w.U16(s.Start)
		}
		for _, s := range c.Segs {
			w.U16(s.Delta)
		}
		k := 0
		for i, s := range c.Segs {
			if s.Arr == nil {
				w.U16(0)
			} else {
				w.U16(2 * (n - i + k))
				k += len(s.Arr)
			}
		}
		for _, s := range c.Segs {
			for _, g := range s.Arr {
				w.U16(g)
			}
		}
		w.Put16(2, w.Len())
	case 6:
		w.U16(6)
		w.U16(10 + 2*len(c.Arr))
		w.U16(0)
		w.U16(c.First)
		w.U16(len(c.Arr))
		for _, g := range c.Arr {
			w.U16(g)
		}
	case 12:
		w.U16(12)
		w.U16(0)
		w.U32(uint32(16 + 12*len(c.Grps)))
		w.U32(0)
		w.U32(uint32(len(c.Grps)))
		for _, g := range c.Grps {
			w.U32(uint32(g.Start))
			w.U32(uint32(g.End))
			w.U32(uint32(g.Gid))
		}
	}
	return w.B
}

// CmapTable encodes a cmap table with the given subtables in order.
func CmapTable(subs []Cmap) []byte {
	w := &W{}
	w.U16(0)
	w.U16(len(subs))
	pos := w.Len()
	w.Zero(8 * len(subs))
	offs := make([]int, len(subs))
	for i := range subs {
		s := &subs[i]
		if 0 < s.Same {
			offs[i] = offs[s.Same-1]
		} else {
			offs[i] = w.Len()
			w.Raw(s.Bytes())
		}
		w.Put16(pos+8*i, s.Plat)
		w.Put16(pos+8*i+2, s.Enc)
		w.Put32(pos+8*i+4, uint32(offs[i]))
	}
	return w.B
}

// KernSub is one kern subtable (format 0 unless Format is set).
type KernSub struct {
	Cov   int // coverage bits (low byte)
	Pairs [][3]int
	Ver   int
	Fmt   int
	Raw   []byte // payload for other formats
}

// KernTable encodes a version 0 kern table (or the version 1 header with apple=true and version 0 style subtables).
func KernTable(subs []KernSub) []byte {
	w := &W{}
	w.U16(0)
	w.U16(len(subs))
	for _, s := range subs {
		w.U16(s.Ver)
		if s.Raw != nil || s.Fmt != 0 || s.Ver != 0 {
			w.U16(6 + len(s.Raw))
			w.U8(s.Fmt)
			w.U8(s.Cov)
			w.Raw(s.Raw)
			continue
		}
		n := len(s.Pairs)
		w.U16(14 + 6*n)
		w.U8(0)
		w.U8(s.Cov)
		es, sr := 0, 0
		if n > 0 {
			for 1<<(es+1) <= n {
				es++
			}
			sr = 6 << es
		}
		w.U16(n)
		w.U16(sr)
		w.U16(es)
		w.U16(6*n - sr)
		for _, p := range s.Pairs {
			w.U16(p[0])
			w.U16(p[1])
			w.U16(p[2])
		}
	}
	return w.B
}

// PostTable encodes a post table; version 1, 2 or 3. head are the 28 bytes after the version.
func PostTable(version int, head []byte, index []int, strs []string) []byte {
	w := &W{}
	w.U32(uint32(version) << 16)
	if head == nil {
		head = make([]byte, 28)
	}
	w.Raw(head[:28])
	if version == 2 {
		w.U16(len(index))
		for _, i := range index {
			w.U16(i)
		}
		for _, s := range strs {
			w.U8(len(s))
			w.Str(s)
		}
	}
	return w.B
}

// NameRec is one name record with raw value bytes.
type NameRec struct {
	Plat, Enc, Lang, ID int
	Val                 []byte
}

// U16BE encodes a string as UTF-16BE.
func U16BE(s string) []byte {
	w := &W{}
	for _, u := range utf16.Encode([]rune(s)) {
		w.U16(int(u))
	}
	return w.B
}

// NameTable encodes a name table; version 1 when langTags is not nil.
func NameTable(recs []NameRec, langTags [][]byte) []byte {
	w := &W{}
	hdr := 6 + 12*len(recs)
	if langTags == nil {
		w.U16(0)
	} else {
		w.U16(1)
		hdr += 2 + 4*len(langTags)
	}
	w.U16(len(recs))
	w.U16(hdr)
	data := &W{}
	for _, r := range recs {
		w.U16(r.Plat)
		w.U16(r.Enc)
		w.U16(r.Lang)
		w.U16(r.ID)
		w.U16(len(r.Val))
		w.U16(data.Len())
		data.Raw(r.Val)
	}
	if langTags != nil {
		w.U16(len(langTags))
		for _, t := range langTags {
			w.U16(len(t))
			w.U16(data.Len())
			data.Raw(t)
		}
	}
	w.Raw(data.B)
	return w.B
}

// Head encodes a head table.
func Head(upem, locFormat int, box [4]int) []byte {
	w := &W{}
	w.U16(1)
	w.U16(0)
	w.U32(0x00010000)
	w.U32(0)
	w.U32(0x5F0F3CF5)
	w.U16(0x000B)
	w.U16(upem)
	w.U64(3000000000)
	w.U64(3100000000)
	for _, v := range box {
		w.U16(v)
	}
	w.U16(0)
	w.U16(8)
	w.U16(2)
	w.U16(locFormat)
	w.U16(0)
	return w.B
}

// Hhea encodes an hhea (or vhea) table.
func Hhea(asc, desc, gap, advMax, n int) []byte {
	w := &W{}
	w.U16(1)
	w.U16(0)
	w.U16(asc)
	w.U16(desc)
	w.U16(gap)
	w.U16(advMax)
	w.Zero(6)
	w.U16(1)
	w.Zero(14)
	w.U16(n)
	return w.B
}

// Mtx encodes hmtx or vmtx with n long metrics.
func Mtx(adv, bear []int, n int) []byte {
	w := &W{}
	for i := range adv {
		if i < n {
			w.U16(adv[i])
		}
		w.U16(bear[i])
	}
	return w.B
}

// Maxp encodes a maxp table.
func Maxp(tt bool, n int, rest []int) []byte {
	w := &W{}
	if !tt {
		w.U32(0x00005000)
		w.U16(n)
		return w.B
	}
	w.U32(0x00010000)
	w.U16(n)
	for i := 0; i < 13; i++ {
		if i < len(rest) {
			w.U16(rest[i])
		} else {
			w.U16(1 + i)
		}
	}
	return w.B
}

// OS2 fields used by tests.
type OS2 struct {
	Version                int
	FsSelection            int
	TypoAsc, TypoDesc, Gap int
	WinAsc, WinDesc        int
	Weight, Width          int
	Ranges                 [4]uint32
	XHeight, CapHeight     int
	FirstChar, LastChar    int
}

// Bytes encodes an OS/2 table.
func (o OS2) Bytes() []byte {
	w := &W{}
	w.U16(o.Version)
	w.U16(500)
	w.U16(o.Weight)
	w.U16(o.Width)
	w.U16(0)
	for i := 0; i < 10; i++ {
		w.U16(10 * (i + 1))
	}
	w.U16(0)
	w.Zero(10)
	for _, r := range o.Ranges {
		w.U32(r)
	}
	w.Str("VRIF")
	w.U16(o.FsSelection)
	w.U16(o.FirstChar)
	w.U16(o.LastChar)
	w.U16(o.TypoAsc)
	w.U16(o.TypoDesc)
	w.U16(o.Gap)
	w.U16(o.WinAsc)
	w.U16(o.WinDesc)
	if 1 <= o.Version {
		w.U32(1)
		w.U32(2)
	}
	if 2 <= o.Version {
		w.U16(o.XHeight)
		w.U16(o.CapHeight)
		w.U16(0)
		w.U16(32)
		w.U16(3)
	}
	if 5 <= o.Version {
		w.U16(0)
		w.U16(0xFFFE)
	}
	return w.B
}

// AutoCmap4 builds a format 4 subtable for a mapping; pick(i) decides for a run of consecutive
// characters with a common delta whether to use the glyph array all the same.
func AutoCmap4(m map[int]int, pick func(i int) bool) []Seg4 {
	rs := make([]int, 0, len(m))
	for r := range m {
		if r < 0xFFFF {
			rs = append(rs, r)
		}
	}
	sort.Ints(rs)
	var segs []Seg4
	for i := 0; i < len(rs); {
		j := i + 1
		same := true
		for j < len(rs) && rs[j] == rs[j-1]+1 {
			if m[rs[j]]-rs[j] != m[rs[i]]-rs[i] {
				same = false
			}
			j++
		}
		if same && !pick(len(segs)) {
			segs = append(segs, Seg4{rs[i], rs[j-1], (m[rs[i]] - rs[i]) & 0xFFFF, nil})
		} else {
			s := Seg4{Start: rs[i], End: rs[j-1]}
			for k := i; k < j; k++ {
				s.Arr = append(s.Arr, m[rs[k]])
			}
			segs = append(segs, s)
		}
		i = j
	}
	return append(segs, Seg4{0xFFFF, 0xFFFF, 1, nil})
}

// AutoCmap12 builds format 12 groups for a mapping.
func AutoCmap12(m map[int]int) []Grp {
	rs := make([]int, 0, len(m))
	for r := range m {
		rs = append(rs, r)
	}
	sort.Ints(rs)
	var g []Grp
	for _, r := range rs {
		if n := len(g); 0 < n && g[n-1].End+1 == r && g[n-1].Gid+(r-g[n-1].Start) == m[r] {
			g[n-1].End = r
		} else {
			g = append(g, Grp{r, r, m[r]})
		}
	}
	return g
}
