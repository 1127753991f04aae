// Package fb synthesises font files. It is written from the format specifications and shares no
// code with the repository under test, so that it can serve as an independent encoder.
package fb

import (
	"encoding/binary"
	"sort"
)

// W is a big-endian byte writer.
type W struct{ B []byte }

func (w *W) U8(v int)              { w.B = append(w.B, byte(v)) }
func (w *W) U16(v int)             { w.B = binary.BigEndian.AppendUint16(w.B, uint16(v)) }
func (w *W) U24(v int)             { w.B = append(w.B, byte(v>>16), byte(v>>8), byte(v)) }
func (w *W) U32(v uint32)          { w.B = binary.BigEndian.AppendUint32(w.B, v) }
func (w *W) U64(v uint64)          { w.B = binary.BigEndian.AppendUint64(w.B, v) }
func (w *W) Raw(b []byte)          { w.B = append(w.B, b...) }
func (w *W) Str(s string)          { w.B = append(w.B, s...) }
func (w *W) Zero(n int)            { w.B = append(w.B, make([]byte, n)...) }
func (w *W) Len() int              { return len(w.B) }
func (w *W) Pad4()                 { w.Zero((4 - len(w.B)&3) & 3) }
func (w *W) Put16(p, v int)        { binary.BigEndian.PutUint16(w.B[p:], uint16(v)) }
func (w *W) Put32(p int, v uint32) { binary.BigEndian.PutUint32(w.B[p:], v) }

// Table is one sfnt table.
type Table struct {
	Tag  string
	Data []byte
}

// Sum is the sfnt checksum of zero-padded data.
func Sum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var v uint32
		for j := 0; j < 4; j++ {
			v <<= 8
			if i+j < len(b) {
				v |= uint32(b[i+j])
			}
		}
		s += v
	}
	return s
}

// Layout says how the tables are laid out in the file. Zero value: directory and data in the given order.
type Layout struct {
	DataOrder []int  // permutation of the tables for their data
	Gap       []int  // extra zero words before each table's data (by table index)
	NoPadLast bool   // leave the last table unpadded
	BadSums   bool   // write zero checksums
	Base      uint32 // offset of the font in a collection
	Tail      int    // extra bytes after the end
}

// SFNT writes a font file with the tables in the given directory order.
func SFNT(version uint32, tables []Table, lay Layout) []byte {
	n := len(tables)
	w := &W{}
	w.U32(version)
	es := 0
	for 1<<(es+1) <= n {
		es++
	}
	sr := 0
	if n > 0 {
		sr = 16 << es
	}
	w.U16(n)
	w.U16(sr)
	w.U16(es)
	w.U16(16*n - sr)
	dir := w.Len()
	w.Zero(16 * n)
	order := lay.DataOrder
	if order == nil {
		for i := range tables {
			order = append(order, i)
		}
	}
	headPos := -1
	for k, i := range order {
		if i < len(lay.Gap) {
			w.Zero(4 * lay.Gap[i])
		}
		off := w.Len()
		data := tables[i].Data
		if tables[i].Tag == "head" && len(data) >= 12 {
			data = append([]byte{}, data...)
			copy(data[8:12], []byte{0, 0, 0, 0})
			headPos = off
		}
		w.Raw(data)
		if !(lay.NoPadLast && k == n-1) {
			w.Pad4()
		}
		p := dir + 16*i
		copy(w.B[p:p+4], tables[i].Tag)
		if !lay.BadSums {
			w.Put32(p+4, Sum(data))
		}
		w.Put32(p+8, lay.Base+uint32(off))
		w.Put32(p+12, uint32(len(data)))
	}
	if headPos >= 0 && !lay.BadSums {
		w.Put32(headPos+8, 0xB1B0AFBA-Sum(w.B))
	}
	w.Zero(lay.Tail)
	return w.B
}

// TTC writes a collection of fonts. Tables with shared[i] are stored once if identical bytes occur.
func TTC(versions []uint32, fonts [][]Table, major int) []byte {
	w := &W{}
	w.Str("ttcf")
	w.U16(major)
	w.U16(0)
	w.U32(uint32(len(fonts)))
	offs := w.Len()
	w.Zero(4 * len(fonts))
	if major == 2 {
		w.Zero(12)
	}
	for i, tables := range fonts {
		w.Pad4()
		base := uint32(w.Len())
		w.Put32(offs+4*i, base)
		w.Raw(SFNT(versions[i], tables, Layout{Base: base}))
	}
	return w.B
}

// SortTables sorts tables by tag.
func SortTables(t []Table) []Table {
	sort.SliceStable(t, func(i, j int) bool { return t[i].Tag < t[j].Tag })
	return t
}

// Get returns a table's data.
func Get(t []Table, tag string) []byte {
	for _, x := range t {
		if x.Tag == tag {
			return x.Data
		}
	}
	return nil
}

// Set replaces or adds a table.
func Set(t []Table, tag string, data []byte) []Table {
	for i := range t {
		if t[i].Tag == tag {
			t[i].Data = data
			return t
		}
	}
	return append(t, Table{tag, data})
}
