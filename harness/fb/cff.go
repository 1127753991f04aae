package fb

import "strconv"

// Index encodes a CFF INDEX. offSize 0 picks the smallest.
func Index(items [][]byte, offSize int) []byte {
	w := &W{}
	w.U16(len(items))
	if len(items) == 0 {
		return w.B
	}
	n := 1
	for _, it := range items {
		n += len(it)
	}
	need := 1
	for v := n; 255 < v; v >>= 8 {
		need++
	}
	if offSize < need {
		offSize = need
	}
	w.U8(offSize)
	put := func(v int) {
		for k := offSize - 1; 0 <= k; k-- {
			w.U8(v >> (8 * k))
		}
	}
	o := 1
	put(o)
	for _, it := range items {
		o += len(it)
		put(o)
	}
	for _, it := range items {
		w.Raw(it)
	}
	return w.B
}

// DictInt encodes an integer operand; wide forces the 5-byte form.
func DictInt(v int, wide bool) []byte {
	w := &W{}
	switch {
	case wide || v < -32768 || 32767 < v:
		w.U8(29)
		w.U32(uint32(int32(v)))
	case -107 <= v && v <= 107:
		w.U8(v + 139)
	case 108 <= v && v <= 1131:
		v -= 108
		w.U8(247 + v>>8)
		w.U8(v)
	case -1131 <= v && v <= -108:
		v = -v - 108
		w.U8(251 + v>>8)
		w.U8(v)
	default:
		w.U8(28)
		w.U16(v)
	}
	return w.B
}

// DictReal encodes a real operand from its decimal text.
func DictReal(s string) []byte {
	var nib []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case '0' <= c && c <= '9':
			nib = append(nib, c-'0')
		case c == '.':
			nib = append(nib, 0xa)
		case c == '-':
			nib = append(nib, 0xe)
		case c == 'E' && i+1 < len(s) && s[i+1] == '-':
			nib = append(nib, 0xc)
			i++
		case c == 'E':
			nib = append(nib, 0xb)
		}
	}
	nib = append(nib, 0xf)
	if len(nib)%2 == 1 {
		nib = append(nib, 0xf)
	}
	b := []byte{30}
	for i := 0; i < len(nib); i += 2 {
		b = append(b, nib[i]<<4|nib[i+1])
	}
	return b
}

// CSNum encodes an integer charstring operand.
func CSNum(v int) []byte {
	w := &W{}
	switch {
	case -107 <= v && v <= 107:
		w.U8(v + 139)
	case 108 <= v && v <= 1131:
		v -= 108
		w.U8(247 + v>>8)
		w.U8(v)
	case -1131 <= v && v <= -108:
		v = -v - 108
		w.U8(251 + v>>8)
		w.U8(v)
	default:
		w.U8(28)
		w.U16(v)
	}
	return w.B
}

// CFF describes a CFF font.
type CFF struct {
	Name        string
	CharStrings [][]byte
	GSubrs      [][]byte
	LSubrs      [][][]byte // per font dictionary
	FD          []int      // font dictionary of each glyph; nil: not CID keyed
	FDFmt       int        // 0 or 3
	Names       []string   // nil: predefined ISOAdobe charset
	CharsetFmt  int        // 0, 1, 2
	CIDs        []int      // for CID fonts, identifiers of glyphs 1..n-1
	TopExtra    []byte     // operands and operators placed in the top dictionary
	PrivExtra   []byte
	PrivExtras  [][]byte // per font dictionary, instead of PrivExtra
	Strings     []string // extra strings, SIDs follow 391
	OffSize     int      // for INDEXes (0 smallest)
	StdStrings  map[string]int
}

// Bytes encodes the CFF table.
func (c *CFF) Bytes() []byte {
	strs := append([]string{}, c.Strings...)
	sid := map[string]int{}
	for i, s := range strs {
		if _, ok := sid[s]; !ok {
			sid[s] = 391 + i
		}
	}
	getSID := func(s string) int {
		if v, ok := c.StdStrings[s]; ok {
			return v
		}
		if v, ok := sid[s]; ok {
			return v
		}
		strs = append(strs, s)
		sid[s] = 390 + len(strs)
		return sid[s]
	}
	n := len(c.CharStrings)
	cid := c.FD != nil

	var sids []int
	cs := &W{}
	if cid || c.Names != nil {
		for i := 1; i < n; i++ {
			if cid {
				if c.CIDs != nil {
					sids = append(sids, c.CIDs[i-1])
				} else {
					sids = append(sids, i)
				}
			} else {
				sids = append(sids, getSID(c.Names[i]))
			}
		}
		cs.U8(c.CharsetFmt)
		if c.CharsetFmt == 0 {
			for _, s := range sids {
				cs.U16(s)
			}
		} else {
			for i := 0; i < len(sids); {
				j := i + 1
				for j < len(sids) && sids[j] == sids[j-1]+1 && (c.CharsetFmt == 2 || j-i < 256) {
					j++
				}
				cs.U16(sids[i])
				if c.CharsetFmt == 1 {
					cs.U8(j - i - 1)
				} else {
					cs.U16(j - i - 1)
				}
				i = j
			}
		}
	}
	ros := []int{}
	if cid {
		ros = []int{getSID("Adobe"), getSID("Identity"), 0}
	}
	fdName := getSIDIf(cid, getSID)

	nameIdx := Index([][]byte{[]byte(c.Name)}, 0)
	strItems := make([][]byte, len(strs))
	for i, s := range strs {
		strItems[i] = []byte(s)
	}
	strIdx := Index(strItems, c.OffSize)
	gIdx := Index(c.GSubrs, c.OffSize)
	csIdx := Index(c.CharStrings, c.OffSize)

	op := func(w *W, opc int, vs ...int) {
		for _, v := range vs {
			w.Raw(DictInt(v, true))
		}
		if opc >= 256 {
			w.U8(12)
			w.U8(opc - 256)
		} else {
			w.U8(opc)
		}
	}
	nfd := 1
	if cid {
		nfd = len(c.LSubrs)
		if nfd == 0 {
			nfd = 1
		}
	}
	priv := func(i int) []byte {
		w := &W{}
		x := c.PrivExtra
		if i < len(c.PrivExtras) {
			x = c.PrivExtras[i]
		}
		w.Raw(x)
		if i < len(c.LSubrs) && 0 < len(c.LSubrs[i]) {
			op(w, 19, len(x)+6)
		}
		return w.B
	}
	locals := func(i int) []byte {
		if i < len(c.LSubrs) && 0 < len(c.LSubrs[i]) {
			return Index(c.LSubrs[i], c.OffSize)
		}
		return nil
	}
	fdsel := &W{}
	if cid {
		fdsel.U8(c.FDFmt)
		if c.FDFmt == 0 {
			for _, f := range c.FD {
				fdsel.U8(f)
			}
		} else {
			k := &W{}
			nr := 0
			for i := 0; i < n; i++ {
				if i == 0 || c.FD[i] != c.FD[i-1] {
					k.U16(i)
					k.U8(c.FD[i])
					nr++
				}
			}
			fdsel.U16(nr)
			fdsel.Raw(k.B)
			fdsel.U16(n)
		}
	}
	var out []byte
	// two passes: offsets have a fixed width, so the second is final
	offCharset, offFDSel, offCS, offFDA := 0, 0, 0, 0
	offPriv := make([]int, nfd)
	for pass := 0; pass < 2; pass++ {
		top := &W{}
		if cid {
			op(top, 256+30, ros...)
		}
		top.Raw(c.TopExtra)
		if cs.Len() > 0 {
			op(top, 15, offCharset)
		}
		op(top, 17, offCS)
		if cid {
			op(top, 256+34, n)
			op(top, 256+36, offFDA)
			op(top, 256+37, offFDSel)
		} else {
			op(top, 18, len(priv(0)), offPriv[0])
		}
		w := &W{}
		w.Raw([]byte{1, 0, 4, 4})
		w.Raw(nameIdx)
		w.Raw(Index([][]byte{top.B}, 0))
		w.Raw(strIdx)
		w.Raw(gIdx)
		offCharset = w.Len()
		w.Raw(cs.B)
		offFDSel = w.Len()
		w.Raw(fdsel.B)
		offCS = w.Len()
		w.Raw(csIdx)
		for i := 0; i < nfd; i++ {
			offPriv[i] = w.Len()
			w.Raw(priv(i))
			w.Raw(locals(i))
		}
		if cid {
			offFDA = w.Len()
			var dicts [][]byte
			for i := 0; i < nfd; i++ {
				d := &W{}
				op(d, 256+38, fdName)
				op(d, 18, len(priv(i)), offPriv[i])
				dicts = append(dicts, d.B)
			}
			w.Raw(Index(dicts, 0))
		}
		out = w.B
	}
	return out
}

func getSIDIf(b bool, f func(string) int) int {
	if b {
		return f("FD" + strconv.Itoa(0))
	}
	return 0
}
