package ttfx

import "sort"

// Spec describes a synthetic font.
type Spec struct {
	UPM      int
	Glyphs   []GSpec // glyph 0 is .notdef
	Map      map[rune]int
	NHM      int // number of long metrics (0 = all)
	LongLoca bool
	// cmap layout: "delta" one segment per run with idDelta; "range" segments
	// with idRangeOffset and glyph array; "mixed" alternates
	CmapStyle string
	NoFmt12   bool
	ExtraEnc  bool // extra encoding records before/after 3,1
	Kern      map[[2]int]int
	TypoAsc   int
	TypoDesc  int
	UPos      int
	UThk      int
	OS2V      int
	NoHint    bool // leave out cvt/fpgm/prep
	Unpadded  bool // last table not padded to 4 bytes
	Name      string
	Italic    int
	HAsc      int
	HDesc     int
	TypoZero  bool
	KernSplit bool // two kern subtables
	FSType    int  // embedding licence bits
	Bold      bool
	Fixed     bool
	PSPlain   bool // PostScript name in single bytes (platform 1)
	Pad       int  // glyphs start at multiples of this (default 4; 1 needs LongLoca)
}

type GSpec struct {
	Adv    int
	Comps  []CompSpec // composite when non-empty
	Empty  bool
	Seed   int // shape seed for simple glyphs
	Points int // number of points of a simple glyph, 0: a few
}
type CompSpec struct {
	GID   int
	Words bool // 16-bit args
	Flags int  // further flags
	Scale int  // 0 none, 1 scale, 2 xy, 3 2x2
}

type wr struct{ b []byte }

func (w *wr) u8(v int)  { w.b = append(w.b, byte(v)) }
func (w *wr) u16(v int) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *wr) u32(v int) { w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }

func simpleGlyph(seed, pad, n int) []byte {
	var w wr
	if n == 0 {
		n = 3 + seed%3
	}
	w.u16(1) // contours
	w.u16(0)
	w.u16(0)
	w.u16(500 + seed)
	w.u16(700)
	w.u16(n - 1)
	w.u16(0) // instructions
	for i := 0; i < n; i++ {
		w.u8(1)
	}
	for i := 0; i < n; i++ {
		w.u16(10*i + seed)
	}
	for i := 0; i < n; i++ {
		w.u16(7*i*(1-2*(i&1)) + seed)
	}
	for len(w.b)%pad != 0 {
		w.u8(0)
	}
	return w.b
}

func compGlyph(cs []CompSpec, pad int) []byte {
	var w wr
	w.u16(0xFFFF)
	w.u16(0)
	w.u16(0)
	w.u16(500)
	w.u16(700)
	for i, c := range cs {
		fl := 2 | c.Flags&^0x100
		if c.Words {
			fl |= 1
		}
		switch c.Scale {
		case 1:
			fl |= 8
		case 2:
			fl |= 0x40
		case 3:
			fl |= 0x80
		}
		if i+1 < len(cs) {
			fl |= 0x20
		} else {
			fl |= c.Flags & 0x100
		}
		w.u16(fl)
		w.u16(c.GID)
		if c.Words {
			w.u16(30 * i)
			w.u16(20 * i)
		} else {
			w.u8(30 + i)
			w.u8(20 + i)
		}
		for k := 0; k < []int{0, 1, 2, 4}[c.Scale]; k++ {
			w.u16(0x2000 + k)
		}
	}
	if len(cs) > 0 && cs[len(cs)-1].Flags&0x100 != 0 { // instructions follow the last component
		w.u16(2)
		w.u8(0xB0)
		w.u8(0x21)
	}
	for len(w.b)%pad != 0 {
		w.u8(0)
	}
	return w.b
}

// Build serialises the font.
func Build(s Spec) []byte {
	if s.Pad == 0 {
		s.Pad = 4
	}
	if s.UPM == 0 {
		s.UPM = 1000
	}
	if s.NHM == 0 {
		s.NHM = len(s.Glyphs)
	}
	if s.TypoAsc == 0 && !s.TypoZero {
		s.TypoAsc = 800 * s.UPM / 1000
	}
	if s.TypoDesc == 0 && !s.TypoZero {
		s.TypoDesc = -200 * s.UPM / 1000
	}
	if s.UThk == 0 {
		s.UThk = 50
	}
	if s.UPos == 0 {
		s.UPos = -100
	}
	if s.Name == "" {
		s.Name = "Synth"
	}
	if s.HAsc == 0 {
		s.HAsc = 900
	}
	if s.HDesc == 0 {
		s.HDesc = -250
	}
	t := map[string][]byte{}
	// glyf/loca
	var glyf []byte
	var loca []int
	for _, g := range s.Glyphs {
		loca = append(loca, len(glyf))
		switch {
		case g.Empty:
		case len(g.Comps) > 0:
			glyf = append(glyf, compGlyph(g.Comps, s.Pad)...)
		default:
			glyf = append(glyf, simpleGlyph(g.Seed, s.Pad, g.Points)...)
		}
	}
	loca = append(loca, len(glyf))
	t["glyf"] = glyf
	var lw wr
	for _, v := range loca {
		if s.LongLoca {
			lw.u32(v)
		} else {
			lw.u16(v / 2)
		}
	}
	t["loca"] = lw.b
	// head
	var h wr
	h.u32(0x00010000)
	h.u32(0x00010000)
	h.u32(0)
	h.u32(0x5F0F3CF5)
	h.u16(0)
	h.u16(s.UPM)
	for i := 0; i < 4; i++ {
		h.u32(0)
	}
	h.u16(-30)
	h.u16(-210)
	h.u16(1010)
	h.u16(930)
	h.u16(0)
	h.u16(8)
	h.u16(2)
	if s.LongLoca {
		h.u16(1)
	} else {
		h.u16(0)
	}
	h.u16(0)
	t["head"] = h.b
	var hh wr
	hh.u32(0x00010000)
	hh.u16(s.HAsc)
	hh.u16(s.HDesc)
	for i := 0; i < 13; i++ {
		hh.u16(0)
	}
	hh.u16(s.NHM)
	t["hhea"] = hh.b
	var mp wr
	mp.u32(0x00010000)
	mp.u16(len(s.Glyphs))
	for i := 0; i < 13; i++ {
		mp.u16(1)
	}
	t["maxp"] = mp.b
	var hm wr
	for i, g := range s.Glyphs {
		if i < s.NHM {
			hm.u16(g.Adv)
			hm.u16(i)
		} else {
			hm.u16(i)
		}
	}
	t["hmtx"] = hm.b
	t["cmap"] = buildCmap(s)
	// name
	var nm wr
	nm.u16(0)
	nm.u16(2)
	nm.u16(6 + 24)
	ps := []byte(s.Name)
	nm.u16(3)
	nm.u16(1)
	nm.u16(0x409)
	nm.u16(1)
	nm.u16(2 * len(ps))
	nm.u16(0)
	if s.PSPlain {
		nm.u16(1)
		nm.u16(0)
		nm.u16(0)
		nm.u16(6)
		nm.u16(len(ps))
		nm.u16(2 * len(ps))
	} else {
		nm.u16(3)
		nm.u16(1)
		nm.u16(0x409)
		nm.u16(6)
		nm.u16(2 * len(ps))
		nm.u16(0)
	}
	for _, c := range ps {
		nm.u8(0)
		nm.u8(int(c))
	}
	if s.PSPlain {
		nm.b = append(nm.b, ps...)
	}
	t["name"] = nm.b
	var o wr
	if s.OS2V == 0 {
		s.OS2V = 2
	}
	if s.OS2V < 0 {
		s.OS2V = 0
	}
	o.u16(s.OS2V)
	for len(o.b) < 68 {
		o.u16(0)
	}
	o.b[8], o.b[9] = byte(s.FSType>>8), byte(s.FSType)
	if s.Bold {
		o.b[63] |= 32
	}
	o.u16(s.TypoAsc)
	o.u16(s.TypoDesc)
	o.u16(90)
	o.u16(s.TypoAsc + 20)
	o.u16(-s.TypoDesc + 10)
	if s.OS2V >= 1 {
		o.u32(0)
		o.u32(0)
	}
	if s.OS2V >= 2 {
		o.u16(480)
		o.u16(690)
		o.u16(0)
		o.u16(0)
		o.u16(0)
	}
	t["OS/2"] = o.b
	var p wr
	p.u32(0x00030000)
	p.u16(s.Italic)
	p.u16(0)
	p.u16(s.UPos)
	p.u16(s.UThk)
	if s.Fixed {
		p.u32(1)
	} else {
		p.u32(0)
	}
	for i := 0; i < 4; i++ {
		p.u32(0)
	}
	t["post"] = p.b
	if !s.NoHint {
		t["cvt "] = []byte{0, 10, 0, 20, 0, 30}
		t["fpgm"] = []byte{0xB0, 0x01, 0x2C, 0x2D, 0x21}
		t["prep"] = []byte{0xB0, 0x02, 0x21}
	}
	if s.Kern != nil {
		var keys [][2]int
		for k := range s.Kern {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
		})
		var k wr
		sub := func(ks [][2]int) {
			k.u16(0)
			k.u16(14 + 6*len(ks))
			k.u16(1)
			k.u16(len(ks))
			k.u16(0)
			k.u16(0)
			k.u16(0)
			for _, kk := range ks {
				k.u16(kk[0])
				k.u16(kk[1])
				k.u16(s.Kern[kk])
			}
		}
		k.u16(0)
		if s.KernSplit && len(keys) > 1 {
			k.u16(2)
			sub(keys[:len(keys)/2])
			sub(keys[len(keys)/2:])
		} else {
			k.u16(1)
			sub(keys)
		}
		t["kern"] = k.b
	}
	var tags []string
	for k := range t {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	// physical order: put an odd-length table last when Unpadded is asked for
	phys := append([]string{}, tags...)
	if s.Unpadded {
		for i, g := range phys {
			if g == "prep" || (s.NoHint && g == "hmtx") {
				phys = append(append(phys[:i:i], phys[i+1:]...), g)
				break
			}
		}
	}
	var w wr
	w.u32(0x00010000)
	w.u16(len(tags))
	w.u16(0)
	w.u16(0)
	w.u16(0)
	off := map[string]int{}
	pos := 12 + 16*len(tags)
	for _, g := range phys {
		off[g] = pos
		pos += (len(t[g]) + 3) &^ 3
	}
	for _, g := range tags {
		w.b = append(w.b, g...)
		w.u32(int(Sum(t[g])))
		w.u32(off[g])
		w.u32(len(t[g]))
	}
	for i, g := range phys {
		w.b = append(w.b, t[g]...)
		if s.Unpadded && i == len(phys)-1 {
			break
		}
		for len(w.b)%4 != 0 {
			w.u8(0)
		}
	}
	return w.b
}

func buildCmap(s Spec) []byte {
	var bmp, sup []rune
	for r := range s.Map {
		if r <= 0xFFFE {
			bmp = append(bmp, r)
		} else {
			sup = append(sup, r)
		}
	}
	sort.Slice(bmp, func(i, j int) bool { return bmp[i] < bmp[j] })
	sort.Slice(sup, func(i, j int) bool { return sup[i] < sup[j] })
	type seg struct {
		a, z  int
		gids  []int
		delta int
		array bool
	}
	var segs []seg
	for i := 0; i < len(bmp); {
		j := i + 1
		contiguous := func(j int) bool { return j < len(bmp) && bmp[j] == bmp[j-1]+1 }
		linear := true
		for contiguous(j) {
			nl := s.Map[bmp[j]] == s.Map[bmp[j-1]]+1
			if s.CmapStyle == "delta" || s.CmapStyle == "" {
				if !nl {
					break
				}
			}
			linear = linear && nl
			j++
		}
		sg := seg{a: int(bmp[i]), z: int(bmp[j-1])}
		for k := i; k < j; k++ {
			sg.gids = append(sg.gids, s.Map[bmp[k]])
		}
		switch s.CmapStyle {
		case "range":
			sg.array = true
		case "mixed":
			sg.array = !linear || len(segs)%2 == 1
		default:
		}
		if !sg.array {
			sg.delta = (sg.gids[0] - sg.a) & 0xFFFF
		} else if len(segs)%2 == 1 {
			sg.delta = 3 // nonzero delta with glyph array
		}
		segs = append(segs, sg)
		i = j
	}
	segs = append(segs, seg{a: 0xFFFF, z: 0xFFFF, delta: 1})
	n := len(segs)
	var ends, starts, deltas, ros, arr wr
	for i, sg := range segs {
		ends.u16(sg.z)
		starts.u16(sg.a)
		deltas.u16(sg.delta)
		if sg.array {
			ros.u16(2*(n-i) + len(arr.b))
			for _, g := range sg.gids {
				if g == 0 {
					arr.u16(0)
				} else {
					arr.u16((g - sg.delta) & 0xFFFF)
				}
			}
		} else {
			ros.u16(0)
		}
	}
	var f4 wr
	f4.u16(4)
	f4.u16(16 + 8*n + len(arr.b))
	f4.u16(0)
	f4.u16(2 * n)
	f4.u16(0)
	f4.u16(0)
	f4.u16(0)
	f4.b = append(f4.b, ends.b...)
	f4.u16(0)
	f4.b = append(f4.b, starts.b...)
	f4.b = append(f4.b, deltas.b...)
	f4.b = append(f4.b, ros.b...)
	f4.b = append(f4.b, arr.b...)
	var f12 wr
	has12 := len(sup) > 0 && !s.NoFmt12
	if has12 {
		type grp struct{ a, z, g int }
		var gs []grp
		for _, r := range append(append([]rune{}, bmp...), sup...) {
			g := s.Map[r]
			if k := len(gs) - 1; k >= 0 && gs[k].z+1 == int(r) && gs[k].g+int(r)-gs[k].a == g {
				gs[k].z++
			} else {
				gs = append(gs, grp{int(r), int(r), g})
			}
		}
		f12.u16(12)
		f12.u16(0)
		f12.u32(16 + 12*len(gs))
		f12.u32(0)
		f12.u32(len(gs))
		for _, g := range gs {
			f12.u32(g.a)
			f12.u32(g.z)
			f12.u32(g.g)
		}
	}
	type enc struct{ p, e, off int }
	var encs []enc
	nenc := 1
	if has12 {
		nenc++
	}
	if s.ExtraEnc {
		nenc += 2
	}
	base := 4 + 8*nenc
	if s.ExtraEnc {
		encs = append(encs, enc{0, 3, base}, enc{1, 0, base})
	}
	encs = append(encs, enc{3, 1, base})
	if has12 {
		encs = append(encs, enc{3, 10, base + len(f4.b)})
	}
	var w wr
	w.u16(0)
	w.u16(nenc)
	for _, e := range encs {
		w.u16(e.p)
		w.u16(e.e)
		w.u32(e.off)
	}
	w.b = append(w.b, f4.b...)
	w.b = append(w.b, f12.b...)
	return w.b
}
