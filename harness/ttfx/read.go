// Package ttfx reads and builds TrueType fonts independently of the code under
// test.
package ttfx

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
)

type Table struct {
	Tag      string
	Sum      uint32
	Off, Len int
}

type Font struct {
	B          []byte
	T          map[string]Table
	Order      []string
	UPM        int
	Bounds     [4]int
	LocFmt     int
	Asc, Desc  int
	NHM        int
	NumGlyphs  int
	Adv        []int
	LSB        []int
	Loca       []int
	Cmap       map[rune]int // unicode -> glyph
	CmapBMP    map[rune]int // from the 3,1 subtable only
	Has12      bool
	TypoAsc    int
	TypoDesc   int
	OS2        int
	CapH, XH   int
	WinAsc     int
	WinDesc    int
	UPos, UThk int
	Italic     int
	Kern       map[[2]int]int
	PSName     string
}

var be = binary.BigEndian

func u16(b []byte, o int) int {
	if o < 0 || o+2 > len(b) {
		panic(errShort)
	}
	return int(be.Uint16(b[o:]))
}
func i16(b []byte, o int) int { return int(int16(u16(b, o))) }
func u32(b []byte, o int) int {
	if o < 0 || o+4 > len(b) {
		panic(errShort)
	}
	return int(be.Uint32(b[o:]))
}

var errShort = errors.New("font data too short")

// Read parses a complete font.  full requires cmap/OS2/post/name (a subset
// embedded in a PDF legitimately lacks them).
func Read(b []byte, full bool) (f *Font, err error) {
	defer func() {
		if r := recover(); r != nil {
			f, err = nil, fmt.Errorf("ttf: %v", r)
		}
	}()
	f = &Font{B: b, T: map[string]Table{}, Kern: map[[2]int]int{}}
	if u32(b, 0) != 0x00010000 {
		return nil, errors.New("bad sfnt version")
	}
	n := u16(b, 4)
	sel := 0
	for 2<<uint(sel) <= n {
		sel++
	}
	if sr := 16 << uint(sel); !full && (u16(b, 6) != sr || u16(b, 8) != sel || u16(b, 10) != 16*n-sr) {
		return nil, fmt.Errorf("font header for %d tables has search range %d, selector %d, shift %d", n, u16(b, 6), u16(b, 8), u16(b, 10))
	}
	for i := 0; i < n; i++ {
		o := 12 + 16*i
		if o+16 > len(b) {
			return nil, errShort
		}
		t := Table{Tag: string(b[o : o+4]), Sum: uint32(u32(b, o+4)), Off: u32(b, o+8), Len: u32(b, o+12)}
		if t.Off+t.Len > len(b) {
			return nil, fmt.Errorf("table %q (%d+%d) runs past the end of the font (%d)", t.Tag, t.Off, t.Len, len(b))
		}
		if _, dup := f.T[t.Tag]; dup {
			return nil, fmt.Errorf("table %q twice", t.Tag)
		}
		f.T[t.Tag] = t
		f.Order = append(f.Order, t.Tag)
	}
	tab := func(tag string) []byte {
		t, ok := f.T[tag]
		if !ok {
			panic(fmt.Errorf("table %q missing", tag))
		}
		return b[t.Off : t.Off+t.Len]
	}
	h := tab("head")
	if u32(h, 12) != 0x5F0F3CF5 {
		return nil, errors.New("head magic")
	}
	f.UPM = u16(h, 18)
	f.Bounds = [4]int{i16(h, 36), i16(h, 38), i16(h, 40), i16(h, 42)}
	f.LocFmt = i16(h, 50)
	hh := tab("hhea")
	f.Asc, f.Desc = i16(hh, 4), i16(hh, 6)
	f.NHM = u16(hh, 34)
	f.NumGlyphs = u16(tab("maxp"), 4)
	hm := tab("hmtx")
	for i := 0; i < f.NHM; i++ {
		f.Adv = append(f.Adv, u16(hm, 4*i))
		f.LSB = append(f.LSB, i16(hm, 4*i+2))
	}
	for i := f.NHM; i < f.NumGlyphs; i++ {
		f.Adv = append(f.Adv, f.Adv[f.NHM-1])
		lo := 4*f.NHM + 2*(i-f.NHM)
		if lo+2 <= len(hm) {
			f.LSB = append(f.LSB, i16(hm, lo))
		} else {
			f.LSB = append(f.LSB, 0)
		}
	}
	lo := tab("loca")
	gl := tab("glyf")
	for i := 0; i <= f.NumGlyphs; i++ {
		var v int
		if f.LocFmt == 0 {
			v = u16(lo, 2*i) * 2
		} else {
			v = u32(lo, 4*i)
		}
		f.Loca = append(f.Loca, v)
		if v > len(gl) {
			return nil, fmt.Errorf("loca[%d]=%d beyond glyf table of %d bytes", i, v, len(gl))
		}
		if i > 0 && v < f.Loca[i-1] {
			return nil, fmt.Errorf("loca not monotone at %d", i)
		}
	}
	if !full {
		return f, nil
	}
	cm := tab("cmap")
	f.Cmap = map[rune]int{}
	f.CmapBMP = map[rune]int{}
	nt := u16(cm, 2)
	for i := 0; i < nt; i++ {
		pid, eid, off := u16(cm, 4+8*i), u16(cm, 6+8*i), u32(cm, 8+8*i)
		if pid != 3 {
			continue
		}
		if eid == 1 && u16(cm, off) == 4 {
			s := cm[off:]
			sc := u16(s, 6) / 2
			for k := 0; k < sc; k++ {
				end := u16(s, 14+2*k)
				start := u16(s, 16+2*sc+2*k)
				delta := u16(s, 16+4*sc+2*k)
				rop := 16 + 6*sc + 2*k
				ro := u16(s, rop)
				for c := start; c <= end; c++ {
					if c == 0xFFFF {
						break
					}
					var g int
					if ro == 0 {
						g = (c + delta) & 0xFFFF
					} else {
						g = u16(s, rop+ro+2*(c-start))
						if g != 0 {
							g = (g + delta) & 0xFFFF
						}
					}
					if _, dup := f.CmapBMP[rune(c)]; !dup {
						f.CmapBMP[rune(c)] = g
						f.Cmap[rune(c)] = g
					}
				}
			}
		}
		if eid == 10 && u16(cm, off) == 12 {
			f.Has12 = true
			s := cm[off:]
			ng := u32(s, 12)
			for k := 0; k < ng; k++ {
				a, z, g := u32(s, 16+12*k), u32(s, 20+12*k), u32(s, 24+12*k)
				for c := a; c <= z; c++ {
					if c > 0xFFFF {
						f.Cmap[rune(c)] = g + c - a
					}
				}
			}
		}
	}
	o2 := tab("OS/2")
	f.OS2 = u16(o2, 0)
	f.TypoAsc, f.TypoDesc = i16(o2, 68), i16(o2, 70)
	f.WinAsc, f.WinDesc = u16(o2, 74), u16(o2, 76)
	if f.OS2 >= 2 {
		f.XH, f.CapH = i16(o2, 86), i16(o2, 88)
	}
	po := tab("post")
	f.Italic = i16(po, 4)
	f.UPos, f.UThk = i16(po, 8), i16(po, 10)
	if _, ok := f.T["kern"]; ok {
		k := tab("kern")
		if u16(k, 0) == 0 {
			o := 4
			for i := 0; i < u16(k, 2); i++ {
				l, cov := u16(k, o+2), u16(k, o+4)
				if cov>>8 == 0 && cov&1 == 1 {
					np := u16(k, o+6)
					for p := 0; p < np; p++ {
						q := o + 14 + 6*p
						f.Kern[[2]int{u16(k, q), u16(k, q+2)}] = i16(k, q+4)
					}
				}
				o += l
			}
		}
	}
	return f, nil
}

// Glyph returns the raw glyph description.
func (f *Font) Glyph(g int) []byte {
	if g < 0 || g >= f.NumGlyphs {
		return nil
	}
	t := f.T["glyf"]
	return f.B[t.Off+f.Loca[g] : t.Off+f.Loca[g+1]]
}

type Comp struct {
	Flags, GID int
}

// Components lists the components of a composite glyph.
func (f *Font) Components(g int) []Comp {
	b := f.Glyph(g)
	if len(b) < 10 || i16(b, 0) >= 0 {
		return nil
	}
	var out []Comp
	o := 10
	for {
		fl, gi := u16(b, o), u16(b, o+2)
		out = append(out, Comp{fl, gi})
		o += 4
		if fl&1 != 0 {
			o += 4
		} else {
			o += 2
		}
		if fl&8 != 0 {
			o += 2
		} else if fl&0x40 != 0 {
			o += 4
		} else if fl&0x80 != 0 {
			o += 8
		}
		if fl&0x20 == 0 {
			return out
		}
	}
}

// SameOutline says whether glyph g paints the same in a and b, following
// composites to any depth.
func SameOutline(a, b *Font, g int) error {
	seen := map[int]bool{}
	var walk func(g int) error
	walk = func(g int) (err error) {
		if seen[g] {
			return nil
		}
		seen[g] = true
		x, y := a.Glyph(g), b.Glyph(g)
		if len(y) < len(x) || string(y[:len(x)]) != string(x) {
			return fmt.Errorf("glyph %d: outline differs from the source font (%d bytes, source %d)", g, len(y), len(x))
		}
		for _, z := range y[len(x):] {
			if z != 0 {
				return fmt.Errorf("glyph %d: trailing bytes after outline", g)
			}
		}
		for _, c := range a.Components(g) {
			if err := walk(c.GID); err != nil {
				return fmt.Errorf("component of %d: %v", g, err)
			}
		}
		return nil
	}
	return walk(g)
}

// Sum computes a table checksum.
func Sum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var w [4]byte
		copy(w[:], b[i:])
		s += be.Uint32(w[:])
	}
	return s
}

// PDFWidth is the width in 1/1000 em of a glyph, truncated.
func (f *Font) PDFWidth(g int) int {
	if g >= len(f.Adv) {
		g = len(f.Adv) - 1
	}
	return f.Adv[g] * 1000 / f.UPM
}

// Runes lists the mapped runes in order.
func (f *Font) Runes() []rune {
	var r []rune
	for k := range f.Cmap {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
