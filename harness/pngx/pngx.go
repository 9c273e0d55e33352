// Package pngx writes PNG files with full control over the encoding, and
// decodes PDF image XObjects to pixels.
package pngx

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"image/color"

	"verif/pdfx"
)

type Spec struct {
	W, H      int
	CT        int // 0 gray 2 rgb 3 indexed 4 gray+alpha 6 rgba
	BPC       int
	Filter    int  // 0..4, or 5 = cycle per row
	IDATs     int  // number of IDAT chunks (>=1)
	Pal       int  // palette entries
	TRNS      int  // -1 none, else transparent sample/index
	Extra     bool // ancillary chunks incl. a zero-length one before IDAT
	Seed      int
	Store     bool // no compression (large IDAT)
	Interlace bool
	NoZeroLen bool
	Parts     []int  // lengths of the first data chunks; the rest follows in one more
	Alpha     []byte // tRNS chunk of a palette image
	Flip      int    // 1+number of a sample to change in its lowest bit; 0 none
}

func chunk(w *bytes.Buffer, typ string, data []byte) {
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(len(data)))
	w.Write(l[:])
	w.WriteString(typ)
	w.Write(data)
	c := crc32.NewIEEE()
	c.Write([]byte(typ))
	c.Write(data)
	binary.BigEndian.PutUint32(l[:], c.Sum32())
	w.Write(l[:])
}

func (s Spec) ncomp() int { return map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[s.CT] }

func (s Spec) sample(x, y, c int) int {
	max := 1<<uint(s.BPC) - 1
	v := (x*31 + y*57 + c*91 + s.Seed*17 + x*y*3) & max
	if s.CT == 3 {
		v %= s.Pal
	}
	if s.Flip == 1+(y*s.W+x)*s.ncomp()+c && (s.CT != 3 || v^1 < s.Pal) {
		v ^= 1
	}
	return v
}
func (s Spec) pal(i int) [3]byte {
	return [3]byte{byte(i*37 + s.Seed), byte(200 - i*11), byte(i * i * 5)}
}

// Encode returns the file and the expected pixels (row major).
func (s Spec) Encode() ([]byte, []color.NRGBA) {
	nc := s.ncomp()
	bpp := (nc*s.BPC + 7) / 8
	var raw []byte
	max := 1<<uint(s.BPC) - 1
	scale := func(v int) byte { return byte(v * 255 / max) }
	var px []color.NRGBA
	for y := 0; y < s.H; y++ {
		for x := 0; x < s.W; x++ {
			var p color.NRGBA
			p.A = 255
			v := func(c int) byte { return scale(s.sample(x, y, c)) }
			switch s.CT {
			case 0:
				p.R, p.G, p.B = v(0), v(0), v(0)
				if s.TRNS >= 0 && s.sample(x, y, 0) == s.TRNS&max {
					p.A = 0
				}
			case 2:
				p.R, p.G, p.B = v(0), v(1), v(2)
				if s.TRNS >= 0 {
					t := s.trnsRGB()
					if p.R == t[0] && p.G == t[1] && p.B == t[2] {
						p.A = 0
					}
				}
			case 3:
				i := s.sample(x, y, 0)
				q := s.pal(i)
				p.R, p.G, p.B = q[0], q[1], q[2]
				if s.TRNS == i {
					p.A = 0
				}
				if i < len(s.Alpha) {
					p.A = s.Alpha[i]
				}
			case 4:
				p = color.NRGBA{v(0), v(0), v(0), v(1)}
			case 6:
				p = color.NRGBA{v(0), v(1), v(2), v(3)}
			}
			px = append(px, p)
		}
	}
	// pass: the rows of the sub-image of every dx-th column and dy-th row
	pass := func(x0, y0, dx, dy int) {
		pw := (s.W - x0 + dx - 1) / dx
		if s.W <= x0 || pw == 0 {
			return
		}
		rowBytes := (pw*nc*s.BPC + 7) / 8
		prev := make([]byte, rowBytes)
		for k, y := 0, y0; y < s.H; k, y = k+1, y+dy {
			row := make([]byte, rowBytes)
			for i := 0; i < pw; i++ {
				for c := 0; c < nc; c++ {
					bit := (i*nc + c) * s.BPC
					v := s.sample(x0+i*dx, y, c)
					if s.BPC == 16 {
						row[bit/8], row[bit/8+1] = byte(v>>8), byte(v)
					} else {
						row[bit/8] |= byte(v << uint(8-s.BPC-bit%8))
					}
				}
			}
			f := s.Filter
			if f == 5 {
				f = k % 5
			}
			raw = append(raw, byte(f))
			for i := 0; i < rowBytes; i++ {
				var a, b, c int
				b = int(prev[i])
				if i >= bpp {
					a = int(row[i-bpp])
					c = int(prev[i-bpp])
				}
				v := int(row[i])
				switch f {
				case 1:
					v -= a
				case 2:
					v -= b
				case 3:
					v -= (a + b) / 2
				case 4:
					v -= paeth(a, b, c)
				}
				raw = append(raw, byte(v))
			}
			prev = row
		}
	}
	if s.Interlace {
		for _, p := range [][4]int{{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}} {
			pass(p[0], p[1], p[2], p[3])
		}
	} else {
		pass(0, 0, 1, 1)
	}
	var z bytes.Buffer
	lvl := zlib.DefaultCompression
	if s.Store {
		lvl = zlib.NoCompression
	}
	zw, _ := zlib.NewWriterLevel(&z, lvl)
	zw.Write(raw)
	zw.Close()
	var out bytes.Buffer
	out.Write([]byte{0x89, 'P', 'N', 'G', 13, 10, 26, 10})
	hd := make([]byte, 13)
	binary.BigEndian.PutUint32(hd, uint32(s.W))
	binary.BigEndian.PutUint32(hd[4:], uint32(s.H))
	hd[8], hd[9] = byte(s.BPC), byte(s.CT)
	if s.Interlace {
		hd[12] = 1
	}
	chunk(&out, "IHDR", hd)
	if s.Extra {
		chunk(&out, "gAMA", []byte{0, 0, 0xB1, 0x8F})
		chunk(&out, "tEXt", []byte("Comment\x00IDAT PLTE IEND"))
		if !s.NoZeroLen {
			chunk(&out, "prVt", nil)
		}
	}
	if s.CT == 3 {
		var p []byte
		for i := 0; i < s.Pal; i++ {
			q := s.pal(i)
			p = append(p, q[:]...)
		}
		chunk(&out, "PLTE", p)
	}
	if s.Alpha != nil {
		chunk(&out, "tRNS", s.Alpha)
	}
	if s.TRNS >= 0 {
		switch s.CT {
		case 0:
			chunk(&out, "tRNS", []byte{0, byte(s.TRNS & max)})
		case 2:
			t := s.trnsRGB()
			chunk(&out, "tRNS", []byte{0, t[0], 0, t[1], 0, t[2]})
		case 3:
			t := bytes.Repeat([]byte{255}, s.TRNS+1)
			t[s.TRNS] = 0
			chunk(&out, "tRNS", t)
		}
	}
	d := z.Bytes()
	n := s.IDATs
	if n < 1 {
		n = 1
	}
	if s.Parts != nil {
		n = 0
		for _, k := range s.Parts {
			k = min(k, len(d))
			chunk(&out, "IDAT", d[:k])
			d = d[k:]
		}
		chunk(&out, "IDAT", d)
	}
	for i := 0; i < n; i++ {
		chunk(&out, "IDAT", d[len(d)*i/n:len(d)*(i+1)/n])
	}
	if s.Extra {
		chunk(&out, "tIME", []byte{7, 0xE0, 1, 1, 0, 0, 0})
	}
	chunk(&out, "IEND", nil)
	return out.Bytes(), px
}

func (s Spec) trnsRGB() [3]byte {
	x, y := s.TRNS%s.W, (s.TRNS/s.W)%s.H
	return [3]byte{byte(s.sample(x, y, 0)), byte(s.sample(x, y, 1)), byte(s.sample(x, y, 2))}
}

func paeth(a, b, c int) int {
	p := a + b - c
	abs := func(v int) int {
		if v < 0 {
			return -v
		}
		return v
	}
	pa, pb, pc := abs(p-a), abs(p-b), abs(p-c)
	if pa <= pb && pa <= pc {
		return a
	}
	if pb <= pc {
		return b
	}
	return c
}

// ---------------------------------------------------------------- XObject decoding

func intOf(d *pdfx.Doc, o pdfx.Obj, def int) int {
	if n, ok := d.Resolve(o).(pdfx.Num); ok {
		return int(n.V)
	}
	return def
}

func samples(d *pdfx.Doc, s *pdfx.Stream, nc int) (w, h, bpc int, out []int, err error) {
	w, h = intOf(d, s.D.Get("Width"), -1), intOf(d, s.D.Get("Height"), -1)
	bpc = intOf(d, s.D.Get("BitsPerComponent"), -1)
	if w <= 0 || h <= 0 || (bpc != 1 && bpc != 2 && bpc != 4 && bpc != 8 && bpc != 16) {
		return 0, 0, 0, nil, fmt.Errorf("image XObject has Width %d Height %d BitsPerComponent %d", w, h, bpc)
	}
	data, err := d.Data(s)
	if err != nil {
		return 0, 0, 0, nil, err
	}
	row := (w*nc*bpc + 7) / 8
	dp := d.Dict(s.D.Get("DecodeParms"))
	if dp != nil && intOf(d, dp.Get("Predictor"), 1) >= 10 {
		cols, colors, b2 := intOf(d, dp.Get("Columns"), 1), intOf(d, dp.Get("Colors"), 1), intOf(d, dp.Get("BitsPerComponent"), 8)
		prow := (cols*colors*b2 + 7) / 8
		bpp := (colors*b2 + 7) / 8
		if len(data) != (prow+1)*h {
			return 0, 0, 0, nil, fmt.Errorf("image data has %d bytes, %d rows of %d+1 expected", len(data), h, prow)
		}
		var o []byte
		prev := make([]byte, prow)
		for y := 0; y < h; y++ {
			ln := data[y*(prow+1) : (y+1)*(prow+1)]
			cur := append([]byte{}, ln[1:]...)
			for i := range cur {
				var a, b, c int
				b = int(prev[i])
				if i >= bpp {
					a, c = int(cur[i-bpp]), int(prev[i-bpp])
				}
				switch ln[0] {
				case 0:
				case 1:
					cur[i] += byte(a)
				case 2:
					cur[i] += byte(b)
				case 3:
					cur[i] += byte((a + b) / 2)
				case 4:
					cur[i] += byte(paeth(a, b, c))
				default:
					return 0, 0, 0, nil, errors.New("bad PNG predictor tag")
				}
			}
			o = append(o, cur...)
			prev = cur
		}
		data = o
	}
	if len(data) < row*h {
		return 0, 0, 0, nil, fmt.Errorf("image data has %d bytes, needs %d", len(data), row*h)
	}
	for y := 0; y < h; y++ {
		for i := 0; i < w*nc; i++ {
			bit := i * bpc
			if bpc == 16 {
				out = append(out, int(data[y*row+2*i])<<8|int(data[y*row+2*i+1]))
				continue
			}
			b := data[y*row+bit/8]
			out = append(out, int(b>>uint(8-bpc-bit%8))&(1<<uint(bpc)-1))
		}
	}
	return
}

// Pixels decodes a non-DCT image XObject.
func Pixels(d *pdfx.Doc, s *pdfx.Stream) (w, h int, px []color.NRGBA, err error) {
	if s.D.Get("Subtype") != pdfx.Obj(pdfx.Name("Image")) {
		return 0, 0, nil, errors.New("XObject is not an /Image")
	}
	if a, ok := d.Resolve(s.D.Get("Decode")).(pdfx.Arr); ok { // only the default is understood
		for i, x := range a {
			want := i % 2
			if arr, ok := d.Resolve(s.D.Get("ColorSpace")).(pdfx.Arr); ok && len(arr) == 4 && i == 1 {
				want = 1<<uint(intOf(d, s.D.Get("BitsPerComponent"), 8)) - 1
			}
			if intOf(d, x, -1) != want {
				return 0, 0, nil, errors.New("/Decode changes the samples")
			}
		}
	}
	cs := d.Resolve(s.D.Get("ColorSpace"))
	nc := 0
	var pal []byte
	switch v := cs.(type) {
	case pdfx.Name:
		switch v {
		case "DeviceGray":
			nc = 1
		case "DeviceRGB":
			nc = 3
		}
	case pdfx.Arr:
		if len(v) == 4 && v[0] == pdfx.Obj(pdfx.Name("Indexed")) && v[1] == pdfx.Obj(pdfx.Name("DeviceRGB")) {
			nc = 1
			hi := intOf(d, v[2], -1)
			switch t := d.Resolve(v[3]).(type) {
			case pdfx.Str:
				pal = t
			case *pdfx.Stream:
				pal, err = d.Data(t)
				if err != nil {
					return 0, 0, nil, err
				}
			default:
				return 0, 0, nil, fmt.Errorf("Indexed lookup is %s", pdfx.Show(t))
			}
			if len(pal) != 3*(hi+1) {
				return 0, 0, nil, fmt.Errorf("Indexed lookup has %d bytes for hival %d", len(pal), hi)
			}
		}
	}
	if nc == 0 {
		return 0, 0, nil, fmt.Errorf("unsupported ColorSpace %s", pdfx.Show(cs))
	}
	w, h, bpc, sm, err := samples(d, s, nc)
	if err != nil {
		return 0, 0, nil, err
	}
	max := 1<<uint(bpc) - 1
	var mask []int
	if ma, ok := d.Resolve(s.D.Get("Mask")).(pdfx.Arr); ok {
		for _, x := range ma {
			mask = append(mask, intOf(d, x, -1))
		}
		if len(mask) != 2*nc {
			return 0, 0, nil, fmt.Errorf("/Mask array has %d elements for %d components", len(mask), nc)
		}
	}
	for i := 0; i < w*h; i++ {
		p := color.NRGBA{A: 255}
		c := sm[i*nc : (i+1)*nc]
		switch {
		case pal != nil:
			if 3*c[0]+3 > len(pal) {
				return 0, 0, nil, errors.New("palette index out of range")
			}
			p.R, p.G, p.B = pal[3*c[0]], pal[3*c[0]+1], pal[3*c[0]+2]
		case nc == 1:
			v := byte(c[0] * 255 / max)
			p.R, p.G, p.B = v, v, v
		default:
			p.R, p.G, p.B = byte(c[0]*255/max), byte(c[1]*255/max), byte(c[2]*255/max)
		}
		if mask != nil {
			in := true
			for k := 0; k < nc; k++ {
				if c[k] < mask[2*k] || c[k] > mask[2*k+1] {
					in = false
				}
			}
			if in {
				p.A = 0
			}
		}
		px = append(px, p)
	}
	if so := s.D.Get("SMask"); so != nil {
		ss, ok := d.Resolve(so).(*pdfx.Stream)
		if !ok {
			return 0, 0, nil, errors.New("/SMask does not resolve to a stream")
		}
		if d.Resolve(ss.D.Get("ColorSpace")) != pdfx.Obj(pdfx.Name("DeviceGray")) {
			return 0, 0, nil, errors.New("/SMask is not DeviceGray")
		}
		w2, h2, b2, sm2, err := samples(d, ss, 1)
		if err != nil {
			return 0, 0, nil, fmt.Errorf("SMask: %v", err)
		}
		if w2 != w || h2 != h {
			return 0, 0, nil, errors.New("/SMask has another size")
		}
		for i := range px {
			px[i].A = byte(sm2[i] * 255 / (1<<uint(b2) - 1))
		}
	}
	return
}
