package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"
	"sort"
	"strings"

	pdft "github.com/signintech/pdft"

	"verif/cs"
	"verif/mc"
	"verif/pdfx"
	"verif/pngx"
	"verif/ttfx"
)

func init() {
	All["C04"] = c04
	All["C05"] = c05
	All["C08"] = c08
}

// specials are the characters whose glyphs have structure: empty, composite,
// nested composite, shared, zero width, outside of the BMP, missing.
var specials = []rune{' ', 'e', 0xE9, 0x1E5D, 0x03A9, 'O', 0x0E48, 0x1F600, 0x1F602, 0x20000, 'ß', 0xFFFF, 'z'}

func textOp(s string) Op {
	return OpText(TextArg{s, 1, 10, 20, 400, 30, pdft.Left | pdft.Top, nil})
}

// C04: what the embedded font shows is what the source font shows.
func c04(r *mc.Run) {
	upms := []int{1000, 2048}
	if r.Thorough() {
		upms = []int{16, 256, 1000, 1024, 2048, 16384}
	}
	nf := 0
	for _, upm := range upms {
		for _, cm := range []string{"delta", "range", "mixed"} {
			for _, long := range []bool{false, true} {
				for _, nhm := range []int{0, 1, 40} {
					for _, no12 := range []bool{false, true} {
						for opt := 0; opt < 8; opt++ {
							s := stdSpec(4+upm%7, upm)
							s.CmapStyle, s.LongLoca, s.NHM, s.NoFmt12 = cm, long, nhm, no12
							s.ExtraEnc, s.NoHint, s.Unpadded = opt&1 == 1, opt&2 == 2, opt&4 == 4
							if no12 {
								for c := range s.Map {
									if c > 0xFFFF {
										delete(s.Map, c)
									}
								}
							}
							name := fmt.Sprintf("u%d-%s-l%v-h%d-n%v-o%d", upm, cm, long, nhm, no12, opt)
							f := MkFont(name, s)
							nf++
							pre := []Op{OpFont("f", f), OpSet("f", "", 12)}
							var all []rune
							for _, c := range f.F.Runes() {
								all = append(all, c)
							}
							History(r, "every-character", T1, pre, []Op{textOp(string(all))})
							h := len(all) / 2
							History(r, "every-character", T1, pre, []Op{textOp(string(all[h:])), textOp(string(all[:h]))})
							for _, a := range specials {
								History(r, "single-character", T1, pre, []Op{textOp(string(a))})
							}
						}
					}
				}
			}
		}
	}
	r.Bound("%d fonts: %d units-per-em x cmap {delta, glyph array, mixed} x loca {short, long} x {all, 1, 40} long metrics x with/without 32-bit cmap x {extra encodings, no hinting tables, unpadded last table}; every character of the font at once, and %d single characters", nf, len(upms), len(specials))
	// every subset (in order of use) of the special characters: subsetting is closed under components
	fonts := []*FontFix{FA, FB}
	d := r.Pick(2, 3)
	for _, f := range fonts {
		var rec func(cur []rune)
		rec = func(cur []rune) {
			if len(cur) > 0 {
				var ops []Op
				for _, c := range cur {
					ops = append(ops, textOp(string(c)))
				}
				History(r, "use-order", T1, []Op{OpFont("f", f), OpSet("f", "", 9)}, []Op{textOp(string(cur))})
				if len(cur) > 1 {
					History(r, "use-order", T1, []Op{OpFont("f", f), OpSet("f", "", 9)}, ops)
				}
			}
			if len(cur) == d {
				return
			}
			for _, c := range specials {
				rec(append(append([]rune{}, cur...), c))
			}
		}
		rec(nil)
	}
	r.Bound("all sequences of up to %d special characters in one or several texts", d)
	// composite structures: all component graphs over up to 3 composites
	compSpace(r)
	compForms(r)
	// the font descriptor and the font program as a whole
	progs := []*FontFix{FA, FB, FC}
	for _, v := range []int{-1, 1, 2, 3, 4, 5} {
		s := stdSpec(3, 1000)
		s.OS2V, s.Name = v, fmt.Sprintf("OS2v%d", v)
		progs = append(progs, MkFont(s.Name, s))
	}
	for _, it := range []int{-12, -1, 1, 7} {
		s := stdSpec(3, 1000)
		s.Italic, s.Name = it, fmt.Sprintf("Italic%d", it)
		progs = append(progs, MkFont(s.Name, s))
	}
	for _, f := range progs {
		f := f
		for _, txt := range []string{"A", "Hello é", "ก้\u1E5D", " "} {
			txt := txt
			r.Case("font-program", f.Name+":"+txt, func() error {
				w, err := Open(T1)
				if err != nil {
					return err
				}
				if err := RunOps(w, []Op{OpFont("f", f), OpSet("f", "", 10), textOp(txt)}); err != nil {
					return err
				}
				out, err := SaveVerify(w)
				if err != nil {
					return err
				}
				r.Trace()
				return checkFontProgram(w.M, out, f, txt)
			})
		}
	}
	// several fonts in one document: each text uses its own font
	alpha := []Op{OpSet("a", "", 12), OpSet("b", "", 12), OpSet("c", "", 12), textOp("Aé"), textOp("Zß")}
	dd := r.Pick(4, 6)
	Seqs(alpha, 2, dd, func(s []Op) {
		if !strings.HasPrefix(s[0].Name, "set") || !strings.HasPrefix(s[len(s)-1].Name, "text") {
			return
		}
		History(r, "several-fonts", T2, []Op{OpFont("a", FA), OpFont("b", FB), OpFont("c", FC)}, s)
	})
	r.Bound("three fonts in one document, all sequences of up to %d selections and texts", dd)
	wideFonts(r)
	wideMany(r)
	wideOverrides(r)
	wideGrowth(r)
	wideBigFonts(r)
	wideHeavyFonts(r)
	wideFontFile(r)
	fontNames(r)
}

// fontNames: the name a font is added under is any string.
func fontNames(r *mc.Run) {
	names := []string{"TH Sarabun New", "a/b", "Arial (Bold)", "b(", ")c", "[x]", "<<y>>", "50%", "a#20b", "#", "é", "ตัวหนา", "", " ", "a\tb", "a\nb", "\r", "\x00", "{z}", "F1", "Times-Roman", "+", "a+b", "\\", "'", strings.Repeat("long", 40)}
	for _, n := range names {
		pre := []Op{OpFont(n, FA), OpSet(n, "U", 12)}
		x := textOp("Hé")
		History(r, "font-names", T2, nil, append(pre, x))
		History(r, "font-names", T2, nil, append(pre, x, OpProt(4, []byte("u"), []byte("o"))))
		for _, m := range names {
			if m != n {
				History(r, "font-names", T2, pre, []Op{x, OpFont(m, FB), OpSet(m, "", 9), x, OpSet(n, "", 7), x})
			}
		}
	}
	r.Bound("%d names of fonts (spaces, delimiters, other scripts, empty) and all pairs of them", len(names))
}

func compSpace(r *mc.Run) {
	// glyphs: 0 notdef, 1 empty, 2..4 simple, 5..7 composites; composite i may
	// refer to glyphs 1..i-1 (every list of one or two components)
	var lists func(max int) [][]int
	lists = func(max int) [][]int {
		var o [][]int
		for a := 1; a < max; a++ {
			o = append(o, []int{a})
			for b := 1; b < max; b++ {
				if b == 1 && !r.Thorough() {
					continue
				}
				o = append(o, []int{a, b})
			}
		}
		return o
	}
	n := 0
	mk := func(cs [][]int, flags int) *FontFix {
		s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "Comp", TypoAsc: 800, TypoDesc: -200, UPos: -100, UThk: 50, OS2V: 3, HAsc: 900, HDesc: -300}
		s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 500, Seed: 1}, ttfx.GSpec{Adv: 250, Empty: true})
		for k := 0; k < 3; k++ {
			s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 300 + k*50, Seed: 2 + k})
		}
		for _, c := range cs {
			g := ttfx.GSpec{Adv: 400}
			for j, id := range c {
				g.Comps = append(g.Comps, ttfx.CompSpec{GID: id, Words: (flags+j)&1 == 1, Scale: (flags/2 + j) % 4})
			}
			s.Glyphs = append(s.Glyphs, g)
		}
		for i := range s.Glyphs {
			if i > 0 {
				s.Map[rune('a'+i)] = i
			}
		}
		return MkFont(fmt.Sprintf("comp%v-%d", cs, flags), s)
	}
	flagsN := r.Pick(2, 8)
	for _, c1 := range lists(5) {
		for _, c2 := range lists(6) {
			has := false
			for _, x := range c2 {
				if x == 5 {
					has = true
				}
			}
			if !has && !r.Thorough() {
				continue
			}
			c3s := [][]int{{6}, {6, 5}, {2, 6}}
			for _, c3 := range c3s {
				for fl := 0; fl < flagsN; fl++ {
					if !r.Thorough() && fl != (n%2) {
						continue
					}
					f := mk([][]int{c1, c2, c3}, fl)
					n++
					for _, t := range []string{"f", "g", "h", "hc"} {
						if !r.Thorough() && t == "f" {
							continue
						}
						History(r, "composites", T1, []Op{OpFont("f", f), OpSet("f", "", 9)}, []Op{textOp(t)})
					}
				}
			}
		}
	}
	r.Bound("%d fonts with composite glyphs of nesting up to 3 (all component graphs with one or two components per glyph)", n)
}

// compForms: every form of the arguments and scales of components, with every
// harmless flag, so that the next component is found.
func compForms(r *mc.Run) {
	n := 0
	for a := 0; a < 8; a++ {
		for b := 0; b < 8; b++ {
			for _, fl := range []int{0, 0x4, 0x200, 0x100, 0x1e14} {
				s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "Forms", OS2V: 2 + n%3, HAsc: 900, HDesc: -300}
				for k := 0; k < 6; k++ {
					s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 300 + k*50, Seed: 2 + k})
				}
				s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 700, Comps: []ttfx.CompSpec{{GID: 3, Words: a&1 == 1, Scale: a >> 1, Flags: fl}, {GID: 2, Words: b&1 == 1, Scale: b >> 1, Flags: fl}, {GID: 5, Flags: fl}}})
				s.Map['A'] = 6
				n++
				History(r, "component-forms", T1, []Op{OpFont("f", MkFont(fmt.Sprintf("forms%d-%d-%x", a, b, fl), s)), OpSet("f", "", 9)}, []Op{textOp("A")})
			}
		}
	}
	r.Bound("%d fonts with a glyph of three components: all pairs of argument forms and scales x 5 sets of other flags", n)
}

// checkFontProgram checks the font program and descriptor beyond the glyphs
// that are shown: metrics, checksums, descriptor values.
func checkFontProgram(m *Model, out []byte, f *FontFix, txt string) error {
	d, err := LoadOut(m, out)
	if err != nil {
		return err
	}
	pages, err := d.Pages()
	if err != nil {
		return err
	}
	c, err := d.ContentBytes(pages[0])
	if err != nil {
		return err
	}
	it, err := cs.Run(d, pages[0].Resources, c)
	if err != nil {
		return err
	}
	var cf *cs.Font
	for _, e := range it.Events {
		if e.Kind == "glyph" && e.Font != nil && e.Font.Type0 {
			cf = e.Font
		}
	}
	if cf == nil {
		return fmt.Errorf("no embedded font in use")
	}
	emb, err := LoadEmbedded(d, cf)
	if err != nil {
		return err
	}
	fd := d.Dict(cf.Desc.Get("FontDescriptor"))
	src := f.F
	conv := func(v int) float64 { return float64(v) * 1000 / float64(src.UPM) }
	near1 := func(a, b float64) bool { return a-b < 1.001 && b-a < 1.001 }
	num := func(k string) float64 { n, _ := d.Num(fd.Get(k)); return n }
	for _, x := range []struct {
		k string
		v []int
	}{{"Ascent", []int{src.TypoAsc, src.Asc, src.WinAsc}}, {"Descent", []int{src.TypoDesc, src.Desc, -src.WinDesc, src.WinDesc}}, {"CapHeight", []int{src.CapH}}, {"XHeight", []int{src.XH}}} {
		hit := src.CapH == 0 && strings.HasSuffix(x.k, "pHeight") || src.XH == 0 && x.k == "XHeight" // not in the font

		for _, v := range x.v {
			if near1(num(x.k), conv(v)) {
				hit = true
			}
		}
		if !hit {
			return fmt.Errorf("font descriptor /%s is %v, font has %v", x.k, num(x.k), x.v)
		}
	}
	bb := d.Arr(fd.Get("FontBBox"))
	if len(bb) != 4 {
		return fmt.Errorf("font descriptor has no FontBBox")
	}
	for i := range bb {
		n, _ := d.Num(bb[i])
		if !near1(n, conv(src.Bounds[i])) {
			return fmt.Errorf("font descriptor FontBBox[%d] is %v, font has %v", i, n, conv(src.Bounds[i]))
		}
	}
	if n, ok := d.Num(fd.Get("ItalicAngle")); !ok || n-float64(src.Italic) > 1 || float64(src.Italic)-n > 1 {
		return fmt.Errorf("font descriptor /ItalicAngle is %v, font has %d", pdfx.Show(fd.Get("ItalicAngle")), src.Italic)
	}
	for _, k := range []string{"Flags", "StemV"} {
		if _, ok := d.Num(fd.Get(k)); !ok {
			return fmt.Errorf("font descriptor without /%s", k)
		}
	}
	for _, tag := range []string{"glyf", "loca"} { // written anew
		t := emb.F.T[tag]
		if sum := ttfx.Sum(emb.F.B[t.Off : t.Off+t.Len]); sum != t.Sum {
			return fmt.Errorf("checksum of table %s of the embedded font is %08x, recorded as %08x", tag, sum, t.Sum)
		}
	}
	for _, dd := range []*pdfx.Dict{cf.D, cf.Desc} {
		n, ok := d.Resolve(dd.Get("BaseFont")).(pdfx.Name)
		if !ok || n == "" {
			return fmt.Errorf("font has no BaseFont")
		}
	}
	// metrics of the glyphs used
	for _, c := range txt {
		g, _ := f.GID(c)
		if g < len(emb.F.Adv) && g < len(src.Adv) && emb.F.Adv[g] != src.Adv[g] {
			return fmt.Errorf("advance of glyph %d changed from %d to %d in the font program", g, src.Adv[g], emb.F.Adv[g])
		}
	}
	return nil
}

// C05: images.
func c05(r *mc.Run) {
	modes := []string{"plain", "b64", "cache"}
	type sz struct{ w, h int }
	sizes := []sz{{1, 1}, {3, 2}, {8, 3}, {17, 5}}
	if r.Thorough() {
		sizes = []sz{{1, 1}, {1, 7}, {2, 2}, {3, 2}, {7, 1}, {8, 3}, {9, 9}, {17, 5}, {64, 33}}
	}
	depths := map[int][]int{0: {1, 2, 4, 8}, 2: {8}, 3: {1, 2, 4, 8}, 4: {8}, 6: {8}}
	cts := []int{0, 2, 3, 4, 6}
	n := 0
	for _, ct := range cts {
		for _, bpc := range depths[ct] {
			for _, s := range sizes {
				for fl := 0; fl <= 5; fl++ {
					for _, ids := range []int{1, 2, 5} {
						for _, ex := range []bool{false, true} {
							for _, st := range []bool{false, true} {
								if st && (fl != 0 || ids == 5) && !r.Thorough() {
									continue
								}
								var trs []int
								switch ct {
								case 0, 2, 3:
									trs = []int{-1, 0, 1}
								default:
									trs = []int{-1}
								}
								for _, tr := range trs {
									if tr >= 0 && fl != 5 && !r.Thorough() {
										continue
									}
									pals := []int{0}
									if ct == 3 {
										pals = []int{2, 1 << uint(bpc)}
										if bpc == 1 {
											pals = []int{2}
										}
									}
									for _, pl := range pals {
										sp := pngx.Spec{W: s.w, H: s.h, CT: ct, BPC: bpc, Filter: fl, IDATs: ids, Pal: pl, TRNS: tr, Extra: ex, Seed: n % 7, Store: st}
										im := MkPNG(fmt.Sprintf("png%d/%d-%dx%d-f%d-i%d-e%v-s%v-t%d-p%d-%d", ct, bpc, s.w, s.h, fl, ids, ex, st, tr, pl, n%7), sp)
										n++
										for _, md := range modes {
											History(r, "png", T2, nil, []Op{OpImg(md, im, 1+n%2, 10, 20, 33.33, 44.5)})
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	r.Bound("%d PNG files: colour type x depth x %d sizes x row filters {0..4, mixed} x {1,2,5} data chunks x ancillary chunks x stored/compressed x transparent sample x palette size", n, len(sizes))
	// JPEG
	for _, w := range []int{1, 2, 8, 16, 17, 300} {
		for _, h := range []int{1, 8, 33, 257} {
			for _, g := range []bool{false, true} {
				im := jpg(fmt.Sprintf("jpg%dx%d-%v", w, h, g), w, h, g)
				for _, md := range modes {
					History(r, "jpeg", T2, nil, []Op{OpImg(md, im, 1, 1, 2, 30, 40)})
				}
				// leading APP and comment segments are data too
				for _, pfx := range [][]byte{{0xFF, 0xE1, 0, 6, 'E', 'x', 'i', 'f'}, append([]byte{0xFF, 0xFE, 0x01, 0x02}, make([]byte, 256)...)} {
					b := append([]byte{0xFF, 0xD8}, pfx...)
					b = append(b, im.B[2:]...)
					if _, err := jpeg.DecodeConfig(bytes.NewReader(b)); err != nil {
						panic(err)
					}
					History(r, "jpeg", T2, nil, []Op{OpImg(modes[(w+h)%3], &ImgFix{Name: im.Name + fmt.Sprintf("+%d", len(pfx)), B: b, W: w, H: h, CSp: im.CSp}, 2, 1, 2, 30, 40)})
				}
			}
		}
	}
	cm := cmykJPEG()
	for _, md := range modes {
		History(r, "jpeg", T2, nil, []Op{OpImg(md, cm, 1, 1, 2, 30, 40)})
	}
	r.Bound("JPEG: 6x4 sizes x gray/colour with extra segments, CMYK")
	// placement
	co := []float64{0, 0.005, 12.345, 250, -30.5}
	for _, x := range co {
		for _, y := range co {
			for _, w := range []float64{0.01, 10, 333.333} {
				for _, h := range []float64{0.01, 20, 444.445} {
					for pg := 1; pg <= 4; pg++ {
						History(r, "placement", TN, nil, []Op{OpImg(modes[pg%3], ImRGB, pg, x, y, w, h)})
					}
				}
			}
		}
	}
	r.Bound("5x5 positions x 3x3 sizes on pages of different height")
	// sequences with sharing through the cache
	var alpha []Op
	for _, im := range []*ImgFix{ImRGB, ImRGBA, ImPal, ImJPG, ImGA} {
		for i, md := range modes {
			if md == "b64" && im != ImRGBA && im != ImJPG {
				continue
			}
			alpha = append(alpha, OpImg(md, im, 1+i%2, float64(5+i), 6, 20, 10))
		}
		alpha = append(alpha, OpImg("cache", im, 2, 50, 60, 11, 12))
	}
	alpha = append(alpha, OpImg("cache", ImRGB, 9, 50, 60, 11, 12), OpSave())
	d := r.Pick(2, 3)
	for _, t := range []*Tmpl{T2, T3, tmplShared()} {
		Seqs(alpha, 1, d, func(s []Op) { History(r, "sequence", t, nil, s) })
	}
	r.Bound("all sequences of up to %d image insertions over %d (5 images, 3 ways, 2 pages, saves) on 3 templates", d, len(alpha))
	// images, texts and protection
	fo := []Op{OpFont("a", FA), OpSet("a", "", 10)}
	mixed := []Op{OpImg("plain", ImRGBA, 1, 1, 2, 3, 4), OpImg("cache", ImGA, 2, 1, 2, 3, 4), OpImg("b64", ImJPGG, 1, 9, 8, 7, 6), OpText(TextArg{"ab", 1, 4, 5, 60, 20, 0, red}), OpDup(1, 0), OpProt(4, nil, []byte("o"))}
	Seqs(mixed, 1, r.Pick(3, 4), func(s []Op) { History(r, "mixed", T2, fo, s) })
	wideCache(r)
	wideBoxesRun(r)
	wideMany(r)
	wideImages(r)
}

func cmykJPEG() *ImgFix {
	// a baseline JPEG with 4 components, assembled from the gray encoder's tables
	var b bytes.Buffer
	im := image.NewGray(image.Rect(0, 0, 8, 8))
	for i := range im.Pix {
		im.Pix[i] = 77
	}
	im.Set(0, 0, color.Gray{77})
	jpeg.Encode(&b, im, nil)
	src := b.Bytes()
	sof := bytes.Index(src, []byte{0xFF, 0xC0})
	sos := bytes.Index(src, []byte{0xFF, 0xDA})
	var out []byte
	out = append(out, src[:2]...)
	// Adobe marker, transform 0
	out = append(out, 0xFF, 0xEE, 0, 14, 'A', 'd', 'o', 'b', 'e', 0, 100, 0, 0, 0, 0, 0)
	out = append(out, src[2:sof]...)
	out = append(out, 0xFF, 0xC0, 0, 20, 8, 0, 8, 0, 8, 4)
	for c := 1; c <= 4; c++ {
		out = append(out, byte(c), 0x11, 0)
	}
	l := int(src[sof+2])<<8 | int(src[sof+3])
	out = append(out, src[sof+2+l:sos]...)
	out = append(out, 0xFF, 0xDA, 0, 14, 4, 1, 0, 2, 0, 3, 0, 4, 0, 0, 63, 0)
	sl := int(src[sos+2])<<8 | int(src[sos+3])
	out = append(out, src[sos+2+sl:]...)
	cfg, err := jpeg.DecodeConfig(bytes.NewReader(out))
	if err != nil || cfg.ColorModel != color.CMYKModel {
		panic(fmt.Sprint("harness: cmyk jpeg ", err))
	}
	return &ImgFix{Name: "cmyk", B: out, W: 8, H: 8, CSp: "DeviceCMYK"}
}

// C08: protection.
func c08(r *mc.Run) {
	use := []Op{OpFont("a", FA), OpSet("a", "", 12), textOp("Hé"), OpImg("plain", ImRGBA, 1, 5, 6, 30, 20)}
	var perms []int
	for p := 0; p < 64; p += 4 {
		perms = append(perms, p)
	}
	pws := [][]byte{nil, []byte(""), []byte("a"), []byte("user"), []byte("(paren\\)"), {0, 1, 2, 255, 254}, []byte("pässwörd"), bytes.Repeat([]byte("x"), 31), bytes.Repeat([]byte("y"), 32), bytes.Repeat([]byte("z"), 33), bytes.Repeat([]byte("0123456789"), 4)}
	for _, p := range perms {
		for _, pw := range [][2][]byte{{nil, []byte("o")}, {[]byte("u"), []byte("o")}, {[]byte("same"), []byte("same")}, {[]byte("u"), nil}, {nil, nil}} {
			History(r, "permissions", T1, nil, append([]Op{OpProt(p, pw[0], pw[1])}, use...))
			History(r, "permissions", T1, nil, append(append([]Op{}, use...), OpProt(p, pw[0], pw[1])))
		}
	}
	r.Bound("all 16 permission sets x 5 password pairs, protection requested before and after the inserts")
	for _, u := range pws {
		for _, o := range pws {
			History(r, "passwords", T3, nil, append([]Op{OpProt(4, u, o)}, use...))
		}
	}
	for l := 0; l <= 40; l++ {
		u := bytes.Repeat([]byte("q"), l)
		History(r, "length", T1, nil, []Op{OpProt(8, u, []byte("own"))})
		History(r, "length", T1, nil, []Op{OpProt(8, []byte("usr"), u)})
	}
	for c := 0; c < 256; c++ { // the entries computed from the passwords hold every byte, delimiters and line ends included
		History(r, "one-byte", T1, nil, []Op{OpProt(4, []byte{byte(c)}, []byte("own"))})
		History(r, "one-byte", T1, nil, []Op{OpProt(60, []byte("usr"), []byte{byte(c)})})
		History(r, "one-byte", T1, nil, []Op{OpProt(16, nil, []byte{'o', byte(c)})})
	}
	r.Bound("%d x %d passwords (lengths 0..40, control bytes, non-ASCII, delimiters), all 256 one-byte user and owner passwords", len(pws), len(pws))
	wideNumbers(r, true)
	wideStrings(r, true)
	// every template shape under protection: everything in it stays readable with the password
	for _, t := range []*Tmpl{T1, T2, T3, TN, tmplShared(), tmplDeep(), tmplStrings()} {
		for _, u := range stdUse() {
			for _, pw := range [][2][]byte{{nil, []byte("o")}, {[]byte("u"), []byte("o")}} {
				History(r, "templates", t, nil, append(append([]Op{}, u...), OpProt(20, pw[0], pw[1])))
			}
		}
	}
	graphs := append(graphTmpls(), graphTmpl{"streams", streamKinds})
	for _, g := range graphs {
		for _, st := range []int{0, 1, 2} {
			t := g.mk()
			t.Style = st
			tm := MkTmpl(fmt.Sprintf("%s-s%d", g.name, st), t.Bytes())
			for _, u := range stdUse() {
				History(r, "graph", tm, nil, append(append([]Op{}, u...), OpProt(20, []byte("u"), []byte("o"))))
			}
			History(r, "graph", tm, nil, []Op{OpProt(4, nil, []byte("o")), OpDup(1, 0), OpSave(), OpRm(2)})
		}
	}
	r.Bound("%d documents with outlines, forms, notes, structure, metadata, embedded files and streams of 14 kinds, protected", len(graphs))
	// histories with protection requests, changes of protection and saves
	alpha := []Op{OpProt(4, []byte("u1"), []byte("o1")), OpProt(40, nil, []byte("o2")), textOp("Té"), OpImg("cache", ImGA, 1, 5, 6, 30, 20), OpDup(1, 0), OpSave(), OpFont("b", FC)}
	pre := []Op{OpFont("a", FA), OpSet("a", "U", 12)}
	d := r.Pick(3, 5)
	Seqs(alpha, 1, d, func(s []Op) {
		if !strings.Contains(Names(s), "protect") {
			return
		}
		History(r, "history", T2, pre, s)
	})
	r.Bound("all histories of up to %d operations over 7 with at least one protection request", d)
	// the bytes on disk reveal nothing: no plain text of the template nor of the inserts
	for _, t := range []*Tmpl{T1, tmplStrings(), MkTmpl("streams", streamKinds().Bytes())} {
		t := t
		r.Case("confidential", t.Name, func() error {
			w, err := Open(t)
			if err != nil {
				return err
			}
			if err := RunOps(w, append([]Op{OpProt(4, []byte("u"), []byte("o"))}, use...)); err != nil {
				return err
			}
			out, err := SaveVerify(w)
			if err != nil {
				return err
			}
			r.Trace()
			for _, pl := range plainPieces(t) {
				if bytes.Contains(out, pl) {
					return fmt.Errorf("the protected file contains %q in the clear", pl)
				}
			}
			return nil
		})
	}
}

// plainPieces lists strings and content of a template that must not be readable.
func plainPieces(t *Tmpl) [][]byte {
	set := map[string]bool{}
	var walk func(o pdfx.Obj, depth int)
	walk = func(o pdfx.Obj, depth int) {
		if depth > 12 {
			return
		}
		switch v := o.(type) {
		case pdfx.Str:
			if len(v) >= 5 {
				set[string(v)] = true
			}
		case pdfx.Arr:
			for _, x := range v {
				walk(x, depth+1)
			}
		case *pdfx.Dict:
			for _, k := range v.Keys {
				if k != "Parent" && k != "P" {
					walk(t.D.Resolve(v.M[k]), depth+1)
				}
			}
		case *pdfx.Stream:
			if len(v.Raw) >= 12 {
				set[string(v.Raw[:12])] = true
			}
			walk(v.D, depth+1)
		}
	}
	walk(t.D.Dict(t.D.Trailer.Get("Root")), 0)
	for _, c := range t.Cont {
		if len(c) >= 12 {
			set[string(c[:12])] = true
		}
	}
	var out [][]byte
	for k := range set {
		out = append(out, []byte(k))
	}
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return out
}
