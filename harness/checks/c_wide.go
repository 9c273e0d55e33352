package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"

	pdft "github.com/signintech/pdft"

	"verif/gen"
	"verif/mc"
	"verif/pngx"
	"verif/ttfx"
)

// Strata that several properties share: every history is verified against the
// whole model, whichever property asked for it.

// shiftSpec inserts k further glyphs behind .notdef: the same characters get other glyph numbers.
func shiftSpec(s ttfx.Spec, k int) ttfx.Spec {
	g := []ttfx.GSpec{s.Glyphs[0]}
	for i := 0; i < k; i++ {
		g = append(g, ttfx.GSpec{Adv: s.UPM/3 + i, Seed: 7000 + i})
	}
	for _, x := range s.Glyphs[1:] {
		var c []ttfx.CompSpec
		for _, y := range x.Comps {
			if y.GID > 0 {
				y.GID += k
			}
			c = append(c, y)
		}
		x.Comps = c
		g = append(g, x)
	}
	m := map[rune]int{}
	for r, i := range s.Map {
		m[r] = i + k
	}
	s.Glyphs, s.Map = g, m
	return s
}

// FS maps the characters of FA to other glyphs.
var FS = MkFont("S", shiftSpec(stdSpec(6, 1000), 3))

// FX maps some characters to glyphs, and leaves others of FA out.
var FX = func() *FontFix {
	s := shiftSpec(stdSpec(7, 2048), 1)
	for _, r := range []rune{'b', 'H', 0xE9, 0x1F600} {
		delete(s.Map, r)
	}
	s.Map['x'], s.Map['y'] = s.Map['y'], s.Map['x']
	return MkFont("X", s)
}()

func arrangements(n int, k int, f func(ix []int)) {
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) == k {
			f(append([]int{}, cur...))
			return
		}
	next:
		for i := 0; i < n; i++ {
			for _, c := range cur {
				if c == i {
					continue next
				}
			}
			rec(append(cur, i))
		}
	}
	rec(nil)
}

// names: template resource names in every order and distribution, met by added
// fonts and images.
func namesTmpls(f func(name string, t *Tmpl)) {
	fn := []string{"F1", "F2", "F3", "F9", "F10", "TT2"}
	xn := []string{"I1", "I2", "I3", "I9", "I10", "Im1"}
	arrangements(6, 3, func(ix []int) {
		a, b, c := fn[ix[0]], fn[ix[1]], fn[ix[2]]
		x, y, z := xn[ix[0]], xn[ix[1]], xn[ix[2]]
		for _, at := range []string{"one", "own", "ref", "share"} {
			pg := func(k int, fonts, xs []string, res string) *gen.Page {
				p := &gen.Page{Box: fmt.Sprintf("0 0 %d 300", 200+k), Res: res, Fonts: fonts, XObjs: xs, FontAt: "inline", XAt: "inline"}
				if at == "ref" {
					p.FontAt, p.XAt = "ref", "ref"
				}
				for i := range fonts {
					p.Streams = append(p.Streams, gen.Content(k*3+i, fonts[i], xs[i]))
				}
				return p
			}
			var root *gen.Node
			switch at {
			case "one":
				root = gen.Flat(pg(1, []string{a, b, c}, []string{x, y, z}, "own"), pg(2, []string{"F1"}, []string{"I1"}, "own"))
			case "own":
				root = gen.Flat(pg(1, []string{a}, []string{x}, "own"), pg(2, []string{b}, []string{y}, "own"), pg(3, []string{c}, []string{z}, "own"))
			case "ref":
				root = gen.Flat(pg(1, []string{a, b}, []string{x, y}, "ref"), pg(2, []string{c}, []string{z}, "own"), pg(3, []string{b}, []string{x}, "ref"))
			case "share":
				root = gen.Flat(pg(1, []string{a, b, c}, []string{x, y, z}, "share:q"), pg(2, []string{a, b, c}, []string{x, y, z}, "share:q"), pg(3, []string{c}, []string{z}, "own"))
			}
			n := fmt.Sprintf("%s%s%s-%s", a, b, c, at)
			f(n, MkTmpl("names-"+n, (&gen.Template{Root: root, Style: len(n) % 3}).Bytes()))
		}
	})
}

func tx(s string, p int, x, y float64) Op { return OpText(TextArg{s, p, x, y, 100, 30, 8, nil}) }

func namesUses() [][]Op {
	return [][]Op{
		{OpFont("a", FA), OpSet("a", "", 12), tx("Hé", 1, 10, 20), tx("x", 2, 10, 20), tx("y", 3, 10, 20)},
		{OpImg("plain", ImRGB, 1, 5, 6, 30, 20), OpImg("plain", ImJPG, 1, 7, 8, 20, 10), OpImg("cache", ImRGBA, 2, 9, 8, 20, 10), OpImg("plain", ImPal, 1, 7, 30, 20, 10)},
		{OpFont("a", FA), OpFont("b", FS), OpFont("c", FC), OpSet("a", "", 12), tx("Hé", 1, 10, 20), tx("x", 2, 10, 20), OpSet("b", "U", 9), tx("Zz", 2, 30, 40), tx("y", 3, 10, 20), OpSet("c", "", 8), tx("q", 1, 50, 60), tx("p", 3, 50, 60),
			OpImg("plain", ImRGBA, 1, 5, 6, 30, 20), OpImg("cache", ImJPG, 3, 7, 8, 20, 10), OpImg("plain", ImGA, 2, 7, 8, 20, 10)},
	}
}

func wideNames(r *mc.Run) {
	n := 0
	namesTmpls(func(name string, t *Tmpl) {
		for i, u := range namesUses() {
			History(r, "resource-names", t, nil, u)
			if i == 2 {
				h := append(append([]Op{}, u[:10]...), OpSave())
				h = append(h, u[10:]...)
				History(r, "resource-names", t, nil, append(h, OpSave()))
			}
			n++
		}
	})
	r.Bound("all ordered choices of 3 out of 6 font names and image names of the template, in one dictionary, one per page, in referenced and in shared dictionaries, with 3 added fonts and 4 added images (%d histories and as many with intermediate saves)", n)
}

var wideBoxes = []string{"0 0 200 300", "0 50 200 300", "0 -100 200 300", "0 -300 200 0", "0 0 595.275 841.889", "0 0 3.5 1000.25", "0 0 +12 0300", "0.0 0.0 612.0 792.0", "0 0.5 200 0.75"}

// boxes: pages whose size is given in every way, with text, wrapped text and images near the top and the bottom.
func wideBoxesRun(r *mc.Run) {
	for bi, b := range wideBoxes {
		for _, form := range []string{"direct", "ref", "inherit", "inherit2", "both"} {
			for _, st := range []int{0, 1, 2} {
				for pos := 0; pos < 2; pos++ {
					p, q := gen.Simple(1, b), gen.Simple(8, "0 0 222 333")
					ps := []*gen.Page{p, q}
					if pos == 1 {
						ps = []*gen.Page{q, p}
					}
					root := gen.Flat(ps...)
					switch form {
					case "ref":
						p.BoxRef = true
					case "inherit":
						p.Box, root.Box = "", b
					case "inherit2":
						p.Box = ""
						root = &gen.Node{Box: b, Kids: []*gen.Node{{Kids: root.Kids}}}
					case "both":
						root.Box = "0 0 77 88"
						root = &gen.Node{Box: "0 0 99 111", Kids: []*gen.Node{root}}
					}
					tm := MkTmpl(fmt.Sprintf("box%d-%s-s%d-%d", bi, form, st, pos), (&gen.Template{Root: root, Style: st}).Bytes())
					var ops []Op
					ops = append(ops, OpFont("a", FA), OpSet("a", "U", 12))
					for pg := 1; pg <= 2; pg++ {
						for _, al := range []int{pdft.Left | pdft.Top, pdft.Center | pdft.Middle, pdft.Right | pdft.Bottom} {
							ops = append(ops, OpText(TextArg{"Gy", pg, 5, 6.5, 70, 40, al, nil}))
						}
						ops = append(ops, OpImg("plain", ImRGB, pg, 5, 6, 30, 20), OpImg("cache", ImRGBA, pg, 5, 6, 30, 20), OpWrap(TextArg{"aa bb cc", pg, 5, 7, 20, 12, 12, red}))
					}
					History(r, "page-boxes", tm, nil, ops)
					History(r, "page-boxes", tm, nil, append([]Op{OpDup(1, 0), OpRm(3)}, ops...))
					History(r, "page-boxes", tm, nil, append([]Op{OpDup(2, -2), OpRm(1), OpBorder(true)}, ops...))
				}
			}
		}
	}
	r.Bound("%d page boxes (integers, fractions, signs, lower edge below, at and above 0) x {direct, referenced, inherited once and twice, overriding} x 3 layouts x 2 positions, with texts, wrapped texts and images on both pages, also after page edits", len(wideBoxes))
}

var moreRises = append(append([]RiseFn{}, rises...),
	RiseFn{"odd", func(l, r rune, s int, all string, i int) float32 { return float32(i%2) * 3 }},
	RiseFn{"left", func(l, r rune, s int, all string, i int) float32 { return float32(int(l)%11) / 2 }},
	RiseFn{"at", func(l, r rune, s int, all string, i int) float32 {
		rs := []rune(all)
		if i < len(rs) && rs[i] == r {
			return float32(len(rs) - i)
		}
		return 500
	}},
)

// overrides: kerning and text rise of every kind on texts of characters of 1..4 bytes.
func wideOverrides(r *mc.Run) {
	texts := []string{"AV", "\u0e01\u0e48b\u0e02", "é\U0001F600a\u0e48x", "W é", "\u3042\u3043 ab"}
	for _, f := range []*FontFix{FA, FB, FS} {
		for ki := -1; ki < len(kerns); ki++ {
			for ri := -1; ri < len(moreRises); ri++ {
				for _, st := range []string{"", "U"} {
					pre := []Op{OpFont("f", f), OpSet("f", st, 11)}
					if ki >= 0 {
						pre = append(pre, OpKern("f", kerns[ki]))
					}
					if ri >= 0 {
						pre = append(pre, OpRise("f", moreRises[ri]))
					}
					for _, t := range texts {
						History(r, "overrides", T1, pre, []Op{OpMeasure(t), OpText(TextArg{t, 1, 10, 20, 120.5, 30, pdft.Left | pdft.Top, nil}), OpText(TextArg{t + t, 1, 10, 60, 120.5, 30, pdft.Right | pdft.Middle, red}), OpMeasure(t + t)})
					}
				}
			}
		}
	}
	r.Bound("3 fonts x %d kerning and %d text rise overrides x underline x 5 texts of characters of 1 to 4 bytes, left and right aligned", len(kerns)+1, len(moreRises)+1)
}

// fonts that give the same character different glyphs, in one and in two documents.
func wideFonts(r *mc.Run) {
	fs := []*FontFix{FA, FS, FX, FB}
	texts := []string{"xyz", "yé", "bHx \U0001F600"}
	for i, f := range fs {
		for j, g := range fs {
			for _, t1 := range texts {
				for _, t2 := range texts {
					f, g, t1, t2 := f, g, t1, t2
					ops := []Op{OpFont("a", f), OpFont("b", g), OpSet("a", "", 12), tx(t1, 1, 10, 20), OpSet("b", "", 9), tx(t2, 1, 10, 60), tx(t1, 2, 10, 90), OpSet("a", "U", 5), tx(t2, 2, 10, 120), OpMeasure(t1)}
					History(r, "same-characters", T2, nil, ops)
					r.Case("same-characters-two-documents", fmt.Sprintf("%d-%d-%s-%s", i, j, t1, t2), func() error {
						a, err := Open(T1)
						if err != nil {
							return err
						}
						b, err := Open(T2)
						if err != nil {
							return err
						}
						for k := 0; k < 2; k++ {
							for _, st := range []struct {
								w *World
								f *FontFix
								t string
							}{{a, f, t1}, {b, g, t2}} {
								if err := RunOps(st.w, []Op{OpFont("a", st.f), OpSet("a", "", 12), tx(st.t, 1, 10, float64(20+30*k)), OpMeasure(t2)}); err != nil {
									return err
								}
							}
							for _, w := range []*World{a, b} {
								if _, err := SaveVerify(w); err != nil {
									return err
								}
							}
						}
						r.Trace()
						return nil
					})
				}
			}
		}
	}
	r.Bound("all ordered pairs of 4 fonts that map the same characters to different (or no) glyphs x 3x3 texts, in one document and in two")
}

// flips are images equal to a base image but for one sample or byte, at every position.
func flips() (bases []*ImgFix, vars [][]*ImgFix) {
	for _, sp := range []pngx.Spec{
		{W: 5, H: 4, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 3, Store: true},
		{W: 3, H: 3, CT: 6, BPC: 8, IDATs: 2, TRNS: -1, Seed: 4, Store: true},
		{W: 9, H: 3, CT: 3, BPC: 4, Pal: 16, IDATs: 1, TRNS: -1, Seed: 5, Store: true},
		{W: 4, H: 4, CT: 4, BPC: 8, IDATs: 1, TRNS: -1, Seed: 6},
		{W: 64, H: 40, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 7, Store: true},
		{W: 70, H: 50, CT: 4, BPC: 8, IDATs: 3, TRNS: -1, Seed: 8, Store: true},
	} {
		b := MkPNG(fmt.Sprintf("flip%dx%d", sp.W, sp.CT), sp)
		n := sp.W * sp.H * map[int]int{0: 1, 2: 3, 3: 1, 4: 2, 6: 4}[sp.CT]
		var v []*ImgFix
		for k := 1; k <= n; k++ {
			if n > 1000 && k > 3 && k%173 != 0 && k < n-5 && (k < n-400 || k%29 != 0) {
				continue // a large image: both ends and places all over
			}
			q := sp
			q.Flip = k
			im := MkPNG(fmt.Sprintf("flip%dx%d@%d", sp.W, sp.CT, k), q)
			if bytes.Equal(im.B, b.B) {
				panic("harness: flip without effect")
			}
			v = append(v, im)
		}
		bases, vars = append(bases, b), append(vars, v)
	}
	// JPEG: a comment segment of which every byte is different once; data behind the end
	var v []*ImgFix
	com := append([]byte{0xFF, 0xD8, 0xFF, 0xFE, 0x01, 0x02}, bytes.Repeat([]byte{'c'}, 256)...)
	jb := append(append([]byte{}, com...), ImJPG.B[2:]...)
	base := *ImJPG
	base.B, base.Name = jb, "flipjpg"
	mk := func(n string, b []byte) {
		x := base
		x.B, x.Name = b, "flipjpg"+n
		v = append(v, &x)
	}
	for k := 6; k < len(com); k++ {
		b := append([]byte{}, jb...)
		b[k] = 'd'
		mk(fmt.Sprint("@", k), b)
	}
	mk("+1", append(append([]byte{}, jb...), 0))
	mk("+2", append(append([]byte{}, jb...), 0, 0))
	return append(bases, &base), append(vars, v)
}

// cache pairs: the cache tells images apart that differ in one place only.
func wideCache(r *mc.Run) {
	bases, vars := flips()
	n := 0
	for i, b := range bases {
		for _, v := range vars[i] {
			History(r, "nearly-equal", T2, nil, []Op{OpImg("cache", b, 1, 5, 6, 30, 20), OpImg("cache", v, 1, 50, 6, 30, 20), OpImg("cache", b, 2, 5, 66, 30, 20), OpImg("cache", v, 2, 50, 66, 30, 20)})
			n++
		}
	}
	for i, b := range bases {
		for j, c := range bases {
			if i != j {
				History(r, "nearly-equal", T2, nil, []Op{OpImg("cache", b, 1, 5, 6, 30, 20), OpImg("cache", c, 1, 50, 6, 30, 20), OpImg("plain", b, 2, 5, 66, 30, 20), OpImg("cache", b, 2, 50, 66, 30, 20), OpSave(), OpImg("cache", c, 2, 50, 66, 10, 10)})
				n++
			}
		}
	}
	r.Bound("%d pairs of images that differ in one sample or one byte (every position of small ones, 140 places all over of large ones), inserted through the cache on two pages", n)
}

// styles: style strings of all combinations of letters, measured and drawn.
func wideStyles(r *mc.Run) {
	for _, f := range []*FontFix{FA, FB} {
		for _, st := range []string{"", "b", "B", "i", "I", "u", "U", "BI", "bi", "BU", "IU", "UI", "BIU", "biu", "UBI", "uu", "X", " "} {
			for _, sz := range []int{1, 7, 12, 33} {
				for _, al := range []int{pdft.Left | pdft.Top, pdft.Right | pdft.Bottom, pdft.Center | pdft.Middle} {
					for _, t := range []string{"Hxg", "é \u0e01"} {
						History(r, "styles", T2, []Op{OpFont("f", f), OpSet("f", st, sz)}, []Op{OpMeasure(t), OpText(TextArg{t, 2, 11, 12, 90, 25, al, teal}), OpMeasure(""), OpMeasure(t + " "), OpWrap(TextArg{t + " " + t, 1, 3, 4, 25, 10, al, nil})})
					}
				}
			}
		}
	}
	r.Bound("18 style strings x 4 sizes x 3 alignments x 2 fonts, measured, drawn and wrapped")
}

// numbering: object numbers of every magnitude.
func wideNumbers(r *mc.Run, prot bool) {
	for _, base := range []int{0, 3, 5, 8, 9, 97, 98, 240, 250, 253, 255, 995, 9990, 65525, 65530} {
		for _, gaps := range []int{0, 1, 5} {
			for _, ids := range []string{"", "rev"} {
				if base > 60000 && (gaps == 1 || ids == "rev") {
					continue
				}
				p := simplePage(1, "0 0 200 300", true)
				p.Extra, p.Annots = "LastModified=(D:20200101);PieceInfo=<</A<</Private<</B [1 2 (s) <4142>]>>/LastModified(D:2020)>>>>", true
				t := MkTmpl(fmt.Sprintf("nums%d-%d%s", base, gaps, ids), (&gen.Template{Root: gen.Flat(p, simplePage(2, "0 0 200 300", false)), Base: base, Gaps: gaps, IDs: ids, Info: true}).Bytes())
				for _, u := range stdUse() {
					if prot {
						u = append(append([]Op{}, u...), OpProt(12, []byte("u"), []byte("o")))
					}
					History(r, "object-numbers", t, nil, u)
				}
			}
		}
	}
	r.Bound("object numbers starting at 15 values from 1 to 65531 (all byte lengths and digit counts) x 3 sets of free entries x 2 numberings x %d uses", len(stdUse()))
}

// many: documents with many fonts, images and pages.
func wideMany(r *mc.Run) {
	imgs := []*ImgFix{ImRGB, ImRGBA, ImPal, ImGA, ImJPG, ImJPGG}
	for _, n := range []int{1, 2, 5, 8, 9, 10, 11, 12, 21} {
		var io, fo, po []Op
		for i := 0; i < n; i++ {
			im := imgs[(i+i/len(imgs))%len(imgs)]
			io = append(io, OpImg([]string{"plain", "cache", "b64"}[i%3], im, 1+i%2, float64(5+i), float64(6+2*i), 30, 20))
			fn := fmt.Sprintf("f%d", i)
			fo = append(fo, OpFont(fn, []*FontFix{FA, FS, FC}[i%3]), OpSet(fn, []string{"", "U"}[i%2], 5+i), tx(fmt.Sprintf("t%d", i), 1+i%2, 10, float64(20+5*i)))
			po = append(po, OpDup(1+i%2, i%2))
		}
		for k, ops := range [][]Op{io, fo, po, append(append([]Op{}, io...), fo...), append(append(append([]Op{}, po...), fo...), io...), append(append([]Op{}, fo...), OpProt(4, nil, []byte("o")))} {
			if k == 3 {
				h := append(append([]Op{}, io...), OpSave())
				ops = append(append(h, fo...), OpSave())
			}
			for _, t := range []*Tmpl{T2, tmplShared()} {
				History(r, "many", t, []Op{OpFont("z", FB), OpSet("z", "", 4)}, ops)
			}
		}
	}
	r.Bound("documents with 1, 2, 5, 8..12 and 21 images, fonts and copied pages")
}

// generations: the output of one history is the template of the next.
func generation(r *mc.Run, stratum, id string, t *Tmpl, hs ...[]Op) {
	r.Case(stratum, id, func() error {
		cur := t
		for g, h := range hs {
			w, err := Open(cur)
			if err != nil {
				return fmt.Errorf("generation %d: %w", g+1, err)
			}
			if err := RunOps(w, h); err != nil {
				return fmt.Errorf("generation %d: %w", g+1, err)
			}
			out, err := SaveVerify(w)
			if err != nil {
				return fmt.Errorf("generation %d: %w", g+1, err)
			}
			r.Trans(1)
			if g+1 < len(hs) {
				if cur, err = MkReal(fmt.Sprintf("gen%d", g+1), out); err != nil {
					return fmt.Errorf("generation %d: %w", g+1, err)
				}
			}
		}
		r.Trace()
		return nil
	})
}

func wideGenerations(r *mc.Run) {
	imgs := []*ImgFix{ImRGB, ImJPG, ImPal, ImRGBA, ImGA}
	step := func(g, nf, ni int) []Op {
		var o []Op
		for i := 0; i < nf; i++ {
			fn := fmt.Sprintf("f%d", i)
			o = append(o, OpFont(fn, []*FontFix{FA, FS, FC}[(i+g)%3]), OpSet(fn, "", 6+i), tx(fmt.Sprintf("g%dt%d", g, i), 1+i%2, 10, float64(20+5*i)))
		}
		for i := 0; i < ni; i++ {
			o = append(o, OpImg([]string{"plain", "cache"}[i%2], imgs[(g+i)%len(imgs)], 1+i%2, float64(5+i), float64(6+2*i+g), 30, 20))
		}
		return o
	}
	ns := []int{0, 1, 3, 9, 10, 11}
	for ti, t := range []*Tmpl{T1, T3, tmplShared()} {
		for _, a := range ns {
			for _, b := range ns {
				for _, c := range []int{0, 1, 4} {
					if c > 0 && (a > 9 || b > 9) && ti > 0 {
						continue
					}
					generation(r, "generations", fmt.Sprintf("%s:%d,%d,%d", t.Name, a, b, c), t, step(0, c, a), step(1, c, b), step(2, 1, 2))
				}
			}
		}
	}
	for n := 2; n <= 13; n++ {
		var hs [][]Op
		for g := 0; g < n; g++ {
			hs = append(hs, step(g, 1, 1))
		}
		generation(r, "generations", fmt.Sprintf("long%d", n), T2, hs...)
	}
	r.Bound("three generations with 0,1,3,9,10,11 images and 0,1,4 fonts each, and chains of up to 13 generations")
}

// layouts of tokens: every separator in references and headers, every order of entries.
func wideLayouts(r *mc.Run, doc func() *gen.Template, name string, uses [][]Op) {
	ref := MkTmpl(name, doc().Bytes())
	n := 0
	for _, st := range []int{0, 1, 2, 3} {
		for _, rs := range []string{" ", "\t", "\n", "\r\n", "  "} {
			for _, hs := range []string{" ", "\t", "\n", "\r"} {
				for _, oe := range []string{"", "-", " ", "\r\n"} {
					for _, se := range []string{"", "-", " ", "\r\n"} {
						for _, kr := range []bool{false, true} {
							t := doc()
							t.Style, t.RefSep, t.HdrSep, t.ObjEOL, t.StrEOL, t.KeyRev = st, rs, hs, oe, se, kr
							tm := *ref
							tm.B = t.Bytes()
							if v := MkTmpl("variant", tm.B); len(v.Pages) != len(ref.Pages) {
								panic("harness: variant differs")
							}
							tm.Name = fmt.Sprintf("%s-s%d-%q-%q-%q-%q-%v", name, st, rs, hs, oe, se, kr)
							n++
							for k, u := range uses {
								if !r.Thorough() && k != n%len(uses) {
									continue
								}
								History(r, "token-layouts", &tm, nil, u)
							}
						}
					}
				}
			}
		}
	}
	r.Bound("%s in %d token layouts: separators inside references and object headers, between obj and object, before stream, and order of dictionary entries", name, n)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

var _ = strings.Join

// shared contents: pages that share streams, arrays of streams, or name a stream twice.
func wideShared(r *mc.Run) {
	n := 0
	for _, form := range []string{"stream", "array", "arrayref", "array2", "arrayref2", "repeat", "repeatshare"} {
		for _, zip := range []bool{false, true} {
			for _, lr := range []bool{false, true} {
				for _, res := range []string{"own", "ref", "share:k"} {
					for _, third := range []bool{false, true} {
						mk := func(k int) *gen.Page {
							p := gen.Simple(1, fmt.Sprintf("0 0 %d 300", 200+10*k))
							p.Zip, p.LenRef, p.Res, p.ContKey = zip, lr, res, "c"
							if strings.HasSuffix(form, "2") {
								p.Streams = append(p.Streams, gen.Content(2, "F1", ""))
							}
							switch {
							case strings.HasPrefix(form, "arrayref"):
								p.ArrRef = true
							case strings.HasPrefix(form, "array"):
								p.Arr = true
							case form == "repeat":
								p.Repeat, p.ContKey = true, ""
							case form == "repeatshare":
								p.Repeat = true
							}
							return p
						}
						ps := []*gen.Page{mk(1), mk(2)}
						if third {
							ps = append(ps, gen.Simple(7, "0 0 99 99"), mk(3))
						}
						t := MkTmpl(fmt.Sprintf("shared-%s-%v-%v-%s-%v", form, zip, lr, res, third), (&gen.Template{Root: gen.Flat(ps...)}).Bytes())
						f := []Op{OpFont("a", FA), OpSet("a", "", 12)}
						one, two := tx("one", 1, 10, 20), tx("two", 2, 10, 40)
						for _, u := range [][]Op{{}, {one}, {two}, {one, two}, {one, OpSave(), two}, {OpImg("plain", ImRGBA, 2, 5, 6, 30, 20)}, {OpDup(1, 0), tx("three", 2, 1, 2), two}, {OpDup(2, -1), one, OpRm(1)}, {OpKeep(2), one}, {one, OpRm(1), OpSave(), two}, {one, OpProt(4, []byte("u"), []byte("o"))}} {
							History(r, "shared-contents", t, f, u)
							n++
						}
					}
				}
			}
		}
	}
	r.Bound("%d histories on documents whose pages share content streams or arrays of them, or show a stream twice", n)
}

// wideInherited: rotation, crop box, size and resources given at any levels of the
// page tree, under page edits.
func wideInherited(r *mc.Run) {
	attrs := [][3]string{ // values at the root, at a node below, at the page
		{"Rotate=90", "Rotate=180", "Rotate=270"},
		{"CropBox=[1 2 100 200]", "CropBox=[3 4 90 150]", "CropBox=[5 6 80 120]"},
		{"MediaBox=[0 0 500 600]", "MediaBox=[0 0 400 300]", "MediaBox=[0 0 320 210]"},
	}
	edits := []Op{OpDup(1, 0), OpDup(2, 0), OpDup(3, -1), OpRm(1), OpRm(2), OpKeep(2), OpKeep(3), OpSave()}
	n := 0
	for rot := 0; rot < 8; rot++ {
		for crop := 0; crop < 8; crop++ {
			for _, box := range []int{1, 2, 4, 3, 6, 7} {
				if !r.Thorough() && rot != crop && rot&crop != 0 && box != 1 {
					continue
				}
				var at [3]string
				for k, mask := range []int{rot, crop, box} {
					for l := 0; l < 3; l++ {
						if mask>>uint(l)&1 == 1 {
							at[l] = strings.TrimPrefix(at[l]+";"+attrs[k][l], ";")
						}
					}
				}
				page := func(i int, x string) *gen.Node {
					p := gen.Simple(i, "")
					p.Extra = x
					return &gen.Node{P: p}
				}
				rest := at[2]
				if box&1 == 0 && box&2 == 0 && box&4 != 0 { // pages elsewhere have a size too
					rest = "MediaBox=[0 0 330 220]"
				}
				first := ""
				if box&1 == 0 {
					first = "MediaBox=[0 0 310 230]"
				}
				root := &gen.Node{Extra: at[0], Kids: []*gen.Node{page(1, first), {Extra: at[1], Kids: []*gen.Node{page(2, at[2]), {Kids: []*gen.Node{page(3, rest)}}}}}}
				t := MkTmpl(fmt.Sprintf("inherited%d-%d-%d", rot, crop, box), (&gen.Template{Root: root, Style: n % 4}).Bytes())
				n++
				fin := []Op{OpFont("a", FA), OpSet("a", "", 10), tx("p1", 1, 5, 6), tx("p2", 2, 15, 16), OpImg("plain", ImRGB, 2, 1, 2, 10, 10)}
				Seqs(edits, 1, r.Pick(1, 2), func(s []Op) { History(r, "inherited", t, nil, append(s, fin...)) })
				History(r, "inherited", t, nil, append([]Op{OpDup(3, 0), OpRm(2)}, fin...))
				History(r, "inherited", t, nil, append([]Op{OpRm(1), OpKeep(2)}, fin...))
			}
		}
	}
	r.Bound("%d page trees with Rotate, CropBox and MediaBox at any subset of three levels, each under all sequences of up to %d out of 8 page edits", n, r.Pick(1, 2))
}
