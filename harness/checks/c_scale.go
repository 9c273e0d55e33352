package checks

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	pdft "github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"

	"verif/gen"
	"verif/mc"
	"verif/pngx"
	"verif/ttfx"
)

// Strata about growth and size: documents changed step by step, and inputs
// beyond the sizes at which implementations change their ways.

// growth: a text grown character by character (every order of a small set of
// characters), with saves at every subset of the steps.
func wideGrowth(r *mc.Run) {
	sets := []string{"aé\u1E5D", "Hi W", "\u0e01a\U0001F600b"}
	n := 0
	for _, set := range sets {
		cs := []rune(set)
		Perms(len(cs), func(p []int) {
			for mask := 0; mask < 1<<uint(len(cs)); mask++ {
				var h []Op
				for i, k := range p {
					h = append(h, tx(string(cs[k]), 1+i%2, 10, float64(20+10*i)))
					if mask>>uint(i)&1 == 1 {
						h = append(h, OpSave())
					}
				}
				History(r, "growth", T2, []Op{OpFont("f", FA), OpSet("f", "", 9)}, h)
				n++
			}
		})
	}
	// long growth: one new character per step, a save after every k-th
	var all []rune
	for c := range FB.F.Cmap {
		if g, ok := FB.GID(c); ok && g > 0 {
			all = append(all, c)
		}
	}
	sortRunes(all)
	for _, k := range []int{1, 2, 3, 7} {
		var h []Op
		for i, c := range all {
			h = append(h, tx(string(c), 1+i%2, 10, float64(20+i)))
			if i%k == 0 && i < 40 {
				h = append(h, OpSave())
			}
		}
		History(r, "growth", T2, []Op{OpFontPath("f", FB), OpSet("f", "U", 9)}, h)
		n++
	}
	r.Bound("%d histories in which texts bring one new character after another: all orders of 3 sets of 3 or 4 characters with saves at every subset of the steps, and all characters of a font with regular saves", n)
}

func sortRunes(a []rune) {
	for i := range a {
		for j := i; j > 0 && a[j-1] > a[j]; j-- {
			a[j-1], a[j] = a[j], a[j-1]
		}
	}
}

// measuring, drawing and changing what widths depend on, in every order.
func wideMeasureChange(r *mc.Run) {
	alpha := []Op{OpMeasure("AVé W"), OpText(TextArg{"AVé W", 1, 10, 20, 120.5, 30, pdft.Right | pdft.Middle, nil}), OpKern("a", kerns[1]), OpKern("a", kerns[2]), OpSet("a", "", 12), OpSet("a", "U", 7), OpSet("b", "", 12), OpRise("a", rises[1])}
	d := r.Pick(4, 5)
	Seqs(alpha, 2, d, func(s []Op) {
		if s[0].Name[:7] != "measure" && s[1].Name[:7] != "measure" {
			return
		}
		History(r, "measure-change", T1, []Op{OpFont("a", FA), OpFontPath("b", FS), OpSet("a", "", 12)}, append(s, OpMeasure("AVé W")))
	})
	r.Bound("all sequences of up to %d over 8 operations: measuring, drawing, overrides replaced, size, style and font changed, measured again", d)
}

// bigFont has n glyphs; composites are spread over it, the last glyphs are composites of composites.
func bigFont(name string, n int, opt int) *FontFix {
	s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: name, TypoAsc: 800, TypoDesc: -200, UPos: -100, UThk: 50, OS2V: 3, HAsc: 900, HDesc: -300}
	s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 500, Seed: 1}, ttfx.GSpec{Adv: 250, Empty: true})
	for i := 2; i < n; i++ {
		g := ttfx.GSpec{Adv: 200 + i*7%600, Seed: i}
		switch {
		case i > n-20:
			g = ttfx.GSpec{Adv: 444 + i%9, Comps: []ttfx.CompSpec{{GID: i - n/3, Words: i%2 == 0}, {GID: n - i, Scale: i % 4}, {GID: 2 + i%7}}}
		case i%11 == 10:
			g = ttfx.GSpec{Adv: 333, Comps: []ttfx.CompSpec{{GID: i - 3, Scale: i % 4}, {GID: i - 9}}}
		case i%13 == 12:
			g = ttfx.GSpec{Adv: 0, Empty: true}
		}
		s.Glyphs = append(s.Glyphs, g)
	}
	for i := 1; i < n; i++ {
		s.Map[bigRune(i)] = i
	}
	s.LongLoca = opt&1 == 1 || n > 1500
	if s.LongLoca {
		s.Pad = []int{4, 1}[opt>>1&1]
	} else {
		s.Pad = []int{4, 2}[opt>>1&1]
	}
	s.CmapStyle = []string{"delta", "range", "mixed"}[opt>>2%3]
	if s.CmapStyle != "delta" { // the arrays of glyphs hold zeros: characters without a glyph
		for _, i := range []int{5, 6, n / 2} {
			s.Map[bigRune(i)] = 0
		}
	}
	if opt>>4&1 == 1 {
		s.NHM = n / 2
	}
	return MkFont(name, s)
}

func bigRune(i int) rune { return rune(0x100 + i + i/50) }

func wideBigFonts(r *mc.Run) {
	n := 0
	sizes := []int{30, 258, 300, 600}
	if r.Thorough() {
		sizes = append(sizes, 70, 129, 1200, 4000)
	}
	for _, sz := range sizes {
		for opt := 0; opt < 24; opt++ {
			if opt>>2&3 == 3 {
				continue
			}
			f := bigFont(fmt.Sprintf("big%d-%d", sz, opt), sz, opt)
			n++
			pre := []Op{OpFont("f", f), OpSet("f", "", 9)}
			pick := func(from, to, step int) string {
				var o []rune
				for i := max(from, 1); i < min(to, sz); i += step {
					o = append(o, bigRune(i))
				}
				return string(o)
			}
			for _, t := range []string{pick(1, sz, 1), pick(sz-1, sz, 1), pick(sz-25, sz, 1), pick(1, 60, 1), pick(10, 130, 1), pick(3, sz, 7), pick(4, 8, 1), pick(10, sz, 11)} {
				History(r, "big-fonts", T1, pre, []Op{OpMeasure(t), textOp(t)})
			}
			History(r, "big-fonts", T2, pre, []Op{textOp(pick(1, 99, 1)), OpSave(), textOp(pick(99, 102, 1)), OpSave(), textOp(pick(102, sz, 1)), OpSet("f", "U", 7), OpWrap(TextArg{pick(1, 40, 1) + " " + pick(30, 70, 2), 2, 5, 7, 60, 12, 12, nil})})
		}
	}
	r.Bound("%d fonts of up to %d glyphs with composites all over and at the end, x loca {short, long} x glyphs aligned to {4, 2, 1} bytes x 3 cmap layouts with zero entries x metrics, texts of up to all their characters", n, sizes[len(sizes)-1])
}

// wideHeavyFonts: outlines of which the offsets outgrow 16 bits.
func wideHeavyFonts(r *mc.Run) {
	for _, c := range []struct {
		n, pts int
		long   bool
	}{{104, 126, false}, {110, 120, false}, {200, 126, false}, {110, 120, true}, {220, 126, true}, {r.Pick(220, 1000), 250, true}} {
		s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "heavy", TypoAsc: 800, TypoDesc: -200, UPos: -100, UThk: 50, OS2V: 3, HAsc: 900, HDesc: -300, LongLoca: c.long, Pad: 2}
		s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 500, Seed: 1}, ttfx.GSpec{Adv: 250, Empty: true})
		var all []rune
		for i := 2; i < c.n; i++ {
			g := ttfx.GSpec{Adv: 200 + i*7%600, Seed: i, Points: c.pts}
			if i%25 == 24 {
				g = ttfx.GSpec{Adv: 444, Comps: []ttfx.CompSpec{{GID: i - 5}, {GID: i - 20}}}
			}
			s.Glyphs = append(s.Glyphs, g)
			s.Map[bigRune(i)] = i
			all = append(all, bigRune(i))
		}
		f := MkFont(fmt.Sprintf("heavy%d-%d-%v", c.n, c.pts, c.long), s)
		for _, t := range []string{string(all), string(all[len(all)-1:]), string(all[len(all)-9:]), string(all[:3]) + string(all[len(all)-2:]), string(all[:len(all)/2]), string(all[1:])} {
			History(r, "heavy-fonts", T1, []Op{OpFont("f", f), OpSet("f", "", 9)}, []Op{OpMeasure(t), textOp(t), OpSave()})
		}
	}
	r.Bound("6 fonts of up to %d glyphs of up to 1300 bytes each (offsets around and beyond 65535, short and long loca), texts of one to all characters", r.Pick(220, 1000))
}

// wideRise: text rise and kerning at every place of long texts.
func wideRise(r *mc.Run) {
	for _, n := range []int{1, 2, 3, 10, 31, 32, 33, 39, 40, 41, 64, 100, 255, 256, 257, 300} {
		s := strings.Repeat("abc def01Wx", n/11+1)[:n]
		for _, k := range rises {
			for _, kn := range kerns[1:3] {
				History(r, "long-rise", T2, []Op{OpFont("a", FA), OpSet("a", "", 10)}, []Op{OpRise("a", k), tx(s, 1, 5, 6), OpKern("a", kn), OpMeasure(s), tx(s+"b", 2, 7, 9), OpSave(), OpWrap(TextArg{s, 1, 5, 40, 60, 12, 8, nil})})
			}
		}
	}
	r.Bound("texts of 16 lengths from 1 to 300 with text rise (3 functions, all of their arguments used) and kern overrides")
}

// scale: pages, tree nodes, texts and contents in numbers and lengths beyond the usual.
func wideScale(r *mc.Run) {
	long := strings.Repeat("Lorem ipsum dolor sit amet. ", 12)
	use := func(n int) [][]Op {
		f := []Op{OpFont("a", FA), OpSet("a", "", 10)}
		return [][]Op{
			{},
			append(append([]Op{}, f...), tx("first", 1, 10, 20), tx("last", n, 10, 20), tx("mid", (n+1)/2, 10, 20), OpImg("cache", ImRGBA, n, 5, 6, 30, 20), OpImg("cache", ImRGBA, 1, 5, 6, 30, 20)),
			append(append([]Op{}, f...), OpDup(n, 0), OpDup(1, n-1), OpRm((n+1)/2+1), tx("x", n, 10, 20), tx("y", 2, 10, 20), tx(long, 1, 10, 30)),
			append(append([]Op{}, f...), OpKeep(n), tx("kept", 1, 10, 20), OpWrap(TextArg{long, 1, 5, 7, 80, 12, 12, red}), OpProt(4, []byte("u"), []byte("o"))),
		}
	}
	nt := 0
	run := func(name string, root *gen.Node, n int, st int) {
		t := MkTmpl("scale-"+name, (&gen.Template{Root: root, Style: st}).Bytes())
		if len(t.Pages) != n {
			panic("harness: scale " + name)
		}
		nt++
		for _, u := range use(n) {
			History(r, "scale", t, nil, u)
		}
	}
	pg := func(k int) *gen.Page { return gen.Simple(k, fmt.Sprintf("0 0 %d %d", 200+k, 300+k)) }
	// many pages, flat
	for _, n := range []int{9, 10, 33, 64, 65, 100, 130} {
		var ps []*gen.Page
		for k := 1; k <= n; k++ {
			ps = append(ps, pg(k))
		}
		run(fmt.Sprintf("flat%d", n), gen.Flat(ps...), n, n%4)
	}
	// chains: one page at the end of every level, and only at the bottom
	for _, d := range []int{3, 8, 16, 33, 64, 65, 70, 101} {
		bottom := &gen.Node{P: pg(1)}
		both := &gen.Node{P: pg(1)}
		for k := 2; k <= d; k++ {
			bottom = &gen.Node{Kids: []*gen.Node{bottom}}
			l := &gen.Node{P: pg(k)}
			if k%2 == 0 {
				both = &gen.Node{Kids: []*gen.Node{both, l}}
			} else {
				both = &gen.Node{Kids: []*gen.Node{l, both}}
			}
		}
		bottom.Box = "0 0 500 600"
		run(fmt.Sprintf("chain%d", d), bottom, 1, d%4)
		run(fmt.Sprintf("ladder%d", d), both, d, (d+1)%4)
		// the page size is inherited all the way down
		in := &gen.Node{P: &gen.Page{Streams: []string{gen.Content(1, "F1", "")}}}
		for k := 2; k <= d; k++ {
			in = &gen.Node{Kids: []*gen.Node{in}}
		}
		in.Box, in.Res = "0 0 321 654", &gen.Page{Res: "own", Fonts: []string{"F1"}, FontAt: "inline"}
		run(fmt.Sprintf("inherit%d", d), in, 1, d%4)
	}
	// wide: many intermediate nodes with a page each
	for _, n := range []int{10, 65, 90} {
		w := &gen.Node{}
		for k := 1; k <= n; k++ {
			w.Kids = append(w.Kids, &gen.Node{Kids: []*gen.Node{{P: pg(k)}}})
		}
		run(fmt.Sprintf("wide%d", n), w, n, 1)
	}
	// many pages before and behind nodes of several levels
	for _, n := range []int{10, 64, 70, 130} {
		w := &gen.Node{}
		deep := func(k int) *gen.Node {
			return &gen.Node{Kids: []*gen.Node{{P: pg(k)}, {Kids: []*gen.Node{{Kids: []*gen.Node{{P: pg(k + 1)}, {P: pg(k + 2)}}}}}}}
		}
		for k := 1; k <= n; k++ {
			w.Kids = append(w.Kids, &gen.Node{P: pg(k)})
		}
		w.Kids = append([]*gen.Node{deep(n + 1)}, append(w.Kids, deep(n+4))...)
		run(fmt.Sprintf("mixed%d", n), w, n+6, 0)
	}
	// pages with many fonts and images of their own
	for _, n := range []int{20, 99, 100, 130} {
		for _, at := range []string{"inline", "ref"} {
			p := &gen.Page{Box: "0 0 200 300", Res: "own", FontAt: at, XAt: at}
			for k := 1; k <= n; k++ {
				p.Fonts, p.XObjs = append(p.Fonts, fmt.Sprint("F", k)), append(p.XObjs, fmt.Sprint("I", k))
			}
			p.Streams = []string{gen.Content(1, fmt.Sprint("F", n), fmt.Sprint("I", n)), gen.Content(2, "F1", "I1")}
			run(fmt.Sprintf("resources%d-%s", n, at), gen.Flat(p, pg(2)), 2, 0)
		}
	}
	r.Bound("%d page trees: up to 130 pages beside nodes of several levels, pages with up to 130 fonts and images, 9..130 pages flat, chains, ladders and inheritance over 3..101 levels, 10..90 intermediate nodes", nt)
	// contents of every magnitude
	for _, sz := range []int{1, 100, 511, 512, 513, 4095, 4096, 4097, 65535, 65536, 70000, 200000} {
		for _, zip := range []bool{false, true} {
			p := gen.Simple(1, "0 0 200 300")
			c := gen.Content(1, "F1", "")
			for i := 0; len(c) < sz; i++ {
				c += fmt.Sprintf("%d %d m\n", i%200, i*7%300)
			}
			p.Streams, p.Zip = []string{c + "n\n"}, zip
			t := MkTmpl(fmt.Sprintf("scale-content%d-%v", sz, zip), (&gen.Template{Root: gen.Flat(p, pg(2))}).Bytes())
			for _, u := range use(2) {
				History(r, "scale-content", t, nil, u)
			}
		}
	}
	// many streams of one page
	for _, k := range []int{4, 9, 10, 40} {
		p := gen.Simple(1, "0 0 200 300")
		for i := 2; i <= k; i++ {
			p.Streams = append(p.Streams, gen.Content(i, "F1", ""))
		}
		t := MkTmpl(fmt.Sprintf("scale-streams%d", k), (&gen.Template{Root: gen.Flat(p, pg(2))}).Bytes())
		for _, u := range use(2) {
			History(r, "scale-content", t, nil, u)
		}
	}
	// many inserts on one page, long texts
	for _, n := range []int{30, 100, 300} {
		h := []Op{OpFont("a", FA), OpSet("a", "", 10)}
		for i := 0; i < n; i++ {
			h = append(h, OpText(TextArg{fmt.Sprintf("t%d", i), 1 + i%2, float64(i), float64(2 * i), 50, 20, i % 64, []*pdft.FontColor{nil, red, teal}[i%3]}))
			if i%10 == 9 {
				h = append(h, OpSet("a", []string{"U", ""}[i/10%2], 5+i%20))
			}
			if i%25 == 24 {
				h = append(h, OpImg([]string{"plain", "cache"}[i/25%2], []*ImgFix{ImRGB, ImPal, ImJPG}[i/25%3], 1, float64(i), 5, 30, 20))
			}
		}
		History(r, "scale-inserts", T2, nil, h)
		History(r, "scale-inserts", T2, nil, append(h, OpSave(), tx("after", 1, 1, 2)))
	}
	for _, n := range []int{50, 255, 256, 257, 1000, 5000} {
		s := strings.Repeat("abc déf 01", n/10+1)[:n]
		if s[len(s)-1] >= 0x80 {
			s = s[:len(s)-1]
		}
		History(r, "scale-inserts", T1, nil, []Op{OpFont("a", FA), OpSet("a", "U", 10), OpMeasure(s), OpText(TextArg{s, 1, 5, 6, 300, 20, pdft.Right, nil}), OpWrap(TextArg{s, 1, 5, 6, 150, 20, 8, nil})})
	}
	r.Bound("contents of 1 to 200000 bytes, up to 40 streams per page, up to 300 inserts per page, texts of up to 5000 characters")
}

// wideImages: how the data of a PNG is split into chunks, and images of larger sizes.
func wideImages(r *mc.Run) {
	n := 0
	base := []pngx.Spec{
		{W: 3, H: 2, CT: 2, BPC: 8, Filter: 5, TRNS: -1, Seed: 1},
		{W: 2, H: 3, CT: 6, BPC: 8, Filter: 5, TRNS: -1, Seed: 2},
		{W: 4, H: 2, CT: 3, BPC: 4, Pal: 5, TRNS: 1, Seed: 3},
		{W: 2, H: 2, CT: 4, BPC: 8, Filter: 1, TRNS: -1, Seed: 4},
		{W: 9, H: 3, CT: 0, BPC: 1, Filter: 2, TRNS: -1, Seed: 4},
	}
	idat := func(sp pngx.Spec) int { // length of the data
		b, _ := sp.Encode()
		k := bytes.Index(b, []byte("IDAT"))
		return int(b[k-2])<<8 | int(b[k-1])
	}
	for bi, sp := range base {
		sp.IDATs = 1
		l := idat(sp)
		var parts [][]int
		for k := 0; k <= l; k++ {
			parts = append(parts, []int{k})
			for j := 0; j <= l-k; j += 1 + l/6 {
				parts = append(parts, []int{k, j}, []int{0, k, j}, []int{k, 0, j})
			}
		}
		ones := make([]int, l)
		for i := range ones {
			ones[i] = 1
		}
		parts = append(parts, ones, ones[:l-1], ones[:l/2])
		for pi, p := range parts {
			q := sp
			q.Parts = p
			im := MkPNG(fmt.Sprintf("parts%d-%d", bi, pi), q)
			n++
			History(r, "chunks", T2, nil, []Op{OpImg("plain", im, 1, 10, 20, 33, 44), OpImg("cache", im, 2, 10, 20, 33, 44)})
		}
	}
	r.Bound("%d PNG files: the data of 5 images split into chunks at every position and pair of positions, with empty chunks, byte by byte", n)
	n = 0
	for _, s := range [][2]int{{65, 3}, {300, 2}, {1, 300}, {2, 257}, {256, 1}, {100, 100}, {400, 300}} {
		for _, ct := range []int{0, 2, 3, 4, 6} {
			for _, bpc := range map[int][]int{0: {1, 8}, 2: {8}, 3: {2, 8}, 4: {8}, 6: {8}}[ct] {
				for _, st := range []bool{false, true} {
					for _, fl := range []int{0, 4, 5} {
						if s[0]*s[1] > 9999 && fl != 5 {
							continue
						}
						sp := pngx.Spec{W: s[0], H: s[1], CT: ct, BPC: bpc, Filter: fl, IDATs: 1 + n%3*4, Pal: 1 << uint(bpc), TRNS: -1, Seed: n % 7, Store: st}
						im := MkPNG(fmt.Sprintf("large%dx%d-%d/%d-%v-%d", s[0], s[1], ct, bpc, st, fl), sp)
						n++
						History(r, "large-images", T2, nil, []Op{OpImg([]string{"plain", "cache", "b64"}[n%3], im, 1, 10, 20, 33, 44)})
					}
				}
			}
		}
	}
	r.Bound("%d PNG files of up to 400x300 pixels in every colour type", n)
	// forms of PNG that may be refused: an accepted one is shown as it is
	n = 0
	for _, s := range [][2]int{{1, 1}, {2, 3}, {9, 10}} {
		for _, ct := range []int{0, 2, 3, 4, 6} {
			for _, bpc := range map[int][]int{0: {1, 2, 4, 8, 16}, 2: {8, 16}, 3: {1, 2, 4, 8}, 4: {8, 16}, 6: {8, 16}}[ct] {
				for _, il := range []bool{false, true} {
					if bpc < 16 && !il {
						continue
					}
					for fl := 0; fl <= 5; fl++ {
						sp := pngx.Spec{W: s[0], H: s[1], CT: ct, BPC: bpc, Filter: fl, IDATs: 1, Pal: 1 << uint(bpc), TRNS: -1, Seed: n % 7, Interlace: il}
						im := MkPNG(fmt.Sprintf("rare%dx%d-%d/%d-%v-%d", s[0], s[1], ct, bpc, il, fl), sp)
						n++
						for _, md := range []string{"plain", "cache", "b64"} {
							r.Case("refused-or-shown", im.Name+":"+md, func() error {
								w, err := Open(T2)
								if err != nil {
									return err
								}
								if err := RunOps(w, []Op{OpImg(md, im, 1, 10, 20, 33, 44)}); err != nil {
									r.Trace()
									return nil // refused
								}
								_, err = SaveVerify(w)
								r.Trace()
								return err
							})
						}
					}
				}
			}
		}
	}
	r.Bound("%d PNG files with 16 bits per sample or interlaced, in every colour type and filter: refused, or shown with their pixels", n)
	for _, al := range [][]byte{{255}, {0}, {255, 0}, {255, 255, 255, 0}, {0, 255, 255, 255}, {255, 255}, {0, 0}, {255, 0, 255, 0}, {128}, {0, 128}} {
		for _, bpc := range []int{2, 8} {
			sp := pngx.Spec{W: 7, H: 5, CT: 3, BPC: bpc, Filter: 5, IDATs: 1, Pal: 4, TRNS: -1, Seed: 2, Alpha: al}
			History(r, "palette-alpha", T2, nil, []Op{OpImg("plain", MkPNG(fmt.Sprintf("alpha%v/%d", al, bpc), sp), 1, 10, 20, 33, 44)})
		}
	}
	r.Bound("10 transparency tables of a palette x 2 depths")
	for _, im := range []*ImgFix{ImRGB, ImRGBA, ImPal, ImGA, ImJPG, ImJPGG} {
		for _, md := range []string{"b64lf", "b64crlf"} {
			History(r, "base64-lines", T2, nil, []Op{OpImg(md, im, 1, 10, 20, 33, 44), OpImg("cache", im, 2, 10, 20, 33, 44)})
		}
	}
	// JPEG with an Adobe marker that says the samples are RGB
	for _, tr := range []byte{0, 1} {
		im := jpg("adobe", 17, 9, false)
		b := append([]byte{0xFF, 0xD8, 0xFF, 0xEE, 0, 14, 'A', 'd', 'o', 'b', 'e', 0, 100, 0, 0, 0, 0, tr}, im.B[2:]...)
		ad := &ImgFix{Name: fmt.Sprintf("adobe%d", tr), B: b, W: 17, H: 9, CSp: "DeviceRGB"}
		for _, md := range []string{"plain", "cache", "b64"} {
			r.Case("refused-or-shown", ad.Name+":"+md, func() error {
				w, err := Open(T2)
				if err != nil {
					return err
				}
				if err := RunOps(w, []Op{OpImg(md, ad, 1, 10, 20, 33, 44)}); err != nil {
					r.Trace()
					return nil
				}
				_, err = SaveVerify(w)
				r.Trace()
				return err
			})
		}
	}
}

// streamKinds is a document with a stream of every type a catalog or page may lead to.
func streamKinds() *gen.Template {
	kinds := []string{"<</Type/Metadata/Subtype/XML>>", "<</Type/EmbeddedFile/Subtype/text#2Fplain>>", "<</Type/CMap/CMapName/X>>", "<</Type/Pattern/PatternType 1/PaintType 1/TilingType 1/BBox[0 0 1 1]/XStep 1/YStep 1/Resources<<>>>>",
		"<</FunctionType 4/Domain[0 1]/Range[0 1]>>", "<</Type/Halftone/HalftoneType 6/Width 1/Height 1>>", "<</Type/XObject/Subtype/Form/BBox[0 0 1 1]>>", "<</Type/XObject/Subtype/Image/Width 1/Height 1/ColorSpace/DeviceGray/BitsPerComponent 8/Filter/DCTDecode>>",
		"<</N 3/Alternate/DeviceRGB>>", "<<>>", "<</Subtype/Type1C>>", "<</Length1 5/Length2 0/Length3 0>>", "<</Type/Sound/R 8000>>", "<</Subtype/U3D/Type/3D>>"}
	t := &gen.Template{}
	x := "Kinds=["
	for i, k := range kinds {
		t.Objs = append(t.Objs, gen.Extra{Raw: k, Data: []byte(fmt.Sprintf("plain stream data %d \x00\xff", i))})
		x += fmt.Sprintf("@o%d@ ", i)
	}
	p, q := gen.Simple(1, "0 0 200 300"), gen.Simple(2, "0 0 210 310")
	p.Extra = "Metadata=@o0@;AF=[@o1@]"
	t.RootX = x + "];Metadata=@o0@"
	t.Root = gen.Flat(p, q)
	return t
}

// breaker tests with other characters: only spaces end words.
func wideBreaks(r *mc.Run) {
	pre := []Op{OpFont("a", FA), OpSet("a", "", 10)}
	for _, alpha := range [][]rune{{'a', '-', ' '}, {'W', '\t', ' ', ','}, {'a', 0xA0, ' ', '/'}, {'.', '\n', 'é', ' '}, {'a', '\u200b', '\u00ad', ' '}, {'1', '\r', '_', ' '}} {
		strs(alpha, 1, r.Pick(4, 6), func(s string) {
			for _, wd := range []float64{1, 14, 40} {
				History(r, "break-characters", T1, pre, []Op{OpWrap(TextArg{s, 1, 5.5, 7.25, wd, 12, 8, red})})
			}
			r.Case("basic-breaker", fmt.Sprintf("%q", s), func() error {
				t, err := (textbreak.BasicTextbreak{}).BreakTextToToken(s)
				if err != nil {
					return err
				}
				if strings.Join(t, "") != s {
					return fmt.Errorf("tokens %q do not join to the text %q", t, s)
				}
				var k []string
				for _, x := range t {
					if x != "" {
						k = append(k, x)
					}
				}
				if fmt.Sprint(k) != fmt.Sprint(modelBreak(s)) {
					return fmt.Errorf("tokens of %q are %q, expected %q", s, k, modelBreak(s))
				}
				r.Trace()
				return nil
			})
		})
	}
	r.Bound("all texts of up to %d characters over 6 sets with hyphens, tabs, no-break and zero width spaces, soft hyphens, line ends and punctuation", r.Pick(4, 6))
}

var errIncomplete = errors.New("saving reported success, but the file is not complete")

// complete tells whether b begins and ends like a PDF file.
func complete(b []byte) bool {
	return bytes.HasPrefix(b, []byte("%PDF-")) && bytes.Contains(b[max(0, len(b)-64):], []byte("%%EOF")) && bytes.Contains(b[max(0, len(b)-200):], []byte("startxref"))
}

// wideStrings: literal and hexadecimal strings of every spelling in the entries of pages, catalog and annotations.
func wideStrings(r *mc.Run, prot bool) {
	toks := []string{"a", "\r", "\r\n", "\n", "\t", "  ", "\\\r\n", "\\\r", "\\\n", " /N ", " [", "] ", " <<", ">> ", "(x)", "\\(", "\\)", "\\\\", "\\12", "\\0128", "\\n", "\xe9\xff", "%c", "\x00", " 5 0 R", "\\q", "<41>"}
	n := 0
	run := func(s string) {
		for _, at := range []string{"page", "nested", "catalog", "object"} {
			p, q := gen.Simple(1, "0 0 200 300"), gen.Simple(2, "0 0 210 310")
			t := &gen.Template{Root: gen.Flat(p, q)}
			switch at {
			case "page":
				p.Extra = "LastModified=" + s
			case "nested":
				p.Extra = "PieceInfo=<</A<</Private<</B [1 " + s + " 2]>>>>>>"
			case "catalog":
				t.RootX = "Lang=" + s
			case "object":
				p.Extra = "Annots=[@o0@]"
				t.Objs = []gen.Extra{{Raw: "<</Type/Annot/Subtype/Text/Contents" + s + "/Rect[5 5 20 20]>>"}}
			}
			tm := MkTmpl(fmt.Sprintf("str-%s-%q", at, s), t.Bytes())
			u := []Op{OpFont("a", FA), OpSet("a", "", 12), tx("Hé", 1, 10, 20), OpImg("plain", ImRGB, 1, 5, 6, 30, 20)}
			switch {
			case prot:
				u = append(u, OpProt(4, []byte("u"), []byte("o")))
			case n%2 == 1:
				u = append(u, OpDup(1, 0), OpSave())
			}
			n++
			History(r, "string-forms", tm, nil, u)
		}
	}
	for _, a := range toks {
		for _, b := range toks {
			run("(" + a + b + ")")
			if r.Thorough() {
				for _, c := range toks {
					run("(" + a + b + c + ")")
				}
			}
		}
	}
	for d := 2; d <= 9; d++ {
		run(strings.Repeat("(", d) + "x" + strings.Repeat(")", d))
		run("(" + strings.Repeat("(a)", d) + ")")
		run(strings.Repeat("(a", d) + strings.Repeat("b)", d))
	}
	for _, h := range []string{"<>", "<4>", "<41>", "<4 1>", "<41\n42>", "<\t41 4\r>", "<fEfF0041>", "<00>", "<5C28>", "<0D0A>"} {
		run(h)
	}
	r.Bound("%d documents with strings in page entries, nested dictionaries, the catalog and annotations: all pairs of %d spellings (line ends, continuations, escapes, delimiters, words of the syntax), hexadecimal strings", n, len(toks))
}

// structureWords: words of the file structure inside of strings and contents.
func structureWords(r *mc.Run) {
	for wi, word := range []string{"endobj", ">> stream", "startxref", "trailer", "xref", "endstream", "1 0 obj", "%%EOF", "0000000000 00000 n"} {
		for _, at := range []string{"page", "object", "content", "content-zip"} {
			p, q := gen.Simple(1, "0 0 200 300"), gen.Simple(2, "0 0 210 310")
			t := &gen.Template{Root: gen.Flat(p, q)}
			switch at {
			case "page":
				p.Extra = "LastModified=(a " + word + " b)"
			case "object":
				p.Extra = "Annots=[@o0@]"
				t.Objs = []gen.Extra{{Raw: "<</Type/Annot/Subtype/Text/Contents(a " + word + " b)/Rect[5 5 20 20]>>"}}
			default:
				if word == "endstream" && at == "content" {
					continue // not a valid file
				}
				p.Streams, p.Zip = []string{"BT /F1 12 Tf 3 4 Td (a " + word + " b) Tj ET\n"}, at == "content-zip"
			}
			tm := MkTmpl(fmt.Sprintf("word%d-%s", wi, at), t.Bytes())
			History(r, "structure-words", tm, nil, []Op{OpFont("a", FA), OpSet("a", "", 12), tx("Hé", 1, 10, 20), OpImg("plain", ImRGB, 1, 5, 6, 30, 20)})
		}
	}
	r.Bound("9 words of the file structure in strings of page and annotation dictionaries and in contents")
}

// wideSpaces: white space of every kind at every pair of places.
func wideSpaces(r *mc.Run, doc func() *gen.Template, name string, uses [][]Op) {
	ref := MkTmpl(name, doc().Bytes())
	ws := []string{"", " ", "\t", "\n", "\r", "\r\n", "  ", " \t\n"}
	place := func(t *gen.Template, k int, s string) {
		w := t.WS
		*[]*string{&w.DOpen, &w.DKey, &w.DEnd, &w.DClose, &w.AOpen, &w.ASep, &w.AClose, &w.End, &t.StrEOL, &t.ObjEOL}[k] = s
		if (k == 8 || k == 9) && s == "" {
			*[]*string{&t.StrEOL, &t.ObjEOL}[k-8] = "-"
		}
	}
	n := 0
	for base := 0; base < 2; base++ { // compact or with spaces elsewhere
		for i := 0; i < 10; i++ {
			for j := i; j < 10; j++ {
				for _, a := range ws {
					for _, b := range ws {
						if i == j && a != b {
							continue
						}
						t := doc()
						t.WS = &gen.WS{}
						for k := 0; k < 10; k++ {
							place(t, k, []string{"", " "}[base])
						}
						place(t, i, a)
						place(t, j, b)
						tm := *ref
						tm.B = t.Bytes()
						if v := MkTmpl("variant", tm.B); len(v.Pages) != len(ref.Pages) {
							panic("harness: variant differs")
						}
						tm.Name = fmt.Sprintf("%s-w%d-%d%q-%d%q", name, base, i, a, j, b)
						for k, u := range uses {
							if !r.Thorough() && k != (n+n/len(uses))%len(uses) {
								continue
							}
							History(r, "white-space", &tm, nil, u)
						}
						n++
					}
				}
			}
		}
	}
	r.Bound("%s in %d layouts: 8 kinds of white space at every pair out of 10 places (inside dictionaries and arrays, around obj, stream, endobj), compact or with spaces elsewhere", name, n)
}

// oddTexts: texts and styles are any strings.
func oddTexts(r *mc.Run) {
	ts := []string{"", " ", "\n", "a\nb", "a\tb", "a\rb", "\x00", "a\x00b", "\xff", "a\xffé", "\xe0\xb8", "\ufeffa", "\ufffd", "a\u0301", "\u200b", "\u0e01\u0e49\u0e33", "()", "(", ")", "\\", "\\)", "<41>", "<<>>", "%", "a%b", "[x] TJ", ") Tj", "ET Q", "endstream", "endobj", "/F1 12 Tf", strings.Repeat("wide ", 300)}
	for _, f := range []*FontFix{FA, FB} {
		for _, a := range ts {
			pre := []Op{OpFont("f", f), OpSet("f", "U", 11)}
			History(r, "odd-texts", T2, pre, []Op{tx(a, 1, 10, 20), OpMeasure(a)})
			for _, al := range []int{pdft.Right | pdft.Bottom, pdft.Center | pdft.Middle} {
				History(r, "odd-texts", T2, pre, []Op{OpText(TextArg{a, 2, 10, 20, 300, 40, al, nil})})
			}
			for _, b := range ts {
				History(r, "odd-texts", T2, pre, []Op{tx(a+b, 1, 10, 20)})
			}
		}
	}
	r.Bound("%d texts with control characters, invalid UTF-8, delimiters and operators of the file format, and all their concatenations in pairs", len(ts))
	letters := []string{"", "U", "B", "I", "u", "b", "i", "x", " "}
	n := 0
	for _, a := range letters {
		for _, b := range letters {
			for _, c := range letters {
				n++
				History(r, "styles", T1, []Op{OpFont("f", FA)}, []Op{OpSet("f", a+b+c, 11), tx("Hé", 1, 10, 20), OpSet("f", "", 12), tx("x", 1, 10, 50)})
			}
		}
	}
	r.Bound("%d style strings", n)
}

// wideReplaced: overrides given, replaced and used before and after saves.
func wideReplaced(r *mc.Run) {
	alpha := []Op{OpKern("a", kerns[1]), OpKern("a", kerns[3]), OpRise("a", rises[1]), OpRise("a", rises[2]), OpKern("b", kerns[2]), OpSave(), tx("AVé W", 1, 10, 20), OpSet("b", "", 9)}
	d := r.Pick(3, 5)
	Seqs(alpha, 1, d, func(s []Op) {
		History(r, "overrides", T1, []Op{OpFont("a", FA), OpFont("b", FS), OpSet("a", "", 12)}, append(append([]Op{tx("WaV", 1, 5, 6)}, s...), tx("Va", 1, 7, 9), OpMeasure("AV")))
	})
	r.Bound("all sequences of up to %d over 8 operations: kern and rise overrides of two fonts, saves, texts", d)
}

// wideFontFile: fonts from one path under several names, and a path of which the file changes.
func wideFontFile(r *mc.Run) {
	fixes := []*FontFix{FA, FS, FB}
	ops := []string{"add a", "add b", "add c", "swap", "kern", "rise", "text", "save"}
	d := r.Pick(4, 5)
	var rec func(cur []string)
	rec = func(cur []string) {
		if n := len(cur); n > 0 {
			if cur[n-1] != "text" && cur[n-1] != "save" && n < d {
				goto down
			}
			seq := append([]string{}, cur...)
			r.Case("font-file", strings.Join(seq, ","), func() error {
				dir, err := os.MkdirTemp(os.Getenv("VP_SCRATCH"), "fontfile")
				if err != nil {
					return nil
				}
				defer os.RemoveAll(dir)
				path, now := filepath.Join(dir, "font.ttf"), 0
				put := func() error { return os.WriteFile(path, fixes[now%len(fixes)].B, 0600) }
				if err := put(); err != nil {
					return nil
				}
				w, err := Open(T2)
				if err != nil {
					return err
				}
				add := func(name string) error {
					f := fixes[now%len(fixes)]
					err := w.P.AddFont(name, path)
					if _, dup := w.M.Fonts[name]; dup {
						if err != pdft.ErrAddSameFontName {
							return fmt.Errorf("second font with the name %q: error is %v", name, err)
						}
						return nil
					}
					if err != nil {
						return fmt.Errorf("adding font: %v", err)
					}
					w.M.Fonts[name] = &MFont{Fix: f, Used: map[rune]bool{}}
					w.M.Order = append(w.M.Order, name)
					return nil
				}
				texts := map[string]string{"a": "AV", "b": "Wé", "c": "xH"}
				draw := func(y float64) error {
					for _, n := range []string{"a", "b", "c"} {
						if w.M.Fonts[n] != nil {
							if err := RunOps(w, []Op{OpSet(n, "", 9), tx(texts[n], 1, 10, y)}); err != nil {
								return err
							}
						}
					}
					return nil
				}
				if err := add("a"); err != nil {
					return err
				}
				for i, o := range seq {
					var err error
					last := "a"
					if n := len(w.M.Order); n > 0 {
						last = w.M.Order[n-1]
					}
					switch o {
					case "add a", "add b", "add c":
						err = add(o[4:])
					case "swap":
						now++
						put()
					case "kern":
						err = OpKern(last, kerns[1]).Do(w)
					case "rise":
						err = OpRise(last, rises[1]).Do(w)
					case "text":
						err = draw(float64(20 + i))
					case "save":
						_, err = SaveVerify(w)
					}
					if err != nil {
						return fmt.Errorf("step %d %s: %w", i+1, o, err)
					}
					r.Trans(1)
				}
				if err := draw(100); err != nil {
					return err
				}
				if _, err := SaveVerify(w); err != nil {
					return err
				}
				r.State(strings.Join(seq, ",") + w.M.Key())
				r.Trace()
				return nil
			})
		}
	down:
		if len(cur) == d {
			return
		}
		for _, o := range ops {
			rec(append(cur, o))
		}
	}
	rec(nil)
	r.Bound("all sequences of up to %d over 8 operations with fonts from one path under three names, the file replaced by other fonts, overrides, texts and saves", d)
}
