package checks

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/jpeg"

	pdft "github.com/signintech/pdft"

	"verif/gen"
	"verif/pngx"
	"verif/ttfx"
)

// stdSpec is a font with letters, digits, punctuation, accented composites, a
// nested composite, an empty glyph (space), shared glyphs and characters
// outside of the BMP.
func stdSpec(seed, upm int) ttfx.Spec {
	s := ttfx.Spec{UPM: upm, Map: map[rune]int{}, Name: fmt.Sprintf("Std%d", seed), TypoAsc: upm*8/10 + seed, TypoDesc: -upm*2/10 - seed*3,
		UPos: -upm / 10, UThk: upm / 20, OS2V: 3, HAsc: upm * 9 / 10, HDesc: -upm * 3 / 10}
	add := func(g ttfx.GSpec, rs ...rune) int {
		s.Glyphs = append(s.Glyphs, g)
		n := len(s.Glyphs) - 1
		for _, r := range rs {
			s.Map[r] = n
		}
		return n
	}
	add(ttfx.GSpec{Adv: upm / 2, Seed: seed}) // .notdef
	add(ttfx.GSpec{Adv: upm / 4, Empty: true}, ' ', 0xA0)
	k := 0
	rng := func(a, b rune) {
		for r := a; r <= b; r++ {
			k++
			add(ttfx.GSpec{Adv: upm*3/10 + (k*37+seed*11)%(upm/3), Seed: seed*100 + k}, r)
		}
	}
	rng('0', '9')
	rng('A', 'Z')
	rng('a', 'z')
	rng('!', '/')
	acute := add(ttfx.GSpec{Adv: upm / 5, Seed: seed*100 + 90}, 0xB4)
	e := s.Map['e']
	eac := add(ttfx.GSpec{Adv: upm * 4 / 10, Comps: []ttfx.CompSpec{{GID: e}, {GID: acute, Words: true, Scale: 1}}}, 0xE9)
	add(ttfx.GSpec{Adv: upm * 6 / 10, Comps: []ttfx.CompSpec{{GID: eac, Scale: 2}, {GID: s.Map['a'], Scale: 3}, {GID: acute}}}, 0x1E5D)
	rng(0x0E01, 0x0E05) // Thai
	add(ttfx.GSpec{Adv: 0, Seed: seed*100 + 95}, 0x0E48)
	rng(0x3042, 0x3044)
	s.Map[0x03A9] = s.Map['O'] // shares a glyph
	rng(0x1F600, 0x1F602)
	rng(0x20000, 0x20000)
	return s
}

var (
	FA = MkFont("A", stdSpec(1, 1000))
	FB = func() *FontFix {
		s := stdSpec(2, 2048)
		s.LongLoca = true
		s.CmapStyle = "range"
		s.NHM = 40
		return MkFont("B", s)
	}()
	FC = func() *FontFix { // no characters outside of the BMP
		s := stdSpec(3, 1024)
		s.NoFmt12 = true
		s.CmapStyle = "mixed"
		s.NoHint = true
		for r := range s.Map {
			if r > 0xFFFF {
				delete(s.Map, r)
			}
		}
		return MkFont("C", s)
	}()
)

func jpg(name string, w, h int, gray bool) *ImgFix {
	var b bytes.Buffer
	csn := "DeviceRGB"
	if gray {
		csn = "DeviceGray"
		im := image.NewGray(image.Rect(0, 0, w, h))
		for i := range im.Pix {
			im.Pix[i] = byte(i * 13)
		}
		jpeg.Encode(&b, im, nil)
	} else {
		im := image.NewRGBA(image.Rect(0, 0, w, h))
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				im.Set(x, y, color.RGBA{byte(x * 40), byte(y * 30), byte(x * y), 255})
			}
		}
		jpeg.Encode(&b, im, nil)
	}
	return &ImgFix{Name: name, B: b.Bytes(), W: w, H: h, CSp: csn}
}

var (
	ImRGB  = MkPNG("rgb", pngx.Spec{W: 3, H: 2, CT: 2, BPC: 8, Filter: 5, IDATs: 1, TRNS: -1, Seed: 1})
	ImRGBA = MkPNG("rgba", pngx.Spec{W: 2, H: 3, CT: 6, BPC: 8, Filter: 5, IDATs: 2, TRNS: -1, Seed: 2})
	ImPal  = MkPNG("pal", pngx.Spec{W: 4, H: 2, CT: 3, BPC: 4, Pal: 5, Filter: 0, IDATs: 1, TRNS: -1, Seed: 3})
	ImGA   = MkPNG("ga", pngx.Spec{W: 2, H: 2, CT: 4, BPC: 8, Filter: 1, IDATs: 1, TRNS: -1, Seed: 4})
	ImJPG  = jpg("jpg", 5, 4, false)
	ImJPGG = jpg("jpgg", 4, 3, true)
)

// ---- templates

func simplePage(k int, box string, zip bool) *gen.Page {
	p := gen.Simple(k, box)
	p.Zip = zip
	return p
}

var (
	T1 = MkTmpl("one", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false))}).Bytes())
	T3 = MkTmpl("three", (&gen.Template{Root: gen.Flat(
		simplePage(1, "0 0 200 300", true),
		&gen.Page{Box: "0 0 595.28 841.89", Streams: []string{gen.Content(2, "F3", ""), gen.Content(3, "", "Im1")}, Res: "ref", Fonts: []string{"F3", "F1"}, FontAt: "ref", XObjs: []string{"Im1"}, XAt: "inline", Annots: true, Rotate: 90},
		&gen.Page{Box: "0 0 400 500", Streams: []string{gen.Content(4, "TT2", "")}, Res: "own", Fonts: []string{"TT2"}, FontAt: "inline", Extra: "CropBox=[10 10 390 490]"},
	), Style: 1, Info: true}).Bytes())
	// nested tree with inherited attributes and shared resources
	TN = MkTmpl("nested", (&gen.Template{Root: &gen.Node{Box: "0 0 300 400", Res: &gen.Page{Res: "own", Fonts: []string{"F1"}, FontAt: "inline"}, Kids: []*gen.Node{
		{P: &gen.Page{Streams: []string{gen.Content(1, "F1", "")}}},
		{Box: "0 0 250 350", Kids: []*gen.Node{
			{P: &gen.Page{Streams: []string{gen.Content(2, "F1", "")}, Zip: true}},
			{P: &gen.Page{Box: "0 0 111 222", Streams: []string{gen.Content(3, "F7", "X4")}, Res: "share:a", Fonts: []string{"F7"}, XObjs: []string{"X4"}, FontAt: "inline", XAt: "ref"}},
		}},
		{P: &gen.Page{Streams: []string{gen.Content(4, "F7", "X4")}, Arr: true, Res: "share:a", Fonts: []string{"F7"}, XObjs: []string{"X4"}, FontAt: "inline", XAt: "ref"}},
	}}, Gaps: 2}).Bytes())
	T2 = MkTmpl("two", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false), simplePage(2, "0 0 400 150", true)), Style: 2}).Bytes())
)

var sharedImgs = []*ImgFix{ImRGB, ImRGBA, ImPal, ImGA, ImJPG, ImJPGG}

var (
	red   = &pdft.FontColor{R: 255, G: 0, B: 0}
	teal  = &pdft.FontColor{R: 0, G: 128, B: 128}
	black = &pdft.FontColor{}
)
