package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	pdft "github.com/signintech/pdft"

	"verif/gen"
	"verif/mc"
)

func init() {
	All["C01"] = c01
	All["C02"] = c02
	All["C03"] = c03
	All["C06"] = c06
	All["C07"] = c07
}

func mixedAlphabet() []Op {
	return []Op{
		OpFont("a", FA), OpFont("b", FB),
		OpSet("a", "", 12), OpSet("b", "U", 9),
		OpText(TextArg{"Héllo", 1, 10, 20, 100, 30, pdft.Left | pdft.Top, nil}),
		OpText(TextArg{"xyz 1", 2, 15, 25, 80, 20, pdft.Right | pdft.Bottom, red}),
		OpImg("plain", ImRGBA, 1, 5, 6, 30, 20),
		OpImg("cache", ImPal, 2, 7, 8, 20, 10),
		OpDup(1, 0), OpRm(1), OpBorder(true), OpSave(),
	}
}

// C01: every saved file is a well-formed PDF.
func c01(r *mc.Run) {
	d := r.Pick(3, 4)
	r.Bound("all histories of up to %d operations over a 12-letter alphabet (fonts, selection, text, images, page copy/removal, borders, save) on 3 templates; all histories of up to %d operations from the state with a font selected", d, d-1)
	pre := []Op{OpFont("a", FA), OpSet("a", "", 12)}
	for _, t := range []*Tmpl{T1, T3, TN} {
		Seqs(mixedAlphabet(), 1, d-1, func(s []Op) { History(r, "history-font", t, pre, s) })
	}
	// object numbers with 1..5 digits, so that every width of xref entry and offset occurs
	for _, base := range []int{0, 5, 8, 9, 97, 98, 995, 9990} {
		for _, gaps := range []int{0, 1, 5} {
			t := MkTmpl(fmt.Sprintf("base%d-%d", base, gaps), (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", true), simplePage(2, "0 0 200 300", false)), Base: base, Gaps: gaps}).Bytes())
			Seqs(mixedAlphabet(), 0, 1, func(s []Op) { History(r, "numbering", t, pre, s) })
		}
	}
	r.Bound("templates whose object numbers start at 1, 6, 9, 10, 98, 99, 996, 9991 with 0, 1, 5 free entries")
	for _, t := range []*Tmpl{T1, T3, TN} {
		Seqs(mixedAlphabet(), 0, d, func(s []Op) { History(r, "history", t, nil, s) })
	}
	wideNumbers(r, false)
	wideNames(r)
	wideMany(r)
	wideGenerations(r)
	wideScale(r)
}

func stdUse() [][]Op {
	f := []Op{OpFont("a", FA), OpSet("a", "", 12)}
	txt := OpText(TextArg{"Hé a", 1, 10, 20, 100, 30, pdft.Left | pdft.Top, nil})
	img := OpImg("plain", ImRGBA, 1, 5, 6, 30, 20)
	jpgp := OpImg("cache", ImJPG, 1, 9, 6, 30, 20)
	two := OpText(TextArg{"Two", 2, 10, 20, 100, 30, pdft.Left | pdft.Top, teal})
	return [][]Op{
		{},
		append(append([]Op{}, f...), txt),
		{img, jpgp},
		append(append([]Op{}, f...), txt, img, two, OpFont("b", FC), OpSet("b", "U", 10), txt),
		append(append([]Op{}, f...), OpProt(4, []byte("u"), []byte("o")), txt, img),
		append(append([]Op{}, f...), OpDup(1, 0), OpText(TextArg{"dup", 2, 10, 20, 100, 30, 0, nil}), OpImg("plain", ImRGB, 3, 1, 2, 10, 10)),
		append(append([]Op{}, f...), txt, OpSave(), img, OpKeep(1), two),
	}
}

// C02: template content survives.
func c02(r *mc.Run) {
	uses := stdUse()
	other := func() *gen.Page { return gen.Simple(8, "0 0 222 333") }
	run := func(stratum, name string, t *gen.Template) {
		tm := MkTmpl(name, t.Bytes())
		for _, u := range uses {
			History(r, stratum, tm, nil, u)
		}
	}
	styles := []int{0, 1, 2, 3}
	if !r.Thorough() {
		styles = []int{0, 1}
	}
	cont := func(k int) []string { return []string{gen.Content(k, "F1", "")} }
	for _, form := range []string{"single", "arr1", "arr2", "arr3", "arrref", "none", "empty", "ws"} {
		for _, zip := range []string{"raw", "zip", "filtarr", "hex", "hexzip", "pred"} {
			for _, lr := range []bool{false, true} {
				for _, st := range styles {
					p := &gen.Page{Box: "0 0 200 300", Res: "own", Fonts: []string{"F1"}, FontAt: "inline", Zip: zip == "zip" || zip == "filtarr", FiltArr: zip == "filtarr", LenRef: lr}
					if !p.Zip && zip != "raw" {
						p.Enc = zip
					}
					switch form {
					case "single":
						p.Streams = cont(1)
					case "arr1":
						p.Streams, p.Arr = cont(1), true
					case "arr2":
						p.Streams = append(cont(1), cont(2)...)
					case "arr3":
						p.Streams = append(append(cont(1), "q"), "1 0 0 1 3 4 cm 0 0 5 5 re f Q")
					case "arrref":
						p.Streams, p.ArrRef = append(cont(1), cont(2)...), true
					case "none":
					case "empty":
						p.Streams = []string{""}
					case "ws":
						p.Streams = []string{"\n \r\n" + gen.Content(3, "F1", "") + " \n\n \t"}
					}
					for _, first := range []bool{true, false} {
						ps := []*gen.Page{p, other()}
						if !first {
							ps = []*gen.Page{other(), p}
						}
						run("contents", fmt.Sprintf("%s-%s-%v-s%d-%v", form, zip, lr, st, first), &gen.Template{Root: gen.Flat(ps...), Style: st})
					}
				}
			}
		}
	}
	r.Bound("page content forms {stream, array of 1/2/3, reference to array, absent, empty, white space} x {raw, Flate, Flate in array, hexadecimal, hexadecimal of Flate, Flate with predictor} x {direct, indirect Length} x %d layouts x first/last page, each with %d uses", len(styles), len(uses))
	for _, res := range []string{"own", "ref", "share:k", "inherit", "inherit-ref", "none"} {
		for _, fat := range []string{"inline", "ref", "none"} {
			for _, xat := range []string{"inline", "ref", "none"} {
				for _, st := range styles {
					mk := func(k int) *gen.Page {
						p := &gen.Page{Box: "0 0 200 300", Res: res, FontAt: fat, XAt: xat, ResXtra: "ExtGState=<</GS0<</ca 0.5/Type/ExtGState>>>>;ColorSpace=<</CS0 /DeviceRGB>>"}
						f, x := "", ""
						if fat != "none" {
							p.Fonts, f = []string{"F1", "TT3"}, "TT3"
						}
						if xat != "none" {
							p.XObjs, x = []string{"Im1", "I2"}, "I2"
						}
						p.Streams = []string{gen.Content(k, f, x)}
						return p
					}
					root := gen.Flat(mk(1), mk(2))
					if strings.HasPrefix(res, "inherit") {
						q := mk(0)
						q.Res = "own"
						if res == "inherit-ref" {
							q.Res = "ref"
						}
						root.Res = q
						for _, k := range root.Kids {
							k.P.Res = "none"
						}
					} else if res == "none" {
						for i, k := range root.Kids {
							k.P.Streams = []string{gen.Content(i, "", "")}
						}
					}
					run("resources", fmt.Sprintf("%s-%s-%s-s%d", res, fat, xat, st), &gen.Template{Root: root, Style: st})
				}
			}
		}
	}
	r.Bound("resource dictionaries {own, referenced, shared, inherited, inherited by reference, absent} x font and XObject dictionaries {inline, referenced, absent} x layouts")
	names := []string{"F1", "F2", "F10", "TT2", "C0_1", "F1A", "T1_0", "R7", "Arial,Bold", "F", "f1", "Fo-o", "F01", "F1.2", "Font12"}
	for _, a := range names {
		for _, b := range names {
			if a == b {
				continue
			}
			run("names", "fonts-"+a+"-"+b, &gen.Template{Root: gen.Flat(
				&gen.Page{Box: "0 0 200 300", Res: "own", Fonts: []string{a, b}, FontAt: "inline", Streams: []string{gen.Content(1, a, ""), gen.Content(2, b, "")}},
				&gen.Page{Box: "0 0 200 300", Res: "own", Fonts: []string{b}, FontAt: "inline", Streams: []string{gen.Content(3, b, "")}})})
		}
	}
	xn := []string{"I1", "I2", "I9", "Im1", "X4", "Fm0", "img12a", "I", "im1", "I01", "Image-7"}
	for _, a := range xn {
		for _, b := range xn {
			if a == b {
				continue
			}
			run("names", "xobj-"+a+"-"+b, &gen.Template{Root: gen.Flat(
				&gen.Page{Box: "0 0 200 300", Res: "own", XObjs: []string{a, b}, XAt: "inline", Streams: []string{gen.Content(1, "", a), gen.Content(2, "", b)}},
				&gen.Page{Box: "0 0 200 300", Res: "own", XObjs: []string{b}, XAt: "inline", Streams: []string{gen.Content(3, "", b)}})})
		}
	}
	r.Bound("ordered pairs of %d font resource names and of %d XObject resource names", len(names), len(xn))
	extras := []string{"", "Rotate=270", "CropBox=[5 5 100 200]", "Tabs=/S", "UserUnit=2.0", "Group=<</S/Transparency/CS/DeviceRGB/I true>>",
		"LastModified=(D:20200101 \\(x\\) <<a>> /b [c])", "PieceInfo=<</A<</Private<</B [1 2 (s) <4142>]>>/LastModified(D:2020)>>>>", "Trans=<</S/Split/D 1.5>>",
		"B=[(a\\\\b) (c\\)d) (\\101\\n)]", "Dur=-3.25", "Z=null", "Metadata0=<</K/V#20W>>", "StructParents=0", "X=(stream) ;Y=(a stream >> b)"}
	rootx := []string{"", "Lang=(en-US)", "PageMode=/UseOutlines;ViewerPreferences=<</DisplayDocTitle true>>", "Names=<</Dests<</Names[(a)(b)]>>>>", "Version=/1.6;PageLayout=/TwoColumnLeft"}
	for i, e := range extras {
		for j, x := range rootx {
			for _, an := range []bool{false, true} {
				for _, st := range styles {
					p := gen.Simple(1, "0 0 200 300")
					p.Extra, p.Annots = e, an
					run("attributes", fmt.Sprintf("x%d-r%d-%v-s%d", i, j, an, st), &gen.Template{Root: gen.Flat(p, other()), RootX: x, Style: st, Info: true})
				}
			}
		}
	}
	r.Bound("%d sets of page entries x %d sets of catalog entries x annotations", len(extras), len(rootx))
	// objects around the pages: outlines, forms, annotations, structure, metadata, form XObjects, odd objects
	graphs := graphTmpls()
	graphs = append(graphs, graphTmpl{"streams", streamKinds})
	for _, g := range graphs {
		for _, st := range []int{0, 1, 2} {
			for _, ord := range []string{"", "reverse"} {
				t := g.mk()
				t.Style, t.Order, t.IDs = st, ord, map[string]string{"": "", "reverse": "rev"}[ord]
				tm := MkTmpl(fmt.Sprintf("%s-s%d%s", g.name, st, ord), t.Bytes())
				for _, u := range append(stdUse(), []Op{OpRm(1)}, []Op{OpKeep(2)}, []Op{OpDup(2, -1), OpRm(1)}) {
					History(r, "graph", tm, nil, u)
				}
			}
		}
	}
	r.Bound("%d kinds of document structure around the pages x 3 layouts x 2 numberings x 10 uses", len(graphs))
	boxes := []string{"0 0 200 300", "0 0 595.275 841.889", "0 0 3.5 1000.25", "0 0 +12 0300", "0.0 0.0 612.0 792.0"}
	for bi, b := range boxes {
		for _, form := range []string{"direct", "ref", "inherit", "inherit2"} {
			p := gen.Simple(1, b)
			root := gen.Flat(p, other())
			switch form {
			case "ref":
				p.BoxRef = true
			case "inherit":
				p.Box, root.Box = "", b
			case "inherit2":
				p.Box = ""
				root = &gen.Node{Box: b, Kids: []*gen.Node{{Kids: root.Kids}}}
			}
			run("boxes", fmt.Sprintf("b%d-%s", bi, form), &gen.Template{Root: root})
		}
	}
	// page tree shapes: all ordered trees with up to 4 leaves and depth <= 3
	n := 0
	var shapes func(leaves, depth int) []*gen.Node
	shapes = func(leaves, depth int) []*gen.Node {
		var out []*gen.Node
		if leaves == 1 {
			out = append(out, &gen.Node{P: &gen.Page{}})
		}
		if depth == 0 {
			return out
		}
		var split func(rest int, cur []*gen.Node)
		split = func(rest int, cur []*gen.Node) {
			if rest == 0 {
				out = append(out, &gen.Node{Kids: append([]*gen.Node{}, cur...)})
				return
			}
			for k := 1; k <= rest; k++ {
				for _, s := range shapes(k, depth-1) {
					split(rest-k, append(cur, s))
				}
			}
		}
		split(leaves, nil)
		return out
	}
	for l := 1; l <= r.Pick(3, 4); l++ {
		for _, s := range shapes(l, r.Pick(2, 3)) {
			if s.P != nil {
				continue
			}
			n++
			k := 0
			var cp func(s *gen.Node) *gen.Node
			cp = func(s *gen.Node) *gen.Node {
				if s.P != nil {
					k++
					return &gen.Node{P: gen.Simple(k, fmt.Sprintf("0 0 %d %d", 200+k, 300+10*k))}
				}
				o := &gen.Node{}
				for _, c := range s.Kids {
					o.Kids = append(o.Kids, cp(c))
				}
				return o
			}
			run("trees", fmt.Sprintf("tree%d", n), &gen.Template{Root: cp(s)})
		}
	}
	r.Bound("%d page tree shapes", n)
	// content that looks like syntax
	for i, c := range []string{"(endobj) pop0", "(trailer and xref0)", "(stream) (endstream0)", "% comment with (paren\n", "(a\\)b) (\\\\) <41 42>", "/Name#20x <</A [1 2]>>", "(obj 1 0 obj)"} {
		for _, zip := range []bool{false, true} {
			if !zip && (i == 1 || i == 2) {
				continue // words of the file structure in raw content: see below
			}
			p := gen.Simple(1, "0 0 200 300")
			s := "BT /F1 12 Tf 3 4 Td " + c
			switch i {
			case 0, 1, 2, 6:
				s = "BT /F1 12 Tf 3 4 Td " + c[:strings.IndexByte(c, ')')+1] + " Tj ET\n"
			case 3:
				s = "BT ET " + c
			case 4:
				s = "BT /F1 12 Tf 3 4 Td (a\\)b) Tj (\\\\) Tj <41 42> Tj ET\n"
			case 5:
				s = "/Name#20x <</A [1 2]>> BDC EMC\n"
			}
			p.Streams, p.Zip = []string{s}, zip
			run("tricky", fmt.Sprintf("tricky%d-%v", i, zip), &gen.Template{Root: gen.Flat(p, other())})
		}
	}
	p := gen.Simple(1, "0 0 200 300")
	p.Streams = []string{"BT /F1 12 Tf 3 4 Td (a trailer in content) Tj ET\n"}
	run("tricky", "trailer-raw", &gen.Template{Root: gen.Flat(p, other())})
	// real files
	files, _ := filepath.Glob("/repo/test/pdf/*.pdf")
	used := 0
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		tm, err := MkReal(filepath.Base(f), b)
		if err != nil {
			r.Extra("real_file_skipped_"+filepath.Base(f), err.Error())
			continue
		}
		used++
		for _, u := range uses {
			History(r, "real", tm, nil, u)
		}
	}
	r.Extra("real_templates", used)
	wideNames(r)
	wideShared(r)
	wideBoxesRun(r)
	wideMany(r)
	wideScale(r)
	wideStrings(r, false)
	structureWords(r)
}

// C03: text position, style and colour.
func c03(r *mc.Run) {
	oddTexts(r)
	wideRise(r)
	wideReplaced(r)
	fonts := []Op{OpFont("a", FA), OpFont("b", FB)}
	texts := []string{"A", "Hello W", "é ก้x", ""}
	sizes := []int{1, 12, 31}
	if r.Thorough() {
		sizes = []int{1, 2, 7, 12, 31, 100}
		texts = append(texts, "\U0001F600z", "日", "0123456789 abcdefghijklmnop", " lead trail ", "Ωω", "Aé\u1E5D!")
	}
	for align := 0; align < 64; align++ {
		for _, st := range []string{"", "U", "b", "IuB"} {
			for _, fn := range []string{"a", "b"} {
				for _, sz := range sizes {
					for _, tx := range texts {
						a := TextArg{tx, 1, 20.25, 33.3, 120, 40.5, align, teal}
						History(r, "single", T1, fonts, []Op{OpSet(fn, st, sz), OpText(a)})
					}
				}
			}
		}
	}
	r.Bound("all 64 alignment bit patterns x 4 styles x 2 fonts (1000 and 2048 units per em) x %d sizes x %d texts", len(sizes), len(texts))
	coords := []float64{0, 0.004, 17.337, 300, -12.5, 99999.99}
	for _, x := range coords {
		for _, y := range coords {
			for _, wh := range [][2]float64{{0, 0}, {100, 20}, {0.01, 500.5}} {
				for _, al := range []int{pdft.Left | pdft.Top, pdft.Center | pdft.Middle, pdft.Right | pdft.Bottom} {
					for _, bd := range []bool{false, true} {
						for pg := 1; pg <= r.Pick(2, 4); pg++ {
							History(r, "geometry", TN, fonts, []Op{OpSet("b", "U", 11), OpBorder(bd), OpText(TextArg{"Gx y", pg, x, y, wh[0], wh[1], al, nil})})
						}
					}
				}
			}
		}
	}
	r.Bound("6x6 coordinates x 3 boxes x 3 alignments x border on/off x pages of different height (inherited and own sizes)")
	// colours
	vals := []int{0, 1, 2, 127, 128, 254, 255}
	if !r.Thorough() {
		vals = []int{0, 1, 128, 255}
	}
	for _, a := range vals {
		for _, b := range vals {
			for _, c := range vals {
				col := &pdft.FontColor{R: a, G: b, B: c}
				History(r, "colour", T1, fonts, []Op{OpSet("a", "U", 10), OpText(TextArg{"c", 1, 5, 5, 50, 10, 8, red}), OpText(TextArg{"d", 1, 5, 20, 50, 10, 8, col}), OpText(TextArg{"e", 1, 5, 40, 50, 10, 8, nil})})
			}
		}
	}
	r.Bound("%d^3 colours between a red and a default-coloured text", len(vals))
	// sequences: nothing of one insert leaks into the next
	alpha := []Op{
		OpSet("a", "", 12), OpSet("b", "U", 7), OpSet("a", "U", 20),
		OpText(TextArg{"one", 1, 10, 10, 60, 20, 8, nil}), OpText(TextArg{"two é", 2, 11, 12, 70, 22, 2 | 1, red}),
		OpText(TextArg{"", 1, 1, 2, 3, 4, 0, teal}), OpText(TextArg{"out", 9, 1, 2, 3, 4, 0, teal}),
		OpBorder(true), OpBorder(false),
		OpRise("a", rises[1]), OpKern("b", kerns[1]),
		OpImg("plain", ImRGB, 1, 40, 41, 12, 13),
		OpText(TextArg{"neg", 0, 1, 2, 3, 4, 0, teal}), OpMeasure("measured\u0e01"),
	}
	d := r.Pick(3, 4)
	for _, t := range []*Tmpl{T2} {
		Seqs(alpha, 1, d, func(s []Op) { History(r, "sequence", t, append(append([]Op{}, fonts...), OpSet("a", "", 12)), s) })
	}
	r.Bound("all sequences of up to %d operations over 14 (font selections, texts on both pages and outside of the document, borders, overrides, image, measuring)", d)
	wideBoxesRun(r)
	wideOverrides(r)
	wideStyles(r)
	wideFonts(r)
}

var kerns = []KernFn{
	{"zero", func(l, r rune, lg, rg uint) int16 { return 0 }},
	{"neg", func(l, r rune, lg, rg uint) int16 { return -70 }},
	{"var", func(l, r rune, lg, rg uint) int16 { return int16((int(l)*7+int(r)*3)%300) - 150 }},
	{"big", func(l, r rune, lg, rg uint) int16 { return 3000 }},
	{"one", func(l, r rune, lg, rg uint) int16 { return 1 }},
}

var rises = []RiseFn{
	{"zero", func(l, r rune, s int, all string, i int) float32 { return 0 }},
	{"idx", func(l, r rune, s int, all string, i int) float32 { return float32(i)*1.5 - 2 }},
	{"args", func(l, r rune, s int, all string, i int) float32 {
		return float32(int(l)%5) + float32(int(r)%7)/4 + float32(s)/10 + float32(len(all))/8
	}},
}

// C06: page edits are list operations.
func c06(r *mc.Run) {
	fin := func(n int) []Op {
		ops := []Op{OpFont("a", FA), OpSet("a", "", 10)}
		for p := 1; p <= n; p++ {
			ops = append(ops, OpText(TextArg{fmt.Sprintf("p%d", p), p, 5, 6, 50, 12, pdft.Left | pdft.Top, nil}))
		}
		return append(ops, OpImg("plain", ImRGB, 2, 1, 2, 10, 10))
	}
	edits := func(n int) []Op {
		var o []Op
		for t := 0; t <= n+1; t++ {
			for p := -n - 1; p <= n; p++ {
				o = append(o, OpDup(t, p))
			}
			o = append(o, OpRm(t), OpKeep(t))
		}
		o = append(o, OpDup(-1, 0), OpRm(-1), OpKeep(-1), OpDup(1, 1000), OpDup(1, -1000))
		return o
	}
	for _, t := range []*Tmpl{T1, T2, T3, TN, tmplShared(), tmplDeep()} {
		n := len(t.Pages)
		d := 2
		if n > 3 && !r.Thorough() {
			d = 1
		}
		Seqs(edits(n), 1, d, func(s []Op) { History(r, "edits", t, nil, append(s, fin(n)...)) })
		r.Bound("%s (%d pages): all sequences of up to %d edits with page numbers -1..%d and positions %d..%d, then text on every page", t.Name, n, d, n+1, -n-1, n)
	}
	wideInherited(r)
	// deeper with valid arguments only, mixed with inserts and saves
	d := r.Pick(4, 5)
	alpha := []Op{OpDup(1, 0), OpDup(2, -1), OpDup(1, -2), OpRm(1), OpRm(2), OpKeep(2), OpText(TextArg{"t", 1, 5, 6, 50, 12, 8, nil}), OpText(TextArg{"u", 3, 5, 6, 50, 12, 8, nil}), OpSave()}
	for _, t := range []*Tmpl{T2, TN} {
		dd := d
		if t == TN && !r.Thorough() {
			dd = 3
		}
		Seqs(alpha, 1, dd, func(s []Op) {
			History(r, "mixed", t, []Op{OpFont("a", FA), OpSet("a", "", 10)}, s)
		})
		r.Bound("%s: all sequences of up to %d over 9 edits, inserts and saves", t.Name, dd)
	}
	wideBoxesRun(r)
	wideShared(r)
	wideMany(r)
	wideScale(r)
}

func tmplShared() *Tmpl { // two pages share one content stream object and one resource object
	return MkTmpl("sharedres", (&gen.Template{Root: gen.Flat(
		&gen.Page{Box: "0 0 200 300", Streams: []string{gen.Content(1, "F1", "")}, ArrRef: true, Res: "share:r", Fonts: []string{"F1"}, FontAt: "ref"},
		&gen.Page{Box: "0 0 300 200", BoxRef: true, Streams: []string{gen.Content(2, "F1", "")}, Arr: true, Zip: true, Res: "share:r", Fonts: []string{"F1"}, FontAt: "ref", Rotate: 180},
		&gen.Page{Box: "0 0 100 100"},
	), Style: 2}).Bytes())
}

func tmplDeep() *Tmpl {
	leaf := func(k int) *gen.Node { return &gen.Node{P: &gen.Page{Streams: []string{gen.Content(k, "F1", "")}}} }
	return MkTmpl("deep", (&gen.Template{Root: &gen.Node{Res: &gen.Page{Res: "ref", Fonts: []string{"F1"}, FontAt: "inline"}, Kids: []*gen.Node{
		{Box: "0 0 210 310", Kids: []*gen.Node{{Kids: []*gen.Node{leaf(1)}}, leaf(2)}},
		{Box: "0 0 410 110", Kids: []*gen.Node{leaf(3)}},
	}}}).Bytes())
}

// C07: saving is pure and repeatable.
func c07(r *mc.Run) {
	alpha := []Op{
		OpFont("b", FB), OpSet("a", "U", 12), OpSet("b", "", 9),
		OpText(TextArg{"Hé", 1, 10, 20, 100, 30, 8, nil}), OpText(TextArg{"new glyphs ก", 2, 15, 25, 80, 20, 2, red}),
		OpImg("plain", ImRGBA, 1, 5, 6, 30, 20), OpImg("cache", ImJPG, 2, 7, 8, 20, 10), OpImg("cache", ImPal, 1, 7, 8, 20, 10),
		OpDup(1, 0), OpRm(2), OpProt(4, []byte("u"), []byte("o")),
		OpKern("a", kerns[2]), OpRise("a", moreRises[3]), OpMeasure("newé glyphs"), OpBorder(true), OpKeep(1), OpWrap(TextArg{"aa bb Wé", 1, 5, 7, 20, 12, 12, red}),
	}
	pre := []Op{OpFont("a", FA), OpSet("a", "", 12)}
	d := r.Pick(2, 3)
	for _, t := range []*Tmpl{T2, TN, tmplShared()} {
		Seqs(alpha, 0, d, func(s []Op) {
			// saves between: every non-empty subset of positions, each save done twice
			for mask := 1; mask < 1<<uint(len(s)+1); mask++ {
				var h []Op
				for k := 0; k <= len(s); k++ {
					if mask>>uint(k)&1 == 1 {
						h = append(h, OpSave(), OpSave())
					}
					if k < len(s) {
						h = append(h, s[k])
					}
				}
				History(r, "save-points", t, pre, h)
			}
		})
	}
	r.Bound("all histories of up to %d operations over 17 on 3 templates, with (double) saves at every subset of positions", d)
	// the same document saved k times: every output means the same
	for _, t := range []*Tmpl{T1, T3, TN} {
		for _, u := range stdUse() {
			h := append([]Op{}, u...)
			for i := 0; i < 8; i++ {
				h = append(h, OpSave())
			}
			History(r, "many", t, nil, h)
		}
	}
	// Save to a file writes what SaveTo writes, whatever the file held before
	dir := os.Getenv("VP_SCRATCH")
	for ti, t := range []*Tmpl{T1, T3, TN} {
		for ui, u := range stdUse() {
			for oi, old := range []int{-1, 0, 1, 100, 1000, 1 << 16} {
				t, u, ti, ui, oi, old := t, u, ti, ui, oi, old
				r.Case("file", fmt.Sprintf("%s:%d:%d", t.Name, ui, old), func() error {
					w, err := Open(t)
					if err != nil {
						return err
					}
					if err := RunOps(w, u); err != nil {
						return err
					}
					fn := filepath.Join(dir, fmt.Sprintf("c07-%d-%d-%d.pdf", ti, ui, oi))
					if old >= 0 { // the old content must go
						if err := os.WriteFile(fn, bytes.Repeat([]byte("x"), old), 0644); err != nil {
							return nil
						}
					}
					defer os.Remove(fn)
					for k := 0; k < 3; k++ {
						if k == 2 { // a little longer than the new content
							b, _ := os.ReadFile(fn)
							if err := os.WriteFile(fn, append(b, "0 0 obj junk"...), 0644); err != nil {
								return nil
							}
						}
						if err := w.P.Save(fn); err != nil {
							return fmt.Errorf("Save: %v", err)
						}
						b, err := os.ReadFile(fn)
						if err != nil {
							return err
						}
						if err := Verify(w.M, b); err != nil {
							return fmt.Errorf("file written by Save: %v", err)
						}
						r.Trans(1)
					}
					r.Trace()
					return nil
				})
			}
		}
	}
	r.Bound("Save to a path: 3 templates x %d uses x {no file, old files of 0, 1, 100, 1000, 65536 bytes}, three times", len(stdUse()))
	wideFonts(r)
	wideGrowth(r)
}
