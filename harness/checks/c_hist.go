package checks

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"strings"

	pdft "github.com/signintech/pdft"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"

	"verif/gen"
	"verif/mc"
)

func init() {
	log.SetOutput(io.Discard)
	All["C09"] = c09
	All["C10"] = c10
	All["C12"] = c12
	All["C13"] = c13
	All["C16"] = c16
	All["C17"] = c17
	All["C18"] = c18
}

type breaker struct {
	name string
	f    func(string) ([]string, error)
}

func (b breaker) BreakTextToToken(s string) ([]string, error) { return b.f(s) }

var breakers = []breaker{
	{"chars", func(s string) ([]string, error) {
		var o []string
		for _, r := range s {
			o = append(o, string(r))
		}
		return o, nil
	}},
	{"pairs", func(s string) ([]string, error) {
		var o []string
		rs := []rune(s)
		for i := 0; i < len(rs); i += 2 {
			o = append(o, string(rs[i:min(i+2, len(rs))]))
		}
		return o, nil
	}},
	{"whole", func(s string) ([]string, error) { return []string{s}, nil }},
	{"empties", func(s string) ([]string, error) {
		var o []string
		for _, t := range modelBreak(s) {
			o = append(o, "", t, "")
		}
		return o, nil
	}},
	{"glued", func(s string) ([]string, error) { // words keep the spaces that follow them
		var o []string
		cur := ""
		for i, r := range s {
			cur += string(r)
			if r == ' ' && (i+1 >= len(s) || s[i+1] != ' ') {
				o = append(o, cur)
				cur = ""
			}
		}
		return append(o, cur), nil
	}},
}

// OpWrapB inserts wrapped text with a custom breaker.
func OpWrapB(a TextArg, b breaker) Op {
	return Op{"wrap[" + b.name + "](" + a.String() + ")", func(w *World) error {
		toks, berr := b.f(a.Text)
		err := w.P.InsertWrapText(a.Text, a.Page, a.X, a.Y, a.W, a.H, a.Align, a.Color, b)
		if berr != nil {
			return wantErr(err, true, "wrapping with a text breaker that fails")
		}
		return w.M.wrapped(a, toks, err)
	}}
}

func (m *Model) wrapped(a TextArg, toks []string, err error) error {
	ok := true
	for _, t := range toks {
		if t != "" && !m.canShow(t) {
			ok = false
		}
	}
	if e := wantErr(err, !ok, "InsertWrapText"); e != nil {
		return e
	}
	if !ok || strings.Join(toks, "") == "" {
		return nil
	}
	lines, e := m.wrapLines(toks, a.W)
	if e != nil {
		return fmt.Errorf("harness: %v", e)
	}
	size := float64(m.Size)
	step := size * 1.2
	off := 0.0
	if a.Align&pdft.Middle != 0 {
		off = float64(len(lines))*step/2 - size/2
	}
	for i, l := range lines {
		m.addText(a, l, a.Y+float64(i)*step-off)
	}
	return nil
}

// OpWrapNil: without a breaker the text is inserted on one line.
func OpWrapNil(a TextArg) Op {
	return Op{"wrap[nil](" + a.String() + ")", func(w *World) error {
		err := w.P.InsertWrapText(a.Text, a.Page, a.X, a.Y, a.W, a.H, a.Align, a.Color, nil)
		ok := w.M.canShow(a.Text)
		if e := wantErr(err, !ok, "InsertWrapText"); e != nil {
			return e
		}
		if ok {
			w.M.addText(a, a.Text, a.Y)
		}
		return nil
	}}
}

func strs(alpha []rune, lo, hi int, f func(s string)) {
	var rec func(cur []rune)
	rec = func(cur []rune) {
		if len(cur) >= lo {
			f(string(cur))
		}
		if len(cur) == hi {
			return
		}
		for _, c := range alpha {
			rec(append(append([]rune{}, cur...), c))
		}
	}
	rec(nil)
}

// C09: wrapped text.
func c09(r *mc.Run) {
	pre := []Op{OpFont("a", FA), OpSet("a", "", 10)}
	alpha := []rune{'i', 'W', ' '}
	n := r.Pick(6, 8)
	iw, _ := (&MFont{Fix: FA}).adv("i", 10)
	ww, _ := (&MFont{Fix: FA}).adv("W", 10)
	sp, _ := (&MFont{Fix: FA}).adv(" ", 10)
	// widths around every boundary: exactly fitting, a hair less, and between
	widths := []float64{0, iw, ww + sp + iw, ww + sp + iw - 0.001, 2*ww + sp, 1000}
	aligns := []int{pdft.Left | pdft.Top, pdft.Middle | pdft.Center}
	strs(alpha, 0, n, func(s string) {
		for _, wd := range widths {
			for _, al := range aligns {
				History(r, "texts", T1, pre, []Op{OpWrap(TextArg{s, 1, 5.5, 7.25, wd, 12, al, red})})
			}
		}
	})
	r.Bound("all texts of up to %d characters over {narrow, wide, space} x %d box widths (incl. exactly fitting and 0.001 too narrow) x 2 alignments", n, len(widths))
	// alignment and size
	txts := []string{"Hello wide world of text", "one two  three   four", " lead", "trail ", "é ก้ x", "unbreakablelongword", "a unbreakablelongword b", "\u00a0nb\u00a0sp", "t\tab\nnl"}
	for al := 0; al < 64; al++ {
		for _, sz := range []int{1, 12, 40} {
			for _, st := range []string{"", "U"} {
				for _, tx := range txts {
					History(r, "alignment", T2, []Op{OpFont("b", FB), OpSet("b", st, sz)}, []Op{OpWrap(TextArg{tx, 2, 10, 20, 70, 15, al, nil})})
				}
			}
		}
	}
	r.Bound("all 64 alignments x 3 sizes x underline x %d texts", len(txts))
	// breakers
	m := r.Pick(4, 6)
	for _, b := range breakers {
		b := b
		strs(alpha, 0, m, func(s string) {
			for _, wd := range []float64{0, ww + 0.5, 2*ww + sp} {
				History(r, "breakers", T1, pre, []Op{OpWrapB(TextArg{s, 1, 5, 7, wd, 12, 12, nil}, b)})
			}
		})
	}
	fail := breaker{"fail", func(string) ([]string, error) { return []string{"x"}, errors.New("breaker failed") }}
	strs(alpha, 0, 2, func(s string) {
		History(r, "breakers", T1, pre, []Op{OpWrapNil(TextArg{s, 1, 5, 7, 3, 12, 12, teal}), OpWrapB(TextArg{s, 1, 5, 7, 3, 12, 12, teal}, fail)})
	})
	r.Bound("%d custom text breakers x all texts of up to %d characters", len(breakers), m)
	// kerning and rise overrides count
	for _, k := range kerns {
		for _, tx := range txts {
			for _, wd := range []float64{20, 60, 90.5} {
				History(r, "kerning", T1, append(append([]Op{}, pre...), OpKern("a", k), OpRise("a", rises[1])), []Op{OpWrap(TextArg{tx, 1, 5, 7, wd, 12, 16, nil})})
			}
		}
	}
	// mixed with other operations
	seq := []Op{OpWrap(TextArg{"aa bb cc", 1, 5, 7, 20, 12, 12, nil}), OpWrap(TextArg{"dd WWW", 2, 5, 7, 20, 12, 32, red}), textOp("x"), OpSet("a", "U", 17), OpBorder(true), OpSave(), OpDup(1, 0)}
	d := r.Pick(3, 4)
	Seqs(seq, 1, d, func(s []Op) { History(r, "sequence", T2, pre, s) })
	r.Bound("all sequences of up to %d over 7 operations with wrapped texts", d)
	wideBreaks(r)
	// the basic breaker loses nothing
	strs([]rune{'a', ' ', 'é', '\t'}, 0, r.Pick(6, 8), func(s string) {
		r.Case("basic-breaker", fmt.Sprintf("%q", s), func() error {
			t, err := (textbreak.BasicTextbreak{}).BreakTextToToken(s)
			if err != nil {
				return err
			}
			if strings.Join(t, "") != s {
				return fmt.Errorf("tokens %q do not join to the text %q", t, s)
			}
			for _, x := range t {
				if strings.Contains(x, " ") && x != " " {
					return fmt.Errorf("token %q holds a break opportunity", x)
				}
			}
			r.Trace()
			return nil
		})
	})
}

func (f *MFont) adv(s string, size int) (float64, error) {
	_, w, err := f.layout(s, size)
	return w, err
}

// C10: measuring and aligning agree with what is drawn.
func c10(r *mc.Run) {
	alpha := []rune{'i', 'W', ' ', 0xE9, 0x0E48}
	n := r.Pick(3, 5)
	fonts := map[string]*FontFix{"A": FA, "B": FB, "C": FC}
	sizes := []int{1, 12}
	if r.Thorough() {
		sizes = []int{1, 7, 12, 64, 1000}
	}
	for _, fn := range []string{"A", "B", "C"} {
		f := fonts[fn]
		for ki := -1; ki < len(kerns); ki++ {
			for ri := -1; ri < len(rises); ri++ {
				for _, sz := range sizes {
					pre := []Op{OpFont("f", f), OpSet("f", "", sz)}
					if ki >= 0 {
						pre = append(pre, OpKern("f", kerns[ki]))
					}
					if ri >= 0 {
						pre = append(pre, OpRise("f", rises[ri]))
					}
					var batch []Op
					flush := func() {
						if len(batch) > 0 {
							History(r, "measure", T1, pre, batch)
							batch = nil
						}
					}
					strs(alpha, 0, n, func(s string) {
						batch = append(batch, OpMeasure(s))
						if len(batch) == 40 {
							flush()
						}
					})
					flush()
				}
			}
		}
	}
	r.Bound("all strings of up to %d characters over 5 x 3 fonts x %d sizes x %d kerning overrides x %d text rises", n, len(sizes), len(kerns)+1, len(rises)+1)
	// drawn extent: right and centre aligned
	m := r.Pick(3, 4)
	for _, fn := range []string{"A", "B"} {
		for ki := -1; ki < len(kerns); ki++ {
			for ri := -1; ri < len(rises); ri += 2 {
				for _, st := range []string{"", "U"} {
					pre := []Op{OpFont("f", fonts[fn]), OpSet("f", st, 11)}
					if ki >= 0 {
						pre = append(pre, OpKern("f", kerns[ki]))
					}
					if ri >= 0 {
						pre = append(pre, OpRise("f", rises[ri]))
					}
					strs(alpha, 1, m, func(s string) {
						for _, al := range []int{pdft.Right | pdft.Middle, pdft.Center | pdft.Bottom} {
							History(r, "aligned", T1, pre, []Op{OpMeasure(s), OpText(TextArg{s, 1, 10, 20, 120.5, 30, al, nil})})
						}
					})
				}
			}
		}
	}
	r.Bound("the same strings up to %d characters drawn right and centre aligned with all overrides", m)
	// measuring has no effect on the document
	seq := []Op{OpMeasure("abc"), OpMeasure("\U0001F600"), OpMeasure(""), textOp("Té"), OpSet("a", "U", 20), OpSet("b", "", 5), OpFont("b", FC), OpSave(), OpKern("a", kerns[2])}
	d := r.Pick(3, 5)
	Seqs(seq, 1, d, func(s []Op) { History(r, "history", T2, []Op{OpFont("a", FA)}, s) })
	r.Bound("all histories of up to %d over 9 operations with measuring before, between and after selection", d)
	wideStyles(r)
	wideOverrides(r)
	wideMeasureChange(r)
}

type failWriter struct {
	n   int
	err error
}

func (f *failWriter) Write(p []byte) (int, error) {
	if len(p) > f.n {
		k := f.n
		f.n = 0
		return k, f.err
	}
	f.n -= len(p)
	return len(p), nil
}

// failing operations: each must report an error and change nothing.
func failures() []Op {
	mk := func(name string, f func(w *World) error) Op {
		return Op{"fail:" + name, func(w *World) error {
			err := f(w)
			if err == nil {
				return fmt.Errorf("%s: reported success where it must fail", name)
			}
			return w.M.count(w)
		}}
	}
	half := func(b []byte) []byte { return b[:len(b)/2] }
	ops := []Op{
		mk("setfont-unknown", func(w *World) error { return w.P.SetFont("nofont", "U", 33) }),
		mk("font-garbage", func(w *World) error { return w.P.AddFontFrom("g", strings.NewReader("no font at all")) }),
		mk("font-empty", func(w *World) error { return w.P.AddFontFrom("g", strings.NewReader("")) }),
		mk("font-half", func(w *World) error { return w.P.AddFontFrom("g", bytes.NewReader(FA.B[:300])) }),
		mk("font-missing-file", func(w *World) error { return w.P.AddFont("g", "/nonexistent/x.ttf") }),
		mk("font-after-fail", func(w *World) error {
			w.P.AddFontFrom("broken", bytes.NewReader(FA.B[:300]))
			return w.P.SetFont("broken", "", 10)
		}),
		mk("img-garbage", func(w *World) error { return w.P.InsertImg([]byte("no image"), 1, 1, 2, 3, 4) }),
		mk("img-empty", func(w *World) error { return w.P.InsertImg(nil, 1, 1, 2, 3, 4) }),
		mk("img-half-rgba", func(w *World) error { return w.P.InsertImg(half(ImRGBA.B), 1, 1, 2, 3, 4) }),
		mk("cache-garbage", func(w *World) error { return w.P.InsertImgWithCache([]byte("no image"), 1, 1, 2, 3, 4) }),
		mk("cache-garbage-twice", func(w *World) error {
			w.P.InsertImgWithCache(half(ImPal.B), 1, 1, 2, 3, 4)
			return w.P.InsertImgWithCache(half(ImPal.B), 2, 1, 2, 3, 4)
		}),
		mk("b64-garbage", func(w *World) error { return w.P.InsertImgBase64("%%%", 1, 1, 2, 3, 4) }),
		mk("b64-noimage", func(w *World) error {
			return w.P.InsertImgBase64(base64.StdEncoding.EncodeToString([]byte("no image")), 1, 1, 2, 3, 4)
		}),
		mk("dup-range", func(w *World) error { return w.P.DuplicatePageAfter(99, 0) }),
		mk("dup-pos", func(w *World) error { return w.P.DuplicatePageAfter(1, 99) }),
		mk("rm-range", func(w *World) error { return w.P.RemovePage(0) }),
		mk("keep-range", func(w *World) error { return w.P.RemoveOtherPages(99) }),
		mk("kern-unknown", func(w *World) error { return w.P.KernOverride("nofont", nil) }),
		mk("rise-unknown", func(w *World) error { return w.P.TextriseOverride("nofont", nil) }),
		mk("open-garbage", func(w *World) error { return w.P.OpenFrom(strings.NewReader("no pdf")) }),
		mk("open-half", func(w *World) error { return w.P.OpenFrom(bytes.NewReader(half(T3.B))) }),
		mk("open-nopages", func(w *World) error {
			return w.P.OpenFrom(bytes.NewReader(bytes.Replace(T3.B, []byte("/Pages"), []byte("/Pagez"), -1)))
		}),
		mk("open-missing", func(w *World) error { return w.P.Open("/nonexistent/x.pdf") }),
		mk("save-writer", func(w *World) error { return w.P.SaveTo(&failWriter{100, errors.New("disk full")}) }),
		mk("save-path", func(w *World) error { return w.P.Save("/nonexistent/dir/x.pdf") }),
	}
	// texts the font cannot show
	bad := func(name string, f func(w *World) error) Op {
		return Op{"fail:" + name, func(w *World) error {
			if w.M.canShow("\U0001F9FF") {
				return nil
			}
			if err := f(w); err == nil {
				return fmt.Errorf("%s: reported success where it must fail", name)
			}
			return nil
		}}
	}
	ops = append(ops,
		bad("text-unshowable", func(w *World) error { return w.P.Insert("ok\U0001F9FF", 1, 1, 2, 3, 4, 8, red) }),
		bad("wrap-unshowable", func(w *World) error {
			return w.P.InsertWrapText("ok many words \U0001F9FF", 1, 1, 2, 3, 4, 8, red, textbreak.BasicTextbreak{})
		}),
		bad("measure-unshowable", func(w *World) error { _, err := w.P.MeasureTextWidth("\U0001F9FF"); return err }),
		Op{"fail:wrap-breaker", func(w *World) error {
			return OpWrapB(TextArg{"a b", 1, 1, 2, 3, 4, 8, red}, breaker{"fail", func(string) ([]string, error) { return []string{"a"}, errors.New("x") }}).Do(w)
		}},
		Op{"fail:dup-font", func(w *World) error {
			for n := range w.M.Fonts {
				if err := w.P.AddFontFrom(n, bytes.NewReader(FB.B)); err != pdft.ErrAddSameFontName {
					return fmt.Errorf("second font with the name %q: error is %v", n, err)
				}
				if err := w.P.AddFont(n, "/nonexistent/x.ttf"); err != pdft.ErrAddSameFontName {
					return fmt.Errorf("second font with the name %q: error is %v", n, err)
				}
			}
			return nil
		}},
	)
	return ops
}

// C12: a failed call changes nothing.
func c12(r *mc.Run) {
	fails := failures()
	base := []Op{OpFont("a", FC), OpSet("a", "U", 12), textOp("Hé"), OpImg("cache", ImRGBA, 1, 5, 6, 30, 20), OpDup(1, 0), OpText(TextArg{"two", 2, 9, 9, 50, 20, 2, teal})}
	// every failure at every position of a working history
	for _, t := range []*Tmpl{T2, TN} {
		for pos := 0; pos <= len(base); pos++ {
			for _, f := range fails {
				h := append(append(append([]Op{}, base[:pos]...), f), base[pos:]...)
				History(r, "one-failure", t, nil, h)
			}
		}
	}
	r.Bound("%d failing calls at each of %d positions of a history on 2 templates", len(fails), len(base)+1)
	for pos := 0; pos <= len(base); pos++ {
		if !r.Thorough() && pos%2 == 1 {
			continue
		}
		for _, f := range fails {
			for _, g := range fails {
				h := append(append(append([]Op{}, base[:pos]...), f, g), base[pos:]...)
				History(r, "two-failures", T2, nil, h)
			}
		}
	}
	r.Bound("all ordered pairs of failing calls")
	// all short histories over working and failing operations
	alpha := append([]Op{}, fails...)
	alpha = append(alpha, OpFont("a", FC), OpFont("g", FA), OpSet("a", "", 12), OpSet("g", "", 12), textOp("Té"), OpImg("cache", ImPal, 1, 5, 6, 30, 20), OpProt(4, []byte("u"), []byte("o")), OpRm(1), OpSave())
	d := r.Pick(2, 3)
	Seqs(alpha, 1, d, func(s []Op) {
		History(r, "history", T2, nil, append(s, OpFont("a", FC), OpSet("a", "", 12), textOp("end")))
	})
	r.Bound("all histories of up to %d over %d working and failing operations", d, len(alpha))
	if r.Thorough() {
		Seqs(alpha, 1, 2, func(s []Op) {
			History(r, "history-font", TN, []Op{OpFont("a", FC), OpSet("a", "", 12), OpProt(4, []byte("u"), []byte("o"))}, append(s, textOp("end")))
		})
	}
	// use before a document is open
	for _, o := range append(append([]Op{}, fails...), textOp("x"), OpSet("a", "", 3), OpMeasure("x")) {
		o := o
		if strings.HasPrefix(o.Name, "fail:save") {
			continue
		}
		r.Case("not-open", o.Name, func() error {
			w := &World{P: new(pdft.PDFt), M: &Model{T: T1, Fonts: map[string]*MFont{}}}
			if err := o.Do(w); err != nil {
				return err
			}
			// the value still works
			if err := w.P.OpenFrom(bytes.NewReader(T1.B)); err != nil {
				return err
			}
			w.M = NewModel(T1)
			if err := RunOps(w, base); err != nil {
				return err
			}
			_, err := SaveVerify(w)
			r.Trace()
			return err
		})
	}
}

// C13: documents are independent.
func c13(r *mc.Run) {
	schedules(r)
	// all interleavings of two histories, with the fonts, images and names shared
	mk := func(k int) []Op {
		return [][]Op{
			{OpFont("a", FA), OpSet("a", "", 12), textOp("Hé"), OpImg("cache", ImRGBA, 1, 5, 6, 30, 20), OpSave()},
			{OpFont("a", FB), OpSet("a", "U", 9), textOp("Zz ก"), OpImg("cache", ImRGBA, 2, 5, 6, 30, 20), OpDup(1, 0)},
			{OpFont("a", FA), OpSet("a", "", 12), OpProt(4, []byte("u"), []byte("o")), textOp("w"), OpSave()},
			{OpImg("cache", ImPal, 1, 1, 2, 3, 4), OpKeep(2), OpBorder(true), OpFont("b", FA), OpSet("b", "", 8)},
			{OpFont("a", FA), OpKern("a", kerns[2]), OpRise("a", rises[1]), OpSet("a", "", 20), textOp("AWAV")},
			{OpFont("a", FA), OpSet("a", "", 20), OpMeasure("AWAV"), textOp("AWAV"), OpImg("plain", ImJPG, 1, 3, 4, 5, 6)},
		}[k]
	}
	nk := 6
	for a := 0; a < nk; a++ {
		for b := 0; b < nk; b++ {
			for _, ts := range [][2]*Tmpl{{T2, T2}, {T3, TN}} {
				if !r.Thorough() && (ts[0] != T2 || b < a) {
					continue
				}
				ha, hb := mk(a), mk(b)
				var rec func(i, j int, sched string)
				rec = func(i, j int, sched string) {
					if i == len(ha) && j == len(hb) {
						ts := ts
						r.Case("two-documents", fmt.Sprintf("%s+%s:%d,%d:%s", ts[0].Name, ts[1].Name, a, b, sched), func() error {
							w := [2]*World{}
							for k := range w {
								var err error
								if w[k], err = Open(ts[k]); err != nil {
									return err
								}
							}
							p := [2]int{}
							h := [2][]Op{ha, hb}
							for _, c := range sched {
								k := int(c - '0')
								if err := h[k][p[k]].Do(w[k]); err != nil {
									return fmt.Errorf("document %d step %s: %w", k, h[k][p[k]].Name, err)
								}
								p[k]++
								r.Trans(1)
								r.State(w[0].M.Key() + "|" + w[1].M.Key())
							}
							for _, k := range []int{0, 1, 0} {
								if _, err := SaveVerify(w[k]); err != nil {
									return fmt.Errorf("document %d: %w", k, err)
								}
							}
							r.Trace()
							return nil
						})
						return
					}
					if i < len(ha) {
						rec(i+1, j, sched+"0")
					}
					if j < len(hb) {
						rec(i, j+1, sched+"1")
					}
				}
				rec(0, 0, "")
			}
		}
	}
	r.Bound("all interleavings of every pair out of 6 histories (5 operations each) on two documents")
	wideFonts(r)
	// re-opening gives a fresh document
	alpha := []Op{OpReopen(T2), OpReopen(T3), OpFont("a", FA), OpSet("a", "U", 12), textOp("Hé"), OpImg("cache", ImRGBA, 2, 5, 6, 30, 20), OpDup(1, 0), OpBorder(true), OpSave()}
	d := r.Pick(3, 5)
	Seqs(alpha, 2, d, func(s []Op) {
		if !strings.Contains(Names(s), "open(") {
			return
		}
		History(r, "reopen", T2, []Op{OpFont("a", FB), OpSet("a", "", 7)}, s)
	})
	r.Bound("all histories of up to %d over 9 operations with at least one re-opening", d)
	// three documents from one template, one after another: no growth of state
	for k := 0; k < nk; k++ {
		k := k
		r.Case("repeat", fmt.Sprint(k), func() error {
			for i := 0; i < 6; i++ {
				w, err := Open(T3)
				if err != nil {
					return err
				}
				if err := RunOps(w, mk((k+i)%nk)); err != nil {
					return err
				}
				if _, err := SaveVerify(w); err != nil {
					return fmt.Errorf("document %d: %w", i, err)
				}
			}
			r.Trace()
			return nil
		})
	}
}

// C16: the meaning of a template does not depend on how it is serialised.
func c16(r *mc.Run) {
	docs := []func() *gen.Template{
		func() *gen.Template {
			return &gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false), simplePage(2, "0 0 400 150", true))}
		},
		func() *gen.Template {
			return &gen.Template{Root: &gen.Node{Box: "0 0 300 400", Res: &gen.Page{Res: "own", Fonts: []string{"F1"}, FontAt: "ref"}, Kids: []*gen.Node{
				{P: &gen.Page{Streams: []string{gen.Content(1, "F1", "")}}},
				{Box: "0 0 250 350", Kids: []*gen.Node{
					{P: &gen.Page{Streams: []string{gen.Content(2, "F1", "")}, Zip: true}},
					{P: &gen.Page{Box: "0 0 111 222", BoxRef: true, Streams: []string{gen.Content(3, "F7", "X4"), gen.Content(5, "F7", "")}, Res: "share:a", Fonts: []string{"F7"}, XObjs: []string{"X4"}, FontAt: "inline", XAt: "ref", LenRef: true, Annots: true}},
				}},
			}}, RootX: "Lang=(en-US)"}
		},
		func() *gen.Template {
			p := gen.Simple(1, "0 0 200 300")
			p.Extra = "LastModified=(D:20200101 \\(x\\) <<a>> /b [c]);PieceInfo=<</A<</Private<</B [1 2 (s) <4142>]>>/LastModified(D:2020)>>>>;Trans=<</S/Split/D 1.5>>"
			p.ArrRef = true
			return &gen.Template{Root: gen.Flat(p, &gen.Page{Box: "0 0 100 100", Res: "ref", Fonts: []string{"F1", "TT2"}, FontAt: "inline", Streams: []string{gen.Content(2, "TT2", "")}, FiltArr: true, Zip: true}), Info: true}
		},
	}
	uses := stdUse()
	n := 0
	for di, mk := range docs {
		ref := MkTmpl(fmt.Sprintf("doc%d", di), mk().Bytes())
		for rot := 1; rot < 24; rot++ {
			for _, base := range []int{0, 9} {
				t := mk()
				t.IDs, t.Base, t.Info = fmt.Sprint("rot", rot), base, true
				v := MkTmpl(fmt.Sprintf("doc%d-%s-b%d", di, t.IDs, base), t.Bytes())
				for _, u := range append(uses, []Op{}, []Op{OpDup(1, 0), OpSave(), OpRm(2)}, []Op{OpProt(4, nil, []byte("o"))}) {
					History(r, "numbers", v, nil, u)
				}
			}
		}
		for _, st := range []int{0, 1, 2, 3} {
			for _, ord := range []string{"", "reverse", "shuffle"} {
				for _, gaps := range []int{0, 3} {
					for _, base := range []int{0, 9, 98} {
						for _, xe := range []string{" \n", "\r\n", " \r"} {
							for _, ids := range []string{"", "rev"} {
								for _, noeol := range []bool{false, true} {
									for _, tail := range []string{"", "\n\n"} {
										n++
										if !r.Thorough() && (gaps == 3) != (base == 9) {
											continue
										}
										if !r.Thorough() && tail != "" && noeol {
											continue
										}
										t := mk()
										t.Style, t.Order, t.Gaps, t.Base, t.XEOL, t.IDs, t.NoEOL, t.Tail = st, ord, gaps, base, xe, ids, noeol, tail
										b := t.Bytes()
										v := MkTmpl("variant", b) // the strict reader accepts it
										if len(v.Pages) != len(ref.Pages) {
											panic("harness: variant differs")
										}
										tm := *ref
										tm.B = b
										tm.Name = fmt.Sprintf("doc%d-s%d-%s-g%d-b%d-x%q-%s-%v-%q", di, st, ord, gaps, base, xe, ids, noeol, tail)
										u := uses[1+n%(len(uses)-1)]
										History(r, "layouts", &tm, nil, u)
										if r.Thorough() {
											for k := range uses {
												History(r, "layouts", &tm, nil, uses[k])
											}
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	r.Bound("3 documents of which each object in turn has the first number (beginning at 1 and 10), with document information, each under %d uses", len(uses)+3)
	r.Bound("3 documents x 4 token layouts x 3 object orders x free entries x object number ranges x 3 xref line ends x numbering direction x end-of-line before endstream x trailing bytes")
	for di, mk := range docs {
		wideSpaces(r, mk, fmt.Sprintf("doc%d", di), uses)
		wideLayouts(r, mk, fmt.Sprintf("doc%d", di), uses)
	}
	// headers
	for _, h := range []string{"%PDF-1.4\n", "%PDF-1.7\r\n%\xe2\xe3\xcf\xd3\r\n", "%PDF-1.3\r"} {
		for di, mk := range docs {
			ref := MkTmpl("", mk().Bytes())
			t := mk()
			t.Header = h
			tm := *ref
			tm.B = t.Bytes()
			tm.Name = fmt.Sprintf("doc%d-header%q", di, h)
			for _, u := range uses {
				History(r, "headers", &tm, nil, u)
			}
		}
	}
}

// C17: a renderer places fields like direct inserts.
func c17(r *mc.Run) {
	dir := os.Getenv("VP_SCRATCH")
	file := filepath.Join(dir, "tmpl17.pdf")
	if err := os.WriteFile(file, T3.B, 0644); err != nil {
		panic(err)
	}
	fields := []render.FieldInfo{
		{Key: "k1", PageNum: 1, X: 10, Y: 20, W: 100, H: 30, Align: pdft.Left | pdft.Top, Font: "a", Size: 12},
		{Key: "k2", PageNum: 2, X: 15.5, Y: 25, W: 30, H: 12, Align: pdft.Right | pdft.Middle, Font: "b", Size: 9, IsWrapText: true},
		{Key: "k3", PageNum: 3, X: 1, Y: 2, W: 50, H: 60, Align: pdft.Center | pdft.Bottom, Font: "a", Size: 7, IsWrapText: false},
		{Key: "", PageNum: 1, X: 3, Y: 4, W: 20, H: 6, Align: pdft.Left, Font: "b", Size: 5, IsWrapText: true},
	}
	dups := append(append([]render.FieldInfo{}, fields...), render.FieldInfo{Key: "k1", PageNum: 2, X: 77, Y: 88, W: 99, H: 11, Align: pdft.Bottom, Font: "b", Size: 6})
	badfont := append(append([]render.FieldInfo{}, fields...), render.FieldInfo{Key: "bad", PageNum: 1, X: 1, Y: 1, W: 1, H: 1, Font: "nofont", Size: 6})
	last := func(fs []render.FieldInfo, k string) *render.FieldInfo {
		var o *render.FieldInfo
		for i := range fs {
			if fs[i].Key == k {
				o = &fs[i]
			}
		}
		return o
	}
	type rw struct {
		rd *render.Render
		w  *World
		tb bool
		fs []render.FieldInfo
	}
	type rop struct {
		name string
		do   func(x *rw) error
	}
	text := func(key, txt string) rop {
		return rop{fmt.Sprintf("text(%q,%q)", key, txt), func(x *rw) error {
			err := x.rd.Text(key, txt)
			f := last(x.fs, key)
			if f == nil {
				return wantErr(err, false, "text for an unknown key")
			}
			m := x.w.M
			if _, ok := m.Fonts[f.Font]; !ok {
				return wantErr(err, true, "text for a field with an unknown font")
			}
			m.Cur, m.Style, m.Size = f.Font, "", f.Size
			a := TextArg{txt, f.PageNum, f.X, f.Y, f.W, f.H, f.Align, nil}
			if f.IsWrapText && x.tb {
				return m.wrapped(a, modelBreak(txt), err)
			}
			ok := m.canShow(txt)
			if e := wantErr(err, !ok, "Text"); e != nil {
				return e
			}
			if ok {
				m.addText(a, txt, a.Y)
			}
			return nil
		}}
	}
	img := func(key string, im *ImgFix) rop {
		return rop{fmt.Sprintf("img(%q,%s)", key, im.Name), func(x *rw) error {
			err := x.rd.ImgBase64(key, base64.StdEncoding.EncodeToString(im.B))
			f := last(x.fs, key)
			if f == nil {
				return wantErr(err, false, "image for an unknown key")
			}
			if err != nil {
				return err
			}
			x.w.M.Ins = append(x.w.M.Ins, Ins{Kind: "img", Page: f.PageNum, X: f.X, Y: f.Y, W: f.W, H: f.H, PH: x.w.M.height(f.PageNum), Img: im})
			return nil
		}}
	}
	direct := func(o Op) rop {
		return rop{"direct:" + o.Name, func(x *rw) error { return o.Do(x.w) }}
	}
	alpha := []rop{
		text("k1", "Hé"), text("k2", "aa bb cc"), text("k3", "x y"), text("", "w w"), text("nokey", "lost"), text("bad", "bad"),
		text("k2", ""), img("k1", ImRGBA), img("k3", ImJPG), img("nokey", ImRGB),
		direct(OpSet("a", "U", 20)), direct(textOp("dir")), direct(OpDup(1, 0)),
		{"breaker", func(x *rw) error { x.rd.SetTextBreaker(textbreak.BasicTextbreak{}); x.tb = true; return nil }},
		{"nobreaker", func(x *rw) error { x.rd.SetTextBreaker(nil); x.tb = false; return nil }},
		{"badimg", func(x *rw) error {
			return wantErr(x.rd.ImgBase64("k1", "%%"), last(x.fs, "k1") != nil, "ImgBase64 of garbage")
		}},
		{"save", func(x *rw) error { _, err := SaveVerify(x.w); return err }},
		text("k1", "\U0001F9FF"),
	}
	open := func(fs []render.FieldInfo) (*rw, error) {
		rd, err := render.NewRender(file, fs)
		if err != nil {
			return nil, fmt.Errorf("NewRender: %v", err)
		}
		x := &rw{rd: rd, w: &World{P: &rd.PDFt, M: NewModel(T3)}, fs: append([]render.FieldInfo{}, fs...)}
		if err := RunOps(x.w, []Op{OpFont("a", FA), OpFont("b", FC)}); err != nil {
			return nil, err
		}
		return x, nil
	}
	// fields of every shape with texts of every shape, one at a time
	nf := 0
	for _, wrap := range []bool{false, true} {
		for _, wd := range []float64{0, 7.5, 60, 1000} {
			for _, ht := range []float64{0, 25.5} {
				for _, sz := range []int{0, 1, 9, 40} {
					for _, al := range []int{0, pdft.Left | pdft.Top, pdft.Right | pdft.Middle, pdft.Center | pdft.Bottom} {
						for pg := 0; pg <= 4; pg++ {
							fs := []render.FieldInfo{{Key: "k", PageNum: pg, X: 3.25, Y: 4.5, W: wd, H: ht, Align: al, Font: []string{"a", "b"}[pg%2], Size: sz, IsWrapText: wrap}}
							nf++
							for _, tb := range []bool{false, true} {
								tb, fs := tb, fs
								r.Case("field-shapes", fmt.Sprintf("%+v/%v", fs[0], tb), func() error {
									for _, t := range []string{"", " ", "a", " lead and trail ", "two  spaces é", "WWW iii WWW", "t\tab"} {
										x, err := open(fs)
										if err != nil {
											return err
										}
										if tb {
											x.rd.SetTextBreaker(textbreak.BasicTextbreak{})
											x.tb = true
										}
										if err := text("k", t).do(x); err != nil {
											return fmt.Errorf("%q: %w", t, err)
										}
										if err := img("k", ImPal).do(x); err != nil {
											return fmt.Errorf("%q: %w", t, err)
										}
										if _, err := SaveVerify(x.w); err != nil {
											return fmt.Errorf("%q: %w", t, err)
										}
										r.Trans(2)
										r.Trace()
									}
									return nil
								})
							}
						}
					}
				}
			}
		}
	}
	r.Bound("%d fields (wrapping, 4 widths, 2 heights, 4 sizes, 4 alignments, pages 0..4) with and without text breaker x 7 texts and an image", nf)
	for fi, fs := range [][]render.FieldInfo{fields, dups, badfont, nil} {
		d := r.Pick(2, 3)
		if fi == 0 {
			d = r.Pick(3, 4)
		}
		var rec func(cur []rop)
		rec = func(cur []rop) {
			if len(cur) > 0 {
				var nm []string
				for _, o := range cur {
					nm = append(nm, o.name)
				}
				ops := append([]rop{}, cur...)
				r.Case("fields", fmt.Sprintf("set%d:%s", fi, strings.Join(nm, ",")), func() error {
					x, err := open(append([]render.FieldInfo{}, fs...))
					if err != nil {
						return err
					}
					for _, o := range ops {
						if err := o.do(x); err != nil {
							return fmt.Errorf("%s: %w", o.name, err)
						}
						r.Trans(1)
						r.State(x.w.M.Key() + fmt.Sprint(x.tb))
					}
					_, err = SaveVerify(x.w)
					r.Trace()
					return err
				})
			}
			if len(cur) == d {
				return
			}
			for _, o := range alpha {
				rec(append(append([]rop{}, cur...), o))
			}
		}
		rec(nil)
		r.Bound("field set %d: all sequences of up to %d over %d renderer and document operations", fi, d, len(alpha))
	}
	// the design view shows every field once, in its box
	for mask := 0; mask < 1<<uint(len(fields)); mask++ {
		for rep := 0; rep < 1; rep++ {
			mask, rep := mask, rep
			r.Case("design-view", fmt.Sprintf("%d/%d", mask, rep), func() error {
				var fs []render.FieldInfo
				for i := range fields {
					if mask>>uint(i)&1 == 1 {
						fs = append(fs, fields[i])
					}
				}
				x, err := open(fs)
				if err != nil {
					return err
				}
				x.rd.ShowDesignView()
				b, err := Save(x.w)
				if err != nil {
					return err
				}
				var lastErr error
				hit := false
				Perms(len(fs), func(p []int) {
					if hit {
						return
					}
					m := *x.w.M
					m.Ins, m.Border = nil, true
					for _, i := range p {
						f := fs[i]
						m.Cur, m.Style, m.Size = f.Font, "", f.Size
						m.addText(TextArg{"#" + f.Key, f.PageNum, f.X, f.Y, f.W, f.H, f.Align, nil}, "#"+f.Key, f.Y)
					}
					if err := Verify(&m, b); err != nil {
						lastErr = err
						return
					}
					hit = true
				})
				r.Trace()
				if !hit {
					return fmt.Errorf("design view: %w", lastErr)
				}
				return nil
			})
		}
	}
	r.Case("open", "missing", func() error {
		rd, err := render.NewRender(filepath.Join(dir, "missing.pdf"), fields)
		if err == nil || rd != nil {
			return fmt.Errorf("NewRender of a missing file returned (%v, %v)", rd, err)
		}
		return nil
	})
}

// C18: what was saved is a template again.
func c18(r *mc.Run) {
	uses := stdUse()
	free := [][]Op{}
	for i, u := range uses {
		if i != 4 { // protected output is not a template
			free = append(free, u)
		}
	}
	free = append(free, []Op{OpFont("a", FB), OpSet("a", "U", 9), OpWrap(TextArg{"wrapped text ok", 1, 5, 6, 30, 10, 32, red}), OpBorder(true), textOp("b"), OpImg("cache", ImPal, 1, 2, 3, 4, 5), OpImg("cache", ImPal, 2, 2, 3, 4, 5)})
	depth := r.Pick(3, 4)
	tmpls := []*Tmpl{T1, T2, T3, TN, tmplShared(), tmplDeep(), tmplStrings()}
	files, _ := filepath.Glob("/repo/test/pdf/*.pdf")
	nreal := 0
	for _, f := range files {
		if b, err := os.ReadFile(f); err == nil && len(b) < 200000 {
			if t, err := MkReal(filepath.Base(f), b); err == nil {
				nreal++
				if nreal <= r.Pick(1, 4) {
					tmpls = append(tmpls, t)
				}
			}
		}
	}
	for _, t := range tmpls {
		var rec func(ch []int)
		rec = func(ch []int) {
			if len(ch) == depth {
				ch := append([]int{}, ch...)
				t := t
				r.Case("chain", fmt.Sprintf("%s:%v", t.Name, ch), func() error {
					cur := t
					for g, k := range ch {
						w, err := Open(cur)
						if err != nil {
							return fmt.Errorf("generation %d: %w", g+1, err)
						}
						if err := RunOps(w, free[k]); err != nil {
							return fmt.Errorf("generation %d: %w", g+1, err)
						}
						out, err := SaveVerify(w)
						if err != nil {
							return fmt.Errorf("generation %d: %w", g+1, err)
						}
						r.Trans(1)
						r.State(fmt.Sprint(t.Name, ch[:g+1]))
						if cur, err = MkReal(fmt.Sprintf("gen%d", g+1), out); err != nil {
							return fmt.Errorf("generation %d: %w", g+1, err)
						}
					}
					w, err := Open(cur)
					if err != nil {
						return fmt.Errorf("last generation: %w", err)
					}
					if err := RunOps(w, []Op{OpProt(4, []byte("u"), []byte("o"))}); err != nil {
						return err
					}
					if _, err := SaveVerify(w); err != nil {
						return fmt.Errorf("last generation: %w", err)
					}
					r.Trace()
					return nil
				})
				return
			}
			for k := range free {
				rec(append(append([]int{}, ch...), k))
			}
		}
		rec(nil)
	}
	r.Bound("all chains of %d generations over %d uses from %d templates, each output being the next template, the last one protected", depth, len(free), len(tmpls))
	wideGenerations(r)
	drawnAsTemplate(r, free)
	protectedAsTemplate(r, tmpls, free)
}
