// Package checks holds the reference model of pdft and the enumerated spaces
// of every property.
package checks

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"image/color"
	"math"
	"os"
	"strings"
	"sync"

	pdft "github.com/signintech/pdft"
	"github.com/signintech/pdft/textbreak"

	"verif/cs"
	"verif/pdfx"
	"verif/pngx"
	"verif/ttfx"
)

// ---------------------------------------------------------------- fixtures

// Tmpl is a template with everything the oracle needs, computed once.
type Tmpl struct {
	Name  string
	B     []byte
	D     *pdfx.Doc
	Pages []*pdfx.Page
	Ops   [][]string // content operators of each page, printed
	Evs   []int      // number of painting events
	Cont  [][]byte
}

func showOps(b []byte) ([]string, error) {
	ops, err := pdfx.ParseContent(b)
	if err != nil {
		return nil, err
	}
	var out []string
	for _, o := range ops {
		var s strings.Builder
		for _, a := range o.Args {
			s.WriteString(showFull(a))
			s.WriteByte(' ')
		}
		s.WriteString(o.Name)
		out = append(out, s.String())
	}
	return out, nil
}

func showFull(o pdfx.Obj) string {
	switch v := o.(type) {
	case pdfx.Arr:
		var s []string
		for _, x := range v {
			s = append(s, showFull(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *pdfx.Dict:
		var s []string
		for _, k := range v.Keys {
			s = append(s, "/"+k+" "+showFull(v.M[k]))
		}
		return "<<" + strings.Join(s, " ") + ">>"
	case pdfx.Str:
		return fmt.Sprintf("(%q)", string(v))
	}
	return pdfx.Show(o)
}

func MkTmpl(name string, b []byte) *Tmpl {
	t := &Tmpl{Name: name, B: b}
	var err error
	t.D, err = pdfx.Load(b)
	if err != nil {
		panic("harness: template " + name + ": " + err.Error())
	}
	t.Pages, err = t.D.Pages()
	if err != nil {
		panic("harness: template " + name + ": " + err.Error())
	}
	for i, p := range t.Pages {
		c, err := t.D.ContentBytes(p)
		if err != nil {
			panic(err)
		}
		t.Cont = append(t.Cont, c)
		o, err := showOps(c)
		if err != nil {
			panic(fmt.Sprintf("harness: template %s page %d: %v", name, i+1, err))
		}
		t.Ops = append(t.Ops, o)
		it, err := cs.Run(t.D, p.Resources, c)
		if err != nil {
			panic(fmt.Sprintf("harness: template %s page %d: %v", name, i+1, err))
		}
		t.Evs = append(t.Evs, len(it.Events))
	}
	return t
}

// MkReal is MkTmpl for files not produced by the generator; ok is false when
// the strict reader or the interpreter does not handle the file.
func MkReal(name string, b []byte) (t *Tmpl, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	return MkTmpl(name, b), nil
}

type FontFix struct {
	Name string
	B    []byte
	F    *ttfx.Font
}

func MkFont(name string, s ttfx.Spec) *FontFix {
	b := ttfx.Build(s)
	f, err := ttfx.Read(b, true)
	if err != nil {
		panic("harness: font " + name + ": " + err.Error())
	}
	return &FontFix{name, b, f}
}

// GID is the glyph the font gives for r.
func (f *FontFix) GID(r rune) (int, bool) {
	if r <= 0xFFFF {
		return f.F.CmapBMP[r], true
	}
	if !f.F.Has12 {
		return 0, false
	}
	g, ok := f.F.Cmap[r]
	return g, ok
}

type ImgFix struct {
	Name string
	B    []byte
	W, H int
	Px   []color.NRGBA // nil for JPEG
	CSp  string        // JPEG colour space
}

func MkPNG(name string, s pngx.Spec) *ImgFix {
	b, px := s.Encode()
	return &ImgFix{Name: name, B: b, W: s.W, H: s.H, Px: px}
}

// ---------------------------------------------------------------- model

type MFont struct {
	Fix  *FontFix
	Kern func(l, r rune, lg, rg uint) int16
	Rise func(l, r rune, size int, all string, i int) float32
	Used map[rune]bool
}

type MPage struct {
	T int // index of the template page
}

type Ins struct {
	Kind       string // text img
	Page       int
	X, Y, W, H float64
	PH         float64
	// text
	Text   string
	Font   string
	Style  string
	Size   int
	Align  int
	Color  [3]int
	Border bool
	// image
	Img *ImgFix
	Key string // images with equal non-empty key share one object
}

type Prot struct {
	Perm        int
	User, Owner []byte
}

type Model struct {
	T      *Tmpl
	Pages  []MPage
	Fonts  map[string]*MFont
	Order  []string
	Cur    string
	Style  string
	Size   int
	Border bool
	Ins    []Ins
	Prot   *Prot
}

func NewModel(t *Tmpl) *Model {
	m := &Model{T: t, Fonts: map[string]*MFont{}}
	for i := range t.Pages {
		m.Pages = append(m.Pages, MPage{i})
	}
	return m
}

func (m *Model) Key() string {
	var s strings.Builder
	fmt.Fprint(&s, m.T.Name, m.Pages, m.Order, m.Cur, m.Style, m.Size, m.Border)
	for _, n := range m.Order {
		fmt.Fprint(&s, m.Fonts[n].Kern != nil, m.Fonts[n].Rise != nil)
	}
	for _, i := range m.Ins {
		n := ""
		if i.Img != nil {
			n = i.Img.Name
		}
		fmt.Fprint(&s, i.Kind, i.Page, i.X, i.Y, i.W, i.H, i.Text, i.Font, i.Style, i.Size, i.Align, i.Color, i.Border, n, i.Key)
	}
	if m.Prot != nil {
		fmt.Fprint(&s, *m.Prot)
	}
	return s.String()
}

func (m *Model) height(page int) float64 {
	if page >= 1 && page <= len(m.Pages) {
		return m.T.Pages[m.Pages[page-1].T].MediaBox[3]
	}
	return 841.89
}

type glyphPos struct {
	r    rune
	gid  int
	x    float64 // offset from the start, points
	rise float64
}

func trunc1000(n, upm int) int { return n * 1000 / upm }

// layout computes glyphs and total width (points).
func (f *MFont) layout(text string, size int) ([]glyphPos, float64, error) {
	var out []glyphPos
	sum := 0
	var left rune
	var leftG int
	k := 0
	for _, r := range text {
		g, ok := f.Fix.GID(r)
		if !ok {
			return nil, 0, errors.New("character not in font")
		}
		if k > 0 && f.Kern != nil {
			sum += trunc1000(int(f.Kern(left, r, uint(leftG), uint(g))), f.Fix.F.UPM)
		}
		p := glyphPos{r: r, gid: g, x: float64(sum) * float64(size) / 1000}
		if f.Rise != nil {
			p.rise = float64(f.Rise(left, r, size, text, k))
		}
		out = append(out, p)
		sum += f.Fix.F.PDFWidth(g)
		left, leftG = r, g
		k++
	}
	return out, float64(sum) * float64(size) / 1000, nil
}

// ---------------------------------------------------------------- world

type World struct {
	P *pdft.PDFt
	M *Model
}

func Open(t *Tmpl) (*World, error) {
	w := &World{P: new(pdft.PDFt), M: NewModel(t)}
	if err := w.P.OpenFrom(bytes.NewReader(t.B)); err != nil {
		return nil, fmt.Errorf("opening %s failed: %v", t.Name, err)
	}
	return w, nil
}

type Op struct {
	Name string
	Do   func(w *World) error
}

func RunOps(w *World, ops []Op) error {
	for i, o := range ops {
		if err := o.Do(w); err != nil {
			return fmt.Errorf("step %d %s: %w", i+1, o.Name, err)
		}
	}
	return nil
}

func Names(ops []Op) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.Name)
	}
	return strings.Join(s, ",")
}

func wantErr(got error, want bool, what string) error {
	if (got != nil) != want {
		if want {
			return fmt.Errorf("%s: reported success where it must fail", what)
		}
		return fmt.Errorf("%s: unexpected error %v", what, got)
	}
	return nil
}

func OpFont(name string, f *FontFix) Op {
	return Op{fmt.Sprintf("font(%s=%s)", name, f.Name), func(w *World) error {
		err := w.P.AddFontFrom(name, bytes.NewReader(f.B))
		_, dup := w.M.Fonts[name]
		if dup {
			if err != pdft.ErrAddSameFontName {
				return fmt.Errorf("second font with the name %q: error is %v", name, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("adding font: %v", err)
		}
		w.M.Fonts[name] = &MFont{Fix: f, Used: map[rune]bool{}}
		w.M.Order = append(w.M.Order, name)
		return nil
	}}
}

// OpFontPath adds a font from a file.
func OpFontPath(name string, f *FontFix) Op {
	return Op{fmt.Sprintf("fontfile(%s=%s)", name, f.Name), func(w *World) error {
		fh, err := os.CreateTemp(os.Getenv("VP_SCRATCH"), "font*.ttf")
		if err != nil {
			return nil
		}
		defer os.Remove(fh.Name())
		fh.Write(f.B)
		fh.Close()
		err = w.P.AddFont(name, fh.Name())
		if _, dup := w.M.Fonts[name]; dup {
			if err != pdft.ErrAddSameFontName {
				return fmt.Errorf("second font with the name %q: error is %v", name, err)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("adding font: %v", err)
		}
		w.M.Fonts[name] = &MFont{Fix: f, Used: map[rune]bool{}}
		w.M.Order = append(w.M.Order, name)
		return nil
	}}
}

func OpSet(name, style string, size int) Op {
	return Op{fmt.Sprintf("set(%s,%q,%d)", name, style, size), func(w *World) error {
		err := w.P.SetFont(name, style, size)
		if _, ok := w.M.Fonts[name]; !ok {
			if err != pdft.ErrFontNameNotFound {
				return fmt.Errorf("SetFont(%q) of an unknown font: error is %v", name, err)
			}
			return nil
		}
		if err != nil {
			return err
		}
		w.M.Cur, w.M.Style, w.M.Size = name, style, size
		return nil
	}}
}

type TextArg struct {
	Text       string
	Page       int
	X, Y, W, H float64
	Align      int
	Color      *pdft.FontColor
}

func (a TextArg) String() string {
	c := ""
	if a.Color != nil {
		c = fmt.Sprintf(",%d/%d/%d", a.Color.R, a.Color.G, a.Color.B)
	}
	return fmt.Sprintf("%q,p%d,%g,%g,%g,%g,%d%s", a.Text, a.Page, a.X, a.Y, a.W, a.H, a.Align, c)
}

func (m *Model) canShow(text string) bool {
	f, ok := m.Fonts[m.Cur]
	if !ok {
		return false
	}
	for _, r := range text {
		if _, ok := f.Fix.GID(r); !ok {
			return false
		}
	}
	return true
}

func (m *Model) addText(a TextArg, text string, y float64) {
	i := Ins{Kind: "text", Page: a.Page, X: a.X, Y: y, W: a.W, H: a.H, PH: m.height(a.Page), Text: text,
		Font: m.Cur, Style: m.Style, Size: m.Size, Align: a.Align, Border: m.Border}
	if a.Color != nil {
		i.Color = [3]int{a.Color.R, a.Color.G, a.Color.B}
	}
	for _, r := range text {
		m.Fonts[m.Cur].Used[r] = true
	}
	m.Ins = append(m.Ins, i)
}

func OpText(a TextArg) Op {
	return Op{"text(" + a.String() + ")", func(w *World) error {
		var c *pdft.FontColor
		if a.Color != nil {
			cc := *a.Color
			c = &cc
		}
		err := w.P.Insert(a.Text, a.Page, a.X, a.Y, a.W, a.H, a.Align, c)
		if c != nil { // the caller may reuse its colour
			c.R, c.G, c.B = 7, 7, 7
		}
		ok := w.M.canShow(a.Text)
		if e := wantErr(err, !ok, "Insert"); e != nil {
			return e
		}
		if ok {
			w.M.addText(a, a.Text, a.Y)
		}
		return nil
	}}
}

func modelBreak(s string) []string { // BasicTextbreak: spaces are tokens of their own
	var out []string
	cur := ""
	for _, r := range s {
		if r == ' ' {
			if cur != "" {
				out = append(out, cur)
			}
			out = append(out, " ")
			cur = ""
			continue
		}
		cur += string(r)
	}
	if cur != "" {
		out = append(out, cur)
	}
	return out
}

func (m *Model) wrapLines(tokens []string, w float64) ([]string, error) {
	f := m.Fonts[m.Cur]
	var lines []string
	line := ""
	for _, t := range tokens {
		if t == "" {
			continue
		}
		_, tw, err := f.layout(line+t, m.Size)
		if err != nil {
			return nil, err
		}
		if tw > w && strings.TrimSpace(line) != "" {
			lines = append(lines, strings.TrimSpace(line))
			line = t
		} else {
			line += t
		}
	}
	if line != "" {
		lines = append(lines, strings.TrimSpace(line))
	}
	return lines, nil
}

func OpWrap(a TextArg) Op {
	return Op{"wrap(" + a.String() + ")", func(w *World) error {
		err := w.P.InsertWrapText(a.Text, a.Page, a.X, a.Y, a.W, a.H, a.Align, a.Color, textbreak.BasicTextbreak{})
		_, have := w.M.Fonts[w.M.Cur]
		toks := modelBreak(a.Text)
		ok := (have || len(toks) == 0) && (!have || w.M.canShow(a.Text))
		if e := wantErr(err, !ok, "InsertWrapText"); e != nil {
			return e
		}
		if !ok || len(toks) == 0 {
			return nil
		}
		lines, err := w.M.wrapLines(toks, a.W)
		if err != nil {
			return fmt.Errorf("harness: %v", err)
		}
		size := float64(w.M.Size)
		step := size * 1.2
		off := 0.0
		if a.Align&pdft.Middle != 0 {
			off = float64(len(lines))*step/2 - size/2
		}
		for i, l := range lines {
			w.M.addText(a, l, a.Y+float64(i)*step-off)
		}
		return nil
	}}
}

// OpImg: mode "plain", "b64", "cache".
func OpImg(mode string, im *ImgFix, page int, x, y, wd, h float64) Op {
	return Op{fmt.Sprintf("img(%s,%s,p%d,%g,%g,%g,%g)", mode, im.Name, page, x, y, wd, h), func(w *World) error {
		data := append([]byte(nil), im.B...)
		var err error
		key := ""
		switch mode {
		case "plain":
			err = w.P.InsertImg(data, page, x, y, wd, h)
		case "b64":
			err = w.P.InsertImgBase64(base64.StdEncoding.EncodeToString(im.B), page, x, y, wd, h)
		case "b64lf", "b64crlf": // in lines, as in a mail
			b, nl := base64.StdEncoding.EncodeToString(im.B), map[string]string{"b64lf": "\n", "b64crlf": "\r\n"}[mode]
			var sb strings.Builder
			for ; len(b) > 76; b = b[76:] {
				sb.WriteString(b[:76] + nl)
			}
			err = w.P.InsertImgBase64(sb.String()+b+nl, page, x, y, wd, h)
		case "cache":
			err = w.P.InsertImgWithCache(data, page, x, y, wd, h)
			key = "c:" + im.Name
		}
		for i := range data { // the caller may reuse its buffer
			data[i] = 0xEE
		}
		if err != nil {
			return fmt.Errorf("inserting image: %v", err)
		}
		w.M.Ins = append(w.M.Ins, Ins{Kind: "img", Page: page, X: x, Y: y, W: wd, H: h, PH: w.M.height(page), Img: im, Key: key})
		return nil
	}}
}

func (m *Model) count(w *World) error {
	if n := w.P.GetNumberOfPage(); n != len(m.Pages) {
		return fmt.Errorf("GetNumberOfPage reports %d, the document has %d pages", n, len(m.Pages))
	}
	return nil
}

func OpDup(target, pos int) Op {
	return Op{fmt.Sprintf("dup(%d,%d)", target, pos), func(w *World) error {
		err := w.P.DuplicatePageAfter(target, pos)
		n := len(w.M.Pages)
		bad := target < 1 || target > n || pos >= n || pos < -n
		if !bad && w.M.T.Pages[w.M.Pages[target-1].T].D.Get("Contents") == nil {
			if err != pdft.ErrNoContentsProperty {
				return fmt.Errorf("duplicating a page without content: error is %v", err)
			}
			return w.M.count(w)
		}
		if bad && err != pdft.ErrNoDesiredPageToCopy {
			return fmt.Errorf("duplicating page %d of %d to %d: error is %v", target, n, pos, err)
		}
		if e := wantErr(err, bad, "DuplicatePageAfter"); e != nil {
			return e
		}
		if !bad {
			if pos < 0 {
				pos += n
			}
			ps := append([]MPage{}, w.M.Pages[:pos+1]...)
			ps = append(ps, w.M.Pages[target-1])
			w.M.Pages = append(ps, w.M.Pages[pos+1:]...)
		}
		return w.M.count(w)
	}}
}

func OpRm(n int) Op {
	return Op{fmt.Sprintf("rm(%d)", n), func(w *World) error {
		if n == 1 && len(w.M.Pages) == 1 {
			return nil // documents without pages are not specified
		}
		err := w.P.RemovePage(n)
		bad := n < 1 || n > len(w.M.Pages)
		if bad && err != pdft.ErrNoDesiredPageToRemove {
			return fmt.Errorf("removing page %d of %d: error is %v", n, len(w.M.Pages), err)
		}
		if e := wantErr(err, bad, "RemovePage"); e != nil {
			return e
		}
		if !bad {
			w.M.Pages = append(append([]MPage{}, w.M.Pages[:n-1]...), w.M.Pages[n:]...)
		}
		return w.M.count(w)
	}}
}

func OpKeep(n int) Op {
	return Op{fmt.Sprintf("keep(%d)", n), func(w *World) error {
		err := w.P.RemoveOtherPages(n)
		bad := n < 1 || n > len(w.M.Pages)
		if bad && err != pdft.ErrNoDesiredPageToKeep {
			return fmt.Errorf("keeping page %d of %d: error is %v", n, len(w.M.Pages), err)
		}
		if e := wantErr(err, bad, "RemoveOtherPages"); e != nil {
			return e
		}
		if !bad {
			w.M.Pages = []MPage{w.M.Pages[n-1]}
		}
		return w.M.count(w)
	}}
}

func OpBorder(on bool) Op {
	return Op{fmt.Sprintf("border(%v)", on), func(w *World) error {
		w.P.ShowCellBorder(on)
		w.M.Border = on
		return nil
	}}
}

func OpProt(perm int, user, owner []byte) Op {
	return Op{fmt.Sprintf("protect(%d,%q,%q)", perm, user, owner), func(w *World) error {
		u := append([]byte(nil), user...)
		o := append([]byte(nil), owner...)
		if user == nil {
			u = nil
		}
		if owner == nil {
			o = nil
		}
		if err := w.P.SetProtection(perm, u, o); err != nil {
			return err
		}
		for i := range u {
			u[i] = 'z'
		}
		for i := range o {
			o[i] = 'z'
		}
		w.M.Prot = &Prot{perm, user, owner}
		return nil
	}}
}

func OpMeasure(text string) Op {
	return Op{fmt.Sprintf("measure(%q)", text), func(w *World) error {
		got, err := w.P.MeasureTextWidth(text)
		f, ok := w.M.Fonts[w.M.Cur]
		if !ok {
			if err != pdft.ErrFontNameNotFound {
				return fmt.Errorf("measuring without a font: error is %v", err)
			}
			return nil
		}
		if !w.M.canShow(text) {
			return wantErr(err, true, "MeasureTextWidth")
		}
		if err != nil {
			return err
		}
		_, want, _ := f.layout(text, w.M.Size)
		if math.Abs(got-want) > 1e-6 {
			return fmt.Errorf("MeasureTextWidth(%q) = %v, the glyph advances sum to %v", text, got, want)
		}
		return nil
	}}
}

type KernFn struct {
	Name string
	F    func(l, r rune, lg, rg uint) int16
}

func OpKern(font string, k KernFn) Op {
	return Op{"kern(" + font + "," + k.Name + ")", func(w *World) error {
		var bad error
		f := w.M.Fonts[font]
		var mu sync.Mutex
		err := w.P.KernOverride(font, func(l, r rune, lg, rg uint, pv int16) int16 {
			if f != nil {
				a, _ := f.Fix.GID(l)
				b, _ := f.Fix.GID(r)
				if uint(a) != lg || uint(b) != rg {
					mu.Lock()
					bad = fmt.Errorf("kern override called for %q %q with glyphs %d %d", l, r, lg, rg)
					mu.Unlock()
					return 29999
				}
			}
			return k.F(l, r, lg, rg)
		})
		if f == nil {
			if err != pdft.ErrFontNameNotFound {
				return fmt.Errorf("KernOverride of an unknown font: error is %v", err)
			}
			return nil
		}
		if err != nil {
			return err
		}
		f.Kern = k.F
		return bad
	}}
}

type RiseFn struct {
	Name string
	F    func(l, r rune, size int, all string, i int) float32
}

func OpRise(font string, k RiseFn) Op {
	return Op{"rise(" + font + "," + k.Name + ")", func(w *World) error {
		f := w.M.Fonts[font]
		err := w.P.TextriseOverride(font, k.F)
		if f == nil {
			if err != pdft.ErrFontNameNotFound {
				return fmt.Errorf("TextriseOverride of an unknown font: error is %v", err)
			}
			return nil
		}
		if err != nil {
			return err
		}
		f.Rise = k.F
		return nil
	}}
}

// OpReopen opens another template on the same value.
func OpReopen(t *Tmpl) Op {
	return Op{"open(" + t.Name + ")", func(w *World) error {
		if err := w.P.OpenFrom(bytes.NewReader(t.B)); err != nil {
			return fmt.Errorf("opening %s: %v", t.Name, err)
		}
		p := w.M.Prot
		w.M = NewModel(t)
		w.M.Prot = p
		return nil
	}}
}

// OpSave saves and verifies in the middle of a history.
func OpSave() Op {
	return Op{"save", func(w *World) error {
		_, err := SaveVerify(w)
		return err
	}}
}

func Save(w *World) ([]byte, error) {
	var b bytes.Buffer
	if err := w.P.SaveTo(&b); err != nil {
		return nil, fmt.Errorf("saving failed: %v", err)
	}
	return b.Bytes(), nil
}

func SaveVerify(w *World) ([]byte, error) {
	b, err := Save(w)
	if err != nil {
		return nil, err
	}
	return b, Verify(w.M, b)
}

// ---------------------------------------------------------------- verify

func near(a, b float64) bool { return math.Abs(a-b) <= cs.Tol }

type verifier struct {
	m     *Model
	d     *pdfx.Doc
	fonts map[pdfx.Ref]*embFont
	imgs  map[string]pdfx.Ref
}

type embFont struct {
	F   *ttfx.Font
	Uni map[int][]rune
}

// LoadOut opens a saved file as a user holding the (user) password would.
func LoadOut(m *Model, out []byte) (*pdfx.Doc, error) {
	var d *pdfx.Doc
	var err error
	if m.Prot != nil {
		d, err = pdfx.LoadPW(out, m.Prot.User)
		if err == nil && d.Encrypt == nil {
			err = errors.New("protection was requested but the file is not encrypted")
		}
	} else {
		d, err = pdfx.Load(out)
		if err == nil && d.Trailer.Has("Encrypt") {
			err = errors.New("the file is encrypted though no protection was requested")
		}
	}
	if err != nil {
		return nil, fmt.Errorf("saved file is not a valid PDF: %v", err)
	}
	return d, nil
}

// Verify compares a saved file with the model.
func Verify(m *Model, out []byte) error {
	if !bytes.HasPrefix(out, []byte("%PDF-1.")) {
		return errors.New("no %PDF header")
	}
	if i := bytes.LastIndex(out, []byte("%%EOF")); i < 0 || len(bytes.TrimRight(out[i+5:], "\r\n \t")) > 0 {
		return errors.New("the file does not end with its end-of-file marker")
	}
	d, err := LoadOut(m, out)
	if err != nil {
		return err
	}
	if m.Prot != nil {
		if err := verifyProt(m, d); err != nil {
			return err
		}
	}
	return VerifyDoc(m, d)
}

func VerifyDoc(m *Model, d *pdfx.Doc) error {
	if err := d.CheckRefs(); err != nil {
		return err
	}
	pages, err := d.Pages()
	if err != nil {
		return err
	}
	if len(pages) != len(m.Pages) {
		return fmt.Errorf("saved file has %d pages, expected %d", len(pages), len(m.Pages))
	}
	v := &verifier{m: m, d: d, fonts: map[pdfx.Ref]*embFont{}, imgs: map[string]pdfx.Ref{}}
	// catalog
	tr := m.T.D.Dict(m.T.D.Trailer.Get("Root"))
	or := d.Dict(d.Trailer.Get("Root"))
	c := &pdfx.Cmp{A: m.T.D, B: d, Skip: v.skip}
	for _, k := range tr.Keys {
		if k == "Pages" {
			continue
		}
		if err := c.Equal(tr.M[k], or.Get(k), "catalog/"+k); err != nil {
			return fmt.Errorf("document catalog changed: %v", err)
		}
	}
	if err := c.Equal(m.T.D.Trailer.Get("Info"), d.Trailer.Get("Info"), "info"); err != nil {
		return fmt.Errorf("document information changed: %v", err)
	}
	for i, p := range pages {
		if err := v.page(i, p); err != nil {
			return fmt.Errorf("page %d: %w", i+1, err)
		}
	}
	return nil
}

func (v *verifier) skip(path, key string) bool {
	return key == "Parent" || key == "Contents" || key == "Resources" || key == "Kids" || key == "Count" || inheritable[key]
}

func floats(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if math.Abs(a[i]-b[i]) > 1e-9 {
			return false
		}
	}
	return true
}

var inheritable = map[string]bool{"MediaBox": true, "CropBox": true, "Rotate": true, "Resources": true}

func (v *verifier) page(i int, p *pdfx.Page) error {
	ti := v.m.Pages[i].T
	tp := v.m.T.Pages[ti]
	if !floats(tp.MediaBox, p.MediaBox) {
		return fmt.Errorf("page size changed: %v became %v", tp.MediaBox, p.MediaBox)
	}
	if !floats(tp.CropBox, p.CropBox) {
		return fmt.Errorf("crop box changed: %v became %v", tp.CropBox, p.CropBox)
	}
	if tp.Rotate != p.Rotate {
		return fmt.Errorf("rotation changed: %v became %v", tp.Rotate, p.Rotate)
	}
	c := &pdfx.Cmp{A: v.m.T.D, B: v.d, Skip: v.skip}
	for _, k := range tp.D.Keys {
		if v.skip("", k) || inheritable[k] {
			continue
		}
		if err := c.Equal(tp.D.M[k], p.D.Get(k), "page/"+k); err != nil {
			return fmt.Errorf("template page entry changed: %v", err)
		}
	}
	for _, k := range p.D.Keys {
		if !tp.D.Has(k) && !inheritable[k] && k != "Contents" {
			return fmt.Errorf("page entry /%s appeared", k)
		}
	}
	// resources
	if tp.Resources != nil {
		if p.Resources == nil {
			return errors.New("resources lost")
		}
		for _, k := range tp.Resources.Keys {
			tv := v.m.T.D.Resolve(tp.Resources.M[k])
			if k == "Font" || k == "XObject" {
				td, _ := tv.(*pdfx.Dict)
				if td == nil {
					continue
				}
				od := v.d.Dict(p.Resources.Get(k))
				if od == nil {
					return fmt.Errorf("resource category /%s lost", k)
				}
				for _, n := range td.Keys {
					if !od.Has(n) {
						return fmt.Errorf("template resource /%s /%s lost", k, n)
					}
					if err := c.Equal(td.M[n], od.M[n], k+"/"+n); err != nil {
						return fmt.Errorf("template resource changed: %v", err)
					}
				}
				continue
			}
			if err := c.Equal(tp.Resources.M[k], p.Resources.Get(k), "Resources/"+k); err != nil {
				return fmt.Errorf("template resource changed: %v", err)
			}
		}
	}
	// content
	cont, err := v.d.ContentBytes(p)
	if err != nil {
		return err
	}
	ops, err := showOps(cont)
	if err != nil {
		return fmt.Errorf("content stream: %v", err)
	}
	top := v.m.T.Ops[ti]
	if len(ops) < len(top) {
		return fmt.Errorf("template content lost: %d of %d operators left", len(ops), len(top))
	}
	for k := range top {
		if ops[k] != top[k] {
			return fmt.Errorf("template content changed at operator %d: %q became %q", k+1, top[k], ops[k])
		}
	}
	it, err := cs.Run(v.d, p.Resources, cont)
	if err != nil {
		return fmt.Errorf("content cannot be interpreted: %v", err)
	}
	evs := it.Events[v.m.T.Evs[ti]:]
	n := 0
	for _, in := range v.m.Ins {
		if in.Page != i+1 {
			continue
		}
		n++
		used, err := v.insert(in, evs)
		if err != nil {
			return fmt.Errorf("insert no. %d on this page (%s): %w", n, in.brief(), err)
		}
		evs = evs[used:]
	}
	if len(evs) > 0 {
		return fmt.Errorf("%d painting operations nobody asked for, the first is %s", len(evs), evs[0])
	}
	return nil
}

func (in Ins) brief() string {
	if in.Kind == "img" {
		return fmt.Sprintf("image %s at %g,%g", in.Img.Name, in.X, in.Y)
	}
	return fmt.Sprintf("text %q %s %q %d at %g,%g", in.Text, in.Font, in.Style, in.Size, in.X, in.Y)
}

func (v *verifier) insert(in Ins, evs []cs.Event) (int, error) {
	if in.Kind == "img" {
		if len(evs) < 1 {
			return 0, errors.New("is missing")
		}
		e := evs[0]
		if e.Kind != "image" {
			return 0, fmt.Errorf("expected an image, found %s", e)
		}
		want := cs.M{in.W, 0, 0, in.H, in.X, in.PH - (in.Y + in.H)}
		for k := range want {
			if !near(want[k], e.Mat[k]) {
				return 0, fmt.Errorf("image is placed with matrix %v, expected %v", e.Mat, want)
			}
		}
		if in.Key != "" {
			if r, ok := v.imgs[in.Key]; ok && r != e.XORef {
				return 0, fmt.Errorf("image inserted with cache is stored twice (objects %d and %d)", r.N, e.XORef.N)
			}
			v.imgs[in.Key] = e.XORef
		}
		return 1, CheckImage(v.d, e.XO, in.Img)
	}
	f := v.m.Fonts[in.Font]
	gl, tw, err := f.layout(in.Text, in.Size)
	if err != nil {
		return 0, err
	}
	under := strings.ContainsAny(in.Style, "uU")
	need := len(gl)
	if under {
		need++
	}
	if in.Border {
		need += 4
	}
	if len(evs) < need {
		return 0, fmt.Errorf("needs %d painting operations, only %d left", need, len(evs))
	}
	var glyphs, fills, strokes []cs.Event
	for _, e := range evs[:need] {
		switch e.Kind {
		case "glyph":
			glyphs = append(glyphs, e)
		case "fill":
			fills = append(fills, e)
		case "stroke":
			strokes = append(strokes, e)
		default:
			return 0, fmt.Errorf("unexpected %s", e)
		}
	}
	if len(glyphs) != len(gl) {
		return 0, fmt.Errorf("%d glyphs shown, expected %d", len(glyphs), len(gl))
	}
	size := float64(in.Size)
	ft := f.Fix.F
	asc := float64(ft.TypoAsc) * size / float64(ft.UPM)
	desc := float64(ft.TypoDesc) * size / float64(ft.UPM)
	x0, y0 := in.X, in.PH-in.Y-asc
	if in.Align&pdft.Right != 0 {
		x0 = in.X + in.W - tw
	} else if in.Align&pdft.Center != 0 {
		x0 = in.X + in.W/2 - tw/2
	}
	if in.Align&pdft.Bottom != 0 {
		y0 = in.PH - in.Y - in.H - desc
	} else if in.Align&pdft.Middle != 0 {
		y0 = in.PH - in.Y - in.H/2 - (asc+desc)/2
	}
	col := cs.Color{float64(in.Color[0]) / 255, float64(in.Color[1]) / 255, float64(in.Color[2]) / 255}
	okCol := func(c cs.Color) bool { return near(c[0], col[0]) && near(c[1], col[1]) && near(c[2], col[2]) }
	for k, g := range gl {
		e := glyphs[k]
		if math.Abs(e.Size-size) > 1e-9 {
			return 0, fmt.Errorf("glyph %d is shown at size %v", k, e.Size)
		}
		if !near(e.Mat[4], x0+g.x) || !near(e.Mat[5]-e.Rise, y0) {
			return 0, fmt.Errorf("glyph %d (%q) is at (%.2f, %.2f), expected (%.2f, %.2f)", k, g.r, e.Mat[4], e.Mat[5]-e.Rise, x0+g.x, y0)
		}
		if !near(e.Rise, g.rise) {
			return 0, fmt.Errorf("glyph %d (%q) has text rise %v, expected %v", k, g.r, e.Rise, g.rise)
		}
		if e.Mat[0] != 1 || e.Mat[1] != 0 || e.Mat[2] != 0 || e.Mat[3] != 1 {
			return 0, fmt.Errorf("glyph %d is transformed by %v", k, e.Mat)
		}
		if !okCol(e.Fill) {
			return 0, fmt.Errorf("glyph %d has colour %v, expected %v", k, e.Fill, col)
		}
		if err := v.glyph(f, e, g); err != nil {
			return 0, fmt.Errorf("glyph %d (%q): %w", k, g.r, err)
		}
	}
	if under {
		if len(fills) != 1 {
			return 0, fmt.Errorf("underline: %d filled shapes, expected 1", len(fills))
		}
		ux, uy := in.X, in.PH-in.Y+float64(ft.UPos)*size/float64(ft.UPM)-0.7*size
		uw, uh := in.W, -float64(ft.UThk)*size/float64(ft.UPM)
		if err := isRect(fills[0], ux, uy, uw, uh); err != nil {
			return 0, fmt.Errorf("underline: %v", err)
		}
		if len(gl) > 0 && !okCol(fills[0].Fill) {
			return 0, fmt.Errorf("underline has colour %v, text has %v", fills[0].Fill, col)
		}
	} else if len(fills) != 0 {
		return 0, fmt.Errorf("unexpected %s", fills[0])
	}
	if in.Border {
		if len(strokes) != 4 {
			return 0, fmt.Errorf("border: %d lines, expected 4", len(strokes))
		}
		t, b := in.PH-in.Y, in.PH-in.Y-in.H
		l, r := in.X, in.X+in.W
		o := 0.05
		want := [][4]float64{{l - o, t, r + o, t}, {l, t, l, b}, {r, t, r, b}, {l - o, b, r + o, b}}
		for _, wl := range want {
			hit := false
			for _, s := range strokes {
				if isLine(s, wl) {
					hit = true
				}
			}
			if !hit {
				return 0, fmt.Errorf("border line %v is missing, drawn: %v", wl, strokes)
			}
		}
	} else if len(strokes) != 0 {
		return 0, fmt.Errorf("unexpected %s", strokes[0])
	}
	return need, nil
}

func pathPts(e cs.Event) [][2]float64 {
	var p [][2]float64
	for _, s := range e.Path {
		if s.Op == 'm' || s.Op == 'l' {
			p = append(p, [2]float64{s.Pts[0], s.Pts[1]})
		}
	}
	return p
}

func isLine(e cs.Event, w [4]float64) bool {
	p := pathPts(e)
	if len(p) != 2 {
		return false
	}
	f := func(a, b [2]float64) bool {
		return near(a[0], w[0]) && near(a[1], w[1]) && near(b[0], w[2]) && near(b[1], w[3])
	}
	return f(p[0], p[1]) || f(p[1], p[0])
}

func isRect(e cs.Event, x, y, w, h float64) error {
	p := pathPts(e)
	if len(p) < 4 {
		return fmt.Errorf("not a rectangle: %s", e)
	}
	lx, ly, hx, hy := p[0][0], p[0][1], p[0][0], p[0][1]
	for _, q := range p {
		lx, hx = math.Min(lx, q[0]), math.Max(hx, q[0])
		ly, hy = math.Min(ly, q[1]), math.Max(hy, q[1])
	}
	ex, ey := math.Min(x, x+w), math.Min(y, y+h)
	fx, fy := math.Max(x, x+w), math.Max(y, y+h)
	tol := 0.021
	for _, d := range []float64{lx - ex, ly - ey, hx - fx, hy - fy} {
		if math.Abs(d) > tol {
			return fmt.Errorf("rectangle (%.2f %.2f)-(%.2f %.2f), expected (%.2f %.2f)-(%.2f %.2f)", lx, ly, hx, hy, ex, ey, fx, fy)
		}
	}
	return nil
}

// CheckImage compares an image XObject with the source image.
func CheckImage(d *pdfx.Doc, s *pdfx.Stream, im *ImgFix) error {
	if s == nil {
		return errors.New("image object missing")
	}
	if im.Px == nil { // JPEG: passed through
		w, _ := d.Num(s.D.Get("Width"))
		h, _ := d.Num(s.D.Get("Height"))
		if int(w) != im.W || int(h) != im.H {
			return fmt.Errorf("JPEG of %dx%d declared as %gx%g", im.W, im.H, w, h)
		}
		if d.Resolve(s.D.Get("Filter")) != pdfx.Obj(pdfx.Name("DCTDecode")) {
			return fmt.Errorf("JPEG has filter %s", pdfx.Show(s.D.Get("Filter")))
		}
		if d.Resolve(s.D.Get("ColorSpace")) != pdfx.Obj(pdfx.Name(im.CSp)) {
			return fmt.Errorf("JPEG has colour space %s, expected %s", pdfx.Show(s.D.Get("ColorSpace")), im.CSp)
		}
		if n, _ := d.Num(s.D.Get("BitsPerComponent")); n != 8 {
			return errors.New("JPEG must have 8 bits per component")
		}
		inv := 0 // Adobe writes CMYK samples inverted
		if im.CSp == "DeviceCMYK" {
			inv = 1
		}
		dec := d.Arr(s.D.Get("Decode"))
		if inv == 1 && len(dec) != 8 {
			return fmt.Errorf("Adobe CMYK JPEG has /Decode %s, its samples are inverted", pdfx.Show(s.D.Get("Decode")))
		}
		for i, x := range dec {
			if n, _ := d.Num(x); int(n) != (i+inv)%2 {
				return fmt.Errorf("/Decode %s does not fit the JPEG", pdfx.Show(s.D.Get("Decode")))
			}
		}
		if s.D.Get("SMask") != nil || s.D.Get("Mask") != nil || s.D.Get("DecodeParms") != nil {
			return errors.New("JPEG image with a mask or filter parameters")
		}
		if !bytes.Equal(s.Raw, im.B) {
			return fmt.Errorf("JPEG data changed (%d bytes, file has %d)", len(s.Raw), len(im.B))
		}
		return nil
	}
	w, h, px, err := pngx.Pixels(d, s)
	if err != nil {
		return fmt.Errorf("image cannot be decoded: %v", err)
	}
	if w != im.W || h != im.H {
		return fmt.Errorf("image is %dx%d, expected %dx%d", w, h, im.W, im.H)
	}
	for i := range px {
		if px[i] != im.Px[i] && !(px[i].A == 0 && im.Px[i].A == 0) {
			return fmt.Errorf("pixel %d,%d is %v, expected %v", i%w, i/w, px[i], im.Px[i])
		}
	}
	return nil
}

func (v *verifier) glyph(f *MFont, e cs.Event, g glyphPos) error {
	if e.Font == nil || !e.Font.Type0 {
		return errors.New("is not shown with an embedded font")
	}
	emb := v.fonts[e.Font.Ref]
	if emb == nil {
		var err error
		emb, err = v.loadEmbedded(e.Font)
		if err != nil {
			return err
		}
		v.fonts[e.Font.Ref] = emb
	}
	if e.Code != g.gid {
		return fmt.Errorf("shown as glyph %d, the font has glyph %d for it", e.Code, g.gid)
	}
	if emb.F.NumGlyphs != f.Fix.F.NumGlyphs {
		return fmt.Errorf("embedded font has %d glyphs, source has %d", emb.F.NumGlyphs, f.Fix.F.NumGlyphs)
	}
	if emb.F.UPM != f.Fix.F.UPM {
		return fmt.Errorf("embedded font has %d units per em, source has %d", emb.F.UPM, f.Fix.F.UPM)
	}
	if err := ttfx.SameOutline(f.Fix.F, emb.F, g.gid); err != nil {
		return fmt.Errorf("embedded font: %v", err)
	}
	w, ok := e.Font.Widths[e.Code]
	if !ok {
		w = e.Font.DW
	}
	if int(w) != f.Fix.F.PDFWidth(g.gid) {
		return fmt.Errorf("declared width %v, font has %d", w, f.Fix.F.PDFWidth(g.gid))
	}
	hit := false // several characters may share a glyph; copied text may then give any of them
	for _, r := range emb.Uni[e.Code] {
		if og, ok := f.Fix.GID(r); ok && og == g.gid {
			hit = true
		}
	}
	if !hit {
		return fmt.Errorf("ToUnicode maps its glyph %d to %q", e.Code, string(emb.Uni[e.Code]))
	}
	return nil
}

func (v *verifier) loadEmbedded(cf *cs.Font) (*embFont, error) {
	return LoadEmbedded(v.d, cf)
}

func isStr(d *pdfx.Doc, o pdfx.Obj, want string) bool {
	s, ok := d.Resolve(o).(pdfx.Str)
	return ok && string(s) == want
}

func LoadEmbedded(d *pdfx.Doc, cf *cs.Font) (*embFont, error) {
	if d.Resolve(cf.D.Get("Encoding")) != pdfx.Obj(pdfx.Name("Identity-H")) {
		return nil, errors.New("embedded font is not Identity-H encoded")
	}
	if cf.Desc == nil || d.Resolve(cf.Desc.Get("Subtype")) != pdfx.Obj(pdfx.Name("CIDFontType2")) {
		return nil, errors.New("descendant font is not CIDFontType2")
	}
	if ci := d.Dict(cf.Desc.Get("CIDSystemInfo")); ci == nil || !isStr(d, ci.Get("Registry"), "Adobe") || !isStr(d, ci.Get("Ordering"), "Identity") {
		return nil, errors.New("character collection of the descendant font is not Adobe Identity")
	}
	fd := d.Dict(cf.Desc.Get("FontDescriptor"))
	if fd == nil {
		return nil, errors.New("no font descriptor")
	}
	ff, ok := d.Resolve(fd.Get("FontFile2")).(*pdfx.Stream)
	if !ok {
		return nil, errors.New("no embedded font program")
	}
	data, err := d.Data(ff)
	if err != nil {
		return nil, fmt.Errorf("font program: %v", err)
	}
	if n, ok := d.Num(ff.D.Get("Length1")); !ok || int(n) != len(data) {
		return nil, fmt.Errorf("font program has /Length1 %v but %d bytes", n, len(data))
	}
	f, err := ttfx.Read(data, false)
	if err != nil {
		return nil, fmt.Errorf("embedded font program: %v", err)
	}
	tu, ok := d.Resolve(cf.D.Get("ToUnicode")).(*pdfx.Stream)
	if !ok {
		return nil, errors.New("no ToUnicode map")
	}
	td, err := d.Data(tu)
	if err != nil {
		return nil, err
	}
	uni, err := ParseToUnicode(td)
	if err != nil {
		return nil, err
	}
	return &embFont{f, uni}, nil
}
