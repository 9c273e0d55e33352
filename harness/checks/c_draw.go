package checks

import (
	"bytes"
	"compress/zlib"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"time"
	"unicode/utf16"

	gopdf "github.com/signintech/pdft/minigopdf"

	"verif/cs"
	"verif/mc"
	"verif/pdfx"
	"verif/pngx"
)

func init() { All["C19"], All["C20"] = c19, c20 }

// ---- model of a document drawn from scratch

type gFont struct {
	fam   string
	style int
	kern  bool
	over  func(l, r rune, lg, rg uint) int16
	m     *MFont
}

type gItem struct {
	what       string // text path oval image
	f          *gFont
	text       string
	x, y       float64 // baseline of texts, lower left corner of images
	w, h       float64
	size       int
	fill, strk cs.Color
	lw         float64
	dash       string
	ops        string // S, f or B
	pts        []float64
	under      [2]float64 // x range
	top        float64    // of the current position
	gl         []glyphPos
	isUnder    bool
	border     [][4]float64
	lws        [2]float64 // line widths the ends of border lines may stand for
	img        *ImgFix
	key        string
	// merging
	cell  bool
	opt   gopdf.CellOption
	rect  bool
	setx  int
	gray  float64
	txt   [3]uint8
	style int
	cy    float64
	cx    float64
}

type gPage struct {
	w, h       float64
	items      []*gItem
	fill, strk cs.Color
	lw         float64
	dash       string
}

type gModel struct {
	w, h   float64
	pages  []*gPage
	x, y   float64
	lm, tm float64
	fonts  []*gFont
	cur    *gFont
	style  int
	size   int
	txt    [3]uint8
	gray   float64
	lw     float64
	setx   int
	info   *gopdf.PdfInfo
	prot   *Prot
}

type gWorld struct {
	P *gopdf.GoPdf
	M *gModel
	// what was handed out before, and what it was then
	given [][2][]byte
}

type gOp struct {
	Name string
	Do   func(w *gWorld) error
}

func gNames(ops []gOp) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.Name)
	}
	return strings.Join(s, ",")
}

func gStart(w, h float64, prot *Prot) *gWorld {
	p := new(gopdf.GoPdf)
	c := gopdf.Config{PageSize: gopdf.Rect{W: w, H: h}}
	if prot != nil {
		c.Protection = gopdf.PDFProtectionConfig{UseProtection: true, Permissions: prot.Perm, UserPass: append([]byte{}, prot.User...), OwnerPass: append([]byte{}, prot.Owner...)}
	}
	p.Start(c)
	return &gWorld{P: p, M: &gModel{w: w, h: h, x: 10, y: 10, lm: 10, tm: 10, lw: 1, prot: prot}}
}

// Key identifies the state of the model.
func (m *gModel) Key() string {
	var b strings.Builder
	fmt.Fprint(&b, m.w, m.h, m.x, m.y, m.lm, m.tm, m.style, m.size, m.txt, m.gray, m.lw, m.setx, m.info, m.prot)
	for _, f := range m.fonts {
		fmt.Fprint(&b, "|", f.fam, f.style, f.kern, f.over != nil, f.m.Fix.Name, f == m.cur)
	}
	for _, p := range m.pages {
		fmt.Fprint(&b, "|p", p.w, p.h, p.fill, p.strk, p.lw, p.dash)
		for _, it := range p.items {
			c := *it
			c.f, c.img = nil, nil
			fmt.Fprintf(&b, "|%+v", c)
			if it.f != nil {
				fmt.Fprint(&b, it.f.fam, it.f.style)
			}
			if it.img != nil {
				fmt.Fprint(&b, it.img.Name)
			}
		}
	}
	return b.String()
}

func (w *gWorld) page() *gPage { return w.M.pages[len(w.M.pages)-1] }
func (w *gWorld) H() float64   { return w.page().h }

func (w *gWorld) item(it *gItem) *gItem {
	p := w.page()
	it.fill, it.strk, it.lw, it.dash = p.fill, p.strk, p.lw, p.dash
	p.items = append(p.items, it)
	return it
}

// at checks the current position
func (w *gWorld) at() error {
	if math.Abs(w.P.GetX()-w.M.x) > 1e-6 || math.Abs(w.P.GetY()-w.M.y) > 1e-6 {
		return fmt.Errorf("current position is (%g, %g), expected (%g, %g)", w.P.GetX(), w.P.GetY(), w.M.x, w.M.y)
	}
	return nil
}

func gPageOp(pw, ph float64) gOp {
	n := "page"
	if pw != 0 || ph != 0 {
		n = fmt.Sprintf("page(%g,%g)", pw, ph)
	}
	return gOp{n, func(w *gWorld) error {
		p := &gPage{w: w.M.w, h: w.M.h, lw: 1}
		if pw != 0 || ph != 0 {
			p.w, p.h = pw, ph
			w.P.AddPageWithOption(gopdf.PageOption{PageSize: gopdf.Rect{W: pw, H: ph}})
		} else {
			w.P.AddPage()
		}
		w.M.pages = append(w.M.pages, p)
		w.M.x, w.M.y = w.M.lm, w.M.tm
		return w.at()
	}}
}

func gFontOp(fam string, f *FontFix, style int, kern bool) gOp {
	return gFontBy("", fam, f, style, kern)
}

// gFontBy adds a font by reader or by file.
func gFontBy(way, fam string, f *FontFix, style int, kern bool) gOp {
	return gOp{fmt.Sprintf("font%s(%s=%s,%d,%v)", way, fam, f.Name, style, kern), func(w *gWorld) error {
		o := gopdf.TtfOption{UseKerning: kern, Style: style}
		var err error
		switch {
		case way == "file":
			d, e := os.MkdirTemp("", "draw")
			if e != nil {
				return e
			}
			defer os.RemoveAll(d)
			name := filepath.Join(d, "f.ttf")
			if e := os.WriteFile(name, f.B, 0600); e != nil {
				return e
			}
			if kern || style != 0 {
				err = w.P.AddTTFFontWithOption(fam, name, o)
			} else {
				err = w.P.AddTTFFont(fam, name)
			}
		case way == "reader" && !kern && style == 0:
			err = w.P.AddTTFFontByReader(fam, bytes.NewReader(f.B))
		default:
			err = w.P.AddTTFFontByReaderWithOption(fam, bytes.NewReader(f.B), o)
		}
		if err != nil {
			return fmt.Errorf("adding a font: %v", err)
		}
		g := &gFont{fam: fam, style: style &^ gopdf.Underline, kern: kern, m: &MFont{Fix: f}}
		if kern {
			g.m.Kern = func(l, r rune, lg, rg uint) int16 {
				v := int16(f.F.Kern[[2]int{int(lg), int(rg)}])
				if g.over != nil {
					v = g.over(l, r, lg, rg)
				}
				return v
			}
		}
		w.M.fonts = append(w.M.fonts, g)
		return nil
	}}
}

// gBadFont fails to add a font.
func gBadFont(fam, what string) gOp {
	return gOp{fmt.Sprintf("badfont(%s,%s)", fam, what), func(w *gWorld) error {
		var err error
		switch what {
		case "nofile":
			err = w.P.AddTTFFont(fam, "/nonexistent/font.ttf")
		case "cut":
			err = w.P.AddTTFFontByReader(fam, bytes.NewReader(FA.B[:len(FA.B)/3]))
		case "reader":
			err = w.P.AddTTFFontByReader(fam, io.MultiReader(bytes.NewReader(FA.B), errRd{}))
		default:
			err = w.P.AddTTFFontByReader(fam, strings.NewReader(what))
		}
		if err == nil {
			return errors.New("a broken font is accepted")
		}
		return w.at()
	}}
}

type errRd struct{}

func (errRd) Read([]byte) (int, error) { return 0, errors.New("reader failed") }

func gSet(fam, style string, size int) gOp { return gSetBy(false, fam, style, size) }

func gSetBy(flags bool, fam, style string, size int) gOp {
	n := "set"
	if flags {
		n = "setflags"
	}
	return gOp{fmt.Sprintf("%s(%s,%q,%d)", n, fam, style, size), func(w *gWorld) error {
		st := 0
		u := strings.ToUpper(style)
		for i, c := range "IBU" {
			if strings.ContainsRune(u, c) {
				st |= 1 << uint(i)
			}
		}
		var f *gFont
		for _, g := range w.M.fonts {
			if g.fam == fam && g.style == st&^gopdf.Underline && f == nil {
				f = g
			}
		}
		var e error
		if flags {
			e = w.P.SetFontWithStyle(fam, st, size)
		} else {
			e = w.P.SetFont(fam, style, size)
		}
		if err := wantErr(e, f == nil, "SetFont"); err != nil {
			return err
		}
		if f != nil {
			w.M.cur, w.M.style, w.M.size = f, st, size
		}
		return nil
	}}
}

func gText(text string) gOp {
	return gOp{fmt.Sprintf("text(%q)", text), func(w *gWorld) error {
		if w.M.cur == nil {
			return nil
		}
		if err := w.P.Text(text); err != nil {
			return fmt.Errorf("Text: %v", err)
		}
		return w.put(text, nil, gopdf.CellOption{}, false)
	}}
}

func gCell(text string, rect *gopdf.Rect, opt *gopdf.CellOption) gOp {
	n := fmt.Sprintf("cell(%q,%v", text, rect != nil)
	if rect != nil {
		n = fmt.Sprintf("cell(%q,%gx%g", text, rect.W, rect.H)
	}
	if opt != nil {
		n += fmt.Sprintf(",%d/%d/%d", opt.Align, opt.Border, opt.Float)
	}
	return gOp{n + ")", func(w *gWorld) error {
		if w.M.cur == nil {
			return nil
		}
		o := gopdf.CellOption{Align: gopdf.Left | gopdf.Top, Float: gopdf.Right}
		var err error
		var rc *gopdf.Rect
		if rect != nil {
			c := *rect
			rc = &c
		}
		if opt != nil {
			o = *opt
			err = w.P.CellWithOption(rc, text, o)
		} else {
			err = w.P.Cell(rc, text)
		}
		if err != nil {
			return fmt.Errorf("Cell: %v", err)
		}
		if rc != nil && *rc != *rect {
			return fmt.Errorf("the box of the caller became %v", *rc)
		}
		return w.put(text, rect, o, true)
	}}
}

// put is the model of a text at the current position.
func (w *gWorld) put(text string, rect *gopdf.Rect, opt gopdf.CellOption, cell bool) error {
	m, p := w.M, w.page()
	it := &gItem{what: "text", f: m.cur, text: text, size: m.size, cell: cell, opt: opt, rect: rect != nil, setx: m.setx, gray: m.gray, txt: m.txt, style: m.style, cx: m.x, cy: m.y}
	var last *gItem
	if n := len(p.items); n > 0 {
		last = p.items[n-1]
	}
	if last != nil && last.what == "text" && !last.rect && rect == nil && last.f == it.f && last.cell == it.cell && last.opt == it.opt && it.opt.Border == 0 &&
		last.size == it.size && last.setx == it.setx && last.gray == it.gray && last.txt == it.txt && last.style == it.style && last.cy == it.cy && math.Abs(last.cx+last.w-it.cx) < 1e-9 {
		it = last // texts that follow each other are one text
		it.text += text
	} else {
		it = w.item(it)
		if m.txt != [3]uint8{} {
			for k := range it.fill {
				it.fill[k] = float64(m.txt[k]) / 255
			}
		}
	}
	gl, tw, err := it.f.m.layout(it.text, it.size)
	if err != nil {
		return err
	}
	it.gl = gl // with the override now in force
	ft := it.f.m.Fix.F
	sc := float64(it.size) / float64(ft.UPM)
	asc, desc := float64(ft.TypoAsc)*sc, float64(ft.TypoDesc)*sc
	cw, ch := tw, asc-desc
	if rect != nil {
		cw, ch = rect.W, rect.H
	}
	it.x, it.y, it.top = it.cx, p.h-it.cy, p.h-it.cy
	if cell {
		it.y -= asc
		switch {
		case opt.Align&gopdf.Bottom != 0:
			it.y = p.h - it.cy - ch - desc
		case opt.Align&gopdf.Middle != 0:
			it.y = p.h - it.cy - ch/2 - (asc+desc)/2
		}
		switch {
		case opt.Align&gopdf.Right != 0:
			it.x += cw - tw
		case opt.Align&gopdf.Center != 0:
			it.x += cw/2 - tw/2
		}
	}
	it.w, it.h = cw, ch
	it.isUnder = m.style&gopdf.Underline != 0
	it.under = [2]float64{math.Min(it.cx, it.cx+cw), math.Max(it.cx, it.cx+cw)}
	t, b, l, r := p.h-it.cy, p.h-it.cy-ch, it.cx, it.cx+cw
	it.border = nil
	for _, s := range []struct {
		f int
		l [4]float64
	}{{gopdf.Top, [4]float64{l, t, r, t}}, {gopdf.Left, [4]float64{l, t, l, b}}, {gopdf.Right, [4]float64{r, t, r, b}}, {gopdf.Bottom, [4]float64{l, b, r, b}}} {
		if opt.Border&s.f != 0 {
			it.border = append(it.border, s.l)
		}
	}
	it.lws = [2]float64{p.lw, m.lw}
	if !cell || opt.Float == 0 || opt.Float&gopdf.Right != 0 {
		m.x = it.cx + cw
	}
	if cell && opt.Float&gopdf.Bottom != 0 {
		m.y = it.cy + ch
	}
	return w.at()
}

func gLine(x1, y1, x2, y2 float64) gOp {
	return gOp{fmt.Sprintf("line(%g,%g,%g,%g)", x1, y1, x2, y2), func(w *gWorld) error {
		w.P.Line(x1, y1, x2, y2)
		w.item(&gItem{what: "path", ops: "S", pts: []float64{x1, w.H() - y1, x2, w.H() - y2}})
		return w.at()
	}}
}

func gRect(way string, x, y, rw, rh float64, style string) gOp {
	return gOp{fmt.Sprintf("rect(%s,%g,%g,%g,%g,%s)", way, x, y, rw, rh, style), func(w *gWorld) error {
		top := y
		switch way {
		case "ll":
			w.P.RectFromLowerLeft(x, y, rw, rh)
			top = y - rh
		case "ul":
			w.P.RectFromUpperLeft(x, y, rw, rh)
		case "lls":
			w.P.RectFromLowerLeftWithStyle(x, y, rw, rh, style)
			top = y - rh
		case "uls":
			w.P.RectFromUpperLeftWithStyle(x, y, rw, rh, style)
		}
		it := &gItem{what: "rect", ops: "S", pts: []float64{x, w.H() - top - rh, rw, rh}}
		if strings.HasSuffix(way, "s") {
			it.ops = paintOp(style)
		}
		w.item(it)
		return w.at()
	}}
}

func paintOp(style string) string {
	switch style {
	case "F":
		return "f"
	case "FD", "DF":
		return "B"
	}
	return "S"
}

func gOval(x1, y1, x2, y2 float64) gOp {
	return gOp{fmt.Sprintf("oval(%g,%g,%g,%g)", x1, y1, x2, y2), func(w *gWorld) error {
		w.P.Oval(x1, y1, x2, y2)
		w.item(&gItem{what: "oval", ops: "S", pts: []float64{(x1 + x2) / 2, w.H() - (y1+y2)/2, math.Abs(x2-x1) / 2, math.Abs(y2-y1) / 2}})
		return w.at()
	}}
}

func gCurve(p [8]float64, style string) gOp {
	return gOp{fmt.Sprintf("curve(%v,%s)", p, style), func(w *gWorld) error {
		w.P.Curve(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], style)
		q := append([]float64{}, p[:]...)
		for i := 1; i < 8; i += 2 {
			q[i] = w.H() - q[i]
		}
		w.item(&gItem{what: "path", ops: paintOp(strings.ToUpper(strings.TrimSpace(style))), pts: q})
		return w.at()
	}}
}

func gImage(im *ImgFix, way string, x, y float64, rect *gopdf.Rect) gOp {
	return gOp{fmt.Sprintf("image(%s,%s,%g,%g,%v)", im.Name, way, x, y, rect), func(w *gWorld) error {
		var rc *gopdf.Rect
		iw, ih := float64(im.W*72/128), float64(im.H*72/128)
		if rect != nil {
			c := *rect
			rc = &c
			iw, ih = rect.W, rect.H
		}
		var h gopdf.ImageHolder
		var err error
		key := "data:" + im.Name
		switch way {
		case "path":
			d, e := os.MkdirTemp("", "draw")
			if e != nil {
				return nil
			}
			defer os.RemoveAll(d)
			f := filepath.Join(d, im.Name)
			if os.WriteFile(f, im.B, 0600) != nil {
				return nil
			}
			key = "" // the name of the file stands for the image
			err = w.P.Image(f, x, y, rc)
		case "bytes":
			if h, err = gopdf.ImageHolderByBytes(im.B); err == nil {
				err = w.P.ImageByHolder(h, x, y, rc)
			}
		case "reader":
			if h, err = gopdf.ImageHolderByReader(bytes.NewReader(im.B)); err == nil {
				err = w.P.ImageByHolder(h, x, y, rc)
			}
		}
		if err != nil {
			return fmt.Errorf("image: %v", err)
		}
		if rc != nil && *rc != *rect {
			return fmt.Errorf("the box of the caller became %v", *rc)
		}
		w.item(&gItem{what: "image", img: im, key: key, x: x, y: w.H() - y - ih, w: iw, h: ih})
		return w.at()
	}}
}

func gBadImage(b string) gOp {
	return gOp{"badimage(" + b + ")", func(w *gWorld) error {
		h, err := gopdf.ImageHolderByBytes([]byte(b))
		if err != nil {
			return err
		}
		return wantErr(w.P.ImageByHolder(h, 1, 2, nil), true, "image of other data")
	}}
}

func gDo(name string, f func(w *gWorld)) gOp {
	return gOp{name, func(w *gWorld) error { f(w); return w.at() }}
}

func gX(x float64) gOp {
	return gDo(fmt.Sprintf("x(%g)", x), func(w *gWorld) { w.P.SetX(x); w.M.x = x; w.M.setx++ })
}
func gY(y float64) gOp {
	return gDo(fmt.Sprintf("y(%g)", y), func(w *gWorld) { w.P.SetY(y); w.M.y = y })
}
func gBr(h float64) gOp {
	return gDo(fmt.Sprintf("br(%g)", h), func(w *gWorld) { w.P.Br(h); w.M.y += h; w.M.x = w.M.lm })
}
func gMargins(l, t float64) gOp {
	return gDo(fmt.Sprintf("margins(%g,%g)", l, t), func(w *gWorld) { w.P.SetLeftMargin(l); w.P.SetTopMargin(t); w.M.lm, w.M.tm = l, t })
}
func gTextColor(r, g, b uint8) gOp {
	return gDo(fmt.Sprintf("textcolor(%d,%d,%d)", r, g, b), func(w *gWorld) { w.P.SetTextColor(r, g, b); w.M.txt = [3]uint8{r, g, b} })
}

func rgb(r, g, b uint8) cs.Color {
	return cs.Color{float64(r) / 255, float64(g) / 255, float64(b) / 255}
}

// settings are kept as items: a text after one does not continue the text before it
func (w *gWorld) setting() { w.item(&gItem{what: "setting"}) }

func gFill(r, g, b uint8) gOp {
	return gDo(fmt.Sprintf("fill(%d,%d,%d)", r, g, b), func(w *gWorld) { w.P.SetFillColor(r, g, b); w.page().fill = rgb(r, g, b); w.setting() })
}
func gStroke(r, g, b uint8) gOp {
	return gDo(fmt.Sprintf("stroke(%d,%d,%d)", r, g, b), func(w *gWorld) { w.P.SetStrokeColor(r, g, b); w.page().strk = rgb(r, g, b); w.setting() })
}
func clamp(v float64) float64 { return math.Max(0, math.Min(1, v)) }
func gGrayFill(v float64) gOp {
	return gDo(fmt.Sprintf("grayfill(%g)", v), func(w *gWorld) {
		w.P.SetGrayFill(v)
		c := clamp(v)
		w.page().fill = cs.Color{c, c, c}
		w.M.gray = v
		w.setting()
	})
}
func gGrayStroke(v float64) gOp {
	return gDo(fmt.Sprintf("graystroke(%g)", v), func(w *gWorld) {
		w.P.SetGrayStroke(v)
		c := clamp(v)
		w.page().strk = cs.Color{c, c, c}
		w.setting()
	})
}
func gWidth(v float64) gOp {
	return gDo(fmt.Sprintf("width(%g)", v), func(w *gWorld) { w.P.SetLineWidth(v); w.page().lw = v; w.M.lw = v; w.setting() })
}
func gType(t string) gOp {
	return gDo("linetype("+t+")", func(w *gWorld) {
		w.P.SetLineType(t)
		w.page().dash = t
		if t != "dashed" && t != "dotted" {
			w.page().dash = ""
		}
		w.setting()
	})
}
func gLevel(n int) gOp {
	return gDo(fmt.Sprintf("level(%d)", n), func(w *gWorld) {
		if n == 0 {
			w.P.SetNoCompression()
		} else {
			w.P.SetCompressLevel(n)
		}
	})
}
func gInfo(i gopdf.PdfInfo) gOp {
	return gDo(fmt.Sprintf("info(%v)", i), func(w *gWorld) { w.P.SetInfo(i); w.M.info = &i })
}
func gMeasure(s string) gOp {
	return gOp{fmt.Sprintf("measure(%q)", s), func(w *gWorld) error {
		if w.M.cur == nil {
			return nil
		}
		got, err := w.P.MeasureTextWidth(s)
		if err != nil {
			return fmt.Errorf("measuring: %v", err)
		}
		_, want, _ := w.M.cur.m.layout(s, w.M.size)
		if math.Abs(got-want) > 1e-6 {
			return fmt.Errorf("width of %q is %g, expected %g", s, got, want)
		}
		return w.at()
	}}
}
func gKern(fam, name string) gOp {
	var fn func(l, r rune, lg, rg uint) int16
	for _, k := range kerns {
		if k.Name == name {
			fn = k.F
		}
	}
	return gOp{fmt.Sprintf("kern(%s,%s)", fam, name), func(w *gWorld) error {
		var f *gFont
		for _, g := range w.M.fonts {
			if g.fam == fam && f == nil {
				f = g
			}
		}
		err := w.P.KernOverride(fam, func(l, r rune, lp, rp uint, v int16) int16 { return fn(l, r, lp, rp) })
		if e := wantErr(err, f == nil, "KernOverride"); e != nil {
			return e
		}
		if f != nil {
			f.over = fn
			for _, p := range w.M.pages { // a text that is continued is laid out again: not in the domain
				p.items = append(p.items, &gItem{what: "setting"})
			}
			w.M.setx++
			w.P.SetX(w.P.GetX())
		}
		return w.at()
	}}
}

func (w *gWorld) out(way int) ([]byte, error) {
	switch way {
	case 0:
		return w.P.GetBytesPdfReturnErr()
	case 1:
		return w.P.GetBytesPdf(), nil
	case 2:
		d, err := os.MkdirTemp("", "draw")
		if err != nil {
			return nil, err
		}
		defer os.RemoveAll(d)
		w.P.WritePdf(filepath.Join(d, "x.pdf"))
		return os.ReadFile(filepath.Join(d, "x.pdf"))
	case 3:
		w.P.Close()
		b, err := io.ReadAll(io.LimitReader(w.P, outMax+1))
		if err == nil && len(b) > outMax {
			err = errors.New("reading does not end")
		}
		return b, err
	}
	w.P.Close()
	var b bytes.Buffer
	for n := 1; ; n = n*3 + 1 {
		p := make([]byte, n)
		k, err := w.P.Read(p)
		b.Write(p[:k])
		if err == io.EOF {
			return b.Bytes(), nil
		}
		if err != nil {
			return nil, err
		}
		if b.Len() > outMax {
			return nil, errors.New("reading does not end")
		}
	}
}

const outMax = 16 << 20

func gOut(way int) gOp {
	return gOp{fmt.Sprintf("out(%d)", way), func(w *gWorld) error { return w.verify(way) }}
}

func (w *gWorld) verify(way int) error {
	if len(w.M.pages) == 0 {
		return nil
	}
	b, err := w.out(way)
	if err != nil {
		return fmt.Errorf("writing the document: %v", err)
	}
	w.given = append(w.given, [2][]byte{b, append([]byte{}, b...)})
	for i, g := range w.given {
		if !bytes.Equal(g[0], g[1]) {
			return fmt.Errorf("output no. %d has changed after it was handed out", i+1)
		}
	}
	return w.M.verify(b)
}

func (m *gModel) verify(b []byte) error {
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) {
		return errors.New("no %PDF header")
	}
	if !bytes.HasSuffix(bytes.TrimRight(b, "\r\n"), []byte("%%EOF")) {
		return errors.New("no end-of-file marker at the end")
	}
	mm := &Model{Prot: m.prot}
	d, err := LoadOut(mm, b)
	if err != nil {
		return err
	}
	if m.prot != nil {
		if err := verifyProt(mm, d); err != nil {
			return err
		}
	}
	if err := d.CheckRefs(); err != nil {
		return err
	}
	pages, err := d.Pages()
	if err != nil {
		return err
	}
	if len(pages) != len(m.pages) {
		return fmt.Errorf("%d pages, expected %d", len(pages), len(m.pages))
	}
	if err := m.checkInfo(d); err != nil {
		return err
	}
	v := &verifier{m: mm, d: d, fonts: map[pdfx.Ref]*embFont{}, imgs: map[string]pdfx.Ref{}}
	for i, p := range pages {
		if err := m.checkPage(v, m.pages[i], p); err != nil {
			return fmt.Errorf("page %d: %w", i+1, err)
		}
	}
	return nil
}

func utf16s(o pdfx.Obj) (string, bool) {
	s, ok := o.(pdfx.Str)
	if !ok {
		return "", false
	}
	b := []byte(string(s))
	if len(b) < 2 || b[0] != 0xFE || b[1] != 0xFF || len(b)%2 != 0 {
		return string(b), true
	}
	var u []uint16
	for i := 2; i < len(b); i += 2 {
		u = append(u, uint16(b[i])<<8|uint16(b[i+1]))
	}
	return string(utf16.Decode(u)), true
}

func (m *gModel) checkInfo(d *pdfx.Doc) error {
	if v := d.Trailer.Get("Info"); v != nil {
		if _, ok := v.(pdfx.Ref); !ok {
			return errors.New("document information is not an object of its own")
		}
	}
	id := d.Dict(d.Trailer.Get("Info"))
	if m.info == nil {
		if id != nil && len(id.Keys) > 0 {
			return errors.New("document information nobody gave")
		}
		return nil
	}
	want := map[string]string{"Title": m.info.Title, "Author": m.info.Author, "Subject": m.info.Subject, "Creator": m.info.Creator, "Producer": m.info.Producer}
	if id == nil {
		id = &pdfx.Dict{}
	}
	for k, t := range want {
		got, ok := utf16s(d.Resolve(id.Get(k)))
		if (t != "") != ok || got != t {
			return fmt.Errorf("document information /%s is %q, expected %q", k, got, t)
		}
	}
	got, ok := utf16s(d.Resolve(id.Get("CreationDate")))
	if m.info.CreationDate.IsZero() {
		if ok {
			return fmt.Errorf("creation date %q nobody gave", got)
		}
		return nil
	}
	t, err := time.Parse("D:20060102150405Z0700", strings.ReplaceAll(got, "'", ""))
	if err != nil {
		return fmt.Errorf("creation date %q: %v", got, err)
	}
	if !t.Equal(m.info.CreationDate.Truncate(time.Second)) {
		return fmt.Errorf("creation date %q, expected %v", got, m.info.CreationDate)
	}
	return nil
}

func (m *gModel) checkPage(v *verifier, g *gPage, p *pdfx.Page) error {
	if len(p.MediaBox) != 4 || !near(p.MediaBox[0], 0) || !near(p.MediaBox[1], 0) || !near(p.MediaBox[2], g.w) || !near(p.MediaBox[3], g.h) {
		return fmt.Errorf("page size is %v, expected %g x %g", p.MediaBox, g.w, g.h)
	}
	cont, err := v.d.ContentBytes(p)
	if err != nil {
		return err
	}
	it, err := cs.Run(v.d, p.Resources, cont)
	if err != nil {
		return fmt.Errorf("content cannot be interpreted: %v", err)
	}
	evs := it.Events
	n := 0
	for i := 0; i < len(g.items); i++ {
		x := g.items[i]
		if x.what == "setting" {
			continue
		}
		n++
		var k int
		if x.what == "text" {
			run := []*gItem{x}
			for i+1 < len(g.items) && (g.items[i+1].what == "text" || g.items[i+1].what == "setting") {
				i++
				if g.items[i].what == "text" {
					run = append(run, g.items[i])
				}
			}
			var next *gItem
			if i+1 < len(g.items) {
				next = g.items[i+1]
			}
			k, err = checkTexts(v, run, next, evs)
			if err != nil {
				var t []string
				for _, y := range run {
					t = append(t, y.text)
				}
				return fmt.Errorf("texts %q from drawing no. %d: %w", t, n, err)
			}
			n += len(run) - 1
		} else if k, err = x.check(v, evs); err != nil {
			return fmt.Errorf("drawing no. %d (%s): %w", n, x.what, err)
		}
		evs = evs[k:]
	}
	if len(evs) > 0 {
		return fmt.Errorf("%d painting operations nobody asked for, the first is %s", len(evs), evs[0])
	}
	return nil
}

func sameCol(a, b cs.Color) bool { return near(a[0], b[0]) && near(a[1], b[1]) && near(a[2], b[2]) }

func (x *gItem) stroke(e cs.Event) error {
	if e.Kind != "stroke" {
		return fmt.Errorf("expected a line, found %s", e)
	}
	if !sameCol(e.Strk, x.strk) {
		return fmt.Errorf("line has colour %v, expected %v", e.Strk, x.strk)
	}
	if !near(e.LW, x.lw) {
		return fmt.Errorf("line has width %v, expected %v", e.LW, x.lw)
	}
	solid := e.Dash == "" || strings.HasPrefix(strings.ReplaceAll(e.Dash, " ", ""), "[]")
	if solid != (x.dash == "") {
		return fmt.Errorf("line is dashed by %q, expected line type %q", e.Dash, x.dash)
	}
	if !solid {
		n := len(strings.Fields(strings.Trim(e.Dash[:strings.Index(e.Dash, "]")], "[ ")))
		if (x.dash == "dashed") != (n == 1) {
			return fmt.Errorf("line is dashed by %q, expected line type %q", e.Dash, x.dash)
		}
	}
	return nil
}

func (x *gItem) check(v *verifier, evs []cs.Event) (int, error) {
	switch x.what {
	case "image":
		if len(evs) == 0 || evs[0].Kind != "image" {
			return 0, errors.New("is missing")
		}
		e := evs[0]
		for k, w := range (cs.M{x.w, 0, 0, x.h, x.x, x.y}) {
			if !near(w, e.Mat[k]) {
				return 0, fmt.Errorf("image is placed with %v, expected %g x %g at %g, %g", e.Mat, x.w, x.h, x.x, x.y)
			}
		}
		if x.key != "" {
			if r, ok := v.imgs[x.key]; ok && r != e.XORef {
				return 0, errors.New("equal image is stored twice")
			}
			v.imgs[x.key] = e.XORef
		}
		return 1, CheckImage(v.d, e.XO, x.img)
	}
	k := 0
	for _, kind := range map[string][]string{"S": {"stroke"}, "f": {"fill"}, "B": {"fill", "stroke"}}[x.ops] {
		if k >= len(evs) || evs[k].Kind != kind {
			return 0, fmt.Errorf("%s is missing", kind)
		}
		e := evs[k]
		k++
		if kind == "fill" && !sameCol(e.Fill, x.fill) {
			return 0, fmt.Errorf("filled with %v, expected %v", e.Fill, x.fill)
		}
		if kind == "stroke" {
			if err := x.stroke(e); err != nil {
				return 0, err
			}
		}
		if err := x.shape(e); err != nil {
			return 0, err
		}
	}
	return k, nil
}

func (x *gItem) shape(e cs.Event) error {
	switch {
	case x.what == "rect":
		return isRect(e, x.pts[0], x.pts[1], x.pts[2], x.pts[3])
	case x.what == "path" && len(x.pts) == 4:
		if !isLine(e, [4]float64{x.pts[0], x.pts[1], x.pts[2], x.pts[3]}) {
			return fmt.Errorf("expected a line %v, found %s", x.pts, e)
		}
	case x.what == "path":
		if len(e.Path) < 2 || e.Path[0].Op != 'm' || e.Path[1].Op != 'c' {
			return fmt.Errorf("expected a curve, found %s", e)
		}
		got := append(append([]float64{}, e.Path[0].Pts[:2]...), e.Path[1].Pts[:]...)
		for i := range got {
			if !near(got[i], x.pts[i]) {
				return fmt.Errorf("expected a curve %v, found %v", x.pts, got)
			}
		}
		for _, s := range e.Path[2:] {
			if s.Op != 'h' {
				return fmt.Errorf("expected one curve, found %s", e)
			}
		}
	case x.what == "oval":
		cx, cy, rx, ry := x.pts[0], x.pts[1], x.pts[2], x.pts[3]
		var px, py, sum, last float64
		first := true
		for i, s := range e.Path {
			if i == 0 {
				px, py = s.Pts[0], s.Pts[1]
				continue
			}
			if s.Op == 'h' {
				continue
			}
			if s.Op != 'c' {
				return fmt.Errorf("oval is drawn with %c", s.Op)
			}
			for k := 0; k <= 8; k++ {
				t := float64(k) / 8
				b0, b1, b2, b3 := (1-t)*(1-t)*(1-t), 3*t*(1-t)*(1-t), 3*t*t*(1-t), t*t*t
				qx := b0*px + b1*s.Pts[0] + b2*s.Pts[2] + b3*s.Pts[4]
				qy := b0*py + b1*s.Pts[1] + b2*s.Pts[3] + b3*s.Pts[5]
				dx, dy := (qx-cx)/rx, (qy-cy)/ry
				if tol := 0.002 + 0.04/math.Min(rx, ry); math.Abs(math.Hypot(dx, dy)-1) > tol {
					return fmt.Errorf("oval around (%g, %g) with radii %g and %g passes through (%.2f, %.2f)", cx, cy, rx, ry, qx, qy)
				}
				a := math.Atan2(dy, dx)
				if !first {
					da := a - last
					for da > math.Pi {
						da -= 2 * math.Pi
					}
					for da < -math.Pi {
						da += 2 * math.Pi
					}
					sum += da
				}
				first, last = false, a
			}
			px, py = s.Pts[4], s.Pts[5]
		}
		if math.Abs(math.Abs(sum)-2*math.Pi) > 0.1 {
			return fmt.Errorf("oval is not drawn all around (%.2f of 6.28)", sum)
		}
	}
	return nil
}

// checkTexts checks texts that follow each other with nothing between them.
// How they are divided into runs, and whether the underline comes before or
// after the glyphs, makes no difference.
func checkTexts(v *verifier, xs []*gItem, next *gItem, evs []cs.Event) (int, error) {
	type want struct {
		x *gItem
		g glyphPos
	}
	type line struct {
		x *gItem
		l [4]float64
	}
	var gl []want
	var left []line
	var under []*gItem
	for _, x := range xs {
		for _, q := range x.gl {
			gl = append(gl, want{x, q})
		}
		for _, l := range x.border {
			left = append(left, line{x, l})
		}
		if x.isUnder {
			under = append(under, x)
		}
	}
	var fills []cs.Event
	k := 0
	for ; ; k++ {
		if k >= len(evs) {
			break
		}
		if len(gl) == 0 && len(left) == 0 && underlined(under, fills) == nil {
			if evs[k].Kind != "fill" || len(under) == 0 || underlined(under, append(fills[:len(fills):len(fills)], evs[k])) != nil {
				break
			}
			if next != nil && next.what != "image" {
				if _, err := next.check(v, evs[k:]); err == nil {
					break
				}
			}
		}
		e := evs[k]
		switch {
		case e.Kind == "glyph" && len(gl) > 0:
			x, g := gl[0].x, gl[0].g
			gl = gl[1:]
			if e.Size != float64(x.size) || e.Rise != 0 || e.Mat[0] != 1 || e.Mat[1] != 0 || e.Mat[2] != 0 || e.Mat[3] != 1 {
				return 0, fmt.Errorf("glyph %q has size %g, rise %g, matrix %v", g.r, e.Size, e.Rise, e.Mat)
			}
			if !near(e.Mat[4], x.x+g.x) || !near(e.Mat[5], x.y) {
				return 0, fmt.Errorf("glyph %q is at (%.2f, %.2f), expected (%.2f, %.2f)", g.r, e.Mat[4], e.Mat[5], x.x+g.x, x.y)
			}
			if !sameCol(e.Fill, x.fill) {
				return 0, fmt.Errorf("glyph %q has colour %v, expected %v", g.r, e.Fill, x.fill)
			}
			if err := v.glyph(x.f.m, e, g); err != nil {
				return 0, fmt.Errorf("glyph %q: %w", g.r, err)
			}
		case e.Kind == "fill" && len(under) > 0:
			fills = append(fills, e)
		case e.Kind == "stroke" && len(left) > 0:
			hit := -1
			var why error
			for i, l := range left {
				if why = l.x.stroke(e); why != nil {
					continue
				}
				point := l.l[0] == l.l[2] && l.l[1] == l.l[3]
				if hit < 0 && point && isLine(e, l.l) {
					hit = i
				}
				for _, lw := range l.x.lws {
					o := lw / 2
					if l.l[0] == l.l[2] && l.l[1] != l.l[3] {
						o = 0
					}
					if hit < 0 && isLine(e, [4]float64{l.l[0] - o, l.l[1], l.l[2] + o, l.l[3]}) {
						hit = i
					}
				}
			}
			if hit < 0 {
				return 0, fmt.Errorf("border %s (%v), expected one of %v", e, why, left)
			}
			left = append(left[:hit:hit], left[hit+1:]...)
		default:
			if len(gl) == 0 && len(left) == 0 {
				return 0, underlined(under, fills)
			}
			return 0, fmt.Errorf("expected a text with %d more glyphs and %d more border lines, found %s", len(gl), len(left), e)
		}
	}
	switch {
	case len(gl) > 0:
		return 0, fmt.Errorf("%d glyphs are missing, the first is %q", len(gl), gl[0].g.r)
	case len(left) > 0:
		return 0, errors.New("border is missing")
	}
	return k, underlined(under, fills)
}

// underlined: the filled rectangles cover what has to be underlined, and nothing else.
func underlined(xs []*gItem, fills []cs.Event) error {
	ok := func(x *gItem, f cs.Event) bool {
		if !sameCol(f.Fill, x.fill) {
			return false
		}
		lo, hi := math.Inf(1), math.Inf(-1)
		for _, q := range pathPts(f) {
			lo, hi = math.Min(lo, q[1]), math.Max(hi, q[1])
		}
		ft := x.f.m.Fix.F
		sc := float64(x.size) / float64(ft.UPM)
		pos, thick := float64(ft.UPos)*sc, float64(ft.UThk)*sc
		if math.Abs(hi-lo-math.Abs(thick)) > 0.021 {
			return false
		}
		// below the current position, or where the font wants it below the base line
		for _, top := range []float64{x.top + pos - 0.7*float64(x.size), x.y + pos, x.y + pos + thick/2} {
			if math.Abs(hi-math.Max(top, top-thick)) <= 0.021 {
				return true
			}
		}
		return false
	}
	span := func(f cs.Event) (lo, hi float64) {
		lo, hi = math.Inf(1), math.Inf(-1)
		for _, q := range pathPts(f) {
			lo, hi = math.Min(lo, q[0]), math.Max(hi, q[0])
		}
		return
	}
	const tol = 0.021
	for _, x := range xs {
		at, found := x.under[0], false
		for again := true; again; {
			again = false
			for _, f := range fills {
				if lo, hi := span(f); ok(x, f) && lo <= at+tol && (hi > at+1e-9 || !found && hi > at-tol) {
					again = again || hi > at+1e-9
					at, found = math.Max(at, hi), true
				}
			}
		}
		if !found || at < x.under[1]-tol {
			return fmt.Errorf("underline from %.2f to %.2f is missing", x.under[0], x.under[1])
		}
	}
	for _, f := range fills {
		lo, hi := span(f)
		at := lo
		for again := true; again; {
			again = false
			for _, x := range xs {
				if ok(x, f) && x.under[0]-tol <= at && x.under[1]+tol > at && (x.under[1] > at || at == lo) {
					again = x.under[1] > at
					at = math.Max(at, x.under[1])
				}
			}
		}
		if at < hi-tol {
			return fmt.Errorf("underline %s goes from %.2f to %.2f where nothing is to be underlined", f, lo, hi)
		}
		any := false
		for _, x := range xs {
			any = any || ok(x, f) && x.under[0]-tol <= lo && lo <= x.under[1]+tol
		}
		if !any {
			return fmt.Errorf("underline %s belongs to no text", f)
		}
	}
	return nil
}

// ---- strata

var fontK = func() *FontFix {
	s := stdSpec(4, 1000)
	g := func(r rune) int { return s.Map[r] }
	s.Kern = map[[2]int]int{{g('a'), g('b')}: -80, {g('b'), g('a')}: 45, {g('a'), g('a')}: 7, {g('W'), g('a')}: -333, {g('a'), g('W')}: 1000, {g('e'), g(0xE9)}: -1, {g('b'), g('W')}: -2000}
	return MkFont("K", s)
}()

var fontK2 = func() *FontFix {
	s := stdSpec(5, 2048)
	g := func(r rune) int { return s.Map[r] }
	s.Kern = map[[2]int]int{{g('a'), g('b')}: -81, {g('b'), g('a')}: 45, {g('a'), g('a')}: 3, {g('W'), g('a')}: -333}
	s.KernSplit = true
	return MkFont("K2", s)
}()

func gRun(r *mc.Run, stratum string, prot *Prot, ops []gOp) {
	id := gNames(ops)
	if prot != nil {
		id = fmt.Sprintf("%d/%q/%q:", prot.Perm, prot.User, prot.Owner) + id
	}
	ops = append([]gOp{}, ops...)
	r.Case(stratum, id, func() error {
		w := gStart(200, 300, prot)
		for i, o := range ops {
			if err := o.Do(w); err != nil {
				return fmt.Errorf("step %d %s: %w", i+1, o.Name, err)
			}
			r.Trans(1)
		}
		r.State(w.M.Key())
		if err := w.verify([]int{0, 3, 4}[len(id)%3]); err != nil {
			return err
		}
		r.Trace()
		return nil
	})
}

func gSeqs(alpha []gOp, n int, f func([]gOp)) {
	var rec func(cur []gOp)
	rec = func(cur []gOp) {
		f(append([]gOp{}, cur...))
		if len(cur) == n {
			return
		}
		for _, o := range alpha {
			rec(append(cur[:len(cur):len(cur)], o))
		}
	}
	rec(nil)
}

// drawImgs: images of all forms.
func drawImgs() []*ImgFix {
	imgs := append([]*ImgFix{}, sharedImgs...)
	for _, s := range []pngx.Spec{
		{W: 7, H: 5, CT: 0, BPC: 1, Filter: 0, IDATs: 1, TRNS: -1, Seed: 11}, {W: 9, H: 3, CT: 0, BPC: 8, Filter: 5, IDATs: 3, TRNS: 5, Seed: 12},
		{W: 130, H: 70, CT: 2, BPC: 8, Filter: 5, IDATs: 1, TRNS: -1, Seed: 13}, {W: 13, H: 11, CT: 3, BPC: 2, Pal: 4, Filter: 0, IDATs: 2, TRNS: -1, Seed: 14}, {W: 300, H: 20, CT: 6, BPC: 8, Filter: 4, IDATs: 1, TRNS: -1, Seed: 15}} {
		imgs = append(imgs, MkPNG(fmt.Sprintf("png%d-%d-%d", s.CT, s.BPC, s.W), s))
	}
	return imgs
}

func c19(r *mc.Run) {
	pre := []gOp{gFontOp("a", FA, 0, false), gFontOp("b", FB, 0, false), gPageOp(0, 0), gSet("a", "", 12)}
	with := func(ops ...gOp) []gOp { return append(append([]gOp{}, pre...), ops...) }
	opt := func(a, b, f int) *gopdf.CellOption { return &gopdf.CellOption{Align: a, Border: b, Float: f} }

	// sequences
	alpha := []gOp{gText("Hé"), gText("ab "), gCell("ce", nil, nil), gCell("W", nil, opt(0, 15, gopdf.Bottom)), gCell("x", &gopdf.Rect{W: 40, H: 25}, opt(gopdf.Right|gopdf.Middle, 5, gopdf.Right)),
		gLine(10, 20, 100.5, 40), gRect("uls", 15, 25, 30, 40.25, "FD"), gOval(20, 30, 60, 90), gCurve([8]float64{1, 2, 30, 40, 50, 10, 70, 80}, "F"),
		gImage(ImRGBA, "bytes", 12, 34, nil), gImage(ImPal, "reader", 5, 6, &gopdf.Rect{W: 20, H: 30}), gImage(ImRGBA, "path", 50, 60, &gopdf.Rect{W: 11, H: 12}),
		gPageOp(0, 0), gPageOp(333, 111.5), gSet("b", "U", 9), gSet("a", "", 12), gTextColor(255, 0, 0), gTextColor(0, 0, 0),
		gFill(0, 128, 255), gStroke(10, 200, 30), gGrayFill(0.5), gWidth(2.5), gType("dashed"), gBr(14), gX(33), gY(77), gMeasure("Hé"), gOut(0)}
	n := r.Pick(3, 4)
	r.Bound("all sequences of up to %d over %d drawing operations (texts, cells, shapes, images, pages, settings, output)", n, len(alpha))
	gSeqs(alpha, n, func(s []gOp) { gRun(r, "sequence", nil, with(s...)) })

	// text flow
	flow := []gOp{gText("a"), gText("bé"), gCell("c", nil, nil), gCell("W", nil, opt(0, 0, gopdf.Bottom)), gCell("b", nil, opt(0, 0, gopdf.Right)), gCell("e", nil, opt(0, 15, 0)), gCell("r", nil, opt(gopdf.Right|gopdf.Bottom, 0, gopdf.Right)), gBr(0), gBr(10), gBr(-6.5), gX(50), gLine(1, 2, 3, 4), gSet("a", "U", 12)}
	n = r.Pick(4, 5)
	r.Bound("all sequences of up to %d over %d operations that place texts one after another", n, len(flow))
	gSeqs(flow, n, func(s []gOp) { gRun(r, "flow", nil, with(s...)) })

	// shapes
	cnt := 0
	for _, size := range [][2]float64{{0, 0}, {612, 792}, {100.25, 50.75}} {
		for _, set := range [][]gOp{nil, {gStroke(255, 0, 0)}, {gFill(1, 2, 3), gGrayStroke(0.25)}, {gGrayFill(0.75), gWidth(0.1), gType("dotted")}, {gGrayFill(-3), gGrayStroke(7), gType("dashed"), gType("solid")}, {gWidth(12.345), gType("dashed"), gStroke(0, 0, 255), gFill(255, 255, 255)}} {
			var shapes []gOp
			for _, x := range []float64{0, 12.34, -5.5, 150} {
				for _, y := range []float64{0, 33.3, 400} {
					shapes = append(shapes, gLine(x, y, y, x), gRect("ll", x, y, 20, 30.5, ""), gRect("ul", x, y, 20.25, 3, ""), gOval(x, y, x+50, y+20), gOval(x, y, x+4, y+100))
					for _, st := range []string{"", "D", "F", "DF", "FD", "X", "f"} {
						shapes = append(shapes, gRect("lls", x, y, 7, 9, st), gRect("uls", x, y, 7.5, 9, st), gCurve([8]float64{x, y, x + 10, y - 20, 30, 40, y, x}, st))
					}
				}
			}
			shapes = append(shapes, gCurve([8]float64{1, 2, 3, 4, 5, 6, 7, 8}, " fd "), gCurve([8]float64{1, 2, 3, 4, 5, 6, 7, 8}, "f"))
			for _, s := range shapes {
				cnt++
				gRun(r, "shape", nil, append(append([]gOp{gPageOp(size[0], size[1])}, set...), s, gPageOp(0, 0), s))
			}
		}
	}
	r.Bound("%d shapes: lines, rectangles, ovals and curves in all styles x colours, gray levels, widths and line types x page sizes", cnt)

	// cells
	cnt = 0
	for al := 0; al < 64; al++ {
		for _, bd := range []int{0, 1, 2, 4, 8, 15, 6} {
			for _, fl := range []int{0, gopdf.Right, gopdf.Bottom, gopdf.Right | gopdf.Bottom} {
				if !r.Thorough() && bd > 0 && bd < 15 && al%5 != 0 {
					continue
				}
				for _, rc := range []*gopdf.Rect{nil, {W: 100, H: 40}, {W: 3.5, H: 5}, {W: 0, H: 20}, {W: 30, H: 0}} {
					cnt++
					ops := with(gX(20), gY(30), gSet("b", []string{"", "U"}[al%2], 14), gWidth(2), gCell("Hé W", rc, opt(al, bd, fl)), gTextColor(200, 100, 0), gCell("ab", rc, opt(al, bd, fl)), gText("end"))
					gRun(r, "cell", nil, ops)
				}
			}
		}
	}
	r.Bound("%d pairs of cells: 64 alignments x borders x where to go on x boxes", cnt)

	// images
	cnt = 0
	imgs := drawImgs()
	for _, prot := range []*Prot{nil, {4, []byte("u"), []byte("o")}} {
		for _, a := range imgs {
			for _, way := range []string{"path", "bytes", "reader"} {
				for _, b := range imgs {
					for _, rc := range []*gopdf.Rect{nil, {W: 31.5, H: 17}} {
						cnt++
						gRun(r, "image", prot, with(gImage(a, way, 10, 20, rc), gBadImage("nothing"), gText("t"), gImage(b, "bytes", 1.5, 2, nil), gPageOp(99, 77), gImage(a, "bytes", 3, 4, rc), gImage(b, "reader", 3, 40, rc), gOut(0)))
					}
				}
			}
		}
	}
	r.Bound("%d documents with pairs of images of %d forms, each used on two pages, given in 3 ways, protected or not", cnt, len(imgs))

	// fonts: families, styles and kerning
	texts := []string{""}
	for k, from := 0, 0; k < r.Pick(4, 6); k++ {
		to := len(texts)
		for _, t := range texts[from:to] {
			for _, c := range "abW " {
				texts = append(texts, t+string(c))
			}
		}
		from = to
	}
	for _, f := range []*FontFix{fontK, fontK2} {
		for _, kern := range []bool{false, true} {
			for _, tx := range texts {
				gRun(r, "kerning", nil, []gOp{gFontOp("k", f, 0, kern), gPageOp(0, 0), gSet("k", "U", 17), gMeasure(tx), gText(tx), gText("a"), gText("b"), gCell(tx, nil, opt(0, 15, gopdf.Bottom)), gCell(tx, &gopdf.Rect{W: 99, H: 20}, opt(gopdf.Right, 0, 0)), gCell(tx, &gopdf.Rect{W: 99, H: 20}, opt(gopdf.Center, 0, 0))})
			}
		}
	}
	r.Bound("%d texts in two fonts with kerning pairs, kerning on and off", len(texts))
	for _, k := range kerns {
		for _, tx := range texts[:min(len(texts), 85)] {
			gRun(r, "kern-override", nil, []gOp{gFontOp("k", fontK, 0, true), gFontOp("n", FB, 0, false), gPageOp(0, 0), gSet("k", "", 17), gKern("k", k.Name), gKern("n", k.Name), gKern("none", k.Name), gMeasure(tx), gText(tx), gSet("n", "", 8), gText(tx), gMeasure(tx)})
		}
	}
	var sel []gOp
	for _, fam := range []string{"a", "b"} {
		for _, st := range []string{"", "B", "bi", "U", "Ub"} {
			sel = append(sel, gSet(fam, st, 11))
		}
	}
	sel = append(sel, gText("Hé"), gPageOp(0, 0))
	fp := []gOp{gFontOp("a", FA, 0, false), gFontOp("a", FB, gopdf.Bold, false), gFontOp("b", FC, gopdf.Bold|gopdf.Italic, false), gFontOp("a", FC, 0, false), gFontOp("b", FA, 0, false), gPageOp(0, 0)}
	gSeqs(sel, r.Pick(4, 5), func(s []gOp) {
		if len(s) > 0 && s[len(s)-1].Name == `text("Hé")` {
			gRun(r, "font-selection", nil, append(append([]gOp{}, fp...), s...))
		}
	})
	r.Bound("all sequences of up to %d font selections among fonts of two families and several styles", r.Pick(4, 5))

	// kern overrides that replace each other, and fonts of one family
	gSeqs([]gOp{gKern("k", "neg"), gKern("k", "big"), gKern("k", "zero"), gKern("n", "var"), gText("abW"), gSet("n", "", 8), gSet("k", "U", 17), gMeasure("abW")}, r.Pick(4, 5), func(s []gOp) {
		gRun(r, "kern-change", nil, append(append([]gOp{gFontOp("k", fontK, 0, true), gFontOp("n", FB, 0, true), gPageOp(0, 0), gSet("k", "", 17)}, s...), gText("Wab")))
	})
	r.Bound("all sequences of up to %d over 8 operations with kern overrides replaced", r.Pick(4, 5))

	// colours
	vals := []uint8{0, 1, 127, 128, 129, 255}
	if r.Thorough() {
		vals = append(vals, 2, 63, 64, 192, 254)
	}
	for _, a := range vals {
		for _, b := range vals {
			for _, c := range vals {
				gRun(r, "colours", nil, with(gTextColor(a, b, c), gText("a"), gCell("b", nil, opt(0, 15, gopdf.Right)), gTextColor(c, a, b), gText("c"), gFill(b, a, c), gStroke(c, b, a), gRect("uls", 5, 6, 7, 8, "FD"), gSet("b", "U", 10), gText("d"), gTextColor(0, 0, 0), gText("e")))
			}
		}
	}
	for lv := -2; lv <= 102; lv++ {
		v := float64(lv) / 100
		gRun(r, "colours", nil, with(gGrayFill(v), gText("a"), gGrayStroke(1-v), gRect("uls", 5, 6, 7, 8, "FD"), gGrayFill(1-v), gSet("b", "U", 10), gText("b"), gLine(1, 2, 3, 4)))
	}
	r.Bound("%d triples of text, fill and stroke colours, all gray levels in steps of 0.01", len(vals)*len(vals)*len(vals))

	// texts that follow one another: all ordered pairs (triples) of ways to set them
	var ways [][]gOp
	for _, fam := range []string{"a", "b"} {
		for _, st := range []string{"", "U"} {
			for _, sz := range []int{9, 12} {
				for _, col := range [][3]uint8{{0, 0, 0}, {0, 0, 1}} {
					for _, gr := range []float64{0, 0.5} {
						for k, tx := range []gOp{gText("ab"), gCell("ab", nil, nil), gCell("ab", &gopdf.Rect{W: 40, H: 25}, nil), gCell("ab", &gopdf.Rect{W: 40, H: 25}, opt(gopdf.Right, 0, gopdf.Right)), gCell("ab", &gopdf.Rect{W: 40, H: 25}, opt(0, 15, gopdf.Right))} {
							if k > 1 && !r.Thorough() && (sz == 9 || gr > 0) {
								continue
							}
							ways = append(ways, []gOp{gGrayFill(gr), gSet(fam, st, sz), gTextColor(col[0], col[1], col[2]), tx})
						}
					}
				}
			}
		}
	}
	for _, a := range ways {
		for _, b := range ways {
			if a[0].Name == b[0].Name {
				b = b[1:] // setting the gray level stands between the texts
			}
			gRun(r, "after-another", nil, with(append(append(append([]gOp{}, a...), b...), gText("b"))...))
		}
	}
	r.Bound("all pairs of %d ways to set a text (font, underline, size, colour, gray, text or cell), one after the other", len(ways))

	// margins
	gSeqs([]gOp{gMargins(0, 0), gMargins(25, 35.5), gPageOp(0, 0), gPageOp(60, 70), gBr(12), gText("a"), gCell("b", nil, opt(0, 0, gopdf.Bottom))}, r.Pick(4, 6), func(s []gOp) { gRun(r, "margins", nil, with(s...)) })
}

func c20(r *mc.Run) {
	pre := []gOp{gFontOp("a", FA, 0, false), gFontOp("b", FB, 0, false), gPageOp(0, 0), gSet("a", "", 12)}
	with := func(ops ...gOp) []gOp { return append(append([]gOp{}, pre...), ops...) }
	cnt := 0
	// images
	one := append([]*ImgFix{}, sharedImgs...)
	for _, t := range [][3]int{{0, 8, 0}, {2, 8, 0}, {3, 4, 16}, {4, 8, 0}, {6, 8, 0}} {
		ct, bpc := t[0], t[1]
		for _, wh := range [][2]int{{1, 1}, {1, 9}, {30, 20}, {70, 1}} {
			for seed := 1; seed <= 2; seed++ {
				one = append(one, MkPNG(fmt.Sprintf("png%d-%dx%d-%d", ct, wh[0], wh[1], seed), pngx.Spec{W: wh[0], H: wh[1], CT: ct, BPC: bpc, Pal: t[2], IDATs: 1, TRNS: -1, Seed: seed}))
			}
		}
	}
	for _, prot := range []*Prot{nil, {4, []byte("u"), []byte("o")}} {
		for ai, a := range one {
			for bi, b := range one {
				for wi, way := range []string{"bytes", "reader", "path"} {
					if !r.Thorough() && wi != (ai+bi)%3 && a != b && ai/2 != bi/2 {
						continue
					}
					cnt++
					gRun(r, "images", prot, with(gImage(a, way, 10, 20, nil), gImage(b, way, 10, 60, &gopdf.Rect{W: 31.5, H: 17}), gOut(0), gPageOp(0, 0), gImage(a, "reader", 5, 5, nil)))
				}
			}
		}
	}
	r.Bound("%d pairs of %d images by every way, protected or not", cnt, len(one))
	cnt = 0

	// information
	strs := []string{"", "Title", "é ไทย (x) \\ >>", "😀 a", "a\nb"}
	dates := []time.Time{{}, time.Date(2020, 2, 29, 23, 59, 58, 0, time.UTC), time.Date(1999, 12, 31, 1, 2, 3, 4, time.FixedZone("", 7*3600)), time.Date(2031, 1, 1, 0, 0, 0, 0, time.FixedZone("", -11*3600)), time.Date(2031, 1, 1, 0, 0, 0, 0, time.FixedZone("", 19800)), time.Date(2024, 5, 6, 7, 8, 9, 0, time.FixedZone("", -12600))}
	for _, prot := range []*Prot{nil, {20, []byte("u"), []byte("o")}} {
		for mask := 0; mask < 32; mask++ {
			for si, s := range strs {
				for _, d := range dates {
					f := func(k uint) string {
						if mask>>k&1 == 0 {
							return ""
						}
						return s + strings.Repeat("x", int(k)*si)
					}
					cnt++
					i := gopdf.PdfInfo{Title: f(0), Author: f(1), Subject: f(2), Creator: f(3), Producer: f(4), CreationDate: d}
					gRun(r, "info", prot, with(gInfo(i), gText("t"), gOut(0)))
				}
			}
		}
	}
	r.Bound("%d sets of document information, protected or not", cnt)
	infos := []gopdf.PdfInfo{{}, {Title: "one"}, {Author: "two", CreationDate: dates[1]}, {Subject: "three", Producer: "p"}, {Title: "t", Author: "a", Subject: "s", Creator: "c", Producer: "p", CreationDate: dates[2]}}
	var io []gOp
	for _, i := range infos {
		io = append(io, gInfo(i))
	}
	gSeqs(append(io, gOut(0), gText("t")), 3, func(s []gOp) { gRun(r, "info-again", nil, with(s...)) })
	r.Bound("all sequences of up to 3 over %d document informations, output and a text", len(infos))

	// protection and compression
	cnt = 0
	body := []gOp{gText("Hé"), gImage(ImRGBA, "bytes", 1, 2, nil), gImage(ImPal, "bytes", 1, 2, nil), gRect("uls", 1, 2, 3, 4, "DF"), gPageOp(50, 60), gText("next")}
	for perm := 0; perm < 64; perm += 4 {
		for _, pw := range [][2]string{{"", ""}, {"u", "o"}, {"user", ""}, {"", "owner"}, {"same", "same"}, {strings.Repeat("long", 9), "(\\)\r\n"}} {
			for _, lv := range []int{-1, 0, 9} {
				cnt++
				gRun(r, "protection", &Prot{perm, []byte(pw[0]), []byte(pw[1])}, append(with(gLevel(lv)), body...))
			}
		}
	}
	r.Bound("%d protected documents: permissions x passwords x compression", cnt)
	// what the levels do: content is stored as it is or compressed
	lim := func(l int) int { // levels out of range
		if l < -2 {
			return -1
		}
		return min(l, 9)
	}
	stored := func(levels ...int) (int, error) {
		w := gStart(200, 300, nil)
		ops := []gOp{gPageOp(0, 0)}
		for k := 0; k < 400; k++ {
			ops = append(ops, gLine(float64(k*k%97), float64(k*7%31), float64(k%13), float64(k*k*k%89)))
		}
		for k, l := range levels {
			at := []int{len(ops), 200, 1}[min(k, 2)]
			if k == len(levels)-1 {
				at = len(ops)
			}
			ops = append(ops[:at:at], append([]gOp{gLevel(l)}, ops[at:]...)...)
		}
		for _, o := range ops {
			if err := o.Do(w); err != nil {
				return 0, err
			}
		}
		b, err := w.out(0)
		if err != nil {
			return 0, err
		}
		d, err := pdfx.Load(b)
		if err != nil {
			return 0, err
		}
		pages, err := d.Pages()
		if err != nil {
			return 0, err
		}
		parts, ok := d.Resolve(pages[0].D.Get("Contents")).(pdfx.Arr)
		if !ok {
			parts = pdfx.Arr{pages[0].D.Get("Contents")}
		}
		raw := 0
		for _, p := range parts {
			st, ok := d.Resolve(p).(*pdfx.Stream)
			if !ok {
				return 0, errors.New("content is no stream")
			}
			filtered := len(d.Arr(st.D.Get("Filter"))) > 0 || isName(d.Resolve(st.D.Get("Filter")))
			if filtered != (levels[len(levels)-1] != 0) {
				return 0, fmt.Errorf("level %d: filter %v", levels[len(levels)-1], st.D.Get("Filter"))
			}
			raw += len(st.Raw)
		}
		plain, err := d.ContentBytes(pages[0])
		if err != nil {
			return 0, err
		}
		if l := lim(levels[len(levels)-1]); l != 0 && len(parts) == 1 { // the level is the level of zlib
			var z bytes.Buffer
			zw, err := zlib.NewWriterLevel(&z, l)
			if err != nil {
				return 0, err
			}
			zw.Write(plain)
			zw.Close()
			if n := z.Len() - raw; n < -16 || n > 16 {
				return 0, fmt.Errorf("content of %d bytes is compressed to %d bytes, at level %d to %d bytes", len(plain), raw, l, z.Len())
			}
		}
		return raw, w.verify(0)
	}
	for l1 := -4; l1 <= 12; l1++ {
		for l2 := -4; l2 <= 12; l2++ {
			r.Case("compression", fmt.Sprint(l1, " ", l2), func() error {
				r.Trans(1)
				a, err := stored(lim(l1))
				if err != nil {
					return err
				}
				b, err := stored(l2)
				if err != nil {
					return err
				}
				c, err := stored(l1, l2)
				if err != nil {
					return err
				}
				if b != c {
					return fmt.Errorf("level %d: %d bytes, after level %d %d bytes", l2, b, l1, c)
				}
				if lim(l1) == lim(l2) && a != b {
					return fmt.Errorf("level %d: %d bytes, level %d: %d bytes", l1, a, l2, b)
				}
				return nil
			})
		}
	}
	r.Bound("all pairs of compression levels -4..12")
	for lv := -4; lv <= 11; lv++ {
		for n := 0; n <= len(body); n++ {
			gRun(r, "level", nil, append(append(with(gLevel(lv)), body[:n]...), gOut(0)))
			gRun(r, "level", nil, append(append(with(), body[:n]...), gLevel(lv), gOut(0), gLevel(-1)))
		}
	}

	// output
	outs := []gOp{gOut(0), gOut(1), gOut(2), gOut(3), gOut(4), gText("a"), gImage(ImGA, "bytes", 3, 4, nil), gPageOp(0, 0)}
	for _, prot := range []*Prot{nil, {4, []byte("u"), []byte("o")}} {
		gSeqs(outs, r.Pick(3, 5), func(s []gOp) { gRun(r, "output", prot, with(append(append([]gOp{}, body...), s...)...)) })
	}
	r.Bound("all sequences of up to %d over 5 ways of output and 3 drawing operations, protected or not", r.Pick(3, 5))

	// empty pages
	for mask := 0; mask < 64; mask++ {
		var ops []gOp
		for k := uint(0); k < 3; k++ {
			ops = append(ops, gPageOp(float64(mask>>(2*k)&1)*123, float64(mask>>(2*k)&1)*45))
			if mask>>(2*k+1)&1 == 1 {
				ops = append(ops, gLine(1, 2, 3, 4))
			}
		}
		gRun(r, "empty-pages", nil, ops)
	}

	// fonts
	fo := []gOp{gFontBy("file", "x", FA, 0, false), gFontBy("file", "x", FB, gopdf.Italic, false), gFontBy("reader", "y", FC, 0, false), gFontBy("file", "k", fontK, 0, true), gFontOp("x", FC, gopdf.Bold, false),
		gBadFont("x", "nofile"), gBadFont("y", "cut"), gBadFont("a", "reader"), gBadFont("k", "no font at all"),
		gSetBy(true, "x", "", 10), gSetBy(true, "x", "IU", 10), gSet("y", "", 8), gSetBy(true, "k", "U", 30), gSetBy(true, "x", "B", 7)}
	n := r.Pick(3, 4)
	r.Bound("all sequences of up to %d over %d ways to add, fail to add and select fonts, each followed by a text", n, len(fo))
	gSeqs(fo, n, func(s []gOp) {
		gRun(r, "fonts", nil, with(append(append([]gOp{}, s...), gText("abWé"), gMeasure("ab"), gOut(0), gText("e"))...))
	})

	// several documents
	sides := [][]gOp{
		append(with(), gText("Hé"), gImage(ImRGBA, "bytes", 1, 2, nil), gPageOp(50, 60), gText("a")),
		{gFontOp("a", FC, 0, false), gPageOp(70, 80), gSet("a", "U", 20), gTextColor(1, 200, 3), gText("W"), gOut(0), gLine(1, 2, 3, 4), gText("b")},
		{gFontOp("k", fontK, 0, true), gPageOp(0, 0), gSet("k", "", 9), gKern("k", kerns[0].Name), gText("ab"), gImage(ImRGBA, "bytes", 1, 2, &gopdf.Rect{W: 9, H: 8}), gInfo(gopdf.PdfInfo{Title: "t"}), gOut(3)},
	}
	docs := 0
	for i := range sides {
		for j := range sides {
			for _, pr := range []int{0, 1, 2, 3} {
				var pa, pb *Prot
				if pr&1 != 0 {
					pa = &Prot{4, []byte("u"), []byte("o")}
				}
				if pr&2 != 0 {
					pb = &Prot{20, []byte("other"), []byte("owner")}
				}
				la, lb := len(sides[i]), len(sides[j])
				var rec func(path []byte, x, y int)
				rec = func(path []byte, x, y int) {
					if x == la && y == lb {
						id := fmt.Sprintf("%d,%d,%d:%s", i, j, pr, path)
						pth := append([]byte{}, path...)
						docs++
						r.Case("two-documents", id, func() error {
							w := [2]*gWorld{gStart(200, 300, pa), gStart(333, 222, pb)}
							at := [2]int{}
							for _, c := range pth {
								k := int(c - 'A')
								o := [][]gOp{sides[i], sides[j]}[k][at[k]]
								at[k]++
								if err := o.Do(w[k]); err != nil {
									return fmt.Errorf("document %c, %s: %w", c, o.Name, err)
								}
								r.Trans(1)
							}
							r.State(w[0].M.Key() + w[1].M.Key())
							for k := range w {
								if err := w[k].verify(0); err != nil {
									return fmt.Errorf("document %c: %w", 'A'+k, err)
								}
							}
							r.Trace()
							return nil
						})
						return
					}
					sw := 0
					for q := 1; q < len(path); q++ {
						if path[q] != path[q-1] {
							sw++
						}
					}
					for k, more := range [2]bool{x < la, y < lb} {
						c := byte('A' + k)
						if !more || len(path) > 0 && path[len(path)-1] != c && sw >= r.Pick(3, 6) {
							continue
						}
						rec(append(path[:len(path):len(path)], c), x+1-k, y+k)
					}
				}
				rec(nil, 0, 0)
			}
		}
	}
	r.Bound("%d interleavings of the histories of two documents (all with up to %d switches)", docs, r.Pick(3, 6))

	// many objects
	imgs := drawImgs()
	for _, n := range []int{1, 9, 10, 11, 99, 120} {
		var ops []gOp
		for i := 0; i < n; i++ {
			ops = append(ops, gPageOp(float64(100+i), 200), gText(fmt.Sprint(i)), gImage(imgs[i%len(imgs)], "bytes", 1, 2, nil))
			if i < 21 {
				ops = append(ops, gFontOp(fmt.Sprint("f", i), []*FontFix{FA, FB, FC}[i%3], 0, false), gSet(fmt.Sprint("f", i), "", 5+i), gText("x"))
			}
		}
		gRun(r, "many", nil, with(append(ops, gOut(0))...))
		gRun(r, "many", &Prot{4, []byte("u"), []byte("o")}, with(ops...))
	}
	gLarge(r, with)
}

// gLarge: pages, images, texts, characters and contents in numbers and lengths beyond the usual.
func gLarge(r *mc.Run, with func(...gOp) []gOp) {
	prots := []*Prot{nil, {20, []byte("u"), []byte("o")}}
	for _, n := range []int{255, 256, 257, r.Pick(300, 1030)} {
		for _, prot := range prots {
			var ops []gOp
			for i := 0; i < n; i++ {
				ops = append(ops, gText(fmt.Sprint(i)), gPageOp(float64(100+i%7), 200))
			}
			gRun(r, "many-pages", prot, with(append(ops, gText("end"), gOut(0))...))
		}
	}
	var imgs []*ImgFix
	for i := 0; i < r.Pick(130, 270); i++ {
		ct := []int{0, 2, 6, 4}[i%4]
		imgs = append(imgs, MkPNG(fmt.Sprintf("many%d", i), pngx.Spec{W: 1 + i%5, H: 1 + i/50, CT: ct, BPC: 8, IDATs: 1, TRNS: -1, Seed: 100 + i}))
	}
	for _, n := range []int{9, 10, 11, 99, 100, len(imgs)} {
		for _, prot := range prots {
			var ops []gOp
			for i := 0; i < n; i++ {
				ops = append(ops, gImage(imgs[i], []string{"bytes", "reader", "path"}[i%3], float64(i), 2, nil))
			}
			ops = append(ops, gPageOp(0, 0))
			for i := 0; i < n; i += 7 {
				ops = append(ops, gImage(imgs[n-1-i], []string{"bytes", "reader"}[i%2], float64(i), 2, nil))
			}
			gRun(r, "many-images", prot, with(ops...))
		}
	}
	r.Bound("documents of up to %d pages and %d different images", r.Pick(300, 1030), len(imgs))

	lens := []int{127, 128, 255, 256, 257, 1000, 4095, 4097, r.Pick(8200, 66000)}
	for _, n := range lens {
		t := strings.Repeat("Hé abW ", n/7+1)
		rs := []rune(t)[:n]
		for _, prot := range prots {
			gRun(r, "long-text", prot, with(gText(string(rs)), gMeasure(string(rs)), gCell(string(rs), nil, nil), gText("end")))
			gRun(r, "long-text", prot, with(gLevel(0), gCell(string(rs), &gopdf.Rect{W: 100, H: 20}, &gopdf.CellOption{Align: gopdf.Right, Border: 15}), gSet("b", "U", 8), gText("end")))
		}
	}
	for _, n := range []int{100, 1000, r.Pick(3000, 20000)} {
		for _, lv := range []int{-1, 0, 9} {
			var ops []gOp
			for i := 0; i < n; i++ {
				ops = append(ops, []gOp{gLine(float64(i%91), float64(i%77), float64(i%13), float64(i%89)), gRect("ll", float64(i%191), float64(i%177), 3, 4, ""), gStroke(uint8(i), uint8(i/3), 9), gX(float64(i % 150)), gText(fmt.Sprint(i))}[i%5])
			}
			gRun(r, "long-content", prots[n%3%2], with(append([]gOp{gLevel(lv)}, ops...)...))
		}
	}
	r.Bound("texts of up to %d characters, contents of up to %d operations", lens[len(lens)-1], r.Pick(3000, 20000))

	nf := 0
	for _, sz := range []int{30, 130, 300, r.Pick(600, 1200)} {
		for opt := 0; opt < 24; opt++ {
			if opt>>2&3 == 3 || !r.Thorough() && opt%4 != sz%3 {
				continue
			}
			f := bigFont(fmt.Sprintf("big%d-%d", sz, opt), sz, opt)
			nf++
			pick := func(from, to, step int) string {
				var o []rune
				for i := max(from, 1); i < min(to, sz); i += step {
					o = append(o, bigRune(i))
				}
				return string(o)
			}
			for _, t := range []string{pick(1, sz, 1), pick(sz-25, sz, 1), pick(10, 130, 1), pick(3, sz, 7)} {
				gRun(r, "big-fonts", prots[opt%2], []gOp{gFontOp("f", f, 0, opt%2 == 0), gPageOp(0, 0), gSet("f", "", 9), gMeasure(t), gText(t)})
			}
			gRun(r, "big-fonts", nil, []gOp{gFontOp("f", f, 0, false), gPageOp(0, 0), gSet("f", "", 9), gText(pick(1, 99, 1)), gOut(0), gText(pick(99, 102, 1)), gOut(0), gPageOp(70, 80), gText(pick(102, sz, 1)), gSet("f", "U", 7), gCell(pick(1, 40, 3), &gopdf.Rect{W: 60, H: 12}, nil)})
		}
	}
	r.Bound("%d fonts of up to %d glyphs, composites all over, in texts of up to all their characters", nf, r.Pick(600, 1200))
}

func isName(o pdfx.Obj) bool { _, ok := o.(pdfx.Name); return ok }
