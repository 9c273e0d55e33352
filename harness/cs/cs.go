// Package cs interprets page content streams into painting events expressed in
// page space, so that two streams that paint the same thing compare equal
// whatever operators they use.
package cs

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"verif/pdfx"
)

type M [6]float64

var ID = M{1, 0, 0, 1, 0, 0}

// Mul returns a x b (a applied first).
func Mul(a, b M) M {
	return M{
		a[0]*b[0] + a[1]*b[2], a[0]*b[1] + a[1]*b[3],
		a[2]*b[0] + a[3]*b[2], a[2]*b[1] + a[3]*b[3],
		a[4]*b[0] + a[5]*b[2] + b[4], a[4]*b[1] + a[5]*b[3] + b[5],
	}
}
func (m M) Apply(x, y float64) (float64, float64) {
	return x*m[0] + y*m[2] + m[4], x*m[1] + y*m[3] + m[5]
}

type Color [3]float64

type Seg struct {
	Op  byte // m l c h
	Pts [6]float64
}

type Event struct {
	Kind string // glyph image fill stroke
	// glyph
	Font *Font
	Code int
	Size float64
	Rise float64
	// glyph: text-space-to-page matrix; image: unit square matrix
	Mat  M
	Fill Color
	Strk Color
	// path
	Path []Seg
	LW   float64
	Dash string
	// image
	XO     *pdfx.Stream
	XORef  pdfx.Ref
	XOName string
	// show-operator sequence number: glyphs of one TJ/Tj share it
	Show int
	BT   int // text object number
	Adv  float64
}

type Font struct {
	Name         string
	Ref          pdfx.Ref
	D            *pdfx.Dict
	Type0        bool
	Widths       map[int]float64
	DW           float64
	Desc         *pdfx.Dict // descendant font dict
	MissingWidth bool
}

type gs struct {
	ctm        M
	fill, strk Color
	lw         float64
	dash       string
	font       *Font
	size       float64
	rise       float64
	tc, tw, tz float64
	tl         float64
	tr         float64
}

type Interp struct {
	Doc    *pdfx.Doc
	Res    *pdfx.Dict
	Events []Event
	fonts  map[string]*Font
}

func nums(op pdfx.Op, n int) ([]float64, error) {
	if len(op.Args) != n {
		return nil, fmt.Errorf("operator %s has %d operands, expected %d", op.Name, len(op.Args), n)
	}
	out := make([]float64, n)
	for i, a := range op.Args {
		v, ok := a.(pdfx.Num)
		if !ok {
			return nil, fmt.Errorf("operator %s operand %d is not a number: %s", op.Name, i, pdfx.Show(a))
		}
		out[i] = v.V
	}
	return out, nil
}

// LoadFont reads the widths of a font dictionary.
func LoadFont(doc *pdfx.Doc, name string, o pdfx.Obj) (*Font, error) {
	d := doc.Dict(o)
	if d == nil {
		return nil, fmt.Errorf("font /%s does not resolve to a dictionary", name)
	}
	f := &Font{Name: name, D: d, Widths: map[int]float64{}, DW: 1000}
	if r, ok := o.(pdfx.Ref); ok {
		f.Ref = r
	}
	if d.Get("Type") != pdfx.Obj(pdfx.Name("Font")) {
		return nil, fmt.Errorf("font /%s is not of /Type /Font", name)
	}
	if doc.Resolve(d.Get("Subtype")) == pdfx.Obj(pdfx.Name("Type0")) {
		f.Type0 = true
		da := doc.Arr(d.Get("DescendantFonts"))
		if len(da) != 1 {
			return nil, fmt.Errorf("font /%s: DescendantFonts must have one element", name)
		}
		f.Desc = doc.Dict(da[0])
		if f.Desc == nil {
			return nil, fmt.Errorf("font /%s: descendant font missing", name)
		}
		if dw, ok := doc.Num(f.Desc.Get("DW")); ok {
			f.DW = dw
		}
		w := doc.Arr(f.Desc.Get("W"))
		for i := 0; i < len(w); {
			c, ok := w[i].(pdfx.Num)
			if !ok || i+1 >= len(w) {
				return nil, fmt.Errorf("font /%s: malformed /W", name)
			}
			switch x := doc.Resolve(w[i+1]).(type) {
			case pdfx.Arr:
				for k, v := range x {
					n, ok := v.(pdfx.Num)
					if !ok {
						return nil, fmt.Errorf("font /%s: malformed /W", name)
					}
					code := int(c.V) + k
					if old, dup := f.Widths[code]; dup && old != n.V {
						return nil, fmt.Errorf("font /%s: /W gives two widths for %d", name, code)
					}
					f.Widths[code] = n.V
				}
				i += 2
			case pdfx.Num:
				if i+2 >= len(w) {
					return nil, fmt.Errorf("font /%s: malformed /W", name)
				}
				n, ok := w[i+2].(pdfx.Num)
				if !ok {
					return nil, fmt.Errorf("font /%s: malformed /W", name)
				}
				for k := int(c.V); k <= int(x.V); k++ {
					f.Widths[k] = n.V
				}
				i += 3
			default:
				return nil, fmt.Errorf("font /%s: malformed /W", name)
			}
		}
	} else {
		f.DW = 500
		fc, _ := doc.Num(d.Get("FirstChar"))
		for i, x := range doc.Arr(d.Get("Widths")) {
			v, _ := doc.Num(x)
			f.Widths[int(fc)+i] = v
		}
	}
	return f, nil
}

func (it *Interp) font(name string) (*Font, error) {
	if f, ok := it.fonts[name]; ok {
		return f, nil
	}
	fd := it.Doc.Dict(it.Res.Get("Font"))
	if fd == nil || !fd.Has(name) {
		return nil, fmt.Errorf("font resource /%s is not defined on the page", name)
	}
	f, err := LoadFont(it.Doc, name, fd.Get(name))
	if err != nil {
		return nil, err
	}
	it.fonts[name] = f
	return f, nil
}

// Run interprets ops; it fails on anything a conforming reader would reject.
func Run(doc *pdfx.Doc, res *pdfx.Dict, content []byte) (*Interp, error) {
	it := &Interp{Doc: doc, Res: res, fonts: map[string]*Font{}}
	ops, err := pdfx.ParseContent(content)
	if err != nil {
		return it, err
	}
	g := gs{ctm: ID, lw: 1, dash: "[]0", tz: 100}
	var stack []gs
	inText := false
	var tm, tlm M
	var path []Seg
	var cx, cy float64
	show, bt := 0, 0
	add := func(e Event) {
		e.Fill, e.Strk = g.fill, g.strk
		it.Events = append(it.Events, e)
	}
	showStr := func(s []byte) error {
		if g.font == nil {
			return errors.New("text shown with no font selected")
		}
		step := 1
		if g.font.Type0 {
			step = 2
			if len(s)%2 != 0 {
				return errors.New("odd number of bytes shown in a two-byte font")
			}
		}
		for i := 0; i+step <= len(s); i += step {
			code := int(s[i])
			if step == 2 {
				code = code<<8 | int(s[i+1])
			}
			w, ok := g.font.Widths[code]
			if !ok {
				w = g.font.DW
			}
			tx := (w/1000*g.size + g.tc) * g.tz / 100
			if step == 1 && s[i] == 32 {
				tx += g.tw * g.tz / 100
			}
			if g.tr != 3 {
				add(Event{Kind: "glyph", Font: g.font, Code: code, Size: g.size, Rise: g.rise,
					Mat: Mul(Mul(M{1, 0, 0, 1, 0, g.rise}, tm), g.ctm), Show: show, BT: bt, Adv: tx})
			}
			tm = Mul(M{1, 0, 0, 1, tx, 0}, tm)
		}
		return nil
	}
	pt := func(x, y float64) (float64, float64) { return g.ctm.Apply(x, y) }
	paint := func(kind string) {
		if len(path) > 0 {
			add(Event{Kind: kind, Path: append([]Seg{}, path...), LW: g.lw, Dash: g.dash})
		}
	}
	closeP := func() { path = append(path, Seg{Op: 'h'}) }
	for _, op := range ops {
		textOnly := strings.HasPrefix(op.Name, "T") && op.Name != "Tf" && op.Name != "Tc" && op.Name != "Tw" && op.Name != "Tz" && op.Name != "TL" && op.Name != "Tr" && op.Name != "Ts"
		if textOnly && !inText {
			return it, fmt.Errorf("operator %s outside a text object", op.Name)
		}
		switch op.Name {
		case "q":
			if inText {
				return it, errors.New("q inside a text object")
			}
			stack = append(stack, g)
		case "Q":
			if inText {
				return it, errors.New("Q inside a text object")
			}
			if len(stack) == 0 {
				return it, errors.New("Q without q")
			}
			g = stack[len(stack)-1]
			stack = stack[:len(stack)-1]
		case "cm":
			a, err := nums(op, 6)
			if err != nil {
				return it, err
			}
			g.ctm = Mul(M{a[0], a[1], a[2], a[3], a[4], a[5]}, g.ctm)
		case "w":
			a, err := nums(op, 1)
			if err != nil {
				return it, err
			}
			if a[0] < 0 {
				return it, errors.New("negative line width")
			}
			g.lw = a[0]
		case "d":
			if len(op.Args) != 2 {
				return it, errors.New("operator d needs two operands")
			}
			a, ok := op.Args[0].(pdfx.Arr)
			ph, ok2 := op.Args[1].(pdfx.Num)
			if !ok || !ok2 {
				return it, errors.New("operator d operands")
			}
			g.dash = pdfx.Show(a) + pdfx.Show(ph)
		case "J", "j", "M", "i", "ri", "gs":
			if len(op.Args) != 1 {
				return it, fmt.Errorf("operator %s needs one operand", op.Name)
			}
		case "rg", "RG":
			a, err := nums(op, 3)
			if err != nil {
				return it, err
			}
			for _, v := range a {
				if v < 0 || v > 1 {
					return it, fmt.Errorf("colour component %v out of range", v)
				}
			}
			if op.Name == "rg" {
				g.fill = Color{a[0], a[1], a[2]}
			} else {
				g.strk = Color{a[0], a[1], a[2]}
			}
		case "g", "G":
			a, err := nums(op, 1)
			if err != nil {
				return it, err
			}
			if a[0] < 0 || a[0] > 1 {
				return it, fmt.Errorf("gray level %v out of range", a[0])
			}
			if op.Name == "g" {
				g.fill = Color{a[0], a[0], a[0]}
			} else {
				g.strk = Color{a[0], a[0], a[0]}
			}
		case "m", "l":
			a, err := nums(op, 2)
			if err != nil {
				return it, err
			}
			if op.Name == "l" && len(path) == 0 {
				return it, errors.New("l with no current point")
			}
			x, y := pt(a[0], a[1])
			path = append(path, Seg{Op: op.Name[0], Pts: [6]float64{x, y}})
			cx, cy = a[0], a[1]
		case "c":
			a, err := nums(op, 6)
			if err != nil {
				return it, err
			}
			if len(path) == 0 {
				return it, errors.New("c with no current point")
			}
			var s Seg
			s.Op = 'c'
			for i := 0; i < 3; i++ {
				s.Pts[2*i], s.Pts[2*i+1] = pt(a[2*i], a[2*i+1])
			}
			path = append(path, s)
			cx, cy = a[4], a[5]
		case "v", "y":
			a, err := nums(op, 4)
			if err != nil {
				return it, err
			}
			if len(path) == 0 {
				return it, errors.New("curve with no current point")
			}
			var s Seg
			s.Op = 'c'
			if op.Name == "v" {
				s.Pts[0], s.Pts[1] = pt(cx, cy)
				s.Pts[2], s.Pts[3] = pt(a[0], a[1])
			} else {
				s.Pts[0], s.Pts[1] = pt(a[0], a[1])
				s.Pts[2], s.Pts[3] = pt(a[2], a[3])
			}
			s.Pts[4], s.Pts[5] = pt(a[2], a[3])
			path = append(path, s)
			cx, cy = a[2], a[3]
		case "re":
			a, err := nums(op, 4)
			if err != nil {
				return it, err
			}
			for i, c := range [][2]float64{{a[0], a[1]}, {a[0] + a[2], a[1]}, {a[0] + a[2], a[1] + a[3]}, {a[0], a[1] + a[3]}} {
				x, y := pt(c[0], c[1])
				o := byte('l')
				if i == 0 {
					o = 'm'
				}
				path = append(path, Seg{Op: o, Pts: [6]float64{x, y}})
			}
			closeP()
		case "h":
			closeP()
		case "S":
			paint("stroke")
			path = nil
		case "s":
			closeP()
			paint("stroke")
			path = nil
		case "f", "F", "f*":
			paint("fill")
			path = nil
		case "B", "B*", "b", "b*":
			if op.Name[0] == 'b' {
				closeP()
			}
			paint("fill")
			paint("stroke")
			path = nil
		case "n":
			path = nil
		case "W", "W*":
		case "BMC", "BDC", "EMC", "MP", "DP", "BX", "EX":
		case "BT":
			if inText {
				return it, errors.New("nested BT")
			}
			inText = true
			bt++
			tm, tlm = ID, ID
		case "ET":
			if !inText {
				return it, errors.New("ET without BT")
			}
			inText = false
		case "Tf":
			if len(op.Args) != 2 {
				return it, errors.New("Tf needs two operands")
			}
			n, ok := op.Args[0].(pdfx.Name)
			sz, ok2 := op.Args[1].(pdfx.Num)
			if !ok || !ok2 {
				return it, errors.New("Tf operands")
			}
			f, err := it.font(string(n))
			if err != nil {
				return it, err
			}
			g.font, g.size = f, sz.V
		case "Td", "TD":
			a, err := nums(op, 2)
			if err != nil {
				return it, err
			}
			if op.Name == "TD" {
				g.tl = -a[1]
			}
			tlm = Mul(M{1, 0, 0, 1, a[0], a[1]}, tlm)
			tm = tlm
		case "Tm":
			a, err := nums(op, 6)
			if err != nil {
				return it, err
			}
			tlm = M{a[0], a[1], a[2], a[3], a[4], a[5]}
			tm = tlm
		case "T*":
			tlm = Mul(M{1, 0, 0, 1, 0, -g.tl}, tlm)
			tm = tlm
		case "Ts", "Tc", "Tw", "Tz", "TL", "Tr":
			a, err := nums(op, 1)
			if err != nil {
				return it, err
			}
			switch op.Name {
			case "Ts":
				g.rise = a[0]
			case "Tc":
				g.tc = a[0]
			case "Tw":
				g.tw = a[0]
			case "Tz":
				g.tz = a[0]
			case "TL":
				g.tl = a[0]
			case "Tr":
				g.tr = a[0]
			}
		case "Tj":
			if len(op.Args) != 1 {
				return it, errors.New("Tj needs one operand")
			}
			s, ok := op.Args[0].(pdfx.Str)
			if !ok {
				return it, errors.New("Tj operand is not a string")
			}
			show++
			if err := showStr(s); err != nil {
				return it, err
			}
		case "TJ":
			if len(op.Args) != 1 {
				return it, errors.New("TJ needs one operand")
			}
			a, ok := op.Args[0].(pdfx.Arr)
			if !ok {
				return it, errors.New("TJ operand is not an array")
			}
			show++
			for _, x := range a {
				switch v := x.(type) {
				case pdfx.Str:
					if err := showStr(v); err != nil {
						return it, err
					}
				case pdfx.Num:
					tm = Mul(M{1, 0, 0, 1, -v.V / 1000 * g.size * g.tz / 100, 0}, tm)
				default:
					return it, errors.New("TJ array element")
				}
			}
		case "Do":
			if len(op.Args) != 1 {
				return it, errors.New("Do needs one operand")
			}
			n, ok := op.Args[0].(pdfx.Name)
			if !ok {
				return it, errors.New("Do operand is not a name")
			}
			xd := doc.Dict(it.Res.Get("XObject"))
			if xd == nil || !xd.Has(string(n)) {
				return it, fmt.Errorf("XObject resource /%s is not defined on the page", n)
			}
			xr, _ := xd.Get(string(n)).(pdfx.Ref)
			xs, ok := doc.Resolve(xd.Get(string(n))).(*pdfx.Stream)
			if !ok {
				return it, fmt.Errorf("XObject /%s is not a stream", n)
			}
			add(Event{Kind: "image", XO: xs, XORef: xr, XOName: string(n), Mat: g.ctm})
		default:
			return it, fmt.Errorf("unknown content operator %q", op.Name)
		}
	}
	if inText {
		return it, errors.New("content ends inside a text object")
	}
	if len(stack) != 0 {
		return it, fmt.Errorf("content ends with %d unbalanced q", len(stack))
	}
	return it, nil
}

const Tol = 0.0151

func Close(a, b float64) bool { return math.Abs(a-b) <= Tol }

func (e Event) String() string {
	switch e.Kind {
	case "glyph":
		return fmt.Sprintf("glyph font=%d/%s code=%04X size=%g rise=%.2f at (%.2f,%.2f) fill=%v", e.Font.Ref.N, e.Font.Name, e.Code, e.Size, e.Rise, e.Mat[4], e.Mat[5], e.Fill)
	case "image":
		return fmt.Sprintf("image %s obj=%d m=%.2f", e.XOName, e.XORef.N, e.Mat)
	}
	return fmt.Sprintf("%s path=%v lw=%g dash=%s fill=%v stroke=%v", e.Kind, e.Path, e.LW, e.Dash, e.Fill, e.Strk)
}
