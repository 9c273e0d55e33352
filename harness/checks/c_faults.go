package checks

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"regexp"

	pdft "github.com/signintech/pdft"
	gopdf "github.com/signintech/pdft/minigopdf"
	"github.com/signintech/pdft/textbreak"

	"verif/gen"
	"verif/mc"
	"verif/pngx"
	"verif/ttfx"
)

func init() {
	All["C11"] = c11
	All["C14"] = c14
}

// small fixtures for byte-exhaustive exploration
var tinyFont = MkFont("tiny", tinySpec())
var tinyKern = func() *FontFix {
	s := tinySpec()
	s.Kern = map[[2]int]int{{2, 3}: -40, {3, 4}: 25}
	return MkFont("tinykern", s)
}()

func tinySpec() ttfx.Spec {
	s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "Tiny", TypoAsc: 800, TypoDesc: -200, UPos: -100, UThk: 50, OS2V: 3, HAsc: 900, HDesc: -300}
	s.Glyphs = []ttfx.GSpec{{Adv: 500, Seed: 1}, {Adv: 250, Empty: true}, {Adv: 300, Seed: 2}, {Adv: 310, Seed: 3},
		{Adv: 400, Comps: []ttfx.CompSpec{{GID: 2}, {GID: 3, Words: true}}}, {Adv: 410, Comps: []ttfx.CompSpec{{GID: 4, Scale: 1}, {GID: 2}}}}
	for i, c := range []rune{' ', 'a', 'b', 'c', 'd'} {
		s.Map[c] = i + 1
	}
	s.Map[0x1F600] = 2
	return s
}

var tinyImgs = []*ImgFix{
	MkPNG("t-rgb", pngx.Spec{W: 2, H: 2, CT: 2, BPC: 8, Filter: 5, IDATs: 2, TRNS: -1, Seed: 1}),
	MkPNG("t-rgba", pngx.Spec{W: 2, H: 2, CT: 6, BPC: 8, Filter: 5, IDATs: 1, TRNS: -1, Seed: 2}),
	MkPNG("t-pal", pngx.Spec{W: 3, H: 2, CT: 3, BPC: 2, Pal: 3, Filter: 0, IDATs: 1, TRNS: 1, Seed: 3, Extra: true}),
	MkPNG("t-ga", pngx.Spec{W: 2, H: 1, CT: 4, BPC: 8, Filter: 1, IDATs: 1, TRNS: -1, Seed: 4}),
	MkPNG("t-g", pngx.Spec{W: 9, H: 1, CT: 0, BPC: 1, Filter: 1, IDATs: 1, TRNS: 1, Seed: 4}),
	jpg("t-jpg", 2, 2, false),
}

func tinyTmpls() []*Tmpl {
	return []*Tmpl{
		MkTmpl("flat", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false), &gen.Page{Box: "0 0 90 90", Streams: []string{"q Q", "0 0 1 1 re f"}, Zip: true, LenRef: true, Res: "ref", Fonts: []string{"F3"}, FontAt: "ref", XObjs: []string{"I1"}, XAt: "inline"})}).Bytes()),
		MkTmpl("tree", (&gen.Template{Style: 1, Root: &gen.Node{Box: "0 0 300 400", Res: &gen.Page{Res: "ref", Fonts: []string{"F1"}, FontAt: "inline"}, Kids: []*gen.Node{
			{Kids: []*gen.Node{{P: &gen.Page{Streams: []string{gen.Content(1, "F1", "")}, ArrRef: true}}}},
			{P: &gen.Page{BoxRef: true, Box: "0 0 10 10", Streams: nil}},
		}}}).Bytes()),
	}
}

// useBytes opens b and uses everything; errors are fine, panics are not.
func useBytes(b []byte, prot, deep bool) error {
	p := new(pdft.PDFt)
	if err := p.OpenFrom(bytes.NewReader(b)); err != nil {
		return nil
	}
	p.GetNumberOfPage()
	p.AddFontFrom("f", bytes.NewReader(tinyFont.B))
	p.SetFont("f", "U", 10)
	p.Insert("abc", 1, 1, 2, 30, 40, 9, nil)
	p.InsertImg(tinyImgs[1].B, 2, 1, 2, 3, 4)
	p.InsertImgWithCache(tinyImgs[0].B, 1, 1, 2, 3, 4)
	p.MeasureTextWidth("a")
	if prot {
		p.SetProtection(4, []byte("u"), []byte("o"))
	}
	p.DuplicatePageAfter(1, 0)
	p.RemovePage(1)
	if err := whole(p); err != nil || !deep {
		return err
	}
	p.DuplicatePageAfter(2, -1)
	if err := whole(p); err != nil {
		return err
	}
	p.RemoveOtherPages(1)
	p.GetNumberOfPage()
	return whole(p)
}

// whole saves: an error is fine, success without a whole file is not.
func whole(p *pdft.PDFt) error {
	var b bytes.Buffer
	if err := p.SaveTo(&b); err == nil && !complete(b.Bytes()) {
		return errIncomplete
	}
	return nil
}

func useFont(b []byte) error {
	p := new(pdft.PDFt)
	if err := p.OpenFrom(bytes.NewReader(T1.B)); err != nil {
		panic(err)
	}
	if err := p.AddFontFrom("f", bytes.NewReader(b)); err != nil {
		return whole(p)
	}
	p.SetFont("f", "U", 10)
	p.Insert("abcd \U0001F600", 1, 1, 2, 30, 40, 18, nil)
	p.Insert("abd", 1, 1, 2, 30, 40, 18, nil)
	p.InsertWrapText("a b cd", 1, 1, 2, 3, 40, 32, nil, textbreak.BasicTextbreak{})
	p.KernOverride("f", func(l, r rune, a, b uint, v int16) int16 { return v })
	p.MeasureTextWidth("abcd")
	if err := whole(p); err != nil {
		return err
	}
	return whole(p)
}

func useImg(b []byte) error {
	p := new(pdft.PDFt)
	if err := p.OpenFrom(bytes.NewReader(T1.B)); err != nil {
		panic(err)
	}
	p.InsertImg(append([]byte{}, b...), 1, 1, 2, 3, 4)
	p.InsertImgWithCache(append([]byte{}, b...), 1, 1, 2, 3, 4)
	p.InsertImgBase64(base64.StdEncoding.EncodeToString(b), 1, 1, 2, 3, 4)
	p.SetProtection(4, nil, nil)
	return whole(p)
}

// useDrawFont and useDrawImg give the bytes to the drawing package.
func useDrawFont(b []byte) error {
	p := drawDoc()
	if err := p.AddTTFFontByReaderWithOption("f", bytes.NewReader(b), gopdf.TtfOption{UseKerning: true}); err == nil {
		p.SetFont("f", "U", 10)
		p.MeasureTextWidth("abcd")
		p.Text("abcd \U0001F600")
		p.Cell(&gopdf.Rect{W: 30, H: 40}, "abd")
		p.CellWithOption(&gopdf.Rect{W: 30, H: 40}, "ab", gopdf.CellOption{Align: gopdf.Middle})
	}
	return wholeDraw(p)
}

func useDrawImg(b []byte) error {
	p := drawDoc()
	if h, err := gopdf.ImageHolderByBytes(append([]byte{}, b...)); err == nil {
		p.ImageByHolder(h, 1, 2, nil)
		p.ImageByHolder(h, 1, 2, &gopdf.Rect{W: 3, H: 4})
	}
	if h, err := gopdf.ImageHolderByReader(bytes.NewReader(b)); err == nil {
		p.ImageByHolder(h, 1, 2, nil)
	}
	return wholeDraw(p)
}

func drawDoc() *gopdf.GoPdf {
	p := new(gopdf.GoPdf)
	p.Start(gopdf.Config{PageSize: gopdf.Rect{W: 200, H: 300}})
	p.AddPage()
	return p
}

func wholeDraw(p *gopdf.GoPdf) error {
	p.Line(1, 2, 3, 4)
	for k := 0; k < 2; k++ {
		if b, err := p.GetBytesPdfReturnErr(); err == nil && !complete(b) {
			return errIncomplete
		}
	}
	return nil
}

var numRe = regexp.MustCompile(`[0-9]+`)
var refRe = regexp.MustCompile(`[0-9]+ 0 R`)
var nameRe = regexp.MustCompile(`/[A-Za-z0-9]+`)

// extreme 32 bit values: all ones, zero, the largest signed, and those that mean a step back by 1 to 40 bytes when taken for signed
var dwords = func() [][]byte {
	d := [][]byte{{0xFF, 0xFF, 0xFF, 0xFF}, {0, 0, 0, 0}, {0x7F, 0xFF, 0xFF, 0xFF}, {0, 0, 0xFF, 0xFF}, {0x80, 0, 0, 0}}
	for k := 4; k <= 40; k += 4 {
		d = append(d, []byte{0xFF, 0xFF, 0xFF, byte(-k)})
	}
	return d
}()

// mutants enumerates malformed variants of b.
func mutants(b []byte, vals []byte, pdf bool, nobj int, f func(name string, m []byte)) {
	for k := 0; k <= len(b); k++ {
		f(fmt.Sprintf("cut@%d", k), b[:k:k])
	}
	for k := range b {
		for _, v := range vals {
			if b[k] != v {
				m := append([]byte{}, b...)
				m[k] = v
				f(fmt.Sprintf("byte@%d=%02x", k, v), m)
			}
		}
		m := append(append([]byte{}, b[:k]...), b[k+1:]...)
		f(fmt.Sprintf("del@%d", k), m)
		m = append(append(append([]byte{}, b[:k]...), b[k]), b[k:]...)
		f(fmt.Sprintf("dup@%d", k), m)
	}
	if !pdf {
		for k := 0; k+2 <= len(b); k++ {
			for _, v := range [][]byte{{0xFF, 0xFF}, {0, 0}, {0x7F, 0xFF}, {0x80, 0}} {
				m := append([]byte{}, b...)
				copy(m[k:], v)
				f(fmt.Sprintf("word@%d=%x", k, v), m)
			}
		}
		for k := 0; k+4 <= len(b); k++ {
			for _, v := range dwords {
				m := append([]byte{}, b...)
				copy(m[k:], v)
				f(fmt.Sprintf("dword@%d=%x", k, v), m)
			}
		}
		return
	}
	rep := func(kind string, re *regexp.Regexp, vals []string) {
		for _, ix := range re.FindAllIndex(b, -1) {
			for _, v := range vals {
				m := append(append(append([]byte{}, b[:ix[0]]...), v...), b[ix[1]:]...)
				f(fmt.Sprintf("%s@%d=%s", kind, ix[0], v), m)
				// same length, so that all offsets stay valid
				if n := ix[1] - ix[0]; len(v) < n {
					pad := append([]byte(v), bytes.Repeat([]byte(" "), n-len(v))...)
					m := append(append(append([]byte{}, b[:ix[0]]...), pad...), b[ix[1]:]...)
					f(fmt.Sprintf("%s@%d=%s_", kind, ix[0], v), m)
				}
			}
		}
	}
	rep("num", numRe, []string{"0", "1", "-1", "99", "4294967296", "99999999999999999999", "1.5", "x", ""})
	var refs []string
	for i := 0; i <= nobj+1; i++ {
		refs = append(refs, fmt.Sprintf("%d 0 R", i))
	}
	refs = append(refs, "[", "null", "[1 0 R 2 0 R]", "<<>>", "()")
	rep("ref", refRe, refs)
	rep("name", nameRe, []string{"/", "/X", "/Type", "/Kids", "null", "/Parent", "<<", ">>", "["})
}

// rewired replaces two references at once (cycles through two objects).
func rewired(b []byte, nobj int, f func(name string, m []byte)) {
	ix := refRe.FindAllIndex(b, -1)
	for i := range ix {
		for j := i + 1; j < len(ix); j++ {
			for a := 1; a <= nobj; a++ {
				for c := 1; c <= nobj; c++ {
					ra, rc := fmt.Sprintf("%d 0 R", a), fmt.Sprintf("%d 0 R", c)
					if len(ra) != ix[i][1]-ix[i][0] || len(rc) != ix[j][1]-ix[j][0] {
						continue
					}
					m := append([]byte{}, b...)
					copy(m[ix[i][0]:], ra)
					copy(m[ix[j][0]:], rc)
					f(fmt.Sprintf("refs@%d=%d,%d=%d", ix[i][0], a, ix[j][0], c), m)
				}
			}
		}
	}
}

var kidsRe = regexp.MustCompile(`/Kids ?\[[^\]]*\]`)
var parentRe = regexp.MustCompile(`/Parent [0-9]+ 0 R`)

// rewireTree replaces up to k references of the page tree by references to any object, offsets kept.
func rewireTree(b []byte, nobj, k int, f func(name string, m []byte)) {
	var ix [][]int
	for _, w := range append(kidsRe.FindAllIndex(b, -1), parentRe.FindAllIndex(b, -1)...) {
		for _, x := range refRe.FindAllIndex(b[w[0]:w[1]], -1) {
			ix = append(ix, []int{x[0] + w[0], x[1] + w[0]})
		}
	}
	var rec func(m []byte, from, left int, name string)
	rec = func(m []byte, from, left int, name string) {
		if name != "" {
			f("tree"+name, m)
		}
		if left == 0 {
			return
		}
		for i := from; i < len(ix); i++ {
			w := ix[i][1] - ix[i][0]
			for a := 10; a < 10+nobj; a++ {
				ra := fmt.Sprintf("%d 0 R", a)
				for len(ra) < w {
					ra = " " + ra
				}
				if len(ra) != w || string(m[ix[i][0]:ix[i][1]]) == ra {
					continue
				}
				c := append([]byte{}, m...)
				copy(c[ix[i][0]:], ra)
				rec(c, i+1, left-1, fmt.Sprintf("%s@%d=%d", name, ix[i][0], a))
			}
		}
	}
	rec(b, 0, k, "")
}

// C11: malformed input is an error, never a crash or a hang.
func c11(r *mc.Run) {
	r.Level = "fault_enumeration"
	batch := func(stratum string, use func([]byte) error) (func(name string, m []byte), func()) {
		type mu struct {
			n string
			b []byte
		}
		var cur []mu
		flush := func() {
			if len(cur) == 0 {
				return
			}
			ms := cur
			cur = nil
			r.Case(stratum, ms[0].n+".."+ms[len(ms)-1].n, func() error {
				for _, m := range ms {
					m := m
					if err := mc.Guard(func() error { return use(m.b) }); err != nil {
						return fmt.Errorf("%s: %w", m.n, err)
					}
					r.Trace()
					r.Trans(1)
					r.State(stratum + m.n)
				}
				return nil
			})
		}
		return func(name string, m []byte) {
			cur = append(cur, mu{name, m})
			if len(cur) == 64 {
				flush()
			}
		}, flush
	}
	pv := []byte{0, ' ', '0', '9', '/', '(', ')', '<', '>', '[', ']', 'R', '\n', 0xFF}
	bv := []byte{0, 1, 0x80, 0xFF}
	if r.Thorough() {
		bv = nil
		for i := 0; i < 256; i++ {
			bv = append(bv, byte(i))
		}
		pv = bv
	} else {
		pv = []byte{' ', '9', '(', '>'}
	}
	for _, t := range tinyTmpls() {
		t := t
		nobj := bytes.Count(t.B, []byte(" 0 obj"))
		add, flush := batch("template-"+t.Name, func(b []byte) error { return useBytes(b, len(b)%2 == 0, r.Thorough()) })
		mutants(t.B, pv, true, nobj, add)
		flush()
		add, flush = batch("rewired-"+t.Name, func(b []byte) error { return useBytes(b, len(b)%2 == 0, r.Thorough()) })
		rewired(t.B, nobj, add)
		flush()
		r.Bound("template %s (%d bytes): every truncation, deletion, duplication, %d values for every byte, 9 values for every number, every rewiring of one and of two references, renamed keys", t.Name, len(t.B), len(pv))
	}
	// page trees of four levels whose nodes are rewired: every two, and every three entries of Kids, and Parent, Contents, Resources
	leaf := func(k int) *gen.Node { return &gen.Node{P: gen.Simple(k, "0 0 200 300")} }
	for ti, root := range []*gen.Node{
		{Kids: []*gen.Node{leaf(1), {Kids: []*gen.Node{{Kids: []*gen.Node{leaf(2)}}}}}},
		{Kids: []*gen.Node{{Kids: []*gen.Node{leaf(2), {Kids: []*gen.Node{leaf(1)}}}}, leaf(3)}},
	} {
		deep := (&gen.Template{Style: 1, Base: 9, Root: root}).Bytes() // all numbers have two digits
		dn := bytes.Count(deep, []byte(" 0 obj"))
		dadd, dflush := batch(fmt.Sprint("rewired-deep", ti), func(b []byte) error { return useBytes(b, len(b)%2 == 0, true) })
		rewireTree(deep, dn, r.Pick(2, 3), dadd)
		dflush()
		r.Bound("a page tree of four levels (%d objects): every rewiring of up to %d references of the tree", dn, r.Pick(2, 3))
	}
	add, flush := batch("font", useFont)
	mutants(tinyFont.B, bv, false, 0, add)
	flush()
	r.Bound("font (%d bytes): every truncation, deletion, duplication, %d values for every byte, extreme 16 and 32 bit values at every offset", len(tinyFont.B), len(bv))
	for _, im := range tinyImgs {
		add, flush := batch("image-"+im.Name, useImg)
		mutants(im.B, bv, false, 0, add)
		flush()
	}
	r.Bound("%d images: the same mutations", len(tinyImgs))
	add, flush = batch("draw-font", useDrawFont)
	mutants(tinyKern.B, bv, false, 0, add)
	flush()
	for _, im := range tinyImgs {
		add, flush := batch("draw-image-"+im.Name, useDrawImg)
		mutants(im.B, bv, false, 0, add)
		flush()
	}
	r.Bound("drawing package: a font with kerning (%d bytes) and %d images: the same mutations", len(tinyKern.B), len(tinyImgs))
	// real files, truncated
	files, _ := filepath.Glob("/repo/test/pdf/*.pdf")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		add, flush := batch("real-"+filepath.Base(f), func(b []byte) error { return useBytes(b, true, r.Thorough()) })
		n := r.Pick(40, 600)
		for k := 0; k <= n; k++ {
			add(fmt.Sprintf("cut@%d/%d", k, n), b[:len(b)*k/n])
			if k%4 == 3 {
				flush()
			}
		}
		flush()
	}
}

type faultReader struct {
	b     []byte
	limit int // bytes before the fault; -1 none
	chunk int
	zero  bool // interleave (0, nil)
	tail  bool // deliver the last bytes together with io.EOF
	err   error
	z     bool
}

func (f *faultReader) Read(p []byte) (int, error) {
	if f.zero && !f.z {
		f.z = true
		return 0, nil
	}
	f.z = false
	rest := f.b
	if f.limit >= 0 && f.limit < len(rest) {
		rest = rest[:f.limit]
	}
	if len(rest) == 0 {
		if f.limit >= 0 {
			return 0, f.err
		}
		return 0, io.EOF
	}
	n := len(p)
	if f.chunk > 0 && n > f.chunk {
		n = f.chunk
	}
	n = copy(p[:n], rest)
	f.b = f.b[n:]
	if f.limit >= 0 {
		f.limit -= n
		if f.tail && f.limit <= 0 {
			return n, f.err
		}
	} else if f.tail && len(f.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

type shortWriter struct {
	n    int
	mode int // 0 partial with error, 1 nothing with error, 2 short without error, 3.. all taken, and an error of the kind mode-3
	got  []byte
}

func (s *shortWriter) Write(p []byte) (int, error) {
	if len(p) <= s.n {
		s.n -= len(p)
		s.got = append(s.got, p...)
		return len(p), nil
	}
	k := s.n
	s.n = 0
	if s.mode >= 3 {
		s.got = append(s.got, p...)
		return len(p), faultKinds[s.mode-3]
	}
	if s.mode == 1 {
		return 0, errFault
	}
	s.got = append(s.got, p[:k]...)
	if s.mode == 2 {
		return k, nil
	}
	return k, errFault
}

var errFault = errors.New("injected fault")

type eofLike struct{}

func (eofLike) Error() string   { return "EOF" }
func (eofLike) Timeout() bool   { return true }
func (eofLike) Temporary() bool { return true }

// errors a reader or a writer may report and that are easily taken for something harmless
var faultKinds = []error{io.ErrUnexpectedEOF, fmt.Errorf("connection lost: %w", io.EOF), io.ErrNoProgress, io.ErrShortBuffer, io.ErrClosedPipe, os.ErrDeadlineExceeded, eofLike{}, io.ErrShortWrite, &os.PathError{Op: "read", Path: "x", Err: os.ErrClosed}}

// C14: faults of readers and writers surface and do no damage.
func c14(r *mc.Run) {
	r.Level = "fault_enumeration"
	use := []Op{OpFont("a", tinyFont), OpSet("a", "U", 12), textOp("ab c"), OpImg("plain", ImRGBA, 1, 5, 6, 30, 20)}
	// a reader that fails after k bytes: the error is reported, the open document stays
	for _, t := range tinyTmpls() {
		t := t
		for k := 0; k <= len(t.B); k++ {
			for v := 0; v < 4+len(faultKinds); v++ {
				k, v := k, v
				r.Case("reader-fault", fmt.Sprintf("%s@%d/%d", t.Name, k, v), func() error {
					w, err := Open(T2)
					if err != nil {
						return err
					}
					if err := RunOps(w, use[:3]); err != nil {
						return err
					}
					fr := &faultReader{b: t.B, limit: k, err: errFault}
					if v < 4 {
						fr.chunk, fr.zero, fr.tail = []int{0, 1, 7, 64}[v], v == 1, v == 2 && k > 0
					} else {
						fr.err = faultKinds[v-4]
					}
					if err := w.P.OpenFrom(fr); err == nil {
						return fmt.Errorf("the reader failed after %d of %d bytes and opening reported success", k, len(t.B))
					}
					r.Trans(1)
					r.State(fmt.Sprint("r", t.Name, k, v))
					if k%16 == 0 || r.Thorough() {
						if err := use[3].Do(w); err != nil {
							return err
						}
						if _, err := SaveVerify(w); err != nil {
							return fmt.Errorf("document after the failed open: %w", err)
						}
						r.Trace()
					}
					return nil
				})
			}
		}
	}
	r.Bound("read fault after every byte of 2 templates x 4 chunkings, and x %d kinds of error", len(faultKinds))
	// readers that deliver in unusual portions deliver the same document
	for _, t := range []*Tmpl{T1, T3, TN, tmplStrings()} {
		for _, ch := range []int{0, 1, 2, 3, 7, 511, 512, 513} {
			for _, z := range []bool{false, true} {
				for _, tl := range []bool{false, true} {
					t, ch, z, tl := t, ch, z, tl
					r.Case("chunks", fmt.Sprintf("%s/%d/%v/%v", t.Name, ch, z, tl), func() error {
						w := &World{P: new(pdft.PDFt), M: NewModel(t)}
						if err := w.P.OpenFrom(&faultReader{b: t.B, limit: -1, chunk: ch, zero: z, tail: tl}); err != nil {
							return err
						}
						if err := w.P.AddFontFrom("a", &faultReader{b: FB.B, limit: -1, chunk: ch, zero: z, tail: tl}); err != nil {
							return err
						}
						w.M.Fonts["a"] = &MFont{Fix: FB, Used: map[rune]bool{}}
						w.M.Order = []string{"a"}
						if err := RunOps(w, []Op{OpSet("a", "", 10), textOp("chunké")}); err != nil {
							return err
						}
						_, err := SaveVerify(w)
						r.Trace()
						return err
					})
				}
			}
		}
	}
	r.Bound("8 read sizes x empty reads x data together with EOF on 4 templates and a font")
	// font readers
	for k := 0; k <= len(tinyFont.B); k++ {
		for v := 0; v < 2+len(faultKinds); v++ {
			k, v := k, v
			r.Case("font-fault", fmt.Sprintf("@%d/%d", k, v), func() error {
				w, err := Open(T1)
				if err != nil {
					return err
				}
				fr := &faultReader{b: tinyFont.B, limit: k, err: errFault}
				if v < 2 {
					fr.chunk = v * 5
				} else {
					fr.err = faultKinds[v-2]
				}
				if err := w.P.AddFontFrom("a", fr); err == nil {
					return fmt.Errorf("the reader failed after %d of %d bytes and adding the font reported success", k, len(tinyFont.B))
				}
				if err := w.P.SetFont("a", "", 10); err == nil {
					return errors.New("the font that could not be read can be selected")
				}
				r.Trans(1)
				r.State(fmt.Sprint("f", k, v))
				if err := RunOps(w, use); err != nil { // the name is still free
					return err
				}
				if k%8 == 0 || r.Thorough() {
					if _, err := SaveVerify(w); err != nil {
						return err
					}
					r.Trace()
				}
				return nil
			})
		}
	}
	// sources of larger size: the fault at every position around the ends of blocks and near the end
	big := MkTmpl("bigsrc", func() []byte {
		p := gen.Simple(1, "0 0 200 300")
		for i := 0; i < 400; i++ {
			p.Streams[0] += fmt.Sprintf("%d %d m\n", i%200, i*7%300)
		}
		p.Streams[0] += "n\n"
		return (&gen.Template{Root: gen.Flat(p, gen.Simple(2, "0 0 200 300"))}).Bytes()
	}())
	for si, src := range [][]byte{big.B, FA.B, FB.B} {
		ks := map[int]bool{}
		for _, c := range []int{512, 1024, 2048, 4096, 8192, len(src) / 2, len(src)} {
			for k := c - 8; k <= c+8; k++ {
				if k >= 0 && k <= len(src) {
					ks[k] = true
				}
			}
		}
		for k := 0; k < len(src); k += r.Pick(29, 3) {
			ks[k] = true
		}
		for k := 0; k <= len(src); k++ {
			if !ks[k] {
				continue
			}
			for v := 0; v < 3+len(faultKinds); v++ {
				si, src, k, v := si, src, k, v
				r.Case("large-source-fault", fmt.Sprintf("%d@%d/%d", si, k, v), func() error {
					w, err := Open(T2)
					if err != nil {
						return err
					}
					fr := &faultReader{b: src, limit: k, err: errFault}
					if v < 3 {
						fr.chunk, fr.tail = []int{0, 0, 1000}[v], v > 0 && k > 0
					} else {
						fr.err = faultKinds[v-3]
					}
					if si == 0 {
						err = w.P.OpenFrom(fr)
					} else {
						err = w.P.AddFontFrom("a", fr)
					}
					if err == nil {
						return fmt.Errorf("the reader failed after %d of %d bytes and success was reported", k, len(src))
					}
					r.Trans(1)
					r.State(fmt.Sprint("L", si, k, v))
					if k%4 == 0 {
						if err := RunOps(w, use); err != nil {
							return err
						}
						if _, err := SaveVerify(w); err != nil {
							return err
						}
						r.Trace()
					}
					return nil
				})
			}
		}
	}
	r.Bound("read faults in a template and two fonts of up to %d bytes: around multiples of the usual block sizes, near the end and every %d bytes", len(FB.B), r.Pick(29, 3))
	// writers
	for ti, t := range []*Tmpl{T2, TN} {
		for ui, u := range [][]Op{use, append(append([]Op{}, use...), OpProt(4, []byte("u"), []byte("o")))} {
			if ti == 1 && ui == 1 && !r.Thorough() {
				continue
			}
			var full []byte
			err := mc.Guard(func() error {
				w0, err := Open(t)
				if err == nil {
					err = RunOps(w0, u)
				}
				if err == nil {
					full, err = Save(w0)
				}
				return err
			})
			if err != nil {
				e := err
				r.Case("writer-fault", t.Name, func() error { return e })
				continue
			}
			for k := 0; k < len(full)-32; k++ { // a run may write a few bytes less than another
				if !r.Thorough() && k%3 != ui && k > 64 {
					continue
				}
				modes := 3
				if k%32 == 0 {
					modes += len(faultKinds)
				}
				for mode := 0; mode < modes; mode++ {
					k, mode, t, u := k, mode, t, u
					r.Case("writer-fault", fmt.Sprintf("%s/%d@%d/%d", t.Name, ui, k, mode), func() error {
						w, err := Open(t)
						if err != nil {
							return err
						}
						if err := RunOps(w, u); err != nil {
							return err
						}
						sw := &shortWriter{n: k, mode: mode}
						if err := w.P.SaveTo(sw); err == nil {
							return fmt.Errorf("the writer took %d bytes only and saving reported success", k)
						}
						r.Trans(1)
						r.State(fmt.Sprint("w", t.Name, k, mode))
						if k%64 == 0 || r.Thorough() && k%8 == 0 {
							if _, err := SaveVerify(w); err != nil {
								return fmt.Errorf("saving again after the fault: %w", err)
							}
							r.Trace()
						}
						return nil
					})
				}
			}
		}
	}
	r.Bound("write fault at every byte (quick: every third) of the saved file x {partial write with error, error, short write}")
	// files
	dir := os.Getenv("VP_SCRATCH")
	r.Case("files", "save", func() error {
		w, err := Open(T2)
		if err != nil {
			return err
		}
		if err := RunOps(w, use); err != nil {
			return err
		}
		for _, p := range []string{filepath.Join(dir, "no", "such", "dir.pdf"), dir, "", "/dev/full"} {
			if err := w.P.Save(p); err == nil {
				return fmt.Errorf("Save(%q) reported success", p)
			}
		}
		for _, p := range []string{filepath.Join(dir, "missing.pdf"), dir, ""} {
			if err := w.P.Open(p); err == nil {
				return fmt.Errorf("Open(%q) reported success", p)
			}
			if err := w.P.AddFont("q", p); err == nil {
				return fmt.Errorf("AddFont(%q) reported success", p)
			}
		}
		_, err = SaveVerify(w)
		r.Trace()
		return err
	})
	r.Case("files", "open", func() error { // path based calls equal the reader based ones
		tf, ff := filepath.Join(dir, "t.pdf"), filepath.Join(dir, "f.ttf")
		if os.WriteFile(tf, T3.B, 0644) != nil || os.WriteFile(ff, FB.B, 0644) != nil {
			return nil
		}
		w := &World{P: new(pdft.PDFt), M: NewModel(T3)}
		if err := w.P.Open(tf); err != nil {
			return err
		}
		if err := w.P.AddFont("a", ff); err != nil {
			return err
		}
		os.Remove(ff)
		os.Remove(tf)
		w.M.Fonts["a"] = &MFont{Fix: FB, Used: map[rune]bool{}}
		w.M.Order = []string{"a"}
		if err := RunOps(w, []Op{OpSet("a", "", 10), textOp("filé")}); err != nil {
			return err
		}
		_, err := SaveVerify(w)
		r.Trace()
		return err
	})
}
