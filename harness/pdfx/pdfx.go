// Package pdfx is a small strict PDF reader, written independently of the code
// under test.  It accepts the classical (non xref-stream) file structure and
// reports every structural defect it meets instead of repairing it.
package pdfx

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"crypto/rc4"
	"errors"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

type Obj interface{}
type Num struct {
	V   float64
	Int bool
}
type Str []byte
type Name string
type Arr []Obj
type Ref struct{ N, G int }
type Dict struct {
	Keys []string
	M    map[string]Obj
}
type Stream struct {
	D   *Dict
	Raw []byte // as stored, after decryption if any
}

func (d *Dict) Get(k string) Obj {
	if d == nil {
		return nil
	}
	return d.M[k]
}
func (d *Dict) Has(k string) bool {
	if d == nil {
		return false
	}
	_, ok := d.M[k]
	return ok
}

// ---------------------------------------------------------------- lexer

type lex struct {
	b []byte
	p int
}

func isWS(c byte) bool {
	return c == 0 || c == 9 || c == 10 || c == 12 || c == 13 || c == 32
}
func isDelim(c byte) bool {
	switch c {
	case '(', ')', '<', '>', '[', ']', '{', '}', '/', '%':
		return true
	}
	return false
}
func isReg(c byte) bool { return !isWS(c) && !isDelim(c) }

func (l *lex) ws() {
	for l.p < len(l.b) {
		c := l.b[l.p]
		if isWS(c) {
			l.p++
		} else if c == '%' {
			for l.p < len(l.b) && l.b[l.p] != '\n' && l.b[l.p] != '\r' {
				l.p++
			}
		} else {
			return
		}
	}
}

type Keyword string

var errEOF = errors.New("unexpected end of data")

func (l *lex) obj() (Obj, error) {
	l.ws()
	if l.p >= len(l.b) {
		return nil, errEOF
	}
	c := l.b[l.p]
	switch {
	case c == '/':
		l.p++
		s := l.p
		for l.p < len(l.b) && isReg(l.b[l.p]) {
			l.p++
		}
		raw := l.b[s:l.p]
		if bytes.IndexByte(raw, '#') < 0 {
			return Name(raw), nil
		}
		var o []byte
		for i := 0; i < len(raw); i++ {
			if raw[i] == '#' && i+2 < len(raw) {
				v, err := strconv.ParseUint(string(raw[i+1:i+3]), 16, 8)
				if err == nil {
					o = append(o, byte(v))
					i += 2
					continue
				}
			}
			o = append(o, raw[i])
		}
		return Name(o), nil
	case c == '(':
		return l.litString()
	case c == '<':
		if l.p+1 < len(l.b) && l.b[l.p+1] == '<' {
			l.p += 2
			return l.dict()
		}
		return l.hexString()
	case c == '[':
		l.p++
		a := Arr{}
		for {
			l.ws()
			if l.p >= len(l.b) {
				return nil, errEOF
			}
			if l.b[l.p] == ']' {
				l.p++
				return a, nil
			}
			o, err := l.objRef()
			if err != nil {
				return nil, err
			}
			if k, ok := o.(Keyword); ok {
				return nil, fmt.Errorf("unexpected keyword %q in array", string(k))
			}
			a = append(a, o)
		}
	case c == '+' || c == '-' || c == '.' || (c >= '0' && c <= '9'):
		s := l.p
		for l.p < len(l.b) && isReg(l.b[l.p]) {
			l.p++
		}
		return parseNum(string(l.b[s:l.p]))
	case isDelim(c):
		return nil, fmt.Errorf("unexpected %q at %d", c, l.p)
	}
	s := l.p
	for l.p < len(l.b) && isReg(l.b[l.p]) {
		l.p++
	}
	w := string(l.b[s:l.p])
	switch w {
	case "true":
		return true, nil
	case "false":
		return false, nil
	case "null":
		return nil, nil
	}
	return Keyword(w), nil
}

func parseNum(s string) (Obj, error) {
	t := s
	if len(t) > 0 && (t[0] == '+' || t[0] == '-') {
		t = t[1:]
	}
	dots, digits := 0, 0
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '.':
			dots++
		case t[i] >= '0' && t[i] <= '9':
			digits++
		default:
			return nil, fmt.Errorf("bad number %q", s)
		}
	}
	if dots > 1 || digits == 0 {
		return nil, fmt.Errorf("bad number %q", s)
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return nil, err
	}
	return Num{V: v, Int: dots == 0}, nil
}

// objRef reads an object, recognising "n g R".
func (l *lex) objRef() (Obj, error) {
	o, err := l.obj()
	if err != nil {
		return nil, err
	}
	n, ok := o.(Num)
	if !ok || !n.Int || n.V < 0 {
		return o, nil
	}
	save := l.p
	o2, err := l.obj()
	if err == nil {
		if g, ok := o2.(Num); ok && g.Int && g.V >= 0 {
			o3, err := l.obj()
			if err == nil {
				if k, ok := o3.(Keyword); ok && k == "R" {
					return Ref{int(n.V), int(g.V)}, nil
				}
			}
		}
	}
	l.p = save
	return o, nil
}

func (l *lex) dict() (Obj, error) {
	d := &Dict{M: map[string]Obj{}}
	for {
		l.ws()
		if l.p >= len(l.b) {
			return nil, errEOF
		}
		if l.b[l.p] == '>' {
			if l.p+1 < len(l.b) && l.b[l.p+1] == '>' {
				l.p += 2
				return d, nil
			}
			return nil, fmt.Errorf("stray > in dictionary at %d", l.p)
		}
		k, err := l.obj()
		if err != nil {
			return nil, err
		}
		kn, ok := k.(Name)
		if !ok {
			return nil, fmt.Errorf("dictionary key is not a name: %v", Show(k))
		}
		l.ws()
		if l.p < len(l.b) && l.b[l.p] == '>' {
			return nil, fmt.Errorf("dictionary key /%s has no value", kn)
		}
		v, err := l.objRef()
		if err != nil {
			return nil, err
		}
		if kw, ok := v.(Keyword); ok {
			return nil, fmt.Errorf("dictionary key /%s has keyword value %q", kn, string(kw))
		}
		if _, dup := d.M[string(kn)]; dup {
			return nil, fmt.Errorf("duplicate dictionary key /%s", kn)
		}
		d.Keys = append(d.Keys, string(kn))
		d.M[string(kn)] = v
	}
}

func (l *lex) litString() (Obj, error) {
	l.p++
	depth := 1
	out := []byte{}
	for l.p < len(l.b) {
		c := l.b[l.p]
		l.p++
		switch c {
		case '(':
			depth++
			out = append(out, c)
		case ')':
			depth--
			if depth == 0 {
				return Str(out), nil
			}
			out = append(out, c)
		case '\\':
			if l.p >= len(l.b) {
				return nil, errEOF
			}
			e := l.b[l.p]
			l.p++
			switch e {
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case '\r':
				if l.p < len(l.b) && l.b[l.p] == '\n' {
					l.p++
				}
			case '\n':
			default:
				if e >= '0' && e <= '7' {
					v := int(e - '0')
					for k := 0; k < 2 && l.p < len(l.b) && l.b[l.p] >= '0' && l.b[l.p] <= '7'; k++ {
						v = v*8 + int(l.b[l.p]-'0')
						l.p++
					}
					out = append(out, byte(v))
				} else {
					out = append(out, e)
				}
			}
		case '\r': // an end of line inside of a string reads as a line feed
			if l.p < len(l.b) && l.b[l.p] == '\n' {
				l.p++
			}
			out = append(out, '\n')
		default:
			out = append(out, c)
		}
	}
	return nil, errEOF
}

func (l *lex) hexString() (Obj, error) {
	l.p++
	var hx []byte
	for l.p < len(l.b) {
		c := l.b[l.p]
		l.p++
		if c == '>' {
			if len(hx)%2 == 1 {
				hx = append(hx, '0')
			}
			out := make([]byte, len(hx)/2)
			for i := range out {
				v, err := strconv.ParseUint(string(hx[2*i:2*i+2]), 16, 8)
				if err != nil {
					return nil, fmt.Errorf("bad hex string")
				}
				out[i] = byte(v)
			}
			return Str(out), nil
		}
		if isWS(c) {
			continue
		}
		hx = append(hx, c)
	}
	return nil, errEOF
}

// ParseObj parses one object from b (used by tests of object fragments).
func ParseObj(b []byte) (Obj, error) {
	l := &lex{b: b}
	return l.objRef()
}

// Tokens splits a content stream into operands and operators.
type Op struct {
	Name string
	Args []Obj
	Data []byte // inline image data
}

func ParseContent(b []byte) ([]Op, error) {
	l := &lex{b: b}
	var ops []Op
	var args []Obj
	for {
		l.ws()
		if l.p >= len(l.b) {
			if len(args) > 0 {
				return ops, fmt.Errorf("content stream ends with %d dangling operands", len(args))
			}
			return ops, nil
		}
		if l.b[l.p] == '\'' || l.b[l.p] == '"' {
			ops = append(ops, Op{Name: string(l.b[l.p]), Args: args})
			args = nil
			l.p++
			continue
		}
		o, err := l.obj()
		if err != nil {
			return ops, err
		}
		if k, ok := o.(Keyword); ok {
			ops = append(ops, Op{Name: string(k), Args: args})
			args = nil
			continue
		}
		args = append(args, o)
	}
}

// ---------------------------------------------------------------- document

type XEntry struct {
	Off  int
	Gen  int
	Free bool
}

type Doc struct {
	B       []byte
	Version string
	X       []XEntry
	Trailer *Dict
	Objs    map[int]Obj
	Span    map[int][2]int
	Key     []byte // encryption key (nil when not encrypted)
	Encrypt *Dict
	EncNum  int
}

func (d *Doc) Resolve(o Obj) Obj {
	for i := 0; i < 32; i++ {
		r, ok := o.(Ref)
		if !ok {
			return o
		}
		o = d.Objs[r.N]
	}
	return nil
}
func (d *Doc) Dict(o Obj) *Dict {
	switch v := d.Resolve(o).(type) {
	case *Dict:
		return v
	case *Stream:
		return v.D
	}
	return nil
}
func (d *Doc) Arr(o Obj) Arr {
	a, _ := d.Resolve(o).(Arr)
	return a
}
func (d *Doc) Num(o Obj) (float64, bool) {
	n, ok := d.Resolve(o).(Num)
	return n.V, ok
}

// Load parses and validates.  user/owner passwords are only used when the
// document is encrypted; pw is tried as the user password.
func Load(b []byte) (*Doc, error) { return LoadPW(b, nil) }

func LoadPW(b []byte, pw []byte) (*Doc, error) {
	d := &Doc{B: b, Objs: map[int]Obj{}, Span: map[int][2]int{}}
	if !bytes.HasPrefix(b, []byte("%PDF-1.")) || len(b) < 8 {
		return nil, errors.New("no %PDF-1.x header")
	}
	d.Version = string(b[5:8])
	// trailer end
	tail := bytes.TrimRight(b, "\r\n \t\x00")
	if !bytes.HasSuffix(tail, []byte("%%EOF")) {
		return nil, errors.New("file does not end with %%EOF")
	}
	tail = bytes.TrimRight(tail[:len(tail)-5], "\r\n \t")
	si := bytes.LastIndex(tail, []byte("startxref"))
	if si < 0 {
		return nil, errors.New("no startxref before %%EOF")
	}
	offs := strings.TrimSpace(string(tail[si+9:]))
	xo, err := strconv.Atoi(offs)
	if err != nil {
		return nil, fmt.Errorf("bad startxref offset %q", offs)
	}
	if xo < 0 || xo >= len(b) {
		return nil, fmt.Errorf("startxref offset %d outside file of %d bytes", xo, len(b))
	}
	l := &lex{b: b, p: xo}
	for l.p < len(b) && isWS(b[l.p]) {
		l.p++
	}
	if !bytes.HasPrefix(b[l.p:], []byte("xref")) {
		return nil, fmt.Errorf("startxref %d does not point at an xref table", xo)
	}
	xrefStart := l.p
	l.p += 4
	for {
		for l.p < len(b) && isWS(b[l.p]) {
			l.p++
		}
		if bytes.HasPrefix(b[l.p:], []byte("trailer")) {
			l.p += 7
			break
		}
		o1, err := l.obj()
		if err != nil {
			return nil, fmt.Errorf("xref subsection header: %v", err)
		}
		o2, err := l.obj()
		if err != nil {
			return nil, fmt.Errorf("xref subsection header: %v", err)
		}
		n1, ok1 := o1.(Num)
		n2, ok2 := o2.(Num)
		if !ok1 || !ok2 || !n1.Int || !n2.Int || n2.V < 0 || n1.V < 0 {
			return nil, fmt.Errorf("bad xref subsection header %v %v", Show(o1), Show(o2))
		}
		// end of line
		for l.p < len(b) && (b[l.p] == ' ') {
			l.p++
		}
		if l.p < len(b) && b[l.p] == '\r' {
			l.p++
		}
		if l.p < len(b) && b[l.p] == '\n' {
			l.p++
		}
		start, cnt := int(n1.V), int(n2.V)
		for i := 0; i < cnt; i++ {
			if l.p+20 > len(b) {
				return nil, fmt.Errorf("xref table truncated at entry %d", start+i)
			}
			e := b[l.p : l.p+20]
			if !xrefLine(e) {
				return nil, fmt.Errorf("xref entry %d malformed: %q", start+i, e)
			}
			off, _ := strconv.Atoi(string(e[0:10]))
			gen, _ := strconv.Atoi(string(e[11:16]))
			for len(d.X) <= start+i {
				d.X = append(d.X, XEntry{Free: true, Gen: -1})
			}
			d.X[start+i] = XEntry{Off: off, Gen: gen, Free: e[17] == 'f'}
			l.p += 20
		}
	}
	to, err := l.obj()
	if err != nil {
		return nil, fmt.Errorf("trailer: %v", err)
	}
	td, ok := to.(*Dict)
	if !ok {
		return nil, errors.New("trailer is not a dictionary")
	}
	d.Trailer = td
	trailerEnd := l.p
	// after the trailer dictionary only startxref may follow
	rest := &lex{b: b, p: trailerEnd}
	ro, err := rest.obj()
	if k, ok := ro.(Keyword); err != nil || !ok || k != "startxref" {
		return nil, errors.New("trailer dictionary not followed by startxref")
	}
	sz, ok := td.Get("Size").(Num)
	if !ok || !sz.Int {
		return nil, errors.New("trailer has no integer /Size")
	}
	if int(sz.V) != len(d.X) {
		return nil, fmt.Errorf("/Size %d but xref covers %d entries", int(sz.V), len(d.X))
	}
	if len(d.X) == 0 || !d.X[0].Free {
		return nil, errors.New("xref entry 0 is not free")
	}
	// free list
	seen := map[int]bool{}
	cur := 0
	for {
		if seen[cur] {
			return nil, fmt.Errorf("free list loops at %d", cur)
		}
		seen[cur] = true
		nx := d.X[cur].Off
		if nx == 0 {
			break
		}
		if nx < 0 || nx >= len(d.X) || !d.X[nx].Free {
			return nil, fmt.Errorf("free list entry %d links to %d which is not a free entry", cur, nx)
		}
		cur = nx
	}
	for i, e := range d.X {
		if e.Free && !seen[i] && e.Gen != -1 {
			return nil, fmt.Errorf("free entry %d not on the free list", i)
		}
	}
	// two passes: non-stream objects first so that indirect lengths resolve
	type pend struct{ n, p int }
	var streams []pend
	var order []int
	for n, e := range d.X {
		if e.Free {
			continue
		}
		order = append(order, n)
		if e.Off <= 0 || e.Off >= len(b) {
			return nil, fmt.Errorf("object %d: offset %d outside file", n, e.Off)
		}
		p := e.Off
		for p < len(b) && isWS(b[p]) {
			p++
		}
		q := &lex{b: b, p: p}
		if q.p >= len(b) || b[q.p] < '0' || b[q.p] > '9' {
			return nil, fmt.Errorf("object %d: xref offset %d does not point at an object header", n, e.Off)
		}
		a1, e1 := q.obj()
		a2, e2 := q.obj()
		a3, e3 := q.obj()
		v1, k1 := a1.(Num)
		v2, k2 := a2.(Num)
		if e1 != nil || e2 != nil || e3 != nil || !k1 || !k2 || a3 != Obj(Keyword("obj")) {
			return nil, fmt.Errorf("object %d: xref offset %d does not point at an object header", n, e.Off)
		}
		if int(v1.V) != n || int(v2.V) != e.Gen {
			return nil, fmt.Errorf("object %d gen %d: found header %d %d obj at its offset", n, e.Gen, int(v1.V), int(v2.V))
		}
		save := q.p
		q.ws()
		if bytes.HasPrefix(b[q.p:], []byte("endobj")) {
			d.Objs[n] = nil
			d.Span[n] = [2]int{p, q.p + 6}
			continue
		}
		q.p = save
		v, err := q.objRef()
		if err != nil {
			return nil, fmt.Errorf("object %d: %v", n, err)
		}
		if kw, ok := v.(Keyword); ok {
			return nil, fmt.Errorf("object %d: unexpected keyword %q", n, string(kw))
		}
		q.ws()
		if bytes.HasPrefix(b[q.p:], []byte("stream")) {
			dd, ok := v.(*Dict)
			if !ok {
				return nil, fmt.Errorf("object %d: stream without dictionary", n)
			}
			d.Objs[n] = dd
			d.Span[n] = [2]int{p, q.p}
			streams = append(streams, pend{n, q.p})
			continue
		}
		if !bytes.HasPrefix(b[q.p:], []byte("endobj")) {
			return nil, fmt.Errorf("object %d: no endobj after its value (found %q)", n, clip(b[q.p:], 20))
		}
		d.Objs[n] = v
		d.Span[n] = [2]int{p, q.p + 6}
	}
	for _, s := range streams {
		dd := d.Objs[s.n].(*Dict)
		p := s.p + 6
		if p < len(b) && b[p] == '\r' {
			p++
			if p >= len(b) || b[p] != '\n' {
				return nil, fmt.Errorf("object %d: stream keyword followed by bare CR", s.n)
			}
			p++
		} else if p < len(b) && b[p] == '\n' {
			p++
		} else {
			return nil, fmt.Errorf("object %d: stream keyword not followed by end-of-line", s.n)
		}
		ln, ok := d.Resolve(dd.Get("Length")).(Num)
		if !ok || !ln.Int || ln.V < 0 {
			return nil, fmt.Errorf("object %d: stream /Length missing or not an integer", s.n)
		}
		end := p + int(ln.V)
		if end > len(b) {
			return nil, fmt.Errorf("object %d: stream /Length %d runs past end of file", s.n, int(ln.V))
		}
		e := end
		if e < len(b) && b[e] == '\r' {
			e++
		}
		if e < len(b) && b[e] == '\n' {
			e++
		}
		if !bytes.HasPrefix(b[e:], []byte("endstream")) {
			return nil, fmt.Errorf("object %d: /Length %d does not end at endstream (found %q)", s.n, int(ln.V), clip(b[end:], 24))
		}
		q := &lex{b: b, p: e + 9}
		q.ws()
		if !bytes.HasPrefix(b[q.p:], []byte("endobj")) {
			return nil, fmt.Errorf("object %d: no endobj after endstream", s.n)
		}
		d.Objs[s.n] = &Stream{D: dd, Raw: append([]byte{}, b[p:end]...)}
		d.Span[s.n] = [2]int{d.Span[s.n][0], q.p + 6}
	}
	// objects must not overlap one another or the xref table
	sort.Slice(order, func(i, j int) bool { return d.Span[order[i]][0] < d.Span[order[j]][0] })
	for i := 1; i < len(order); i++ {
		if d.Span[order[i]][0] < d.Span[order[i-1]][1] {
			return nil, fmt.Errorf("objects %d and %d overlap", order[i-1], order[i])
		}
	}
	if len(order) > 0 && d.Span[order[len(order)-1]][1] > xrefStart && d.Span[order[len(order)-1]][0] < xrefStart {
		return nil, fmt.Errorf("object %d overlaps the xref table", order[len(order)-1])
	}
	root, ok := td.Get("Root").(Ref)
	if !ok {
		return nil, errors.New("trailer /Root is not a reference")
	}
	if eo := td.Get("Encrypt"); eo != nil {
		if err := d.setupEncrypt(eo, pw); err != nil {
			return d, err
		}
	}
	rd := d.Dict(root)
	if rd == nil {
		return nil, errors.New("/Root does not resolve to a dictionary")
	}
	if rd.Get("Type") != Obj(Name("Catalog")) {
		return nil, fmt.Errorf("/Root object is not a /Catalog (Type %v)", Show(rd.Get("Type")))
	}
	return d, nil
}

func clip(b []byte, n int) []byte {
	if len(b) > n {
		return b[:n]
	}
	return b
}

func xrefLine(e []byte) bool {
	for i := 0; i < 10; i++ {
		if e[i] < '0' || e[i] > '9' {
			return false
		}
	}
	if e[10] != ' ' || e[16] != ' ' {
		return false
	}
	for i := 11; i < 16; i++ {
		if e[i] < '0' || e[i] > '9' {
			return false
		}
	}
	if e[17] != 'n' && e[17] != 'f' {
		return false
	}
	t := string(e[18:20])
	return t == " \n" || t == " \r" || t == "\r\n"
}

// ---------------------------------------------------------------- encryption (Standard handler, R2, 40 bit)

var padStr = []byte{0x28, 0xBF, 0x4E, 0x5E, 0x4E, 0x75, 0x8A, 0x41, 0x64, 0x00, 0x4E, 0x56, 0xFF, 0xFA, 0x01, 0x08,
	0x2E, 0x2E, 0x00, 0xB6, 0xD0, 0x68, 0x3E, 0x80, 0x2F, 0x0C, 0xA9, 0xFE, 0x64, 0x53, 0x69, 0x7A}

func padPW(p []byte) []byte {
	o := append([]byte{}, p...)
	o = append(o, padStr...)
	return o[:32]
}
func RC4(key, data []byte) []byte {
	c, err := rc4.NewCipher(key)
	if err != nil {
		return nil
	}
	o := make([]byte, len(data))
	c.XORKeyStream(o, data)
	return o
}

var ErrPassword = errors.New("password does not open the document")

// P returns the permission integer as stored.
func (d *Doc) P() (int64, bool) {
	n, ok := d.Encrypt.Get("P").(Num)
	return int64(n.V), ok && n.Int
}

func (d *Doc) fileKey(pw []byte) []byte {
	O, _ := d.Encrypt.Get("O").(Str)
	P, _ := d.P()
	h := md5.New()
	h.Write(padPW(pw))
	h.Write(O)
	p := uint32(int32(P))
	h.Write([]byte{byte(p), byte(p >> 8), byte(p >> 16), byte(p >> 24)})
	if id, ok := d.Resolve(d.Trailer.Get("ID")).(Arr); ok && len(id) > 0 {
		if s, ok := id[0].(Str); ok {
			h.Write(s)
		}
	}
	return h.Sum(nil)[:5]
}

// UserOK reports whether pw is the user password.
func (d *Doc) UserOK(pw []byte) ([]byte, bool) {
	U, _ := d.Encrypt.Get("U").(Str)
	k := d.fileKey(pw)
	return k, bytes.Equal(RC4(k, padStr), U)
}

// OwnerOK reports whether pw is the owner password; it returns the file key.
func (d *Doc) OwnerOK(pw []byte) ([]byte, bool) {
	O, _ := d.Encrypt.Get("O").(Str)
	s := md5.Sum(padPW(pw))
	up := RC4(s[:5], O)
	return d.UserOK(up)
}

func (d *Doc) setupEncrypt(eo Obj, pw []byte) error {
	if r, ok := eo.(Ref); ok {
		d.EncNum = r.N
	}
	e := d.Dict(eo)
	if e == nil {
		return errors.New("/Encrypt does not resolve to a dictionary")
	}
	d.Encrypt = e
	if e.Get("Filter") != Obj(Name("Standard")) {
		return errors.New("/Encrypt /Filter is not /Standard")
	}
	v, _ := e.Get("V").(Num)
	r, _ := e.Get("R").(Num)
	if v.V != 1 || r.V != 2 {
		return fmt.Errorf("/Encrypt V %v R %v (expected 1 and 2)", v.V, r.V)
	}
	O, _ := e.Get("O").(Str)
	U, _ := e.Get("U").(Str)
	if len(O) != 32 || len(U) != 32 {
		return fmt.Errorf("/Encrypt O/U have %d/%d bytes, must be 32", len(O), len(U))
	}
	if _, ok := d.P(); !ok {
		return errors.New("/Encrypt /P is not an integer")
	}
	if p, _ := d.P(); p < -(1<<31) || p > 1<<31-1 {
		return errors.New("/Encrypt /P is not a 32-bit integer")
	}
	k, ok := d.UserOK(pw)
	if !ok {
		k, ok = d.OwnerOK(pw)
	}
	if !ok {
		return ErrPassword
	}
	d.Key = k
	for n, o := range d.Objs {
		if n == d.EncNum {
			continue
		}
		d.Objs[n] = d.decryptObj(n, d.X[n].Gen, o)
	}
	return nil
}

func (d *Doc) objKey(n, g int) []byte {
	b := append([]byte{}, d.Key...)
	b = append(b, byte(n), byte(n>>8), byte(n>>16), byte(g), byte(g>>8))
	s := md5.Sum(b)
	return s[:10]
}

// KeepStrings, when set, leaves strings undecrypted (used to describe the known
// limitation separately from stream encryption).
var KeepStrings = false

func (d *Doc) decryptObj(n, g int, o Obj) Obj {
	switch v := o.(type) {
	case Str:
		if KeepStrings {
			return v
		}
		return Str(RC4(d.objKey(n, g), v))
	case Arr:
		a := make(Arr, len(v))
		for i := range v {
			a[i] = d.decryptObj(n, g, v[i])
		}
		return a
	case *Dict:
		nd := &Dict{Keys: v.Keys, M: map[string]Obj{}}
		for k, x := range v.M {
			nd.M[k] = d.decryptObj(n, g, x)
		}
		return nd
	case *Stream:
		return &Stream{D: d.decryptObj(n, g, v.D).(*Dict), Raw: RC4(d.objKey(n, g), v.Raw)}
	}
	return o
}

// ---------------------------------------------------------------- streams

// Data returns the decoded bytes of a stream.
func (d *Doc) Data(s *Stream) ([]byte, error) {
	f := d.Resolve(s.D.Get("Filter"))
	var fs []Name
	switch v := f.(type) {
	case nil:
	case Name:
		fs = []Name{v}
	case Arr:
		for _, x := range v {
			n, ok := d.Resolve(x).(Name)
			if !ok {
				return nil, errors.New("filter is not a name")
			}
			fs = append(fs, n)
		}
	default:
		return nil, errors.New("bad /Filter")
	}
	b := s.Raw
	for i, n := range fs {
		switch n {
		case "FlateDecode", "Fl":
			o, err := Inflate(b)
			if err != nil {
				return nil, fmt.Errorf("FlateDecode: %v", err)
			}
			b = o
			if s.D.Get("Subtype") != Obj(Name("Image")) { // image rows are decoded with the samples
				if b, err = d.predict(b, s, i); err != nil {
					return nil, err
				}
			}
		case "ASCIIHexDecode", "AHx":
			var o []byte
			hi, half := byte(0), false
			for _, c := range b {
				v := strings.IndexByte("0123456789abcdef", c|0x20)
				if c == '>' {
					break
				}
				if c >= '0' && c <= '9' {
					v = int(c - '0')
				}
				if v < 0 {
					if c <= ' ' {
						continue
					}
					return nil, fmt.Errorf("ASCIIHexDecode: bad byte %q", c)
				}
				if half {
					o = append(o, hi<<4|byte(v))
				}
				hi, half = byte(v), !half
			}
			if half {
				o = append(o, hi<<4)
			}
			b = o
		default:
			return nil, fmt.Errorf("unsupported filter %s", n)
		}
	}
	return b, nil
}

// predict undoes the PNG predictor given in the parameters of the i-th filter.
func (d *Doc) predict(b []byte, s *Stream, i int) ([]byte, error) {
	dp := d.Resolve(s.D.Get("DecodeParms"))
	if a, ok := dp.(Arr); ok {
		if dp = nil; i < len(a) {
			dp = d.Resolve(a[i])
		}
	}
	m, _ := dp.(*Dict)
	if m == nil {
		return b, nil
	}
	if n, _ := d.Num(m.Get("Predictor")); n < 10 {
		return b, nil
	}
	col := 1
	if n, ok := d.Num(m.Get("Columns")); ok {
		col = int(n)
	}
	var o []byte
	prev := make([]byte, col)
	for len(b) > 0 {
		if len(b) < 2 {
			return nil, errors.New("predictor: short row")
		}
		t, row := b[0], append([]byte{}, b[1:min(len(b), col+1)]...)
		b = b[1+len(row):]
		for k := range row {
			switch t {
			case 0:
			case 2:
				row[k] += prev[k]
			case 1:
				if k > 0 {
					row[k] += row[k-1]
				}
			default:
				return nil, errors.New("predictor: unsupported row")
			}
		}
		o = append(o, row...)
		prev = append(row, make([]byte, col-len(row))...)
	}
	return o, nil
}

func Inflate(b []byte) ([]byte, error) {
	r, err := zlib.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	o, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	return o, nil
}

// ---------------------------------------------------------------- pages

type Page struct {
	Ref       Ref
	D         *Dict
	MediaBox  []float64
	Resources *Dict
	Rotate    float64
	CropBox   []float64
	Chain     []*Dict // page, parent, ...
}

func (d *Doc) Inherit(p *Page, key string) Obj {
	for _, x := range p.Chain {
		if v := d.Resolve(x.Get(key)); v != nil {
			return v
		}
	}
	return nil
}

// Pages walks the page tree strictly.
func (d *Doc) Pages() ([]*Page, error) {
	rd := d.Dict(d.Trailer.Get("Root"))
	pr, ok := rd.Get("Pages").(Ref)
	if !ok {
		return nil, errors.New("catalog /Pages is not a reference")
	}
	var out []*Page
	seen := map[int]bool{}
	var walk func(r Ref, parent *Ref, chain []*Dict) (int, error)
	walk = func(r Ref, parent *Ref, chain []*Dict) (int, error) {
		if seen[r.N] {
			return 0, fmt.Errorf("page tree node %d appears twice", r.N)
		}
		seen[r.N] = true
		nd, ok := d.Objs[r.N].(*Dict)
		if !ok {
			return 0, fmt.Errorf("page tree node %d is not a dictionary", r.N)
		}
		if parent != nil {
			pp, ok := nd.Get("Parent").(Ref)
			if !ok || pp != *parent {
				return 0, fmt.Errorf("page tree node %d has /Parent %v, its parent is %d", r.N, Show(nd.Get("Parent")), parent.N)
			}
		} else if nd.Has("Parent") {
			return 0, fmt.Errorf("page tree root %d has a /Parent", r.N)
		}
		ch := append([]*Dict{nd}, chain...)
		switch nd.Get("Type") {
		case Obj(Name("Pages")):
			kids, ok := d.Resolve(nd.Get("Kids")).(Arr)
			if !ok {
				return 0, fmt.Errorf("pages node %d has no /Kids array", r.N)
			}
			tot := 0
			for _, k := range kids {
				kr, ok := k.(Ref)
				if !ok {
					return 0, fmt.Errorf("pages node %d has a kid that is not a reference", r.N)
				}
				c, err := walk(kr, &r, ch)
				if err != nil {
					return 0, err
				}
				tot += c
			}
			cn, ok := d.Resolve(nd.Get("Count")).(Num)
			if !ok || !cn.Int || int(cn.V) != tot {
				return 0, fmt.Errorf("pages node %d has /Count %v but %d pages", r.N, Show(nd.Get("Count")), tot)
			}
			return tot, nil
		case Obj(Name("Page")):
			p := &Page{Ref: r, D: nd, Chain: ch}
			mb, ok := d.Inherit(p, "MediaBox").(Arr)
			if !ok || len(mb) != 4 {
				return 0, fmt.Errorf("page %d has no MediaBox", r.N)
			}
			for _, x := range mb {
				v, ok := d.Num(x)
				if !ok {
					return 0, fmt.Errorf("page %d MediaBox not numeric", r.N)
				}
				p.MediaBox = append(p.MediaBox, v)
			}
			p.Resources, _ = d.Inherit(p, "Resources").(*Dict)
			if n, ok := d.Inherit(p, "Rotate").(Num); ok {
				p.Rotate = n.V
			}
			if cb, ok := d.Inherit(p, "CropBox").(Arr); ok {
				for _, x := range cb {
					v, _ := d.Num(x)
					p.CropBox = append(p.CropBox, v)
				}
			}
			out = append(out, p)
			return 1, nil
		}
		return 0, fmt.Errorf("page tree node %d has /Type %v", r.N, Show(nd.Get("Type")))
	}
	if _, err := walk(pr, nil, nil); err != nil {
		return nil, err
	}
	return out, nil
}

// ContentBytes concatenates a page's content streams.
func (d *Doc) ContentBytes(p *Page) ([]byte, error) {
	c := p.D.Get("Contents")
	if c == nil {
		return nil, nil
	}
	switch v := d.Resolve(c).(type) {
	case *Stream:
		if _, ok := c.(Ref); !ok {
			return nil, errors.New("Contents stream is not indirect")
		}
		return d.Data(v)
	case Arr:
		var out []byte
		for _, x := range v {
			s, ok := d.Resolve(x).(*Stream)
			if !ok {
				return nil, fmt.Errorf("Contents array element %v is not a stream", Show(x))
			}
			b, err := d.Data(s)
			if err != nil {
				return nil, err
			}
			out = append(out, b...)
			out = append(out, '\n')
		}
		return out, nil
	case nil:
		return nil, nil
	}
	return nil, fmt.Errorf("Contents is neither stream nor array: %v", Show(c))
}

// CheckRefs walks everything reachable from the trailer and reports references
// that do not resolve to a defined object.
func (d *Doc) CheckRefs() error {
	seen := map[int]bool{}
	var bad error
	var walk func(o Obj, path string)
	walk = func(o Obj, path string) {
		if bad != nil {
			return
		}
		switch v := o.(type) {
		case Ref:
			if seen[v.N] {
				return
			}
			seen[v.N] = true
			if v.N <= 0 || v.N >= len(d.X) || d.X[v.N].Free {
				bad = fmt.Errorf("%s refers to object %d which is not defined", path, v.N)
				return
			}
			if d.X[v.N].Gen != v.G {
				bad = fmt.Errorf("%s refers to %d %d R, object has generation %d", path, v.N, v.G, d.X[v.N].Gen)
				return
			}
			walk(d.Objs[v.N], fmt.Sprintf("%s>%d", path, v.N))
		case Arr:
			for i, x := range v {
				walk(x, fmt.Sprintf("%s[%d]", path, i))
			}
		case *Dict:
			for _, k := range v.Keys {
				walk(v.M[k], path+"/"+k)
			}
		case *Stream:
			walk(v.D, path)
		}
	}
	walk(d.Trailer, "trailer")
	return bad
}

// ---------------------------------------------------------------- comparison

// EqualOpt compares two object graphs.  skip tells which dictionary keys to
// ignore for a pair (given the path of keys from the root of the comparison).
type Cmp struct {
	A, B *Doc
	Skip func(path string, key string) bool
	seen map[[2]int]bool
}

func (c *Cmp) Equal(a, b Obj, path string) error {
	if c.seen == nil {
		c.seen = map[[2]int]bool{}
	}
	ra, oka := a.(Ref)
	rb, okb := b.(Ref)
	if oka && okb {
		k := [2]int{ra.N, rb.N}
		if c.seen[k] {
			return nil
		}
		c.seen[k] = true
	}
	a = c.A.Resolve(a)
	b = c.B.Resolve(b)
	switch x := a.(type) {
	case nil:
		if b != nil {
			return fmt.Errorf("%s: null became %s", path, Show(b))
		}
	case bool:
		if y, ok := b.(bool); !ok || x != y {
			return fmt.Errorf("%s: %v became %s", path, x, Show(b))
		}
	case Num:
		if y, ok := b.(Num); !ok || x.V != y.V {
			return fmt.Errorf("%s: %v became %s", path, x.V, Show(b))
		}
	case Str:
		if y, ok := b.(Str); !ok || !bytes.Equal(x, y) {
			return fmt.Errorf("%s: string %q became %s", path, string(x), Show(b))
		}
	case Name:
		if y, ok := b.(Name); !ok || x != y {
			return fmt.Errorf("%s: /%s became %s", path, x, Show(b))
		}
	case Arr:
		y, ok := b.(Arr)
		if !ok || len(x) != len(y) {
			return fmt.Errorf("%s: array %s became %s", path, Show(a), Show(b))
		}
		for i := range x {
			if err := c.Equal(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); err != nil {
				return err
			}
		}
	case *Dict:
		y, ok := b.(*Dict)
		if !ok {
			return fmt.Errorf("%s: dictionary became %s", path, Show(b))
		}
		return c.dicts(x, y, path, nil)
	case *Stream:
		y, ok := b.(*Stream)
		if !ok {
			return fmt.Errorf("%s: stream became %s", path, Show(b))
		}
		if bytes.Equal(x.Raw, y.Raw) {
			return c.dicts(x.D, y.D, path, map[string]bool{"Length": true})
		}
		dx, e1 := c.A.Data(x)
		dy, e2 := c.B.Data(y)
		if e1 != nil || e2 != nil || !bytes.Equal(dx, dy) {
			return fmt.Errorf("%s: stream data differs (%d vs %d bytes)", path, len(dx), len(dy))
		}
		return c.dicts(x.D, y.D, path, map[string]bool{"Length": true, "Filter": true, "DecodeParms": true})
	}
	return nil
}

func (c *Cmp) dicts(x, y *Dict, path string, ign map[string]bool) error {
	skip := func(k string) bool { // what page dictionaries hold is compared page by page
		if c.Skip == nil {
			return false
		}
		if n, ok := c.A.Resolve(x.Get("Type")).(Name); ok && (n == "Page" || n == "Pages") {
			return c.Skip(path, k)
		}
		return false
	}
	for _, k := range x.Keys {
		if ign[k] || skip(k) {
			continue
		}
		if !y.Has(k) {
			if c.A.Resolve(x.M[k]) == nil {
				continue
			}
			return fmt.Errorf("%s: key /%s lost", path, k)
		}
		if err := c.Equal(x.M[k], y.M[k], path+"/"+k); err != nil {
			return err
		}
	}
	for _, k := range y.Keys {
		if ign[k] || skip(k) {
			continue
		}
		if !x.Has(k) {
			return fmt.Errorf("%s: key /%s appeared", path, k)
		}
	}
	return nil
}

// Show renders an object briefly.
func Show(o Obj) string {
	switch v := o.(type) {
	case nil:
		return "null"
	case Ref:
		return fmt.Sprintf("%d %d R", v.N, v.G)
	case Name:
		return "/" + string(v)
	case Num:
		return strconv.FormatFloat(v.V, 'f', -1, 64)
	case Str:
		return fmt.Sprintf("(%q)", clip(v, 40))
	case Arr:
		var s []string
		for i, x := range v {
			if i > 8 {
				s = append(s, "...")
				break
			}
			s = append(s, Show(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *Dict:
		return "<<" + strings.Join(v.Keys, " ") + ">>"
	case *Stream:
		return fmt.Sprintf("stream(%d)", len(v.Raw))
	}
	return fmt.Sprint(o)
}
