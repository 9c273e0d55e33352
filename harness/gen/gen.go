// Package gen serialises template PDFs from a structural description in many
// equivalent and non-equivalent layouts.
package gen

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"sort"
	"strings"
)

type Page struct {
	Box     string // "0 0 200 300"; "" = not given
	BoxRef  bool
	Streams []string // content stream pieces; nil = no /Contents
	Arr     bool     // /Contents as an array
	ArrRef  bool     // /Contents as a reference to an array object
	Zip     bool
	LenRef  bool
	Res     string   // own, ref, share:<key>, none (inherit)
	Fonts   []string // resource names
	FontAt  string   // inline, ref, none
	XObjs   []string
	XAt     string // inline, ref, none
	Annots  bool
	Rotate  int
	Extra   string // raw extra entries for the page dictionary
	ResXtra string // raw extra entries for the resource dictionary
	FiltArr bool   // /Filter [/FlateDecode]
	StreamX string // extra entries in the stream dict
	ContKey string // pages with the same key share their content stream objects (and the array object)
	Repeat  bool   // /Contents names its first stream twice
	Enc     string // hex, hexzip, pred: further encodings of the content
}

type Node struct {
	Kids []*Node
	P    *Page
	// attributes of intermediate nodes
	Box   string
	Extra string // raw extra entries, as those of Page
	Res   *Page  // resources given on this node (Fonts/XObjs/FontAt/XAt/Res own|ref)
}

// Extra is an object besides the pages.
type Extra struct {
	Raw  string // serialised object (a dictionary for streams, without /Length)
	Data []byte // nil: no stream
}

type Template struct {
	Root   *Node
	Style  int    // 0 pretty, 1 compact, 2 CRLF and tabs, 3 CR
	Order  string // "", "reverse", "shuffle"
	Gaps   int    // number of free entries interspersed
	Base   int    // ids start after Base
	XEOL   string // xref line end: " \n" (default), "\r\n", " \r"
	Info   bool
	Header string
	IDs    string // "", "rev": object numbers assigned in reverse, "rot5": beginning with the sixth
	NoEOL  bool   // stream data directly followed by endstream
	Tail   string
	RootX  string
	KidsNL bool
	Objs   []Extra // further objects; strings may refer to them (@o0@), to pages (@p1@) and to the root of the page tree (@t@)
	RefSep string  // between the words of a reference (default one space)
	HdrSep string  // between the words of an object header (default one space)
	ObjEOL string  // between obj and the object (default the end of line; "-" for nothing before a dictionary)
	StrEOL string  // between the dictionary and the word stream (default the end of line; "-" for nothing)
	KeyRev bool    // entries of dictionaries in reverse order
	WS     *WS     // white space of each kind, instead of a style
}

// WS gives the white space between tokens.
type WS struct {
	DOpen, DKey, DEnd, DClose string // behind <<, behind a key, behind a value, before >>
	AOpen, ASep, AClose       string // behind [, between elements, before ]
	End                       string // before endobj
}

func delim(s string) bool { return s != "" && strings.IndexByte("/<[(", s[0]) >= 0 }

type obj struct {
	id   int
	dict string // serialised (without stream)
	data []byte
	strm bool
	raw  bool
}

type builder struct {
	t      *Template
	objs   []*obj
	shared map[string]*obj
	nfont  int
	nx     int
	fonts  map[string]*obj
	xs     map[string]*obj
	pages  []*obj
	extra  []*obj
	tree   *obj
	conts  map[string][]*obj
}

func (b *builder) new() *obj {
	o := &obj{id: len(b.objs)}
	b.objs = append(b.objs, o)
	return o
}

// symbolic reference, replaced when numbers are known
func ref(o *obj) string { return fmt.Sprintf("\x01%d\x02", o.id) }

// d builds a dictionary from alternating key, value.
func (b *builder) d(kv ...string) string {
	var s strings.Builder
	if b.t.KeyRev {
		n := len(kv)
		o := make([]string, 0, n)
		for i := n - 2; i >= 0; i -= 2 {
			o = append(o, kv[i], kv[i+1])
		}
		kv = o
	}
	if w := b.t.WS; w != nil {
		s.WriteString("<<" + w.DOpen)
		for i := 0; i < len(kv); i += 2 {
			k := w.DKey
			if k == "" && !delim(kv[i+1]) {
				k = " "
			}
			s.WriteString("/" + kv[i] + k + kv[i+1])
			if i+2 < len(kv) {
				s.WriteString(w.DEnd)
			}
		}
		s.WriteString(w.DClose + ">>")
		return s.String()
	}
	switch b.t.Style {
	case 1:
		s.WriteString("<<")
		for i := 0; i < len(kv); i += 2 {
			s.WriteString("/" + kv[i])
			if c := kv[i+1][0]; c != '/' && c != '<' && c != '[' && c != '(' {
				s.WriteString(" ")
			}
			s.WriteString(kv[i+1])
		}
		s.WriteString(">>")
	case 2:
		s.WriteString("<<\r\n")
		for i := 0; i < len(kv); i += 2 {
			s.WriteString("\t/" + kv[i] + "  " + kv[i+1] + "\r\n")
		}
		s.WriteString(">>")
	case 3:
		s.WriteString("<< ")
		for i := 0; i < len(kv); i += 2 {
			s.WriteString("/" + kv[i] + " " + kv[i+1] + "\r")
		}
		s.WriteString(" >>")
	default:
		s.WriteString("<<\n")
		for i := 0; i < len(kv); i += 2 {
			s.WriteString("/" + kv[i] + " " + kv[i+1] + "\n")
		}
		s.WriteString(">>")
	}
	return s.String()
}

func (b *builder) arr(xs []string) string {
	if w := b.t.WS; w != nil {
		o := "[" + w.AOpen
		for i, x := range xs {
			if i > 0 {
				if w.ASep == "" && !delim(x) {
					o += " "
				} else {
					o += w.ASep
				}
			}
			o += x
		}
		return o + w.AClose + "]"
	}
	switch b.t.Style {
	case 2:
		return "[ " + strings.Join(xs, "\r\n ") + " ]"
	case 3:
		return "[ " + strings.Join(xs, " ") + " ]"
	}
	return "[" + strings.Join(xs, " ") + "]"
}

func (b *builder) font(name string, key string) *obj {
	if o, ok := b.fonts[key]; ok {
		return o
	}
	o := b.new()
	b.fonts[key] = o
	var w []string
	for i := 32; i < 127; i++ {
		w = append(w, fmt.Sprint(400+(i*7+b.nfont*13)%300))
	}
	b.nfont++
	o.dict = b.d("Type", "/Font", "Subtype", "/Type1", "BaseFont", fmt.Sprintf("/Tmpl%d", b.nfont), "FirstChar", "32", "LastChar", "126", "Widths", b.arr(w))
	return o
}

func (b *builder) xobj(key string) *obj {
	if o, ok := b.xs[key]; ok {
		return o
	}
	o := b.new()
	b.xs[key] = o
	b.nx++
	o.strm = true
	o.data = []byte{byte(b.nx), byte(b.nx * 3), 0x0A}
	o.dict = b.d("Type", "/XObject", "Subtype", "/Image", "Width", "1", "Height", "1", "ColorSpace", "/DeviceRGB", "BitsPerComponent", "8", "Length", "3")
	return o
}

func (b *builder) resources(p *Page, scope string) string {
	var kv []string
	kv = append(kv, "ProcSet", b.arr([]string{"/PDF", "/Text", "/ImageC"}))
	sub := func(at, key string, names []string, mk func(n string) *obj) {
		if at == "none" || (at == "" && len(names) == 0) {
			return
		}
		var e []string
		for _, n := range names {
			e = append(e, n, ref(mk(n)))
		}
		v := b.d(e...)
		if at == "ref" {
			o := b.new()
			o.dict = v
			v = ref(o)
		}
		kv = append(kv, key, v)
	}
	sub(p.FontAt, "Font", p.Fonts, func(n string) *obj { return b.font(n, scope+n) })
	sub(p.XAt, "XObject", p.XObjs, func(n string) *obj { return b.xobj(scope + n) })
	if p.ResXtra != "" {
		for _, e := range strings.Split(p.ResXtra, ";") {
			i := strings.IndexByte(e, '=')
			kv = append(kv, e[:i], e[i+1:])
		}
	}
	return b.d(kv...)
}

func (b *builder) resEntry(p *Page, scope string) string {
	switch {
	case p.Res == "none" || p.Res == "":
		return ""
	case p.Res == "own":
		return b.resources(p, scope)
	case p.Res == "ref":
		o := b.new()
		o.dict = b.resources(p, scope)
		return ref(o)
	case strings.HasPrefix(p.Res, "share:"):
		if o, ok := b.shared[p.Res]; ok {
			return ref(o)
		}
		o := b.new()
		b.shared[p.Res] = o
		o.dict = b.resources(p, p.Res)
		return ref(o)
	}
	panic("gen: bad Res " + p.Res)
}

func Deflate(s []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(s)
	w.Close()
	return z.Bytes()
}

func (b *builder) stream(p *Page, content string) *obj {
	o := b.new()
	o.strm = true
	o.data = []byte(content)
	var kv []string
	if p.Zip {
		o.data = Deflate(o.data)
		if p.FiltArr {
			kv = append(kv, "Filter", b.arr([]string{"/FlateDecode"}))
		} else {
			kv = append(kv, "Filter", "/FlateDecode")
		}
	}
	switch p.Enc {
	case "hex":
		o.data = []byte(fmt.Sprintf("%x>", content))
		kv = append(kv, "Filter", "/ASCIIHexDecode")
	case "hexzip":
		o.data = []byte(fmt.Sprintf("%X>", Deflate([]byte(content))))
		kv = append(kv, "Filter", b.arr([]string{"/ASCIIHexDecode", "/FlateDecode"}))
	case "pred":
		const col = 7
		var rows []byte
		c := []byte(content)
		prev := make([]byte, col)
		for len(c) > 0 {
			n := min(col, len(c))
			rows = append(rows, 2)
			for k := 0; k < n; k++ {
				rows = append(rows, c[k]-prev[k])
			}
			copy(prev, c[:n])
			c = c[n:]
		}
		o.data = Deflate(rows)
		kv = append(kv, "Filter", "/FlateDecode", "DecodeParms", b.d("Predictor", "12", "Columns", "7"))
	}
	if p.LenRef {
		lo := b.new()
		lo.dict = fmt.Sprint(len(o.data))
		kv = append([]string{"Length", ref(lo)}, kv...)
	} else {
		kv = append(kv, "Length", fmt.Sprint(len(o.data)))
	}
	o.dict = b.d(kv...)
	return o
}

func (b *builder) node(n *Node, parent *obj, scope string) *obj {
	o := b.new()
	if n.P != nil {
		b.pages = append(b.pages, o)
		p := n.P
		kv := []string{"Type", "/Page", "Parent", ref(parent)}
		if p.Box != "" {
			if p.BoxRef {
				bo := b.new()
				bo.dict = "[" + p.Box + "]"
				kv = append(kv, "MediaBox", ref(bo))
			} else {
				kv = append(kv, "MediaBox", "["+p.Box+"]")
			}
		}
		if r := b.resEntry(p, scope); r != "" {
			kv = append(kv, "Resources", r)
		}
		if p.Streams != nil {
			var rs []string
			so := b.conts[p.ContKey]
			if p.ContKey == "" || so == nil {
				so = nil
				for _, s := range p.Streams {
					so = append(so, b.stream(p, s))
				}
				b.conts[p.ContKey] = so
			}
			for _, o := range so {
				rs = append(rs, ref(o))
			}
			if p.Repeat {
				rs = append([]string{rs[0]}, rs...)
			}
			switch {
			case p.ArrRef:
				ao := b.shared["arr:"+p.ContKey]
				if p.ContKey == "" || ao == nil {
					ao = b.new()
					ao.dict = b.arr(rs)
					b.shared["arr:"+p.ContKey] = ao
				}
				kv = append(kv, "Contents", ref(ao))
			case p.Arr || len(rs) > 1:
				kv = append(kv, "Contents", b.arr(rs))
			default:
				kv = append(kv, "Contents", rs[0])
			}
		}
		if p.Rotate != 0 {
			kv = append(kv, "Rotate", fmt.Sprint(p.Rotate))
		}
		if p.Annots {
			ao := b.new()
			ao.dict = b.d("Type", "/Annot", "Subtype", "/Link", "Rect", "[10 10 40 30]", "Border", "[0 0 1]",
				"A", b.d("S", "/URI", "URI", "(http://example.com/a\\)b)"), "P", ref(o))
			kv = append(kv, "Annots", "["+ref(ao)+"]")
		}
		if p.Extra != "" {
			for _, e := range strings.Split(p.Extra, ";") {
				i := strings.IndexByte(e, '=')
				kv = append(kv, e[:i], e[i+1:])
			}
		}
		o.dict = b.d(kv...)
		return o
	}
	var kids []string
	cnt := 0
	var count func(n *Node) int
	count = func(n *Node) int {
		if n.P != nil {
			return 1
		}
		c := 0
		for _, k := range n.Kids {
			c += count(k)
		}
		return c
	}
	for i, k := range n.Kids {
		kids = append(kids, ref(b.node(k, o, fmt.Sprintf("%s.%d", scope, i))))
		cnt += count(k)
	}
	kv := []string{"Type", "/Pages"}
	if parent != nil {
		kv = append(kv, "Parent", ref(parent))
	}
	kv = append(kv, "Kids", b.arr(kids), "Count", fmt.Sprint(cnt))
	if n.Box != "" {
		kv = append(kv, "MediaBox", "["+n.Box+"]")
	}
	if n.Res != nil {
		kv = append(kv, "Resources", b.resEntry(n.Res, scope+"*"))
	}
	if n.Extra != "" {
		for _, e := range strings.Split(n.Extra, ";") {
			i := strings.IndexByte(e, '=')
			kv = append(kv, e[:i], e[i+1:])
		}
	}
	o.dict = b.d(kv...)
	return o
}

// Bytes serialises the template.
func (t *Template) Bytes() []byte {
	b := &builder{t: t, shared: map[string]*obj{}, fonts: map[string]*obj{}, xs: map[string]*obj{}, conts: map[string][]*obj{}}
	cat := b.new()
	pages := b.node(t.Root, nil, "r")
	rx := []string{"Type", "/Catalog", "Pages", ref(pages)}
	if t.RootX != "" {
		for _, e := range strings.Split(t.RootX, ";") {
			i := strings.IndexByte(e, '=')
			rx = append(rx, e[:i], e[i+1:])
		}
	}
	cat.dict = b.d(rx...)
	var info *obj
	if t.Info {
		info = b.new()
		info.dict = b.d("Title", "(Template \\(x\\))", "Producer", "(gen)")
	}
	b.tree = pages
	for _, e := range t.Objs {
		o := b.new()
		o.dict = e.Raw
		if e.Data != nil {
			o.strm, o.data = true, e.Data
			o.dict = strings.TrimSuffix(strings.TrimSpace(e.Raw), ">>") + fmt.Sprintf("/Length %d>>", len(e.Data))
		}
		b.extra = append(b.extra, o)
	}
	// number assignment
	n := len(b.objs)
	num := make([]int, n)
	used := map[int]bool{}
	next := t.Base + 1
	for i := 0; i < n; i++ {
		k := i
		if t.IDs == "rev" {
			k = n - 1 - i
		}
		if rot := 0; strings.HasPrefix(t.IDs, "rot") { // any object comes first
			fmt.Sscan(t.IDs[3:], &rot)
			k = (i + rot) % n
		}
		if t.Gaps > 0 && i > 0 && i%2 == 0 && i/2 <= t.Gaps {
			next++
		}
		num[k] = next
		used[next] = true
		next++
	}
	sub := func(s string) string {
		if strings.Contains(s, "@") {
			for i, o := range b.extra {
				s = strings.ReplaceAll(s, fmt.Sprintf("@o%d@", i), ref(o))
			}
			for i, o := range b.pages {
				s = strings.ReplaceAll(s, fmt.Sprintf("@p%d@", i+1), ref(o))
			}
			s = strings.ReplaceAll(s, "@t@", ref(b.tree))
		}
		if strings.IndexByte(s, 1) < 0 {
			return s
		}
		var o strings.Builder
		for i := 0; i < len(s); i++ {
			if s[i] == 1 {
				j := strings.IndexByte(s[i:], 2) + i
				var k int
				fmt.Sscan(s[i+1:j], &k)
				rs := t.RefSep
				if rs == "" {
					rs = " "
				}
				fmt.Fprintf(&o, "%d%s0%sR", num[k], rs, rs)
				i = j
				continue
			}
			o.WriteByte(s[i])
		}
		return o.String()
	}
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	switch t.Order {
	case "reverse":
		sort.Sort(sort.Reverse(sort.IntSlice(order)))
	case "shuffle":
		sort.Slice(order, func(i, j int) bool { return (order[i]*7+3)%(n+1)*1000+order[i] < (order[j]*7+3)%(n+1)*1000+order[j] })
	}
	eol := "\n"
	if t.Style == 2 {
		eol = "\r\n"
	} else if t.Style == 3 {
		eol = "\r"
	}
	var out bytes.Buffer
	if t.Header == "" {
		t.Header = "%PDF-1.4"
	}
	out.WriteString(t.Header + eol + "%\xE2\xE3\xCF\xD3" + eol)
	off := map[int]int{}
	for _, k := range order {
		o := b.objs[k]
		off[num[k]] = out.Len()
		hs, oe, se := t.HdrSep, t.ObjEOL, t.StrEOL
		if hs == "" {
			hs = " "
		}
		if oe == "" || (oe == "-" && !strings.HasPrefix(o.dict, "<<")) {
			oe = eol
		}
		if se == "" {
			se = eol
		}
		oe, se = strings.TrimPrefix(oe, "-"), strings.TrimPrefix(se, "-")
		fmt.Fprintf(&out, "%d%s0%sobj%s", num[k], hs, hs, oe)
		out.WriteString(sub(o.dict))
		if o.strm {
			seol := eol
			if seol == "\r" {
				seol = "\r\n"
			}
			out.WriteString(se + "stream" + seol)
			out.Write(o.data)
			if !t.NoEOL {
				out.WriteString(eol)
			}
			out.WriteString("endstream")
		}
		end := eol
		if t.WS != nil {
			end = t.WS.End
			if end == "" && (o.strm || !strings.HasSuffix(o.dict, ">>")) {
				end = " "
			}
		}
		out.WriteString(end + "endobj" + eol)
	}
	xo := out.Len()
	size := next
	xe := t.XEOL
	if xe == "" {
		xe = " \n"
	}
	fmt.Fprintf(&out, "xref%s0 %d%s", eol, size, eol)
	var free []int
	for i := 1; i < size; i++ {
		if !used[i] {
			free = append(free, i)
		}
	}
	nextFree := func(i int) int {
		for _, f := range free {
			if f > i {
				return f
			}
		}
		return 0
	}
	for i := 0; i < size; i++ {
		if i == 0 {
			fmt.Fprintf(&out, "%010d 65535 f%s", nextFree(0), xe)
		} else if !used[i] {
			fmt.Fprintf(&out, "%010d 00001 f%s", nextFree(i), xe)
		} else {
			fmt.Fprintf(&out, "%010d 00000 n%s", off[i], xe)
		}
	}
	tr := []string{"Size", fmt.Sprint(size), "Root", ref(cat)}
	if info != nil {
		tr = append(tr, "Info", ref(info))
	}
	fmt.Fprintf(&out, "trailer%s%s%sstartxref%s%d%s%%%%EOF%s", eol, sub(b.d(tr...)), eol, eol, xo, eol, t.Tail)
	return out.Bytes()
}

// Content returns an identifiable page content.
func Content(k int, font, xobj string) string {
	s := fmt.Sprintf("q 0.2 0.4 0.%d rg %d 10 50 20 re f Q\n", k%10, 10+k)
	if font != "" {
		s += fmt.Sprintf("BT /%s 12 Tf 30 %d Td (Page \\(%d\\) x/y) Tj ET\n", font, 40+k, k)
	}
	if xobj != "" {
		s += fmt.Sprintf("q 10 0 0 10 %d 5 cm /%s Do Q\n", 5+k, xobj)
	}
	return s
}

// Simple builds a page with fonts F1 and optionally an image.
func Simple(k int, box string) *Page {
	return &Page{Box: box, Streams: []string{Content(k, "F1", "")}, Res: "own", Fonts: []string{"F1"}, FontAt: "inline"}
}

// Flat builds a one-level tree.
func Flat(ps ...*Page) *Node {
	n := &Node{}
	for _, p := range ps {
		n.Kids = append(n.Kids, &Node{P: p})
	}
	return n
}
