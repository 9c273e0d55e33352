package checks

import (
	"bytes"
	"compress/zlib"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/signintech/pdft/minigopdf/fontmaker/core"

	"verif/mc"
	"verif/ttfx"
)

// C21: the font maker. Every case makes the definition of one font for one code
// page; the definitions are compiled together in one program that prints what
// they say through the interface IFont, which is compared with the font and the
// map the case was generated from.

func init() { All["C21"] = c21 }

// fmMap is a code page: names and characters of its 256 codes.
type fmMap map[int]fmEnt
type fmEnt struct {
	Uv   int
	Name string
}

func (m fmMap) file() []byte { return m.layout(0) }

func (m fmMap) layout(k int) []byte {
	var b bytes.Buffer
	f := []string{"!%02X U+%04X %s\n", "!%02X U+%04X %s\r\n", "!%02X U+%04X %s\n", "!%02X U+%04X %s\n\n", "!%02x U+%06x %s \n"}[k]
	for c := 0; c < 256; c++ {
		if e, ok := m[c]; ok {
			fmt.Fprintf(&b, f, c, e.Uv, e.Name)
		}
	}
	if k == 2 {
		return bytes.TrimSuffix(b.Bytes(), []byte("\n"))
	}
	return b.Bytes()
}

func (m fmMap) name(c int) string {
	if e, ok := m[c]; ok {
		return e.Name
	}
	return ".notdef"
}

// fmLatin is the reference code page of the cases.
func fmLatin() fmMap {
	m := fmMap{}
	for c := 32; c < 256; c++ {
		if c != 127 && c != 0x81 {
			m[c] = fmEnt{c, fmt.Sprintf("ref%03dx", c)}
		}
	}
	return m
}

func (m fmMap) with(ents ...interface{}) fmMap { // code, uv, name triples; name "" takes the code out
	n := fmMap{}
	for c, e := range m {
		n[c] = e
	}
	for i := 0; i < len(ents); i += 3 {
		if ents[i+2].(string) == "" {
			delete(n, ents[i].(int))
		} else {
			uv := 0
			switch v := ents[i+1].(type) {
			case int:
				uv = v
			case rune:
				uv = int(v)
			}
			n[ents[i].(int)] = fmEnt{uv, ents[i+2].(string)}
		}
	}
	return n
}

// fmCase is one call of MakeFont.
type fmCase struct {
	stratum, id string
	spec        ttfx.Spec
	file        string // name of the font file
	enc         string
	cp, ref     fmMap
	layout      int    // of the map files: 0 plain, 1 CRLF, 2 no last line end, 3 blank lines, 4 lower case digits, more of them and trailing spaces
	via         string // "api", "cmd", "again" (the maker made another font before)
	// results
	src     []byte
	z       []byte
	results []string
	err     error
	pkg     int
	info    *fmInfo
}

type fmInfo struct {
	Type, Name, Enc, Diff, Family string
	Up, Ut, Size                  int
	Desc                          [][2]string
	Cw                            map[string]int
}

func (c *fmCase) run(dir, cmd string) {
	c.err = mc.Guard(func() error {
		in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
		os.MkdirAll(in, 0755)
		os.MkdirAll(out, 0755)
		defer os.RemoveAll(dir)
		fp := filepath.Join(in, c.file)
		os.WriteFile(filepath.Join(in, "cp1252.map"), c.ref.layout(c.layout), 0644)
		os.WriteFile(filepath.Join(in, c.enc+".map"), c.cp.layout(c.layout), 0644)
		os.WriteFile(fp, ttfx.Build(c.spec), 0644)
		if c.via == "cmd" {
			o, err := exec.Command(cmd, c.enc, in, fp, out).CombinedOutput()
			if err != nil {
				return fmt.Errorf("%v: %s", err, o)
			}
			c.results = strings.Split(string(o), "\n")
		} else {
			fm := core.NewFontMaker()
			n := 0
			if c.via == "again" {
				other := filepath.Join(dir, "other")
				os.MkdirAll(other, 0755)
				os.WriteFile(filepath.Join(in, "first.ttf"), ttfx.Build(stdSpec(7, 512)), 0644)
				os.WriteFile(filepath.Join(in, "bad.ttf"), []byte("no font"), 0644)
				if err := fm.MakeFont(filepath.Join(in, "first.ttf"), in, "cp1252", other); err != nil {
					return fmt.Errorf("first font: %v", err)
				}
				if err := fm.MakeFont(filepath.Join(in, "bad.ttf"), in, "cp1252", other); err == nil {
					return fmt.Errorf("file that is no font is accepted")
				}
				n = len(fm.GetResults())
			}
			if err := fm.MakeFont(fp, in, c.enc, out); err != nil {
				return err
			}
			c.results = append([]string{}, fm.GetResults()[n:]...)
		}
		es, err := os.ReadDir(out)
		if err != nil {
			return err
		}
		// files are named after the font
		base := strings.ReplaceAll(strings.Split(c.file, ".")[0], " ", "_")
		for _, e := range es {
			if e.Name() != base+".z" && e.Name() != base+".font.go" {
				return fmt.Errorf("writes %s for %s", e.Name(), c.file)
			}
			said := false
			for _, l := range c.results {
				said = said || strings.Contains(l, filepath.Join(out, e.Name()))
			}
			if !said {
				return fmt.Errorf("does not report that it wrote %s", e.Name())
			}
			b, err := os.ReadFile(filepath.Join(out, e.Name()))
			if err != nil {
				return err
			}
			switch {
			case strings.HasSuffix(e.Name(), ".go") && c.src == nil:
				c.src = b
			case strings.HasSuffix(e.Name(), ".z") && c.z == nil:
				c.z = b
			default:
				return fmt.Errorf("writes %s", e.Name())
			}
		}
		if c.src == nil || c.z == nil {
			return fmt.Errorf("does not write the definition and the font: %d files", len(es))
		}
		return nil
	})
}

// check compares what the definition says with the font and the map.
func (c *fmCase) check() error {
	if c.err != nil {
		return c.err
	}
	font := ttfx.Build(c.spec)
	zr, err := zlib.NewReader(bytes.NewReader(c.z))
	if err != nil {
		return fmt.Errorf("stored font: %v", err)
	}
	if b, err := io.ReadAll(zr); err != nil || !bytes.Equal(b, font) {
		return fmt.Errorf("stored font is not the font (%d bytes for %d, %v)", len(b), len(font), err)
	}
	if c.info == nil {
		return fmt.Errorf("no definition")
	}
	in, s := c.info, c.spec
	upm := float64(s.UPM)
	near := func(what string, got, v int) error {
		x := float64(v) * 1000 / upm
		if math.Abs(float64(got)-x) > 0.5+1e-9 {
			return fmt.Errorf("%s is %d, in the font %d/%d", what, got, v, s.UPM)
		}
		return nil
	}
	nhm := s.NHM
	if nhm == 0 {
		nhm = len(s.Glyphs)
	}
	adv := func(g int) int {
		if g >= nhm {
			g = nhm - 1
		}
		return s.Glyphs[g].Adv
	}
	for code := 0; code < 256; code++ {
		w, ok := in.Cw[strconv.Itoa(code)]
		if !ok {
			return fmt.Errorf("code %d has no width", code)
		}
		g, missing := 0, false
		if e, ok := c.cp[code]; ok && e.Name != ".notdef" {
			g = s.Map[rune(e.Uv)]
			if e.Uv > 0xFFFF || e.Uv < 0 {
				g = 0
			}
			missing = g == 0
		}
		if err := near(fmt.Sprintf("width of code %d", code), w, adv(g)); err != nil {
			return err
		}
		told := 0
		for _, l := range c.results {
			if strings.Contains(l, " "+c.cp.name(code)+" ") {
				told++
			}
		}
		if strings.HasSuffix(c.cp.name(code), "x") && (told > 0) != missing {
			return fmt.Errorf("code %d (%s): missing %v, reported %v", code, c.cp.name(code), missing, told > 0)
		}
	}
	// differences
	enc := map[int]string{}
	for code := 0; code < 256; code++ {
		enc[code] = c.ref.name(code)
	}
	at := -1
	for _, t := range strings.Fields(strings.ReplaceAll(in.Diff, "/", " /")) {
		if t[0] == '/' {
			if at < 0 || at > 255 {
				return fmt.Errorf("differences %q: %s has no code", in.Diff, t)
			}
			enc[at] = t[1:]
			at++
		} else if at, err = strconv.Atoi(t); err != nil {
			return fmt.Errorf("differences %q: %v", in.Diff, err)
		}
	}
	for code := 0; code < 256; code++ {
		if enc[code] != c.cp.name(code) {
			return fmt.Errorf("differences %.200q: code %d is %s, in the code page %s", in.Diff, code, enc[code], c.cp.name(code))
		}
	}
	// font
	psName := strings.Map(func(r rune) rune { // a name has no white space and delimiters
		if strings.ContainsRune(" ()<>[]{}/%", r) {
			return -1
		}
		return r
	}, s.Name)
	if in.Name != psName || in.Type != "TrueType" || in.Enc != c.enc || in.Family != "fam" {
		return fmt.Errorf("definition says name %q type %q encoding %q family %q", in.Name, in.Type, in.Enc, in.Family)
	}
	if in.Size != len(font) {
		return fmt.Errorf("original size is %d, the font has %d bytes", in.Size, len(font))
	}
	flags := 32
	if s.Fixed {
		flags |= 1
	}
	if s.Italic != 0 {
		flags |= 64
	}
	stem := 70
	if s.Bold {
		stem = 120
	}
	desc := map[string]string{}
	for _, d := range in.Desc {
		if _, dup := desc[d[0]]; dup {
			return fmt.Errorf("descriptor has %s twice", d[0])
		}
		desc[d[0]] = d[1]
	}
	num := func(key string) int {
		v, e := strconv.Atoi(desc[key])
		if e != nil && err == nil {
			err = fmt.Errorf("%s of the descriptor is %q", key, desc[key])
		}
		return v
	}
	if f, a, v := num("Flags"), num("ItalicAngle"), num("StemV"); f != flags || a != s.Italic || v != stem {
		return fmt.Errorf("flags %d for %d, italic angle %d for %d, stem %d for %d", f, flags, a, s.Italic, v, stem)
	}
	var box [4]int
	if n, e := fmt.Sscanf(strings.NewReplacer("[", " ", "]", " ").Replace(desc["FontBBox"]), "%d %d %d %d", &box[0], &box[1], &box[2], &box[3]); n != 4 {
		return fmt.Errorf("FontBBox %q: %v", desc["FontBBox"], e)
	}
	for k, v := range []int{-30, -210, 1010, 930} {
		if err := near("FontBBox "+strconv.Itoa(k), box[k], v); err != nil {
			return err
		}
	}
	for _, e := range []error{
		near("underline position", in.Up, s.UPos), near("underline thickness", in.Ut, s.UThk),
		near("Ascent", num("Ascent"), s.TypoAsc), near("Descent", num("Descent"), s.TypoDesc),
		near("MissingWidth", num("MissingWidth"), adv(0)),
	} {
		if e != nil {
			return e
		}
	}
	if s.OS2V >= 2 {
		if e := near("CapHeight", num("CapHeight"), 690); e != nil {
			return e
		}
	} else if near("", num("CapHeight"), s.HAsc) != nil && near("", num("CapHeight"), s.TypoAsc) != nil {
		return fmt.Errorf("CapHeight is %q", desc["CapHeight"])
	}
	return err
}

// fmModule is the directory the library is built from.
func fmModule() string {
	if bi, ok := debug.ReadBuildInfo(); ok {
		for _, d := range bi.Deps {
			if d.Path == "github.com/signintech/pdft" && d.Replace != nil {
				return d.Replace.Path
			}
		}
	}
	return "/repo"
}

func fmGo(dir string, args ...string) (string, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off", "GOSUMDB=off")
	o, err := c.CombinedOutput()
	return string(o), err
}

const fmMod = "module defs\n\ngo 1.21\n\nrequire (\n\tgithub.com/signintech/pdft v0.0.0\n\tgithub.com/signintech/gopdf v0.0.0\n)\n\nreplace github.com/signintech/pdft => %s\n\nreplace github.com/signintech/gopdf => %s\n"
const fmStub = `package gopdf

import mini "github.com/signintech/pdft/minigopdf"

type FontCw = mini.FontCw
type FontDescItem = mini.FontDescItem
type IFont = mini.IFont

func Chr(n int) byte         { return mini.Chr(n) }
func ToByte(chr string) byte { return mini.ToByte(chr) }
`
const fmNew = `package %s

import iface "github.com/signintech/gopdf"

func VerifNew() iface.IFont { return new(%s) }
`
const fmMain = `
func main() {
	var out []map[string]interface{}
	for _, n := range news {
		f := n()
		f.Init()
		f.SetFamily("fam")
		cw := map[int]int{}
		for k, v := range f.GetCw() {
			cw[int(k)] = v
		}
		var desc [][2]string
		for _, d := range f.GetDesc() {
			desc = append(desc, [2]string{d.Key, d.Val})
		}
		out = append(out, map[string]interface{}{"Type": f.GetType(), "Name": f.GetName(), "Enc": f.GetEnc(), "Diff": f.GetDiff(), "Family": f.GetFamily(),
			"Up": f.GetUp(), "Ut": f.GetUt(), "Size": f.GetOriginalsize(), "Desc": desc, "Cw": cw})
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
`

var fmIdent = regexp.MustCompile("^[A-Za-z][A-Za-z0-9_]*$")

// compile builds the definitions of the cases into one program and runs it.
func fmCompile(work string, cases []*fmCase) error {
	dir := filepath.Join(work, "defs")
	os.MkdirAll(filepath.Join(dir, "gopdf"), 0755)
	mod := fmModule()
	os.WriteFile(filepath.Join(dir, "gopdf", "go.mod"), []byte("module github.com/signintech/gopdf\n\ngo 1.21\n\nrequire github.com/signintech/pdft v0.0.0\n\nreplace github.com/signintech/pdft => "+mod+"\n"), 0644)
	os.WriteFile(filepath.Join(dir, "gopdf", "gopdf.go"), []byte(fmStub), 0644)
	os.WriteFile(filepath.Join(dir, "go.mod"), []byte(fmt.Sprintf(fmMod, mod, filepath.Join(dir, "gopdf"))), 0644)
	seen := map[[32]byte]int{}
	var first []*fmCase // of each package
	for _, c := range cases {
		if c.err != nil {
			continue
		}
		h := sha256.Sum256(c.src)
		if p, ok := seen[h]; ok {
			c.pkg = p
			continue
		}
		f, err := parser.ParseFile(token.NewFileSet(), "", c.src, 0)
		if err != nil {
			c.err = fmt.Errorf("definition is not Go: %v", err)
			continue
		}
		name := ""
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok {
				for _, s := range g.Specs {
					if t, ok := s.(*ast.TypeSpec); ok && name == "" {
						if _, ok := t.Type.(*ast.StructType); ok {
							name = t.Name.Name
						}
					}
				}
			}
		}
		if name == "" {
			c.err = fmt.Errorf("definition declares no type")
			continue
		}
		if b := strings.Split(c.file, ".")[0]; fmIdent.MatchString(b) && name != strings.ToUpper(b[:1])+b[1:] {
			c.err = fmt.Errorf("type of %s is called %s", c.file, name)
			continue
		}
		c.pkg = len(first)
		seen[h] = c.pkg
		first = append(first, c)
		d := filepath.Join(dir, fmt.Sprintf("f%d", c.pkg))
		os.MkdirAll(d, 0755)
		os.WriteFile(filepath.Join(d, "def.go"), c.src, 0644)
		os.WriteFile(filepath.Join(d, "new.go"), []byte(fmt.Sprintf(fmNew, f.Name.Name, name)), 0644)
	}
	bad := map[int]string{}
	var infos []*fmInfo
	for try := 0; ; try++ {
		var b bytes.Buffer
		b.WriteString("package main\n\nimport (\n\t\"encoding/json\"\n\t\"os\"\n\n\tiface \"github.com/signintech/gopdf\"\n")
		var order []int
		for p := range first {
			if bad[p] == "" {
				fmt.Fprintf(&b, "\tf%d \"defs/f%d\"\n", p, p)
				order = append(order, p)
			}
		}
		b.WriteString(")\n\nvar news = []func() iface.IFont{\n")
		for _, p := range order {
			fmt.Fprintf(&b, "\tf%d.VerifNew,\n", p)
		}
		b.WriteString("}\n" + fmMain)
		os.WriteFile(filepath.Join(dir, "main.go"), b.Bytes(), 0644)
		o, err := fmGo(dir, "build", "-gcflags=-N -l", "-o", "defs.exe", ".")
		if err != nil {
			n := len(bad)
			cur := -1
			for _, l := range strings.Split(o, "\n") {
				if strings.HasPrefix(l, "# ") {
					cur = -1
					fmt.Sscanf(l, "# defs/f%d", &cur)
				} else if cur >= 0 && l != "" && bad[cur] == "" {
					bad[cur] = l
				} else if k := -1; cur < 0 {
					if _, e := fmt.Sscanf(l, "f%d/def.go:", &k); e == nil {
						bad[k] = l
					}
				}
			}
			if len(bad) == n || try > 50 {
				return fmt.Errorf("definitions do not compile: %.800s", o)
			}
			continue
		}
		cmd := exec.Command(filepath.Join(dir, "defs.exe"))
		js, err := cmd.Output()
		if err != nil {
			return fmt.Errorf("definitions do not run: %v", err)
		}
		var got []*fmInfo
		if err := json.Unmarshal(js, &got); err != nil || len(got) != len(order) {
			return fmt.Errorf("definitions: %d of %d read, %v", len(got), len(order), err)
		}
		infos = make([]*fmInfo, len(first))
		for k, p := range order {
			infos[p] = got[k]
		}
		break
	}
	for _, c := range cases {
		if c.err != nil {
			continue
		}
		if m := bad[c.pkg]; m != "" {
			c.err = fmt.Errorf("definition does not compile: %s", m)
		} else {
			c.info = infos[c.pkg]
		}
	}
	return nil
}

func fmCases(r *mc.Run) []*fmCase {
	var out []*fmCase
	lat := fmLatin()
	add := func(stratum, id string, f func(c *fmCase)) {
		c := &fmCase{stratum: stratum, id: id, spec: stdSpec(1, 1000), file: "font.ttf", enc: "cp874", cp: lat, ref: lat, via: "api"}
		f(c)
		if r.Only == "" || r.Only == stratum+"|"+id {
			out = append(out, c)
		}
	}
	// differences: every code of a set is as in the reference, named otherwise or without name
	pos := []int{0, 1, 2, 127, 254, 255}
	if r.Thorough() {
		pos = []int{0, 1, 2, 3, 127, 128, 254, 255}
	}
	n := 1
	for range pos {
		n *= 3
	}
	for k := 0; k < n; k++ {
		d, cp, id := k, lat, ""
		for _, p := range pos {
			switch d % 3 {
			case 1:
				cp = cp.with(p, 65+p%26, fmt.Sprintf("new%03dx", p))
			case 2:
				cp = cp.with(p, 0, "")
			}
			id += strconv.Itoa(d % 3)
			d /= 3
		}
		add("differences", id, func(c *fmCase) { c.cp = cp })
	}
	r.Bound("code pages: each of the codes %v as in cp1252, with another name or without name: all %d", pos, n)
	// the reference itself has and lacks codes
	for _, p := range []int{0, 1, 2, 64, 255} {
		for _, q := range []int{0, 1, 3, 65, 254} {
			p, q := p, q
			add("reference", fmt.Sprintf("%d-%d", p, q), func(c *fmCase) {
				c.ref = lat.with(p, 0, "", q, 66, "refq")
				c.cp = lat.with(q, 0, "", p, 67, "cpp")
			})
		}
	}
	// every code with every kind of character
	uvs := []int{0, 9, 'A', 127, 'Z', 0xE9, 0x0E01, 0x4E00, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF}
	for k := range uvs {
		for v := 0; v < 3; v++ {
			add("codes", fmt.Sprint(k, v), func(c *fmCase) {
				c.spec, c.cp = stdSpec(v+5, []int{1000, 2048, 300}[v]), fmMap{}
				for code := 0; code < 256; code++ {
					c.cp[code] = fmEnt{uvs[(code+k)%len(uvs)], fmt.Sprintf("c%03dx", code)}
				}
			})
		}
	}
	r.Bound("each of the 256 codes with each of the characters %x in 3 fonts", uvs)
	for k := 0; k < 5; k++ {
		for v := 0; v < 3; v++ {
			add("layouts", fmt.Sprint(k, v), func(c *fmCase) {
				c.layout = k
				c.cp = lat.with(v, 0x42, "vx", 255-v, 0x43, "wx", 100, 0, "")
			})
		}
	}
	r.Bound("layouts of map files: plain, CRLF, no last line end, blank lines, lower case digits with trailing spaces")
	// widths and metrics
	upms := []int{16, 256, 1000, 1024, 2048}
	if r.Thorough() {
		upms = []int{16, 100, 256, 500, 999, 1000, 1001, 1024, 2000, 2048, 4096, 16384}
	}
	for _, upm := range upms {
		for _, nhm := range []int{0, 1, 2, 9, 40} {
			for _, st := range []string{"delta", "range", "mixed"} {
				add("widths", fmt.Sprintf("upm%d nhm%d %s", upm, nhm, st), func(c *fmCase) {
					c.spec = stdSpec(3, upm)
					c.spec.NHM, c.spec.CmapStyle = nhm, st
					c.spec.UThk, c.spec.UPos = upm/10, -upm/8
					for g := range c.spec.Glyphs { // both sides of the half
						c.spec.Glyphs[g].Adv = (g*g*7 + g) % (2*upm + 3)
					}
					c.cp = lat.with(128, 0x0E01, "t1x", 129, 0x0E48, "t2x", 130, 0x0E99, "t3x", 131, 0x3042, "j1x", 132, 0x1F600, "e1x", 133, 0xFFFF, "e2x",
						134, 0x03A9, "omegax", 135, 0, "nulx", 200, 'A', "again1x", 201, 'A', "again2x", 0, 'B', "zerox", 31, 'C', "c31x", 34, '"', "quotx", 92, '0', "backx", 127, 'D', "delx")
				})
			}
		}
	}
	r.Bound("widths: units per em %v x shared metrics {no, from glyph 1, 2, 9, 40} x cmap forms {delta, range, mixed}", upms)
	for _, it := range []int{0, -12, 7} {
		for _, bold := range []bool{false, true} {
			for _, fixed := range []bool{false, true} {
				for _, v := range []int{-1, 1, 2, 4} {
					for _, upm := range []int{1000, 2048} {
						for m, met := range [][4]int{{800, -200, -100, 50}, {0, -1, 73, 1}, {2047, 555, -333, 2047}} {
							add("descriptor", fmt.Sprint(it, bold, fixed, v, upm, m), func(c *fmCase) {
								c.spec = stdSpec(4, upm)
								c.spec.Italic, c.spec.Bold, c.spec.Fixed, c.spec.OS2V = it, bold, fixed, v
								c.spec.TypoZero = true
								c.spec.TypoAsc, c.spec.TypoDesc, c.spec.UPos, c.spec.UThk = met[0], met[1], met[2], met[3]
							})
						}
					}
				}
			}
		}
	}
	r.Bound("descriptor: italic angle {0, -12, 7} x bold x fixed pitch x OS/2 version {0, 1, 2, 4} x units per em {1000, 2048} x 3 sets of metrics")
	// names
	files := []string{"font.ttf", "Loma Bold.ttf", "loma-bold.ttf", "a.b.ttf", "x.TTF", "3of9.ttf", "Font+1.ttf", "ฟอนต์.ttf", "éa.ttf", "type.ttf", "A_1.ttf"}
	names := []string{"Synth", "Loma-Bold", "A0B100", "0", "F.x_y", "Q\"uote\\", "AB,Bold", "a (b)<c>/[d]{e}%f"}
	encs := []string{"cp874", "cp1252", "iso-8859-11", "KOI8.R"}
	for _, f := range files {
		for _, nm := range names {
			for _, e := range encs {
				for _, plain := range []bool{false, true} {
					add("names", fmt.Sprint(f, nm, e, plain), func(c *fmCase) {
						c.file, c.enc, c.spec.Name, c.spec.PSPlain = f, e, nm, plain
						if e != "cp1252" {
							c.cp = lat.with(200, 'Z', "other200x")
						}
					})
				}
			}
		}
	}
	r.Bound("names: file names %q x PostScript names %q in two encodings x code pages %q", files, names, encs)
	for _, fs := range []int{0, 4, 8, 0x0E, 0x100, 0x104} {
		add("licence", fmt.Sprintf("%x", fs), func(c *fmCase) { c.spec.FSType = fs })
	}
	for k, via := range []string{"again", "cmd"} {
		for v := 0; v < 6; v++ {
			add(via, strconv.Itoa(v), func(c *fmCase) {
				c.via = via
				c.spec = stdSpec(v+k, []int{1000, 2048, 300}[v%3])
				if v > 2 {
					c.cp = lat.with(1, 'Z', "onex", 33, 0x4E00, "missingx")
				}
			})
		}
	}
	r.Bound("a maker that made a font and failed at another one before; the command")
	return out
}

func c21(r *mc.Run) {
	work, err := os.MkdirTemp("", "fm")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(work)
	cmd := filepath.Join(work, "fontmaker.exe")
	if o, err := fmGo(fmModule(), "build", "-mod=readonly", "-o", cmd, "./minigopdf/fontmaker"); err != nil {
		panic(fmt.Sprint("fontmaker does not build: ", o))
	}
	cases := fmCases(r)
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ch {
				cases[n].run(filepath.Join(work, fmt.Sprintf("c%d", n)), cmd)
			}
		}()
	}
	for n := range cases {
		ch <- n
	}
	close(ch)
	wg.Wait()
	if err := fmCompile(work, cases); err != nil {
		r.Inline("definitions", "all", func() error { return err })
		return
	}
	for _, c := range cases {
		c := c
		r.State(c.stratum + string(c.src))
		r.Trans(1)
		r.Trace()
		r.Case(c.stratum, c.id, c.check)
	}
	fmRefused(r, work)
	r.Wait()
}

// fmRefused: what is no font, no map or must not be embedded is an error.
func fmRefused(r *mc.Run, work string) {
	lat := fmLatin()
	good := ttfx.Build(stdSpec(1, 1000))
	var seq int
	var mu sync.Mutex
	try := func(file string, font, cp, ref []byte, enc string, outDir bool) error {
		mu.Lock()
		seq++
		dir := filepath.Join(work, fmt.Sprintf("r%d", seq))
		mu.Unlock()
		os.MkdirAll(dir, 0755)
		defer os.RemoveAll(dir)
		if font != nil {
			os.WriteFile(filepath.Join(dir, file), font, 0644)
		}
		if cp != nil {
			os.WriteFile(filepath.Join(dir, enc+".map"), cp, 0644)
		}
		if ref != nil {
			os.WriteFile(filepath.Join(dir, "cp1252.map"), ref, 0644)
		}
		out := filepath.Join(dir, "out")
		if outDir {
			os.Mkdir(out, 0755)
		}
		r.Trans(1)
		return core.NewFontMaker().MakeFont(filepath.Join(dir, file), dir, enc, out)
	}
	must := func(id string, f func() error) {
		r.Case("refused", id, func() error {
			if err := f(); err == nil {
				return fmt.Errorf("no error")
			}
			return nil
		})
	}
	l := lat.file()
	must("no font", func() error { return try("f.ttf", nil, l, l, "cp874", true) })
	must("no map", func() error { return try("f.ttf", good, nil, l, "cp874", true) })
	must("no reference", func() error { return try("f.ttf", good, l, nil, "cp874", true) })
	must("no output folder", func() error { return try("f.ttf", good, l, l, "cp874", false) })
	for _, block := range []string{"f.z", "f.font.go"} { // the file cannot be written
		must("folder "+block, func() error {
			dir, err := os.MkdirTemp(work, "b")
			if err != nil {
				return err
			}
			defer os.RemoveAll(dir)
			os.MkdirAll(filepath.Join(dir, "out", block), 0755)
			os.WriteFile(filepath.Join(dir, "f.ttf"), good, 0644)
			os.WriteFile(filepath.Join(dir, "cp1252.map"), l, 0644)
			return core.NewFontMaker().MakeFont(filepath.Join(dir, "f.ttf"), dir, "cp1252", filepath.Join(dir, "out"))
		})
	}
	must("otf", func() error { return try("f.otf", good, l, l, "cp874", true) })
	must("no extension", func() error { return try("f", good, l, l, "cp874", true) })
	for _, fs := range []int{2, 0x102, 0x200, 0x204, 0x300} {
		s := stdSpec(1, 1000)
		s.FSType = fs
		must(fmt.Sprintf("licence %x", fs), func() error { return try("f.ttf", ttfx.Build(s), l, l, "cp874", true) })
	}
	for k, m := range []string{"!100 U+0041 A\n", "!41\n", "!41 U+0041\n", "!\n", "x\n", "!ZZ U+0041 A\n", "!41 U+XYZ A\n", "!41 U+ A\n", "41\n"} {
		for _, at := range []string{m, string(l) + m, m + string(l)} {
			must(fmt.Sprintf("map %d %d", k, len(at)), func() error { return try("f.ttf", good, []byte(at), l, "cp874", true) })
			must(fmt.Sprintf("reference %d %d", k, len(at)), func() error { return try("f.ttf", good, l, []byte(at), "cp874", true) })
		}
	}
	// maps: every prefix and every one-byte change of a short map must not crash
	short := []byte("!20 U+0020 space\n!41 U+0041 A\r\n!FF U+0E5B x\n")
	var bad [][]byte
	for k := 0; k <= len(short); k++ {
		bad = append(bad, short[:k])
		for _, by := range []byte(" \n!G0\x80") {
			if k < len(short) {
				bad = append(bad, append(append(append([]byte{}, short[:k]...), by), short[k+1:]...))
			}
			bad = append(bad, append(append(append([]byte{}, short[:k]...), by), short[k:]...))
		}
	}
	bad = append(bad, []byte("!100 U+0041 A\n"), []byte("!-1 U+0041 A\n"), []byte("!FFFFFFFFFFFFFFFFF U+0041 A\n"), []byte("!41 U+-41 A\n"), []byte("!41 U+FFFFFFFF A\n"))
	for k, b := range bad {
		b := b
		r.Case("bad map", strconv.Itoa(k), func() error { try("f.ttf", good, b, l, "cp874", true); return nil })
		r.Case("bad reference", strconv.Itoa(k), func() error { try("f.ttf", good, l, b, "cp874", true); return nil })
	}
	r.Bound("maps: every prefix and every change or insertion of one of 6 bytes of a short map (%d), as map and as reference", len(bad))
	// fonts: every prefix, and every word of the tables set to 0, FFFF, 8000
	small := stdSpec(1, 1000)
	font := ttfx.Build(small)
	step := r.Pick(7, 1)
	for k := 0; k < len(font); k += step {
		k := k
		r.Case("bad font", fmt.Sprint("prefix ", k), func() error { try("f.ttf", font[:k], l, l, "cp874", true); return nil })
	}
	var offs []int
	end := len(font)
	for k := 0; k+1 < end; k += 2 {
		if !r.Thorough() && k > 12+16*13 && k%14 != 0 {
			continue
		}
		offs = append(offs, k)
	}
	sort.Ints(offs)
	for _, k := range offs {
		for _, v := range []int{0, 0xFFFF, 0x8000} {
			k, v := k, v
			r.Case("bad font", fmt.Sprintf("word %d=%x", k, v), func() error {
				b := append([]byte{}, font...)
				b[k], b[k+1] = byte(v>>8), byte(v)
				try("f.ttf", b, l, l, "cp874", true)
				return nil
			})
		}
	}
	r.Bound("fonts: %d prefixes and %d words set to 0, FFFF, 8000", (len(font)+step-1)/step, len(offs))
}

// fmDemo runs one case alone.
func fmDemo(c *fmCase) error {
	work, err := os.MkdirTemp("", "fm")
	if err != nil {
		return err
	}
	defer os.RemoveAll(work)
	c.run(filepath.Join(work, "c"), "")
	if err := fmCompile(work, []*fmCase{c}); err != nil {
		return err
	}
	return c.check()
}

// fmJob makes a small font and compares what is written with what was written
// first.
func fmJob() func() error {
	spec := tinySpec()
	lat := fmLatin()
	make := func() ([]byte, error) {
		dir, err := os.MkdirTemp("", "fj")
		if err != nil {
			return nil, err
		}
		defer os.RemoveAll(dir)
		c := &fmCase{spec: spec, file: "f.ttf", enc: "cp874", cp: lat.with(1, 'a', "onex"), ref: lat, via: "api"}
		c.run(dir, "")
		return append(append([]byte{}, c.src...), c.z...), c.err
	}
	want, err := make()
	return func() error {
		if err != nil {
			return err
		}
		got, err := make()
		if err == nil && !bytes.Equal(got, want) {
			err = fmt.Errorf("the font maker writes something else")
		}
		return err
	}
}
