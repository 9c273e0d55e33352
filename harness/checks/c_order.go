package checks

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"

	pdft "github.com/signintech/pdft"
	"github.com/signintech/pdft/render"

	"verif/gen"
	"verif/mc"
)

func init() { All["C15"] = c15 }

// order decides where every map iteration of the code under test starts.
type order struct {
	base   uint64
	dev    map[int]uint64 // point -> choice
	points []int          // arity of every choice point of the execution
	sites  []string
	off    bool
}

// inRepo tells whether the code that iterates belongs to the library.
func (o *order) site() string {
	var pcs [10]uintptr
	n := runtime.Callers(4, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.HasPrefix(f.Function, "internal/runtime/maps.") && !strings.HasPrefix(f.Function, "runtime.") {
			if strings.HasPrefix(f.Function, "github.com/signintech/pdft") {
				return fmt.Sprintf("%s:%d", filepath.Base(f.File), f.Line)
			}
			return ""
		}
		if !more {
			return ""
		}
	}
}

func (o *order) choose(used uint64) uint64 {
	if o.off || used < 2 {
		return 0
	}
	o.off = true // maps the bookkeeping itself iterates are no choice points
	defer func() { o.off = false }()
	s := o.site()
	if s == "" {
		return 0
	}
	n := len(o.points)
	ar := int(used)
	if ar > 8 {
		ar = 16
	}
	o.points = append(o.points, ar)
	o.sites = append(o.sites, s)
	c := o.base
	if v, ok := o.dev[n]; ok {
		c = v
	}
	return c % uint64(ar)
}

// orders holds the choices of the executions in progress, by goroutine.
var orders sync.Map

func goid() string {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	s := string(b[:n]) // goroutine 12 [running]...
	s = s[len("goroutine "):]
	if k := strings.IndexByte(s, ' '); k > 0 {
		s = s[:k]
	}
	return s
}

func dispatch(used uint64) uint64 {
	if used < 2 {
		return 0
	}
	if o, ok := orders.Load(goid()); ok {
		return o.(*order).choose(used)
	}
	return 0
}

// under runs f with the choices of o.
func (o *order) under(f func() error) error {
	id := goid()
	orders.Store(id, o)
	defer orders.Delete(id)
	return f()
}

func (o *order) name() string {
	s := fmt.Sprintf("base%d", o.base)
	var k []int
	for p := range o.dev {
		k = append(k, p)
	}
	sort.Ints(k)
	for _, p := range k {
		s += fmt.Sprintf(",%d=%d", p, o.dev[p])
	}
	return s
}

// C15: the order in which maps are iterated makes no difference.
func c15(r *mc.Run) {
	if !hookAvailable {
		r.Bound("the runtime could not be put under control on this toolchain: orders are those of the runtime")
		r.Incomplete()
	}
	wide := func() *Tmpl { // more pages and dictionaries than a small map holds
		var ps []*gen.Page
		for k := 0; k < 10; k++ {
			p := simplePage(k+1, fmt.Sprintf("0 0 %d 300", 200+10*k), k%2 == 1)
			if k%3 == 1 {
				p = &gen.Page{Box: "0 0 400 500", Streams: []string{gen.Content(k, "TT2", "Im1")}, Res: "ref", Fonts: []string{"TT2", "F2"}, FontAt: "ref", XObjs: []string{"Im1"}, XAt: "ref"}
			}
			ps = append(ps, p)
		}
		return MkTmpl("wide", (&gen.Template{Root: gen.Flat(ps...)}).Bytes())
	}()
	mixed := MkTmpl("mixed", (&gen.Template{Root: gen.Flat(
		&gen.Page{Box: "0 0 200 300", Streams: []string{gen.Content(1, "F1", "Im1"), gen.Content(2, "F12", "")}, Res: "own", Fonts: []string{"F1", "F12"}, FontAt: "inline", XObjs: []string{"Im1", "I2"}, XAt: "inline"},
		&gen.Page{Box: "0 0 300 200", Streams: []string{gen.Content(3, "F2", "I1")}, Res: "ref", Fonts: []string{"F2"}, FontAt: "ref", XObjs: []string{"I1"}, XAt: "ref"},
		&gen.Page{Box: "0 0 250 250", Streams: []string{gen.Content(4, "F1", "I2")}, Res: "share:z", Fonts: []string{"F1"}, FontAt: "inline", XObjs: []string{"I2"}, XAt: "inline"},
		&gen.Page{Box: "0 0 260 260", Streams: []string{gen.Content(5, "F1", "I2")}, Res: "share:z", Fonts: []string{"F1"}, FontAt: "inline", XObjs: []string{"I2"}, XAt: "inline", Zip: true},
	)}).Bytes())
	tx := func(s string, p int, x float64) Op { return OpText(TextArg{s, p, x, 20, 100, 30, 8, nil}) }
	fonts := []Op{OpFont("a", FA), OpFont("b", FB), OpSet("a", "", 12), tx("Hé", 1, 10), OpSet("b", "U", 9), tx("Zz ก", 2, 30)}
	third := []Op{OpFont("c", FC), OpFont("d", FA), OpSet("c", "", 11), tx("cc", 1, 50), OpSet("d", "", 7), tx("dd", 2, 60)}
	imgs := []Op{OpImg("plain", ImRGBA, 1, 5, 6, 30, 20), OpImg("cache", ImJPG, 2, 7, 8, 20, 10), OpImg("cache", ImJPG, 1, 9, 8, 20, 10), OpImg("plain", ImPal, 2, 7, 30, 20, 10)}
	cat := func(l ...[]Op) (o []Op) {
		for _, x := range l {
			o = append(o, x...)
		}
		return
	}
	hs := []struct {
		n string
		o []Op
	}{
		{"fonts", fonts},
		{"fonts4", cat(fonts, third)},
		{"fonts+imgs", cat(fonts, imgs)},
		{"imgs", imgs},
		{"edits", cat(fonts, []Op{OpDup(1, 1), OpRm(2)}, imgs, []Op{OpDup(2, 0), tx("é", 3, 5)})},
		{"save+save", cat(fonts, []Op{OpSave()}, imgs, third, []Op{OpSave()})},
		{"protect", cat(fonts, imgs, []Op{OpProt(4, []byte("u"), []byte("o"))})},
		{"keep", cat([]Op{OpKeep(2)}, fonts, imgs)},
	}
	tmpls := []*Tmpl{T2, T3, TN, mixed, tmplShared(), tmplDeep(), wide}
	nbase := len(tmpls)
	Perms(3, func(ix []int) { // names in every distribution over dictionaries
		mk := func(k, n int, res string) *gen.Page {
			f, x := []string{"F1", "F2", "F3"}[n], []string{"I3", "I1", "I2"}[n]
			return &gen.Page{Box: "0 0 200 300", Streams: []string{gen.Content(k, f, x)}, Res: res, Fonts: []string{f}, FontAt: "inline", XObjs: []string{x}, XAt: []string{"inline", "ref"}[k%2]}
		}
		tmpls = append(tmpls, MkTmpl(fmt.Sprint("perm", ix), (&gen.Template{Root: gen.Flat(mk(1, ix[0], "own"), mk(2, ix[1], "ref"), mk(3, ix[2], "own"))}).Bytes()))
	})
	bound := r.Pick(1, 2)
	sites := map[string]int{}
	var smu sync.Mutex
	curSeed := uint64(1)
	setIterHook(curSeed, dispatch)
	defer setIterHook(0, nil)
	for ti, t := range tmpls {
		for _, h := range hs {
			if ti >= nbase && !r.Thorough() && h.n != "fonts+imgs" && h.n != "fonts4" {
				continue
			}
			t, h := t, h
			run := func(o *order) error {
				var w *World
				var out []byte
				if err := o.under(func() (err error) {
					if w, err = Open(t); err != nil {
						return err
					}
					if err = RunOps(w, h.o); err != nil {
						return err
					}
					out, err = Save(w)
					return err
				}); err != nil {
					return err
				}
				r.Outcome(out)
				r.Trace()
				r.Trans(len(o.points))
				return Verify(w.M, out)
			}
			one := func(o *order, seed uint64) (pts []int) {
				r.Inline("orders", fmt.Sprintf("%s:%s:seed%d:%s", t.Name, h.n, seed, o.name()), func() error {
					defer func() { pts = o.points }()
					err := run(o)
					smu.Lock()
					for _, s := range o.sites {
						sites[s]++
					}
					smu.Unlock()
					r.State(fmt.Sprintf("%s:%s:%d:%v", t.Name, h.n, seed, o.points) + o.name())
					return err
				})
				return
			}
			bases := []uint64{0, 1, 2, 3, 4, 5, 6, 7}
			seeds := []uint64{1}
			b := bound
			if t == wide {
				seeds = []uint64{1, 7, 0x9e3779b97f4a7c15}
				bases = append(bases, 8, 9, 10, 11, 12, 13, 14, 15)
				if h.n != "fonts+imgs" && !r.Thorough() {
					bases = bases[:4]
				}
				b = 0
			}
			for _, seed := range seeds {
				if seed != curSeed { // the seed belongs to the process
					r.Flush()
					curSeed = seed
					setIterHook(seed, dispatch)
				}
				for _, base := range bases {
					seed, base := seed, base
					r.Go(func() {
						pts := one(&order{base: base}, seed)
						if base > 1 || b == 0 {
							return
						}
						// one deviation, then two
						var rec func(dev map[int]uint64, from, left int, pts []int)
						rec = func(dev map[int]uint64, from, left int, pts []int) {
							if left == 0 {
								return
							}
							for p := from; p < len(pts); p++ {
								for c := 0; c < pts[p]; c++ {
									if uint64(c) == base%uint64(pts[p]) {
										continue
									}
									if r.Stopped() || r.Late() {
										r.Incomplete()
										return
									}
									d := map[int]uint64{p: uint64(c)}
									for k, v := range dev {
										d[k] = v
									}
									np := one(&order{base: base, dev: d}, seed)
									rec(d, p+1, left-1, np)
								}
							}
						}
						rec(nil, 0, b, pts)
					})
				}
			}
		}
	}
	r.Flush()
	r.Bound("%d templates x %d histories: every constant choice of the 8 (large maps: 16, three hash seeds) iteration starts, and from the two first ones every execution with up to %d deviating iterations", len(tmpls), len(hs), bound)
	// design view of a renderer
	fs := []render.FieldInfo{}
	for k := 0; k < 4; k++ {
		fs = append(fs, render.FieldInfo{Key: fmt.Sprintf("k%d", k), PageNum: 1 + k%2, X: float64(10 + 20*k), Y: float64(15 + 7*k), W: 40, H: 12, Align: pdft.Left | pdft.Top, Font: "a", Size: 9})
	}
	file := filepath.Join(os.Getenv("VP_SCRATCH"), "tmpl15.pdf")
	if err := os.WriteFile(file, T2.B, 0644); err == nil {
		for base := uint64(0); base < 8; base++ {
			base := base
			r.Case("design-view", fmt.Sprintf("base%d", base), func() error {
				o := &order{base: base}
				return o.under(func() error {
					rd, err := render.NewRender(file, append([]render.FieldInfo{}, fs...))
					if err != nil {
						return err
					}
					x := &World{P: &rd.PDFt, M: NewModel(T2)}
					if err := RunOps(x, []Op{OpFont("a", FA), OpFont("b", FB)}); err != nil {
						return err
					}
					for k, f := range fs {
						if err := rd.Text(f.Key, "T"+fmt.Sprint(k)); err != nil {
							return err
						}
						x.M.Cur, x.M.Style, x.M.Size = "a", "", 9
						x.M.addText(TextArg{"T" + fmt.Sprint(k), f.PageNum, f.X, f.Y, f.W, f.H, f.Align, nil}, "T"+fmt.Sprint(k), f.Y)
					}
					if err := rd.ImgBase64("k1", base64.StdEncoding.EncodeToString(ImRGB.B)); err != nil {
						return err
					}
					x.M.Ins = append(x.M.Ins, Ins{Kind: "img", Page: fs[1].PageNum, X: fs[1].X, Y: fs[1].Y, W: fs[1].W, H: fs[1].H, PH: x.M.height(fs[1].PageNum), Img: ImRGB})
					var buf bytes.Buffer
					if err := rd.SaveTo(&buf); err != nil {
						return err
					}
					r.Trace()
					return Verify(x.M, buf.Bytes())
				})
			})
		}
	}
	r.Flush()
	var sl []string
	for s, n := range sites {
		sl = append(sl, fmt.Sprintf("%s (%d iterations of 2 or more entries)", s, n))
	}
	sort.Strings(sl)
	if hookAvailable && len(sl) == 0 {
		r.Bound("no iteration of a map reached the scheduler")
		r.Incomplete()
	}
	r.Extra("iteration_sites", sl)
}
