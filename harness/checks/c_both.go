package checks

import (
	"bytes"
	"fmt"
	"time"

	"verif/mc"
	"verif/pdfx"

	gopdf "github.com/signintech/pdft/minigopdf"
)

// drawnAsTemplate: a document drawn with GoPdf is a template of PDFt, like any
// other file, and what is put on top of it is put on top of what was drawn.
func drawnAsTemplate(r *mc.Run, uses [][]Op) {
	at := func(x, y float64) []gOp { return []gOp{gX(x), gY(y)} }
	box := &gopdf.Rect{W: 40, H: 20}
	mid := &gopdf.CellOption{Align: gopdf.Center | gopdf.Middle, Border: gopdf.Left | gopdf.Bottom, Float: gopdf.Right}
	conts := []struct {
		name string
		ops  []gOp
	}{
		{"nothing", nil},
		{"text", append(at(20, 30), gSet("k", "", 12), gText("ab"))},
		{"cells", append(at(20, 30), gSet("k", "u", 9), gCell("Two", box, mid), gTextColor(200, 10, 0), gCell("a", box, nil))},
		{"image", []gOp{gImage(ImRGBA, "bytes", 10, 20, box)}},
		{"images", []gOp{gImage(ImPal, "bytes", 10, 20, box), gImage(ImJPG, "bytes", 30, 20, nil), gImage(ImPal, "bytes", 50, 20, nil)}},
		{"shapes", []gOp{gWidth(2), gType("dashed"), gLine(1, 2, 3, 4), gFill(10, 200, 30), gRect("lls", 5, 50, 10, 20, "FD"), gOval(10, 20, 30, 50), gGrayFill(0.5)}},
		{"all", append(at(20, 30), gSet("a", "", 8), gText("H"), gImage(ImGA, "bytes", 10, 20, box), gLine(1, 2, 3, 4), gSet("k", "", 7), gCell("Two", nil, nil))},
	}
	infos := []*gopdf.PdfInfo{nil, {Title: "title (1)", Author: "é😀", CreationDate: time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC)}}
	levels := []int{-1, 0, 9}
	sizes := [][2]float64{{0, 0}, {222, 333}}
	n := 0
	for ci, c := range conts {
		for di, c2 := range conts {
			for ii, info := range infos {
				for li, lv := range levels {
					for si, sz := range sizes {
						if !r.Thorough() && (ci+di+ii+li+si)%3 != 0 {
							continue
						}
						c, c2, info, lv, sz := c, c2, info, lv, sz
						mk := func() (*Tmpl, error) {
							w := gStart(200, 300, nil)
							ops := []gOp{gFontOp("k", fontK, 0, true), gFontOp("a", FC, 0, false), gLevel(lv), gPageOp(0, 0)}
							ops = append(ops, c.ops...)
							ops = append(ops, gPageOp(sz[0], sz[1]))
							ops = append(ops, c2.ops...)
							ops = append(ops, gPageOp(0, 0))
							if info != nil {
								ops = append(ops, gInfo(*info))
							}
							for _, o := range ops {
								if err := o.Do(w); err != nil {
									return nil, fmt.Errorf("drawing %s: %w", o.Name, err)
								}
							}
							b, err := w.out(0)
							if err != nil {
								return nil, err
							}
							if err := w.M.verify(b); err != nil {
								return nil, fmt.Errorf("drawn document: %w", err)
							}
							return MkReal("drawn", b)
						}
						id := fmt.Sprintf("%s,%s,info%d,level%d,%gx%g", c.name, c2.name, ii, lv, sz[0], sz[1])
						n++
						for u := range uses {
							use := uses[u]
							r.Case("drawn", fmt.Sprintf("%s:%d", id, u), func() error {
								t, err := mk()
								if err != nil {
									return err
								}
								w, err := Open(t)
								if err != nil {
									return err
								}
								if err := RunOps(w, use); err != nil {
									return err
								}
								if _, err := SaveVerify(w); err != nil {
									return err
								}
								r.Trans(1)
								r.State(fmt.Sprint("drawn", id, u))
								r.Trace()
								return nil
							})
						}
					}
				}
			}
		}
	}
	r.Bound("%d documents drawn with GoPdf (pages without contents, with text, cells, images, shapes; with and without information, compressed and not, pages of two sizes), each being the template of %d uses", n, len(uses))
}

// protectedAsTemplate: a protected document cannot be read by PDFt; it is refused
// or taken over as it is, but never turned into a ruined document.
func protectedAsTemplate(r *mc.Run, tmpls []*Tmpl, uses [][]Op) {
	pws := [][2]string{{"", ""}, {"u", "o"}, {"", "o"}}
	drawn := func(user, owner string) ([]byte, error) {
		w := gStart(200, 300, &Prot{4, []byte(user), []byte(owner)})
		for _, o := range []gOp{gFontOp("k", fontK, 0, true), gLevel(0), gPageOp(0, 0), gX(10), gY(20), gSet("k", "", 12), gText("ab"), gPageOp(0, 0), gImage(ImRGBA, "bytes", 10, 20, nil)} {
			if err := o.Do(w); err != nil {
				return nil, err
			}
		}
		return w.out(0)
	}
	for ti := -1; ti < len(tmpls); ti++ {
		for u := range uses {
			for _, pw := range pws {
				if ti < 0 && u > 0 {
					continue
				}
				ti, u, pw := ti, u, pw
				name := "drawn"
				if ti >= 0 {
					name = tmpls[ti].Name
				}
				r.Case("protected", fmt.Sprintf("%s:%d:%q", name, u, pw), func() error {
					var b []byte
					var err error
					if ti < 0 {
						b, err = drawn(pw[0], pw[1])
					} else {
						var w *World
						if w, err = Open(tmpls[ti]); err != nil {
							return err
						}
						if err = RunOps(w, append(append([]Op{}, uses[u]...), OpProt(4, []byte(pw[0]), []byte(pw[1])))); err != nil {
							return err
						}
						b, err = SaveVerify(w)
					}
					if err != nil {
						return err
					}
					// a document that is open already stays as it is
					busy, err := Open(T1)
					if err != nil {
						return err
					}
					if err := RunOps(busy, []Op{OpFont("a", FA), OpSet("a", "", 12), textOp("before")}); err != nil {
						return err
					}
					r.Trans(1)
					r.State(fmt.Sprint("protected", name, u, pw))
					if err := busy.P.OpenFrom(bytes.NewReader(b)); err != nil {
						if err := RunOps(busy, []Op{textOp("after")}); err != nil {
							return fmt.Errorf("after a protected document was refused: %w", err)
						}
						if _, err := SaveVerify(busy); err != nil {
							return fmt.Errorf("after a protected document was refused: %w", err)
						}
						r.Trace()
						return nil
					}
					want, err := pdfx.LoadPW(b, []byte(pw[0]))
					if err != nil {
						return err
					}
					var out bytes.Buffer
					if err := busy.P.SaveTo(&out); err != nil {
						return fmt.Errorf("a protected document was opened, saving it fails: %v", err)
					}
					got, err := pdfx.Load(out.Bytes())
					if err != nil {
						return fmt.Errorf("a protected document was opened and is ruined: %v", err)
					}
					wp, err := want.Pages()
					if err != nil {
						return err
					}
					gp, err := got.Pages()
					if err != nil || len(gp) != len(wp) {
						return fmt.Errorf("a protected document was opened and is ruined: %d pages, expected %d (%v)", len(gp), len(wp), err)
					}
					for i := range wp {
						wc, err := want.ContentBytes(wp[i])
						if err != nil {
							return err
						}
						gc, err := got.ContentBytes(gp[i])
						if err != nil || !bytes.HasPrefix(bytes.TrimSpace(gc), bytes.TrimSpace(wc)) {
							return fmt.Errorf("a protected document was opened without error and saved without its contents: page %d is ruined (%v)", i+1, err)
						}
					}
					r.Trace()
					return nil
				})
			}
		}
	}
	r.Bound("protected documents (%d templates and a drawn document, %d uses, %d pairs of passwords) opened again: refused, the document that was open before goes on", len(tmpls), len(uses), len(pws))
}
