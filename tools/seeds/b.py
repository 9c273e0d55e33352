def D(body, *imp):
    i='\n\t'.join('%s'%x if ' ' in x else '"%s"'%x for x in imp)
    return 'package checks\n\n'+(f'import (\n\t{i}\n)\n\n' if imp else '')+'func Demo() error {\n'+body+'\n}\n'
PD='pdft "github.com/signintech/pdft"'
G='verif/gen'
F='OpFont("a", FA), OpSet("a", "", 12)'
SEEDS=[
dict(id='c06-nested-type', property='C06', edits=[('pdf_data.go','if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil {','if pages, kid := props.getPropByKey("Pages"), props.getPropByKey("Kids"); pages != nil && kid != nil && (id == rootPagesID || props.getPropByKey("Count") != nil && props.getPropByKey("Count").rawVal != "1") {')],
 needs='a nested page tree with an inner node that has a single page', breaks='the page below such a node is not counted and cannot be edited', demo=D('''	t := MkTmpl("one-kid", (&gen.Template{Root: &gen.Node{Kids: []*gen.Node{{P: gen.Simple(1, "0 0 200 300")}, {Kids: []*gen.Node{{P: gen.Simple(2, "0 0 220 310")}}}}}}).Bytes())
	return all(hist(t, OpDup(1, 1)), hist(t, OpKeep(2)))''',G)),
dict(id='c06-keep-arr', property='C06', edits=[('pdf_obj_property_data.go','''		objIDs = append(objIDs, objID)
		revisions = append(revisions, revision)
		i += 3''','''		if len(objIDs) == 0 || objIDs[len(objIDs)-1] != objID {
			objIDs = append(objIDs, objID)
			revisions = append(revisions, revision)
		}
		i += 3''')],
 needs='a page whose /Contents array (or page tree) names the same object twice in a row', breaks='the repeated part is read as one', demo=D('''	p := gen.Simple(1, "0 0 200 300")
	p.Repeat = true
	t := MkTmpl("rep", (&gen.Template{Root: gen.Flat(p)}).Bytes())
	return all(hist(t, '''+F+''', OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil})), hist(t, OpDup(1, 0)))''',G)),
dict(id='c07-save-trunc', property='C07', edits=[('pdft.go','''	err = os.WriteFile(filepath, buff.Bytes(), 0644)
	if err != nil {
		return err
	}
	return nil''','''	f, err := os.OpenFile(filepath, os.O_RDWR|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.Write(buff.Bytes())
	return err''')],
 needs='saving over an existing longer file', breaks='the end of the old file stays behind the new document', demo=D('''	dir, err := os.MkdirTemp("", "x")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "a.pdf")
	os.WriteFile(p, bytes.Repeat([]byte("%old\\n"), 20000), 0644)
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := w.P.Save(p); err != nil {
		return err
	}
	b, _ := os.ReadFile(p)
	var c bytes.Buffer
	if err := w.P.SaveTo(&c); err != nil {
		return err
	}
	if !bytes.Equal(b, c.Bytes()) {
		return fmt.Errorf("file has %d bytes, document %d", len(b), c.Len())
	}
	return nil''','bytes','fmt','os','path/filepath')),
dict(id='c07-img-reuse', property='C07', edits=[('pdft.go','''		i.pdfImgs[j].objID = obj.objID
''','''		if i.pdfImgs[j].objID == 0 {
			i.pdfImgs[j].objID = obj.objID
		}
''')],
 needs='a save, then a page copy or another font or image, then a second save', breaks='from the second save on image names can be bound to the object number of the first save', demo=D('''	return hist(T1, '''+F+''', OpImg("plain", ImJPG, 1, 5, 6, 30, 20), OpSave(), OpImg("plain", ImRGBA, 1, 50, 6, 30, 20), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}), OpFont("b", FB))''')),
dict(id='c07-font-keepmap', property='C07', edits=[('minigopdf/subset_font_obj.go','''	s.buffer.WriteString("/Type /Font\\n")
	s.buffer.WriteString(">>\\n")
	return nil''','''	s.buffer.WriteString("/Type /Font\\n")
	s.buffer.WriteString(">>\\n")
	s.ttfFontOption.UseKerning = false
	return nil''')],
 needs='a kern override and two saves', breaks='the second save draws without the override', demo=D('''	return hist(T1, '''+F+''', OpKern("a", kerns[1]), OpText(TextArg{"xyz", 1, 10, 20, 50, 20, 0, nil}), OpSave(), OpMeasure("ab"))''')),
dict(id='c08-escape-cr', property='C08', edits=[('minigopdf/encryption_obj.go','''	s = strings.Replace(s, "\\r", "\\\\r", -1)
''','')],
 needs='passwords for which the O or U value contains a carriage return', breaks='readers turn it into a line feed and refuse the password', demo=D('''	for i := 0; i < 256; i++ {
		if err := hist(T1, OpProt(4, []byte{byte(i)}, []byte("own"))); err != nil {
			return err
		}
	}
	return nil''')),
dict(id='c08-key3', property='C08', edits=[('minigopdf/pdf_protection.go','tmp2 := append(p.encryptionKey, tmp[0], tmp[1], tmp[2], 0, 0)','tmp2 := append(p.encryptionKey, tmp[0], tmp[1], 0, 0, 0)')],
 needs='a protected document with object numbers above 65535', breaks='objects with such numbers are encrypted with the key of another object', demo=D('''	t := MkTmpl("big", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false)), Base: 65530}).Bytes())
	return hist(t, '''+F+''', OpProt(4, []byte("u"), []byte("o")), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''',G)),
dict(id='c09-exact', property='C09', edits=[('pdft.go','''		if width > w {
			renderCaches''','''		if width >= w {
			renderCaches''')],
 needs='a line that fills the width exactly', breaks='a token that fits exactly is moved to the next line', demo=D('''	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, []Op{'''+F+'''}); err != nil {
		return err
	}
	x, err := w.P.MeasureTextWidth("ab cd")
	if err != nil {
		return err
	}
	if err := OpWrap(TextArg{"ab cd ef", 1, 10, 20, x, 80, 0, nil}).Do(w); err != nil {
		return err
	}
	_, err = SaveVerify(w)
	return err''')),
dict(id='c09-lineheight', property='C09', edits=[('pdft.go','''			currentY += fontSize + newLine
			currText = token''','''			currentY += fontSize + newLine
			if len(renderCaches) > 2 {
				currentY -= newLine / 2
			}
			currText = token''')],
 needs='a text of at least four lines', breaks='lines from the fourth on are closer together', demo=D('''	return hist(T1, '''+F+''', OpWrap(TextArg{"aa bb cc dd ee ff", 1, 10, 20, 15, 80, 0, nil}))''')),
dict(id='c10-kern-width', property='C10', edits=[('minigopdf/cache_content_text.go','sumWidth += int(width) + int(pairvalPdfUnit)','sumWidth += int(width) + int(int8(pairvalPdfUnit))')],
 needs='a kern override of more than 127 units', breaks='the measured width and right alignment differ from the width drawn', demo=D('''	return hist(T1, '''+F+''', OpKern("a", kerns[2]), OpMeasure("Wave 123"), OpText(TextArg{"Wave", 1, 10, 20, 50, 20, pdft.Right, nil}))''',PD)),
dict(id='c10-size', property='C10', edits=[('minigopdf/cache_content_text.go','	textWidthPdfUnit := float64(sumWidth) * (float64(fontSize) / 1000.0)\n','	textWidthPdfUnit := float64(sumWidth*fontSize/10) / 100.0\n')],
 needs='a text whose width is not a whole number of hundredths', breaks='widths are cut to hundredths', demo=D('''	return hist(T1, '''+F+''', OpSet("a", "", 7), OpMeasure("Wave 123"), OpMeasure("x"), OpMeasure("abc"))''')),
dict(id='c10-measure-style', property='C10', edits=[('pdft.go','''	ct.fontSize = i.curr.fontSize
	ct.lineWidth = i.curr.lineWidth
	ct.pageHeight = i.pageHeight(1)''','''	ct.fontSize = i.curr.fontSize
	ct.lineWidth = i.curr.lineWidth
	if ct.fontStyle&Bold == Bold {
		ct.fontSize++
	}
	ct.pageHeight = i.pageHeight(1)''')],
 needs='measuring with a bold style selected', breaks='the measured width is larger than what is drawn', demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "B", 12), OpMeasure("Wave 123"))''')),
dict(id='c12-cache-early', property='C12', edits=[('pdft.go','''		pdfimg = &PDFImageData{}
''','''		pdfimg = &PDFImageData{}
		i.pdfImgsMd5Map[md5Str] = pdfimg
''')],
 needs='the same unreadable image inserted twice through the cache', breaks='the second call reports success and the page draws an image that does not exist', demo=D('''	w, err := Open(T1)
	if err != nil {
		return err
	}
	bad := []byte("not an image")
	if w.P.InsertImgWithCache(bad, 1, 1, 2, 3, 4) == nil {
		return fmt.Errorf("accepted")
	}
	if w.P.InsertImgWithCache(bad, 1, 1, 2, 3, 4) == nil {
		return fmt.Errorf("accepted the second time")
	}
	_, err = SaveVerify(w)
	return err''','fmt')),
dict(id='c12-setfont', property='C12', edits=[('pdft.go','''
	if _, have := i.fontDatas[name]; !have {
		return ErrFontNameNotFound
	}
	i.curr.fontName = name
	i.curr.fontStyle = getConvertedStyle(style)
	i.curr.fontSize = size
	return nil''','''	i.curr.fontSize = size
	i.curr.fontStyle = getConvertedStyle(style)
	if _, have := i.fontDatas[name]; !have {
		return ErrFontNameNotFound
	}
	i.curr.fontName = name
	return nil''')],
 needs='a failed font selection between a good one and a text', breaks='the failed selection changes size and style', demo=D('''	return hist(T1, '''+F+''', OpSet("nope", "U", 40), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c12-smask-err', property='C12', edits=[('pdft.go','''	i.fontDatas[name] = fontData
	return nil
}

// TextriseOverride''','''	i.fontDatas[name] = fontData
	if i.curr.fontName == "" {
		i.curr.fontName = name
	}
	return nil
}

// TextriseOverride''')],
 needs='text without a selected font after a font was added', breaks='a call that must be refused is accepted with size 0', demo=D('''	return hist(T1, OpFont("a", FA), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c13-global-cache', property='C13', edits=[('pdft.go','	i.pdfImgsMd5Map = make(map[string]*PDFImageData)\n','	if i.pdfImgsMd5Map = sharedImgs; i.pdfImgsMd5Map == nil {\n		i.pdfImgsMd5Map = make(map[string]*PDFImageData)\n		sharedImgs = i.pdfImgsMd5Map\n	}\n'),('pdft.go','type current struct {','var sharedImgs map[string]*PDFImageData\n\ntype current struct {')],
 needs='two documents that insert the same image through the cache', breaks='the second document does not contain the image', demo=D('''	im := OpImg("cache", ImJPG, 1, 5, 6, 30, 20)
	return all(hist(T1, im), hist(T2, im))''')),
dict(id='c13-font-share', property='C13', edits=[('pdf_font_data.go','p.font.CharacterToGlyphIndex = gopdf.NewMapOfCharacterToGlyphIndex() //make(map[rune]uint)','p.font.CharacterToGlyphIndex = sharedGlyphs //make(map[rune]uint)'),('pdf_font_data.go','// PDFFontData font data\n','var sharedGlyphs = gopdf.NewMapOfCharacterToGlyphIndex()\n\n// PDFFontData font data\n')],
 needs='two fonts (in one or two documents)', breaks='characters of one font are drawn with the glyph numbers of another', demo=D('''	x := OpText(TextArg{"xyz", 1, 10, 20, 50, 20, 0, nil})
	s := stdSpec(4, 1000)
	s.Glyphs = append(s.Glyphs[:3:3], s.Glyphs[2:]...)
	for r := range s.Map {
		if s.Map[r] > 2 {
			s.Map[r]++
		}
	}
	for i := range s.Glyphs {
		for j := range s.Glyphs[i].Comps {
			s.Glyphs[i].Comps = append(s.Glyphs[i].Comps[:0:0], s.Glyphs[i].Comps...)
			s.Glyphs[i].Comps[j].GID++
		}
	}
	return all(hist(T1, '''+F+''', x), hist(T2, OpFont("a", MkFont("S", s)), OpSet("a", "", 12), x))''')),
dict(id='c14-shortwrite', property='C14', edits=[('pdft.go','''	_, err = buff.WriteTo(w)
	if err != nil {
		return err
	}
	return nil''','''	w.Write(buff.Bytes())
	return nil''')],
 needs='a writer that fails', breaks='the save reports success though the file is incomplete', demo=D('''	w, err := Open(T1)
	if err != nil {
		return err
	}
	if w.P.SaveTo(&failWriter{n: 10}) == nil {
		return fmt.Errorf("failed write reported as success")
	}
	return nil''','fmt')),
dict(id='c14-readshort', property='C14', edits=[('pdf_parse.go','''	raw, err := ioutil.ReadAll(file)
	if err != nil {
		return err
	}
''','''	raw, err := ioutil.ReadAll(file)
	if err != nil && err != io.ErrUnexpectedEOF {
		return err
	}
''')],
 needs='a reader that breaks off with ErrUnexpectedEOF behind the last object', breaks='a truncated template is accepted', demo=D('''	var p pdft.PDFt
	if p.OpenFrom(io.MultiReader(bytes.NewReader(T1.B), iotest.ErrReader(io.ErrUnexpectedEOF))) == nil {
		return fmt.Errorf("the reader's error was dropped")
	}
	return nil''','bytes','fmt','io','testing/iotest',PD)),
dict(id='c15-two-loops', property='C15', edits=[('pdf_data.go','''		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
		pdffontdata.setFontIndex(maxFontIndex)
	}
''','''		pdffontdata.setFontIndex(maxFontIndex)
	}
	maxFontIndex -= len(fontDatas)
	for _, pdffontdata := range fontDatas {
		maxFontIndex++
		newCrFonts.append(maxFontIndex, pdffontdata.fontID)
	}
''')],
 needs='two fonts, and the runtime iterating a map in two different orders', breaks='font names are bound to the wrong font', demo=D('''	for i := 0; i < 60; i++ {
		if err := hist(T1, '''+F+''', OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}), OpFont("b", FB), OpSet("b", "", 12), OpText(TextArg{"y", 1, 10, 50, 50, 20, 0, nil})); err != nil {
			return err
		}
	}
	return nil''')),
dict(id='c16-startobj', property='C16', edits=[('regex.go','var regexpStartObj = regexp.MustCompile("[0-9]+[\\\\n\\\\r\\\\t ]0[\\\\n\\\\r\\\\t ]obj")','var regexpStartObj = regexp.MustCompile("[0-9]+ 0[\\\\n\\\\r\\\\t ]obj")')],
 needs='a template whose object headers are separated by a tab or line end', breaks='such templates are refused', demo=D('''	for _, sep := range []string{" ", "\\t", "\\n", "\\r"} {
		if err := hist(MkTmpl("sep", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false)), HdrSep: sep}).Bytes())); err != nil {
			return err
		}
	}
	return nil''',G)),
dict(id='c16-tabs', property='C16', edits=[('pdf_obj_property_data.go','regexpLine = regexp.MustCompile("[\\\\r\\\\n\\\\t ]+")','regexpLine = regexp.MustCompile("[\\\\r\\\\n ]+")')],
 needs='a template that uses tabs between tokens', breaks='references written with tabs are not understood', demo=D('''	t := &gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false))}
	b := t.Bytes()
	n := bytes.Count(b, []byte(" 0 R"))
	if n == 0 {
		return nil
	}
	b = bytes.ReplaceAll(b, []byte(" 0 R"), []byte("\\t0\\tR"))
	return hist(MkTmpl("tabs", b), '''+F+''', OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''',G,'bytes')),
dict(id='c17-samefont', property='C17', edits=[('render/render.go','''	err := r.SetFont(finfo.Font, "", finfo.Size)
	if err != nil {
		return fmt.Errorf("setFont %s : %w", finfo.Font, err)
	}
''','''	var err error
	if finfo.Font != r.lastFont {
		err = r.SetFont(finfo.Font, "", finfo.Size)
		if err != nil {
			return fmt.Errorf("setFont %s : %w", finfo.Font, err)
		}
		r.lastFont = finfo.Font
	}
'''),('render/render.go','	finfoMap    map[string]FieldInfo\n','	finfoMap    map[string]FieldInfo\n	lastFont    string\n')],
 needs='two fields with the same font and different sizes', breaks='the second text has the size of the first', demo='''package checks

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"

	"github.com/signintech/pdft/render"
)

func Demo() error {
	dir, err := os.MkdirTemp("", "x")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "t.pdf")
	os.WriteFile(p, T1.B, 0644)
	rd, err := render.NewRender(p, render.FieldInfos{{Key: "a", PageNum: 1, X: 1, Y: 2, W: 30, H: 10, Font: "f", Size: 10}, {Key: "b", PageNum: 1, X: 1, Y: 22, W: 30, H: 10, Font: "f", Size: 20}})
	if err != nil {
		return err
	}
	if err := rd.AddFontFrom("f", bytes.NewReader(FA.B)); err != nil {
		return err
	}
	if err := all(rd.Text("a", "x"), rd.Text("b", "y")); err != nil {
		return err
	}
	var out bytes.Buffer
	if err := rd.SaveTo(&out); err != nil {
		return err
	}
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, []Op{OpFont("f", FA), OpSet("f", "", 10), OpText(TextArg{"x", 1, 1, 2, 30, 10, 0, nil}), OpSet("f", "", 20), OpText(TextArg{"y", 1, 1, 22, 30, 10, 0, nil})}); err != nil {
		return err
	}
	if err := Verify(w.M, out.Bytes()); err != nil {
		return fmt.Errorf("render: %w", err)
	}
	return nil
}
'''),
dict(id='c17-wrap-h', property='C17', edits=[('render/render.go','err = r.InsertWrapText(text, finfo.PageNum, finfo.X, finfo.Y, finfo.W, finfo.H, finfo.Align, nil, r.textBreaker)','err = r.InsertWrapText(text, finfo.PageNum, finfo.X, finfo.Y, finfo.W, finfo.H, finfo.Align&^pdft.Middle, nil, r.textBreaker)')],
 needs='a wrapped field aligned to the middle', breaks='the text starts at the top of the field', demo='''package checks

import (
	"bytes"
	"os"
	"path/filepath"

	pdft "github.com/signintech/pdft"
	"github.com/signintech/pdft/render"
	"github.com/signintech/pdft/textbreak"
)

func Demo() error {
	dir, err := os.MkdirTemp("", "x")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "t.pdf")
	os.WriteFile(p, T1.B, 0644)
	rd, err := render.NewRender(p, render.FieldInfos{{Key: "a", PageNum: 1, X: 1, Y: 2, W: 30, H: 10, Font: "f", Size: 10, Align: pdft.Middle, IsWrapText: true}})
	if err != nil {
		return err
	}
	rd.SetTextBreaker(textbreak.BasicTextbreak{})
	if err := rd.AddFontFrom("f", bytes.NewReader(FA.B)); err != nil {
		return err
	}
	if err := rd.Text("a", "some words to wrap"); err != nil {
		return err
	}
	var out bytes.Buffer
	if err := rd.SaveTo(&out); err != nil {
		return err
	}
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, []Op{OpFont("f", FA), OpSet("f", "", 10), OpWrap(TextArg{"some words to wrap", 1, 1, 2, 30, 10, pdft.Middle, nil})}); err != nil {
		return err
	}
	return Verify(w.M, out.Bytes())
}
'''),
dict(id='c18-imgname', property='C18', edits=[('crawl_result_x_object.go','var regSplit = regexp.MustCompile("([a-z A-Z]*)([0-9]*)")','var regSplit = regexp.MustCompile("([a-z A-Z]*)([0-9]?)")')],
 needs='a file with more than nine inserted images used as a template again', breaks='a new image takes the name of an old one', demo=D('''	var ops []Op
	for i := 0; i < 10; i++ {
		ops = append(ops, OpImg("plain", []*ImgFix{ImRGB, ImJPG, ImPal}[i%3], 1, float64(5+i), 6, 30, 20))
	}
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, ops); err != nil {
		return err
	}
	b, err := SaveVerify(w)
	if err != nil {
		return err
	}
	return hist(MkTmpl("gen2", b), OpImg("plain", ImJPGG, 1, 1, 6, 30, 20))''')),
dict(id='c18-fontten', property='C18', edits=[('crawl_result_font.go','		if f.fontIndex > max {','		if f.fontIndex > max && f.fontIndex < 10 {')],
 needs='a template that already has ten numbered fonts, as a file that went through several generations has', breaks='a new font takes the name of an old one', demo=D('''	t := T1
	for g := 0; g < 12; g++ {
		w, err := Open(t)
		if err != nil {
			return err
		}
		if err := RunOps(w, []Op{'''+F+''', OpText(TextArg{"x", 1, 10, float64(20 + g), 50, 20, 0, nil})}); err != nil {
			return err
		}
		b, err := SaveVerify(w)
		if err != nil {
			return fmt.Errorf("generation %d: %w", g+1, err)
		}
		t = MkTmpl("g", b)
	}
	return nil''','fmt')),
dict(id='c11-cycle', property='C11', edits=[('pdf_data.go','''				if _, ok := cw.results[k]; !ok {
					checkedQueue = append(checkedQueue, k)
				}''','''				if k != key {
					checkedQueue = append(checkedQueue, k)
				}''')],
 needs='a page tree in which a node is its own grandchild', breaks='saving never ends', demo=D('''	t := (&gen.Template{Root: &gen.Node{Kids: []*gen.Node{{P: gen.Simple(1, "0 0 200 300")}, {Kids: []*gen.Node{{Kids: []*gen.Node{{P: gen.Simple(2, "0 0 200 300")}}}}}}}}).Bytes()
	// make the innermost node point at the middle one
	done := make(chan bool)
	go func() {
		rewired(t, 12, func(name string, m []byte) { useBytes(m, false, false) })
		close(done)
	}()
	select {
	case <-done:
		return nil
	case <-time.After(60 * time.Second):
		return fmt.Errorf("no end")
	}''','fmt','time',G)),
dict(id='c11-short-png', property='C11', edits=[('minigopdf/image_obj_parse.go','''			_, err = f.Seek(int64(n+4), 1) //skip
			if err != nil {
				return err
			}
		}

	} //end for''','''			_, err = f.Seek(int64(int32(n+4)), 1) //skip
			if err != nil {
				return err
			}
		}

	} //end for''')],
 needs='a PNG with a chunk length of about 4 GB', breaks='the reader goes backwards and never ends', demo=D('''	s := MkPNG("l", pngx.Spec{W: 3, H: 2, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 1, Extra: true}).B
	done := make(chan bool)
	go func() {
		for i := 30; i+8 < len(s); i++ {
			for _, d := range []byte{0xf0, 0xf4, 0xe8} {
				m := append([]byte{}, s...)
				m[i], m[i+1], m[i+2], m[i+3] = 0xff, 0xff, 0xff, d
				useImg(m)
			}
		}
		close(done)
	}()
	select {
	case <-done:
		return nil
	case <-time.After(30 * time.Second):
		return fmt.Errorf("no end")
	}''','fmt','time','verif/pngx')),
]
