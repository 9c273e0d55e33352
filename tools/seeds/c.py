def D(body, *imp):
    i='\n\t'.join('%s'%x if ' ' in x else '"%s"'%x for x in imp)
    return 'package checks\n\n'+(f'import (\n\t{i}\n)\n\n' if imp else '')+'func Demo() error {\n'+body+'\n}\n'
PD='pdft "github.com/signintech/pdft"'
G='verif/gen'
F='OpFont("a", FA), OpSet("a", "", 12)'
X='OpText(TextArg{"Hé", 1, 10, 20, 50, 20, 0, nil})'
SEEDS=[
dict(id='c13-scratch', property='C13', edits=[('pdf_obj_property_data.go','	var data bytes.Buffer\n	data.WriteString("[")\n	for i := range values {\n		data.WriteString(fmt.Sprintf("%d %d R ", values[i], revisions[i]))\n	}\n	data.WriteString("]")\n	p.rawVal = data.String()\n}','	arrBuff.Reset()\n	arrBuff.WriteString("[")\n	for i := range values {\n		arrBuff.WriteString(fmt.Sprintf("%d %d R ", values[i], revisions[i]))\n	}\n	arrBuff.WriteString("]")\n	p.rawVal = arrBuff.String()\n}\n\nvar arrBuff bytes.Buffer //reused, arrays can be long')],
 needs='two goroutines, a document each, that edit pages or save at the same time', breaks='a page tree or contents array of one document gets entries of the other', demo=D('''	errs := make(chan error, 8)
	for g := 0; g < 8; g++ {
		g := g
		go func() {
			errs <- mc.Guard(func() error {
				for i := 0; i < 1500; i++ {
					if err := hist([]*Tmpl{T2, T3}[g%2], OpDup(1, 0), OpRm(1)); err != nil {
						return err
					}
				}
				return nil
			})
		}()
	}
	var err error
	for g := 0; g < 8; g++ {
		if e := <-errs; e != nil {
			err = e
		}
	}
	return err''','verif/mc')),
dict(id='c13-scratch-fonts', property='C13', edits=[('crawl_result_font.go','func (c *crawlResultFonts) String() string {\n	var buff bytes.Buffer\n','var fontsBuff = new(bytes.Buffer)\n\nfunc (c *crawlResultFonts) String() string {\n	buff := fontsBuff\n	buff.Reset()\n')],
 needs='two goroutines that save a document with an added font each at the same time', breaks='the font resources of one document are written into the other', demo=D('''	errs := make(chan error, 8)
	for g := 0; g < 8; g++ {
		g := g
		go func() {
			errs <- mc.Guard(func() error {
				for i := 0; i < 1500; i++ {
					if err := hist([]*Tmpl{T2, T3}[g%2], OpFont("a", tinyFont), OpSet("a", "", 9), OpText(TextArg{"ab", 1, 10, 20, 50, 20, 0, nil})); err != nil {
						return err
					}
				}
				return nil
			})
		}()
	}
	var err error
	for g := 0; g < 8; g++ {
		if e := <-errs; e != nil {
			err = e
		}
	}
	return err''','verif/mc')),
dict(id='c04-forty', property='C04', edits=[('minigopdf/pdf_dictionary_obj.go','		if (flags & MORE_COMPONENTS) == 0 {\n			return','		if (flags&MORE_COMPONENTS) == 0 || len(*glyphArray) > 40 {\n			return')],
 needs='more than forty different glyphs in use, then a composite one', breaks='the second and later components of the composite glyph are missing in the embedded font', demo=D('''	s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "Many", OS2V: 2, HAsc: 900, HDesc: -300}
	txt := ""
	for i := 0; i < 60; i++ {
		s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 300 + i, Seed: i})
		if i > 0 && i < 50 {
			s.Map[rune(0x4E00+i)] = i
			txt += string(rune(0x4E00 + i))
		}
	}
	s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 700, Comps: []ttfx.CompSpec{{GID: 55}, {GID: 56}, {GID: 57}}})
	s.Map['A'] = 60
	f := MkFont("many", s)
	return hist(T1, OpFont("a", f), OpSet("a", "", 12), OpText(TextArg{txt + "A", 1, 10, 20, 50, 20, 0, nil}))''','verif/ttfx')),
dict(id='c04-scale-skip', property='C04', edits=[('minigopdf/pdf_dictionary_obj.go','		if (flags & WE_HAVE_A_SCALE) != 0 {\n			offsetAppend += 2','		if (flags&WE_HAVE_A_SCALE) != 0 && (flags&ARG_1_AND_2_ARE_WORDS) == 0 {\n			offsetAppend += 2')],
 needs='a composite glyph whose first component has word arguments and a single scale', breaks='the next component is read at the wrong place and is missing in the embedded font', demo=D('''	s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "Sc", OS2V: 2, HAsc: 900, HDesc: -300}
	for i := 0; i < 6; i++ {
		s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 300 + i, Seed: i})
	}
	s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 700, Comps: []ttfx.CompSpec{{GID: 3, Words: true, Scale: 1}, {GID: 4}}})
	s.Map['A'] = 6
	return hist(T1, OpFont("a", MkFont("sc", s)), OpSet("a", "", 12), OpText(TextArg{"A", 1, 10, 20, 50, 20, 0, nil}))''','verif/ttfx')),
dict(id='c04-range-shift', property='C04', edits=[('minigopdf/pdf_dictionary_obj.go','	WriteUInt16(&buff, (uint(tableCount)-(1<<uint(selector)))*16)','	WriteUInt16(&buff, uint(tableCount)*16-(1<<uint(selector)))')],
 needs='a reader that uses the search fields of the font header', breaks='the embedded font program has a wrong header', demo=D('''	return hist(T1, '''+F+','+X+')')),
dict(id='c05-deep-alpha', property='C05', edits=[('minigopdf/image_obj_parse.go','	if bpc[0] > 8 {','	if bpc[0] > 16 {')],
 needs='a PNG with 16 bits per sample and an alpha channel', breaks='instead of being refused the image is drawn with its colour and alpha bytes mixed up', demo=D('''	im := MkPNG("deep", pngx.Spec{W: 3, H: 2, CT: 6, BPC: 16, Filter: 1, IDATs: 1, TRNS: -1, Seed: 3})
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, []Op{OpImg("plain", im, 1, 5, 6, 30, 20)}); err != nil {
		return nil // refused
	}
	_, err = SaveVerify(w)
	return err''','verif/pngx')),
dict(id='c05-idat-one', property='C05', edits=[('minigopdf/image_obj_parse.go','			data = append(data, d...)\n			_, err','			if len(data) == 0 || len(d) > 1 {\n				data = append(data, d...)\n			}\n			_, err')],
 needs='a PNG whose data is split so that a later chunk has a single byte', breaks='a byte of the compressed data is lost', demo=D('''	return hist(T1, OpImg("plain", MkPNG("parts", pngx.Spec{W: 3, H: 2, CT: 2, BPC: 8, Filter: 5, TRNS: -1, Seed: 1, Parts: []int{7, 1, 3}}), 1, 5, 6, 30, 20))''','verif/pngx')),
dict(id='c09-dash', property='C09', edits=[('textbreak/basic_textbreak.go',"		if ru == ' ' {","		if ru == ' ' || ru == '-' {")],
 needs='wrapped text with a hyphen at the place where a line ends', breaks='a word is broken where the breaker promises not to', demo=D('''	toks, err := (&textbreak.BasicTextbreak{}).BreakTextToToken("ab-cd ef")
	if err != nil || len(toks) != 3 || toks[0] != "ab-cd" {
		return fmt.Errorf("tokens %q %v", toks, err)
	}
	return nil''','fmt','github.com/signintech/pdft/textbreak')),
dict(id='c17-size0', property='C17', edits=[('render/render.go','	err := r.SetFont(finfo.Font, "", finfo.Size)','	if finfo.Size < 5 {\n		finfo.Size = 5 //not readable\n	}\n	err := r.SetFont(finfo.Font, "", finfo.Size)')],
 needs='a field with a font size below 5', breaks='the field is drawn larger than asked and may leave its box', demo='''package checks

import (
	"bytes"
	"os"
	"path/filepath"

	"github.com/signintech/pdft/render"
)

func Demo() error {
	dir, err := os.MkdirTemp("", "x")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "t.pdf")
	os.WriteFile(p, T1.B, 0644)
	rd, err := render.NewRender(p, render.FieldInfos{{Key: "a", PageNum: 1, X: 1, Y: 2, W: 30, H: 10, Font: "f", Size: 3, Align: 0}})
	if err != nil {
		return err
	}
	if err := rd.AddFontFrom("f", bytes.NewReader(FA.B)); err != nil {
		return err
	}
	if err := rd.Text("a", "some words to wrap"); err != nil {
		return err
	}
	var out bytes.Buffer
	if err := rd.SaveTo(&out); err != nil {
		return err
	}
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, []Op{OpFont("f", FA), OpSet("f", "", 3), OpText(TextArg{"some words to wrap", 1, 1, 2, 30, 10, 0, nil})}); err != nil {
		return err
	}
	return Verify(w.M, out.Bytes())
}
'''),
dict(id='c12-font-fail', property='C12', edits=[('pdft.go','	fontData, err := PDFParseFontReader(reader, name)\n	if err != nil {\n		return err\n	}\n','	i.curr.fontName = name\n	fontData, err := PDFParseFontReader(reader, name)\n	if err != nil {\n		return err\n	}\n')],
 needs='a font that cannot be read, added after another font was selected; the next text', breaks='after the failed call the selected font is another one', demo=D('''	return hist(T1, '''+F+''', failures()[1], '''+X+')')),
dict(id='c07-dict-once', property='C07', edits=[('pdf_font_data.go','	err = p.dictionary.Build(p.dictionaryID)\n	if err != nil {\n		return 0, err\n	}\n','	if n := len(p.font.CharacterToGlyphIndex.AllKeys()); p.dictionary.GetObjBuff().Len() == 0 || n > p.built+1 {\n		p.dictionary.GetObjBuff().Reset()\n		err = p.dictionary.Build(p.dictionaryID)\n		if err != nil {\n			return 0, err\n		}\n		p.built = n\n	}\n'),('pdf_font_data.go','	p.dictionary.GetObjBuff().Reset()\n\n','\n'),('pdf_font_data.go','	fontindex int\n','	fontindex int\n	built     int //characters in dictionary\n')],
 needs='a document saved, then a text with exactly one new character added, and saved again', breaks='the later file depends on the earlier save: the new glyph is not in the embedded font', demo=D('''	return hist(T1, '''+F+','+X+''', OpSave(), OpText(TextArg{"x", 1, 10, 40, 50, 20, 0, nil}))''')),
dict(id='c02-font-ref', property='C02', edits=[('pdf_data.go','		if maxFontIndex > max {\n','		if maxFontIndex > max && fontPropValType == object {\n')],
 needs='a template whose font resources are an indirect dictionary with names like the generated ones', breaks='the added font takes the name of a font of the template', demo=D('''	p := gen.Simple(1, "0 0 200 300")
	p.Fonts, p.FontAt = []string{"F1", "F2", "F3"}, "ref"
	p.Streams = []string{gen.Content(1, "F2", "")}
	return hist(MkTmpl("fr", (&gen.Template{Root: gen.Flat(p)}).Bytes()), '''+F+','+X+')',G)),
dict(id='c03-rise-bytes', property='C03', edits=[('minigopdf/cache_content_text.go','leftRuneIndex, glyphindex, fontSize, text, runeIndex)\n			out','leftRuneIndex, glyphindex, fontSize, text, i)\n			out')],
 needs='a rise override that uses the position of the character, and text with a character of several bytes', breaks='the override is given byte offsets instead of character positions', demo=D('''	f := rises[len(rises)-1]
	for _, x := range rises {
		if err := hist(T1, OpFont("a", FA), OpRise("a", x), OpSet("a", "", 12), OpText(TextArg{"éaéb", 1, 10, 20, 50, 20, 0, nil})); err != nil {
			return err
		}
	}
	_ = f
	return nil''')),
]
