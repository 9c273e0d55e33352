def D(body, *imp):
    i='\n\t'.join('%s'%x if ' ' in x else '"%s"'%x for x in imp)
    return 'package checks\n\n'+(f'import (\n\t{i}\n)\n\n' if imp else '')+'func Demo() error {\n'+body+'\n}\n'
GP='gopdf "github.com/signintech/pdft/minigopdf"'
def G(prot, *ops, imp=()):
    return D('''	w := gStart(200, 300, %s)
	for _, o := range []gOp{%s} {
		if err := o.Do(w); err != nil {
			return err
		}
	}
	return w.verify(0)'''%(prot,', '.join(ops)), *imp)
A='gFontOp("a", FA, 0, false)'; B='gFontOp("b", FB, 0, false)'; P='gPageOp(0, 0)'; S='gSet("a", "", 12)'
PR='&Prot{4, []byte("u"), []byte("o")}'
SEEDS=[
dict(id='c05-cache-tail', property='C05', edits=[('pdft.go','md5.Sum(img))','md5.Sum(img[:len(img)-len(img)/64]))')],
 needs='two large images inserted through the cache that differ near the end only', breaks='the first image is shown in place of the second', demo=D('''	sp := pngx.Spec{W: 64, H: 40, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 7, Store: true}
	a := MkPNG("a", sp)
	sp.Flip = 64 * 40 * 3
	return hist(T1, OpImg("cache", a, 1, 5, 6, 30, 20), OpImg("cache", MkPNG("b", sp), 1, 50, 6, 30, 20))''','verif/pngx')),
dict(id='c05-smask-many', property='C05', edits=[('pdft.go','		smaskObjID := i.pdf.putNewObject(pdfObj)\n		imgObj.SetSMaskObjID(smaskObjID)\n	}\n\n	err = pdfimg','		smaskObjID := i.pdf.putNewObject(pdfObj)\n		imgObj.SetSMaskObjID(smaskObjID)\n		if len(i.pdfImgs) > 10 {\n			imgObj.SetSMaskObjID(smaskObjID - 1)\n		}\n	}\n\n	err = pdfimg')],
 needs='an image with an alpha channel inserted after more than ten others, by one of the ways to insert it', breaks='its soft mask is another object', demo=D('''	for _, how := range []string{"plain", "b64", "cache"} {
		var ops []Op
		for i := 0; i < 14; i++ {
			ops = append(ops, OpImg(how, []*ImgFix{ImRGBA, ImRGB, ImGA}[i%3], 1, float64(5+i), 6, 30, 20))
		}
		if err := hist(T1, ops...); err != nil {
			return err
		}
	}
	return nil''')),
dict(id='c03-rise-long', property='C03', edits=[('minigopdf/cache_content_text.go','		if f.funcTextriseOverride != nil {\n			//','		if f.funcTextriseOverride != nil && (runeIndex > 0 || len(text) < 40) {\n			//')],
 needs='a text of 40 bytes or more with text rise at its first character', breaks='the first character is not raised', demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpRise("a", rises[1]), OpText(TextArg{"abc def01Wxabc def01Wxabc def01Wxabc def01Wx", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c03-kern-saved', property='C03', edits=[('pdft.go','func (i *PDFt) KernOverride(name string, fn FuncKernOverride) error {\n	if _, have := i.fontDatas[name]; !have {\n		return ErrFontNameNotFound\n	}\n','func (i *PDFt) KernOverride(name string, fn FuncKernOverride) error {\n	if _, have := i.fontDatas[name]; !have {\n		return ErrFontNameNotFound\n	}\n	if i.fontDatas[name].fontID != 0 { //built already\n		return nil\n	}\n')],
 needs='a kern override given after the document was saved once', breaks='the override is ignored', demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"ab", 1, 10, 20, 50, 20, 0, nil}), OpSave(), OpKern("a", kerns[1]), OpText(TextArg{"ba", 1, 10, 60, 50, 20, 0, nil}))''')),
dict(id='c04-samefile', property='C04', edits=[('pdft.go','	fontData, err := PDFParseFont(ttfpath, name)\n','	for _, fd := range i.fontDatas {\n		if fd.path == ttfpath && fd.fontID == 0 { //file is parsed already\n			cp := *fd\n			cp.setFontName(name)\n			i.fontDatas[name] = &cp\n			return nil\n		}\n	}\n	fontData, err := PDFParseFont(ttfpath, name)\n	if err == nil {\n		fontData.path = ttfpath\n	}\n'),('pdf_font_data.go','	fontindex int\n','	fontindex int\n	path      string\n')],
 needs='one font file added under two names, with an override for one of them, or replaced in between', breaks='the second font is the first one', demo=D('''	dir, err := os.MkdirTemp("", "font")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "f.ttf")
	w, err := Open(T1)
	if err != nil {
		return err
	}
	for _, n := range []string{"a", "b"} {
		f := map[string]*FontFix{"a": FA, "b": FB}[n]
		os.WriteFile(p, f.B, 0600)
		if err := w.P.AddFont(n, p); err != nil {
			return err
		}
		w.M.Fonts[n] = &MFont{Fix: f, Used: map[rune]bool{}}
		w.M.Order = append(w.M.Order, n)
		if err := RunOps(w, []Op{OpSet(n, "", 9), OpText(TextArg{"AV", 1, 10, 20, 50, 20, 0, nil})}); err != nil {
			return err
		}
	}
	_, err = SaveVerify(w)
	return err''','os','path/filepath')),
dict(id='c04-loca-wrap', property='C04', edits=[('minigopdf/pdf_dictionary_obj.go','				val := locaTable[idx] / 2\n','				val := (locaTable[idx] & 0xFFFF) / 2 //offset is 16 bits\n')],
 needs='a font with a short loca table of which the used glyphs take more than 64 KB', breaks='glyphs behind the first 64 KB have other outlines', demo=D('''	s := ttfx.Spec{UPM: 1000, Map: map[rune]int{}, Name: "heavy", TypoAsc: 800, TypoDesc: -200, UPos: -100, UThk: 50, OS2V: 3, HAsc: 900, HDesc: -300, Pad: 2}
	s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 500, Seed: 1}, ttfx.GSpec{Adv: 250, Empty: true})
	var all []rune
	for i := 2; i < 200; i++ {
		s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 200 + i*7%600, Seed: i, Points: 126})
		s.Map[bigRune(i)] = i
		all = append(all, bigRune(i))
	}
	return hist(T1, OpFont("f", MkFont("heavy", s)), OpSet("f", "", 9), OpText(TextArg{string(all), 1, 10, 20, 50, 20, 0, nil}))''','verif/ttfx')),
dict(id='c02-kids-queue', property='C02', edits=[('pdf_data.go','				if _, ok := cw.results[k]; !ok {\n','				if _, ok := cw.results[k]; !ok && len(checkedQueue) < 64 {\n')],
 needs='a document with more than 64 pages beside page tree nodes of several levels', breaks='pages deep down lose their fonts or do not get new ones', demo=D('''	pg := func(k int) *gen.Node { return &gen.Node{P: gen.Simple(k, fmt.Sprintf("0 0 %d %d", 200+k, 300+k))} }
	w := &gen.Node{Kids: []*gen.Node{{Kids: []*gen.Node{pg(1), {Kids: []*gen.Node{{Kids: []*gen.Node{pg(2), pg(3)}}}}}}}}
	for k := 4; k < 140; k++ {
		w.Kids = append(w.Kids, pg(k))
	}
	for i := 0; i < 3; i++ {
		if err := hist(MkTmpl("queue", (&gen.Template{Root: w}).Bytes()), OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"ab", 3, 10, 20, 50, 20, 0, nil}), OpImg("plain", ImRGB, 2, 5, 6, 30, 20)); err != nil {
			return err
		}
	}
	return nil''','fmt','verif/gen')),
dict(id='c02-fontdict-100', property='C02', edits=[('pdf_data.go','			crFonts = append(crFonts, newCrFonts...)\n			objMustReplaces[fontObjID] = crFonts.String()','			if len(crFonts) < 100 {\n				crFonts = append(crFonts, newCrFonts...)\n			}\n			objMustReplaces[fontObjID] = crFonts.String()')],
 needs='a page with a referenced font dictionary of 100 fonts or more', breaks='fonts added are not in the resources of the page', demo=D('''	p := &gen.Page{Box: "0 0 200 300", Res: "own", FontAt: "ref", XAt: "inline"}
	for k := 1; k <= 120; k++ {
		p.Fonts = append(p.Fonts, fmt.Sprint("F", k))
	}
	p.Streams = []string{gen.Content(1, "F7", "")}
	return hist(MkTmpl("fonts", (&gen.Template{Root: gen.Flat(p)}).Bytes()), OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"ab", 1, 10, 20, 50, 20, 0, nil}))''','fmt','verif/gen')),
]
