def D(body, *imp):
    i='\n\t'.join('%s'%x if ' ' in x else '"%s"'%x for x in imp)
    return 'package checks\n\n'+(f'import (\n\t{i}\n)\n\n' if imp else '')+'func Demo() error {\n'+body+'\n}\n'
GP='gopdf "github.com/signintech/pdft/minigopdf"'
def G(prot, *ops, imp=()):
    return D('''	w := gStart(200, 300, %s)
	for _, o := range []gOp{%s} {
		if err := o.Do(w); err != nil {
			return err
		}
	}
	return w.verify(0)'''%(prot,', '.join(ops)), *imp)
A='gFontOp("a", FA, 0, false)'; B='gFontOp("b", FB, 0, false)'; P='gPageOp(0, 0)'; S='gSet("a", "", 12)'
PR='&Prot{4, []byte("u"), []byte("o")}'
SEEDS=[
dict(id='c19-curve-page', property='C19', edits=[('minigopdf/content_obj.go','	var cache cacheContentCurve\n	cache.pageHeight = c.getRoot().curr.pageSize.H\n','	var cache cacheContentCurve\n	cache.pageHeight = c.getRoot().config.PageSize.H\n')],
 needs='a curve on a page with a size of its own', breaks='the curve is placed as on a page of the default height', demo=G('nil',P,'gPageOp(99, 77)','gCurve([8]float64{1, 2, 3, 4, 5, 6, 7, 8}, "F")')),
dict(id='c19-merge-font', property='C19', edits=[('minigopdf/cache_content_text.go','		c.fontCountIndex == cache.fontCountIndex &&\n','')],
 needs='two texts in a row in different fonts of the same size and style, without a new position between them', breaks='the second text is drawn in the font of the first', demo=G('nil',A,B,P,S,'gText("ab")','gSet("b", "", 12)','gText("e")')),
dict(id='c19-merge-style', property='C19', edits=[('minigopdf/cache_content_text.go','		c.fontStyle == cache.fontStyle &&\n','		c.fontStyle|Underline == cache.fontStyle|Underline &&\n')],
 needs='a text that goes on where the last one ended, in the same font, underlined while the last one is not', breaks='the second text is not underlined', demo=G('nil',A,P,S,'gText("ab")','gSet("a", "U", 12)','gText("cd")')),
dict(id='c19-kern-em', property='C19', edits=[('minigopdf/content_obj.go','		ret = (n/upem)*1000 + ((n%upem)*1000)/upem','		ret = ((n % upem) * 1000) / upem')],
 needs='a kerning pair of one em or more', breaks='the pair is not kerned', demo=G('nil','gFontOp("k", fontK, 0, true)',P,'gSet("k", "", 12)','gText("aW")')),
dict(id='c19-br-margin', property='C19', edits=[('minigopdf/gopdf.go','	gp.curr.Y += h\n	gp.curr.X = gp.leftMargin','	x := gp.curr.X\n	gp.resetCurrXY()\n	if x != gp.curr.X || h != 0 {\n		gp.curr.X = 10\n	}\n	gp.curr.Y += h - gp.topMargin')],
 needs='a line break after another left margin was set or not at the top of the page', breaks='the next line does not start at the left margin', demo=G('nil',A,'gMargins(25, 35.5)',P,S,'gText("a")','gBr(12)','gText("b")')),
dict(id='c19-cell-middle', property='C19', edits=[('minigopdf/cache_content_text.go','c.cellHeightPdfUnit*0.5 - (c.calTypoDescender()+c.calTypoAscender())*0.5','c.cellHeightPdfUnit*0.5 - (c.calTypoAscender()-c.calTypoDescender())*0.5')],
 needs='a cell aligned to the middle', breaks='the text is too low by the descender', demo=G('nil',A,P,S,'gCell("ab", &gopdf.Rect{W: 40, H: 50}, &gopdf.CellOption{Align: gopdf.Middle})',imp=(GP,))),
dict(id='c20-image-id', property='C20', edits=[('minigopdf/image_holder.go','	h := md5.New()\n	_, err = h.Write(b)\n','	h := md5.New()\n	head := b\n	if len(head) > 40 { //header of the image\n		head = head[:33]\n	}\n	_, err = h.Write(head)\n')],
 needs='two images given by reader that agree in their first bytes', breaks='the first image is shown in place of the second', demo=G('nil',P,'gImage(MkPNG("a", pngx.Spec{W: 30, H: 20, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 1}), "reader", 1, 2, nil)','gImage(MkPNG("b", pngx.Spec{W: 30, H: 20, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 2}), "reader", 1, 2, nil)',imp=('verif/pngx',))),
dict(id='c20-smask-plain', property='C20', edits=[('minigopdf/image_obj.go','	smk.setProtection(i.protection())\n	smk.w','	if i.imginfo.w > 1 {\n		smk.setProtection(i.protection())\n	}\n	smk.w')],
 needs='a protected document with an image with alpha channel, one pixel wide', breaks='its mask is not encrypted', demo=G(PR,P,'gImage(MkPNG("a", pngx.Spec{W: 1, H: 9, CT: 6, BPC: 8, IDATs: 1, TRNS: -1, Seed: 1}), "reader", 1, 2, nil)',imp=('verif/pngx',))),
dict(id='c20-read-twice', property='C20', edits=[('minigopdf/gopdf.go','	if gp.buf.Len() == 0 && gp.buf.Cap() == 0 {','	if gp.buf.Len() == 0 {')],
 needs='a reader that reads until the end of the file', breaks='the document starts again instead of ending', demo=D('''	w := gStart(200, 300, nil)
	if err := gPageOp(0, 0).Do(w); err != nil {
		return err
	}
	return w.verify(3)''')),
dict(id='c20-perm', property='C20', edits=[('minigopdf/pdf_protection.go','	p.pValue = -((protection ^ 255) + 1)','	p.pValue = -((protection ^ 255) + 1)\n	if protection&PermissionsCopy != 0 {\n		p.pValue |= PermissionsCopy\n	} else if len(userPass) > 64 {\n		p.pValue = -1\n	}')],
 needs='a user password of more than 32 bytes and a document whose content may not be copied', breaks='the file grants all permissions and cannot be opened', demo=G('&Prot{4, bytes.Repeat([]byte("x"), 33), []byte("o")}',P,'gLine(1, 2, 3, 4)',imp=('bytes',))),
dict(id='c20-level', property='C20', edits=[('minigopdf/content_obj.go','	isFlate := (c.getRoot().compressLevel != zlib.NoCompression)','	isFlate := (c.getRoot().compressLevel > zlib.NoCompression || c.getRoot().compressLevel == zlib.DefaultCompression)')],
 needs='compression level -2', breaks='nothing', demo=''),
]
SEEDS.pop()
def F(font, cp="lat", via="api", extra=""):
    return D('''	lat := fmLatin()
	c := &fmCase{spec: %s, file: "font.ttf", enc: "cp874", cp: %s, ref: lat, via: "%s"}
	%s
	return fmDemo(c)'''%(font,cp,via,extra))
FM='minigopdf/fontmaker/core/fontmaker.go'
SEEDS+=[
dict(id='c21-round-neg', property='C21', edits=[('minigopdf/fontmaker/core/math.go','		value -= 0.5','		value = value - 0.5 + 1')],
 needs='a negative metric of a font, in units other than 1000 per em', breaks='it is off by one', demo=F('stdSpec(4, 2048)')),
dict(id='c21-gid-wrap', property='C21', edits=[('minigopdf/fontmaker/core/ttfparser.go','				if gid > 0 {\n					gid += d\n				}','				if gid > 0 && d < 0x8000 {\n					gid += d\n				}')],
 needs='a font whose segment has both a glyph array and a negative delta', breaks='characters of the segment have the width of another glyph', demo=''),
dict(id='c21-missing-silent', property='C21', edits=[(FM,'		if fontmaps[c].Name != ".notdef" {\n			uv','		if fontmaps[c].Name != ".notdef" && (c > 31 || fontmaps[c].Uv < 128) {\n			uv')],
 needs='a code page with a character outside of ASCII at a control code', breaks='the code has the width of the missing glyph and a missing character is not reported', demo=F('stdSpec(1, 1000)','lat.with(7, 0x4E00, "farx")')),
dict(id='c21-results', property='C21', edits=[(FM,'	c = 0 //reset\n	for c < max {\n		if','	c = 0 //reset\n	seen := map[int]bool{}\n	for c < max {\n		if'),(FM,'			uv := fontmaps[c].Uv\n			if val','			uv := fontmaps[c].Uv\n			if seen[uv] {\n				c++\n				continue\n			}\n			seen[uv] = true\n			if val')],
 needs='a code page in which two codes stand for the same character', breaks='the second code has the width of the missing glyph', demo=F('stdSpec(1, 1000)','lat.with(200, 65, "againx")')),
dict(id='c21-diff-run', property='C21', edits=[(FM,"			last = c\n			s +=","			if fontmaps[c].Name != \".notdef\" || last != c-1 {\n				last = c\n			}\n			s +=")],
 needs='a code page that drops a code in a run of differences', breaks='nothing', demo=''),
dict(id='c21-diff-notdef', property='C21', edits=[(FM,"		if fontmaps[c].Name != ref[c].Name {","		if fontmaps[c].Name != ref[c].Name && fontmaps[c].Uv >= 0 {")],
 needs='a code page that lacks a code of cp1252', breaks='the code keeps the character of cp1252', demo=F('stdSpec(1, 1000)','lat.with(200, 0, "")')),
dict(id='c21-zclose', property='C21', edits=[(FM,'	gzipwriter.Close()\n','	if buff.Len() < len(fontbytes) {\n		gzipwriter.Flush()\n	} else {\n		gzipwriter.Close()\n	}\n')],
 needs='any font that compresses (the compressed stream is not ended)', breaks='the stored font cannot be read to its end', demo=F('stdSpec(1, 1000)')),
]
SEEDS+=[
dict(id='c13-draw-scratch', property='C13', edits=[('minigopdf/procset_obj.go','		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))\n		i++\n	}\n','		xobjBuff.WriteString(fmt.Sprintf("/I%d %d 0 R\\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))\n		i++\n	}\n	pr.buffer.Write(xobjBuff.Bytes())\n'),('minigopdf/procset_obj.go','	max = len(pr.RealteXobjs)\n','	max = len(pr.RealteXobjs)\n	xobjBuff.Reset()\n'),('minigopdf/procset_obj.go','type RelateFonts []RelateFont\n','//xobjBuff is reused, there can be many images\nvar xobjBuff bytes.Buffer\n\ntype RelateFonts []RelateFont\n')],
 needs='two goroutines that write a drawn document with images each at the same time', breaks='images of one document are listed in the other', demo=D('''	errs := make(chan error, 8)
	for g := 0; g < 8; g++ {
		g := g
		go func() {
			errs <- mc.Guard(func() error {
				for i := 0; i < 1500; i++ {
					w := gStart(200, 300, nil)
					ops := []gOp{gPageOp(0, 0)}
					for k := 0; k <= g%4; k++ {
						ops = append(ops, gImage(tinyImgs[k], "bytes", 3, 4, nil))
					}
					for _, o := range ops {
						if err := o.Do(w); err != nil {
							return err
						}
					}
					if err := w.verify(0); err != nil {
						return err
					}
				}
				return nil
			})
		}()
	}
	var err error
	for g := 0; g < 8; g++ {
		if e := <-errs; e != nil {
			err = e
		}
	}
	return err''','verif/mc')),
]
SEEDS+=[
dict(id='c08-owner-user', property='C08', edits=[('minigopdf/pdf_protection.go','		ownerPass = p.randomPass(24)','		ownerPass = p.randomPass(len(userPass))')],
 needs='protection without an owner password and with an empty user password', breaks='the empty password opens the file as owner, with all permissions', demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpProt(4, []byte(""), nil), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c19-kernoverride', property='C19', edits=[('minigopdf/gopdf.go','				if sub.GetFamily() == family {\n					sub.funcKernOverride = fn','				if sub.GetFamily() == family {\n					if sub.funcKernOverride == nil {\n						sub.funcKernOverride = fn\n					}')],
 needs='a second kern override for a font', breaks='the first override stays in force', demo=G('nil','gFontOp("a", FA, 0, true)',P,S,'gKern("a", "zero")','gText("ab")','gKern("a", "big")','gText("ab")')),
dict(id='c19-underline-h', property='C19', edits=[('minigopdf/cache_content_text.go','	h := c.pageHeight()\n	ut','	h := float64(int(c.pageHeight()))\n	ut')],
 needs='an underlined text on a page of which the height is no whole number', breaks='the underline is too low', demo=G('nil',A,'gPageOp(200, 111.5)','gSet("a", "U", 12)','gText("ab")')),
dict(id='c20-info-stale', property='C20', edits=[('minigopdf/gopdf.go','	gp.info = &info\n','	if gp.info != nil && info.Producer == "" {\n		info.Producer = gp.info.Producer\n	}\n	gp.info = &info\n')],
 needs='document information given twice, the second time without a producer', breaks='the producer given before stays', demo=G('nil',P,'gInfo(gopdf.PdfInfo{Title: "a", Producer: "p"})','gInfo(gopdf.PdfInfo{Title: "b"})',imp=(GP,))),
dict(id='c20-imgcache', property='C20', edits=[('minigopdf/gopdf.go','	for _, imgcache := range gp.curr.ImgCaches {','	caches := gp.curr.ImgCaches\n	if len(caches) > 32 {\n		caches = caches[len(caches)-32:]\n	}\n	for _, imgcache := range caches {')],
 needs='an image drawn again after more than 32 others', breaks='it is stored twice', demo=D('''	w := gStart(200, 300, nil)
	ops := []gOp{gPageOp(0, 0)}
	for i := 0; i < 40; i++ {
		ops = append(ops, gImage(MkPNG(fmt.Sprintf("many%d", i), pngx.Spec{W: 1 + i%5, H: 1 + i/5, CT: 2, BPC: 8, IDATs: 1, TRNS: -1, Seed: 100 + i}), "bytes", 3, 4, nil))
	}
	ops = append(ops, ops[1])
	for _, o := range ops {
		if err := o.Do(w); err != nil {
			return err
		}
	}
	return w.verify(0)''','fmt','verif/pngx')),
]
SEEDS=[s for s in SEEDS if s['demo']]
