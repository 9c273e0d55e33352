H='package checks\n\nimport (\n\t%s\n)\n\n'
def D(body, *imp):
    i='\n\t'.join('%s'%x if x.startswith('_') or ' ' in x else '"%s"'%x for x in imp)
    return 'package checks\n\n'+(f'import (\n\t{i}\n)\n\n' if imp else '')+'func Demo() error {\n'+body+'\n}\n'
PD='pdft "github.com/signintech/pdft"'
G='verif/gen'
SEEDS=[
dict(id='c01-size-gaps', property='C01', edits=[('pdft.go','buff.WriteString(fmt.Sprintf("/Size %d\\n", size+1))','buff.WriteString(fmt.Sprintf("/Size %d\\n", len(linelens)+1))')],
 needs='a template whose object numbers have gaps (free entries)', breaks='trailer /Size counts the objects instead of being one more than the highest number, so readers treat the objects beyond it as missing',
 demo=D('''	t := MkTmpl("gap", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false)), Gaps: 3}).Bytes())
	return hist(t)''',G)),
dict(id='c01-newid-len', property='C01', edits=[('pdf_data.go','newObjID := p.maxID() + 1','newObjID := p.Len() + 1')],
 needs='a template whose object numbers have gaps and an image with transparency (or a page copy)', breaks='new objects get the number of an existing object',
 demo=D("""	t := MkTmpl("gap", (&gen.Template{Root: gen.Flat(simplePage(1, "0 0 200 300", false)), Gaps: 3}).Bytes())
	return all(hist(t, OpImg("plain", ImRGBA, 1, 5, 6, 30, 20)), hist(t, OpDup(1, 0)), hist(TN, OpDup(2, 1)))""",G)),
dict(id='c01-startid', property='C01', edits=[('pdf_font_data.go','newMaxID := p.dictionaryID','newMaxID := p.fontDescID')],
 needs='a font and an image, or two fonts, in one document', breaks='the number returned after building a font is one too low, so the next font or image takes the number of the embedded font program',
 demo=D('''	return all(hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}), OpImg("plain", ImJPG, 1, 5, 6, 30, 20)))''')),
dict(id='c02-no-newline', property='C02', edits=[('pdf_data.go','''				stm.WriteString("\\n")
				pageBuffs''','''				pageBuffs''')],
 needs='a template content stream that does not end in white space, and text on that page', breaks='the last token of the template content and the first added token melt into one',
 demo=D('''	t := MkTmpl("nn", (&gen.Template{Root: gen.Flat(simplePage(2, "0 0 200 300", false), &gen.Page{Box: "0 0 200 300", Streams: []string{"q 1 0 0 1 3 4 cm 0 0 5 5 re f Q"}, Res: "own", Fonts: []string{"F1"}, FontAt: "inline"})}).Bytes())
	return hist(t, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"x", 2, 10, 20, 50, 20, 0, nil}))''',G)),
dict(id='c02-fontmax-first', property='C02', edits=[('pdf_data.go','''		if maxFontIndex > max {
			max = maxFontIndex
		}
	}

	return max, nil''','''		if max == 0 {
			max = maxFontIndex
		}
	}

	return max, nil''')],
 needs='a template with several resource dictionaries with different font numbers', breaks='the name of an added font can be one a page of the template uses, depending on which dictionary is met first',
 demo=D('''	for i := 0; i < 40; i++ { // the order in which the dictionaries are met varies
		mk := func(n string, k int) *gen.Page {
			return &gen.Page{Box: "0 0 200 300", Streams: []string{gen.Content(k, n, "")}, Res: "own", Fonts: []string{n}, FontAt: "inline"}
		}
		t := MkTmpl("ff", (&gen.Template{Root: gen.Flat(mk("F1", 1), mk("F2", 2), mk("F3", 3))}).Bytes())
		if err := hist(t, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"x", 3, 10, 20, 50, 20, 0, nil})); err != nil {
			return err
		}
	}
	return nil''',G)),
dict(id='c03-lly', property='C03', edits=[('pdft.go','		return val[3]\n','		return val[3] - val[1]\n')],
 needs='a page whose MediaBox does not start at 0', breaks='text and images are placed lower than asked on such pages',
 demo=D('''	t := MkTmpl("lly", (&gen.Template{Root: gen.Flat(simplePage(1, "0 50 200 300", false))}).Bytes())
	return hist(t, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''',G)),
dict(id='c03-rise-index', property='C03', edits=[('minigopdf/cache_content_text.go','leftRuneIndex, glyphindex, fontSize, text, runeIndex)','leftRuneIndex, glyphindex, fontSize, text, i)')],
 needs='a rise override that uses the character position and a text with characters of more than one byte', breaks='the override is asked about byte offsets instead of character positions, so the wrong characters are raised',
 demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpRise("a", RiseFn{"odd", func(l, r rune, s int, all string, i int) float32 { return float32(i) }}),
		OpText(TextArg{"\\u0e01\\u0e48b\\u0e02", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c03-underline-page', property='C03', edits=[('minigopdf/cache_content_text.go','arg4 := (ut / unitsPerEm) * float64(c.fontSize)','arg4 := (ut / 1000.0) * float64(c.fontSize)')],
 needs='underlined text with a font whose units per em are not 1000', breaks='the underline is as thick as the font would have at 1000 units per em',
 demo=D('''	return hist(T1, OpFont("a", FB), OpSet("a", "U", 12), OpText(TextArg{"x", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c03-middle-bottom', property='C03', edits=[('minigopdf/cache_content_text.go','- c.cellHeightPdfUnit*0.5 - (c.calTypoDescender()+c.calTypoAscender())*0.5','- c.cellHeightPdfUnit*0.5 - (c.calTypoAscender()-c.calTypoDescender())*0.5')],
 needs='vertically centred text', breaks='text aligned to the middle sits too low by its descender',
 demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"x", 1, 10, 20, 50, 40, pdft.Middle | pdft.Left, nil}))''',PD)),
dict(id='c04-xyscale', property='C04', edits=[('minigopdf/pdf_dictionary_obj.go','''		} else if (flags & WE_HAVE_AN_X_AND_Y_SCALE) != 0 {
			offsetAppend += 4''','''		} else if (flags & WE_HAVE_AN_X_AND_Y_SCALE) != 0 {
			offsetAppend += 2''')],
 needs='a composite glyph with a component scaled separately in x and y that is not the last component', breaks='the components after it are not embedded, wrong glyphs are instead',
 demo=D('''	s := stdSpec(5, 1000)
	n := len(s.Glyphs)
	s.Glyphs = append(s.Glyphs, ttfx.GSpec{Adv: 500, Comps: []ttfx.CompSpec{{GID: s.Map['e'], Scale: 2}, {GID: s.Map['q']}}})
	s.Map[0x1234] = n
	f := MkFont("xy", s)
	w, err := Open(T1)
	if err != nil {
		return err
	}
	if err := RunOps(w, []Op{OpFont("a", f), OpSet("a", "", 12), OpText(TextArg{"\\u1234", 1, 10, 20, 50, 20, 0, nil})}); err != nil {
		return err
	}
	_, err = SaveVerify(w)
	return err''','verif/ttfx')),
dict(id='c04-closure-first', property='C04', edits=[('minigopdf/pdf_dictionary_obj.go','for _, g := range *glyphArray {','for _, g := range (*glyphArray)[1:] {')],
 needs='the first character ever used with the font is a component of a composite character used later', breaks='a glyph is listed twice and all glyphs after it are missing from the embedded font',
 demo=D('''	return hist(T1, OpFont("a", FA), OpSet("a", "", 12), OpText(TextArg{"ez\\u00e9", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c04-nhm', property='C04', edits=[('minigopdf/subset_font_obj.go','''		glyphIndex = numberOfHMetrics - 1
''','''		glyphIndex = 0
''')],
 needs='a font with fewer long metrics than glyphs and a character among the rest', breaks='such characters get the width of the missing-character glyph instead of the last long metric',
 demo=D('''	return hist(T1, OpFont("a", FB), OpSet("a", "", 12), OpText(TextArg{"z\\u3044a", 1, 10, 20, 50, 20, 0, nil}))''')),
dict(id='c04-cmap-mask', property='C04', edits=[('minigopdf/subset_font_obj.go','return (s.ttfp.GlyphIdArray[int(idx)] + s.ttfp.IdDelta[seg]) & 0xFFFF, nil','return s.ttfp.GlyphIdArray[int(idx)] & 0xFFFF, nil')],
 needs='a font whose character map uses a glyph array together with a delta', breaks='characters of such segments are shown with other glyphs',
 demo=D("""	s := stdSpec(6, 1000)
	s.CmapStyle = "range"
	return hist(T1, OpFont("a", MkFont("rd", s)), OpSet("a", "", 12), OpText(TextArg{"\\u00a0Hello\\u00b4\\u00e9\\u1e5d\\u0e01", 1, 10, 20, 50, 20, 0, nil}))""")),
dict(id='c05-trns0', property='C05', edits=[('minigopdf/image_obj_parse.go','if pos >= 0 {','if pos > 0 {')],
 needs='a palette PNG whose transparent colour is the first of the palette', breaks='the transparent colour is drawn opaque',
 demo=D('''	im := MkPNG("t0", pngx.Spec{W: 4, H: 2, CT: 3, BPC: 8, Pal: 5, IDATs: 1, TRNS: 0, Seed: 3})
	return hist(T1, OpImg("plain", im, 1, 5, 6, 30, 20))''','verif/pngx')),
dict(id='c05-cache-prefix', property='C05', edits=[('pdft.go','	md5Str := fmt.Sprintf("%x", md5.Sum(img))','''	head := img
	if len(head) > 64 {
		head = head[:64]
	}
	md5Str := fmt.Sprintf("%x%d", md5.Sum(head), len(img))''')],
 needs='two different images of the same length with the same first bytes, inserted through the cache', breaks='the first image is shown in place of the second',
 demo=D('''	b := append([]byte{}, ImJPG.B...)
	c := append([]byte{}, ImJPG.B...)
	c[len(c)-9] ^= 0x55
	one := *ImJPG
	one.B, one.Name = b, "one"
	two := *ImJPG
	two.B, two.Name = c, "two"
	return hist(T1, OpImg("cache", &one, 1, 5, 6, 30, 20), OpImg("cache", &two, 1, 5, 66, 30, 20))''')),
dict(id='c05-ga-smask', property='C05', edits=[('minigopdf/image_obj_parse.go','''				alpha = append(alpha, afterZipData[pos])
				line := afterZipData[pos+1 : pos+length+1]
				j := 0
				max := len(line)
				for j < max {
					color = append(color, line[j])''','''				alpha = append(alpha, afterZipData[0])
				line := afterZipData[pos+1 : pos+length+1]
				j := 0
				max := len(line)
				for j < max {
					color = append(color, line[j])''')],
 needs='a gray PNG with alpha whose rows use different filters', breaks='the rows of the transparency mask are decoded with the filter of the first row',
 demo=D('''	im := MkPNG("ga5", pngx.Spec{W: 5, H: 6, CT: 4, BPC: 8, Filter: 5, IDATs: 1, TRNS: -1, Seed: 9})
	return hist(T1, OpImg("plain", im, 1, 5, 6, 30, 20))''','verif/pngx')),
dict(id='c06-neg', property='C06', edits=[('pdft.go','position = len(pageObjIds) + position // like python','position = len(pageObjIds) - 1 // like python')],
 needs='a page copied to a negative position other than -1', breaks='the copy lands at the end whatever negative position was asked for',
 demo=D('''	return hist(T3, OpDup(1, -2))''')),
dict(id='c06-rm-shift', property='C06', edits=[('pdft.go','''	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
	pageObjIds = pageObjIds[:len(pageObjIds)-1]''','''	pageObjIds[targetPageNumber-1] = pageObjIds[len(pageObjIds)-1]
	pageObjIds = pageObjIds[:len(pageObjIds)-1]''')],
 needs='removing a page with at least two pages after it', breaks='the last page moves into the place of the removed one',
 demo=D('''	return hist(T3, OpRm(1))''')),
dict(id='c06-kids-order', property='C06', edits=[('pdf_data.go','			results = append(results, id)','''			for _, r := range results {
				if r == id {
					return
				}
			}
			results = append(results, id)''')],
 needs='never: page nodes are unique', breaks='nothing', demo=D('	return nil')),
]
SEEDS=[s for s in SEEDS if s['id'] not in ('c06-kids-order',)]
