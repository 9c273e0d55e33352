package checks

import "verif/gen"

// tmplStrings has strings of every form in page and catalog entries.
func tmplStrings() *Tmpl {
	p := gen.Simple(1, "0 0 200 300")
	p.Extra = "LastModified=(D:20200101 \\(secret\\) \\101);PieceInfo=<</A<</Private<</B [1 2 (private s) <4142434445>]>>/LastModified(D:2020)>>>>;X=(stream secret) ;H=<48 65 6C 6c 6F 7>"
	p.Annots = true
	q := gen.Simple(2, "0 0 210 310")
	q.Extra = "Y=(multi\\\nline \\\\ \\r\\n end)"
	return MkTmpl("strings", (&gen.Template{Root: gen.Flat(p, q), RootX: "Lang=(en-US-x);Names=<</Dests<</Names[(first name)(second)]>>>>", Info: true}).Bytes())
}

type graphTmpl struct {
	name string
	mk   func() *gen.Template
}

// graphTmpls are documents with objects besides pages, contents, fonts and images.
func graphTmpls() []graphTmpl {
	pages := func(e1, e2 string) *gen.Node {
		p, q := gen.Simple(1, "0 0 200 300"), gen.Simple(2, "0 0 210 310")
		p.Extra, q.Extra = e1, e2
		return gen.Flat(p, q)
	}
	bin := []byte("\x00\xff/Length 5 endobj\r\n1 0 obj <</Type/Page>> (\n")
	return []graphTmpl{
		{"outlines", func() *gen.Template {
			return &gen.Template{Root: pages("", ""), RootX: "Outlines=@o0@;OpenAction=[@p2@ /Fit]", Info: true, Objs: []gen.Extra{
				{Raw: "<</Type/Outlines/First @o1@/Last @o2@/Count 2>>"},
				{Raw: "<</Title(One \\(1\\))/Parent @o0@/Next @o2@/Dest[@p1@ /XYZ 0 100 null]>>"},
				{Raw: "<</Title<feff00540077006f>/Parent @o0@/Prev @o1@/A<</S/GoTo/D[@p2@/FitH 20]>>>>"}}}
		}},
		{"acroform", func() *gen.Template {
			return &gen.Template{Root: pages("Annots=[@o0@]", "Annots=@o4@"), RootX: "AcroForm=<</Fields[@o0@ @o1@]/DA(/F1 0 Tf 0 g)/DR<</Font<</F1 @o2@>>>>/NeedAppearances true>>", Objs: []gen.Extra{
				{Raw: "<</Type/Annot/Subtype/Widget/FT/Tx/T(name)/V(J\\366rg)/Rect[10 10 60 30]/P @p1@/AP<</N @o3@>>/MK<</BG[0.9]>>>>"},
				{Raw: "<</Type/Annot/Subtype/Widget/FT/Btn/T(ok)/Parent @o5@/Rect[10 40 20 50]/P @p2@/AS/On/AP<</N<</On @o3@/Off null>>>>>>"},
				{Raw: "<</Type/Font/Subtype/Type1/BaseFont/Helvetica/Name/F1/Encoding<</Type/Encoding/Differences[65/A/B]>>>>"},
				{Raw: "<</Type/XObject/Subtype/Form/BBox[0 0 50 20]/Resources<</Font<</F1 @o2@>>/XObject<</I1 @o6@>>/ProcSet[/PDF/Text]>>>>", Data: []byte("/Tx BMC BT /F1 9 Tf (J) Tj ET EMC")},
				{Raw: "[@o1@]"},
				{Raw: "<</T(group)/Kids[@o1@]/Ff 49152>>"},
				{Raw: "<</Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray>>", Data: []byte{7}}}}
		}},
		{"notes", func() *gen.Template {
			return &gen.Template{Root: pages("Annots=[@o0@ @o1@]", "Annots=[<</Type/Annot/Subtype/Link/Rect[1 2 3 4]/Dest[@p1@ /Fit]/Contents(direct note)>>]"), Objs: []gen.Extra{
				{Raw: "<</Type/Annot/Subtype/Text/Contents(note \\(x\\) of /Resources <</Font>>)/Rect[5 5 20 20]/Popup @o1@/P @p1@>>"},
				{Raw: "<</Type/Annot/Subtype/Popup/Parent @o0@/Rect[50 5 90 60]/Open false>>"}}}
		}},
		{"structure", func() *gen.Template {
			return &gen.Template{Root: pages("StructParents=0", "StructParents=1"), RootX: "StructTreeRoot=@o0@;MarkInfo=<</Marked true>>;Metadata=@o3@;Lang=(th)", Objs: []gen.Extra{
				{Raw: "<</Type/StructTreeRoot/K[@o1@]/ParentTree<</Nums[0[@o1@]1[@o2@]]>>/ParentTreeNextKey 2>>"},
				{Raw: "<</Type/StructElem/S/Document/P @o0@/Pg @p1@/K[0 @o2@]>>"},
				{Raw: "<</Type/StructElem/S/P/P @o1@/Pg @p2@/K<</Type/MCR/Pg @p2@/MCID 0>>/ActualText(a b)>>"},
				{Raw: "<</Type/Metadata/Subtype/XML>>", Data: []byte("<?xpacket begin='' id=''?><x:xmpmeta/>\n<?xpacket end='w'?>")}}}
		}},
		{"formx", func() *gen.Template {
			p := &gen.Page{Box: "0 0 200 300", Res: "own", Fonts: []string{"F1"}, FontAt: "inline", ResXtra: "XObject=<</Fm1 @o0@/I1 @o2@>>;ExtGState=<</G0 @o4@>>", Streams: []string{gen.Content(1, "F1", "Fm1"), "/G0 gs q /I1 Do Q\n"}}
			q := &gen.Page{Box: "0 0 210 310", Res: "own", Fonts: []string{"F9"}, FontAt: "ref", ResXtra: "XObject=@o5@", Streams: []string{gen.Content(2, "F9", "Fm1")}, Zip: true}
			return &gen.Template{Root: gen.Flat(p, q), Objs: []gen.Extra{
				{Raw: "<</Type/XObject/Subtype/Form/BBox[0 0 10 10]/Matrix[1 0 0 1 2 3]/Resources<</Font<</F1 @o1@/F2 @o1@>>/XObject<</I1 @o2@/I2 @o3@>>>>>>", Data: []byte("BT /F2 7 Tf (in form) Tj ET /I2 Do")},
				{Raw: "<</Type/Font/Subtype/Type0/BaseFont/ABCDEF+X/Encoding/Identity-H/DescendantFonts[@o6@]/ToUnicode @o7@>>"},
				{Raw: "<</Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace/DeviceGray/SMask @o3@>>", Data: []byte{9}},
				{Raw: "<</Type/XObject/Subtype/Image/Width 1/Height 1/BitsPerComponent 8/ColorSpace[/Indexed/DeviceRGB 1(\\000\\001\\)\\\\\\377 )]>>", Data: []byte{1}},
				{Raw: "<</Type/ExtGState/ca 0.5/SMask/None>>"},
				{Raw: "<</Fm1 @o0@>>"},
				{Raw: "<</Type/Font/Subtype/CIDFontType2/BaseFont/ABCDEF+X/CIDSystemInfo<</Registry(Adobe)/Ordering(Identity)/Supplement 0>>/W[1[500 600]]/FontDescriptor @o8@>>"},
				{Raw: "<<>>", Data: []byte("/CIDInit /ProcSet findresource begin end")},
				{Raw: "<</Type/FontDescriptor/FontName/ABCDEF+X/Flags 4/FontBBox[0 -200 1000 800]/FontFile2 @o9@>>"},
				{Raw: "<</Length1 6>>", Data: []byte{0, 1, 0, 0, 0xFF, '\n'}}}}
		}},
		{"odd", func() *gen.Template {
			return &gen.Template{Root: pages("A=@o0@;B=@o1@;C=@o2@;D=@o3@;E=@o4@;G=@o5@;H=@o6@", ""), RootX: "X=[@o0@ [@o1@] <</Y @o2@>>]", Objs: []gen.Extra{
				{Raw: "42"}, {Raw: "(a string \\) (nested) obj)"}, {Raw: "/Name#20X"}, {Raw: "[1 -2.5 (x) <AbC> true null /N @o0@]"}, {Raw: "true"},
				{Raw: "<</D<</E<</F[<</G(h)>>]>>>>>>"}, {Raw: "<</Type/EmbeddedFile>>", Data: bin}}}
		}},
	}
}
