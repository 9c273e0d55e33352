From 556e5dfd534d794f47ed869a2cccec1ce791c36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:58 +0000
Subject: [PATCH 01/55] fix: read inherited and indirect MediaBox instead of
 panicking

---
 pdf_page_attr.go | 42 ++++++++++++++++++++++++++++++++++++++++++
 pdf_parse.go     |  7 +++++++
 pdft.go          |  2 +-
 3 files changed, 50 insertions(+), 1 deletion(-)
 create mode 100644 pdf_page_attr.go

diff --git a/pdf_page_attr.go b/pdf_page_attr.go
new file mode 100644
index 0000000..a5a9bf5
--- /dev/null
+++ b/pdf_page_attr.go
@@ -0,0 +1,42 @@
+package pdft
+
+import "strings"
+
+// inheritedProp find property of page, property that page does not have is
+// inherited from its parent (ISO 32000-1 7.7.3.4)
+func (p *PDFData) inheritedProp(objID int, key string) *PDFObjPropertyData {
+	visited := make(map[int]bool)
+	for !visited[objID] {
+		visited[objID] = true
+		obj := p.getObjByID(objID)
+		if obj == nil {
+			return nil
+		}
+		props, err := obj.readProperties()
+		if err != nil {
+			return nil
+		}
+		if prop := props.getPropByKey(key); prop != nil {
+			return prop
+		}
+		parent := props.getPropByKey("Parent")
+		if parent == nil {
+			return nil
+		}
+		objID, _, err = parent.asDictionary()
+		if err != nil {
+			return nil
+		}
+	}
+	return nil
+}
+
+// directVal value of property, follow indirect reference
+func (p *PDFData) directVal(rawVal string) string {
+	if id, _, err := readObjIDFromDictionary(rawVal); err == nil {
+		if obj := p.getObjByID(id); obj != nil {
+			return strings.TrimSpace(string(obj.data))
+		}
+	}
+	return rawVal
+}
diff --git a/pdf_parse.go b/pdf_parse.go
index d5d314a..79129c7 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -58,6 +58,13 @@ func parsePageSize(pdf *PDFData) error {
 		if err != nil {
 			return err
 		}
+		if propContentsObj == nil {
+			propContentsObj = pdf.inheritedProp(pageID, "MediaBox")
+			if propContentsObj == nil {
+				continue
+			}
+		}
+		propContentsObj.setRaw(pdf.directVal(propContentsObj.rawVal))
 		valType := propContentsObj.valType()
 		if valType != array {
 			fmt.Printf("MediaBox type is not array, but %s", valType)
diff --git a/pdft.go b/pdft.go
index ebbb481..807ab60 100644
--- a/pdft.go
+++ b/pdft.go
@@ -338,7 +338,7 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 
 func (i *PDFt) pageHeight(pageNum int) float64 {
 	pageIndex := pageNum - 1
-	if val, ok := i.pdf.pageSizes[pageIndex]; ok {
+	if val, ok := i.pdf.pageSizes[pageIndex]; ok && len(val) >= 4 {
 		return val[3]
 	}
 	return 841.89 //A4
-- 
2.43.0


From ab516406fcae32068e310491b633ce3f8e687e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:38 +0000
Subject: [PATCH 02/55] fix: RemoveOtherPages keeps the page it was asked for,
 page numbers out of range return an error

---
 pdft.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pdft.go b/pdft.go
index 807ab60..c760eca 100644
--- a/pdft.go
+++ b/pdft.go
@@ -121,7 +121,11 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
+		return ErrNoDesiredPageToCopy
+	}
+
+	if position >= len(pageObjIds) || position < -len(pageObjIds) {
 		return ErrNoDesiredPageToCopy
 	}
 
@@ -161,7 +165,7 @@ func (i *PDFt) RemovePage(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToRemove
 	}
 	copy(pageObjIds[targetPageNumber-1:], pageObjIds[targetPageNumber:])
@@ -176,11 +180,11 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	if err != nil {
 		return err
 	}
-	if targetPageNumber > 0 && len(pageObjIds) < targetPageNumber {
+	if targetPageNumber < 1 || len(pageObjIds) < targetPageNumber {
 		return ErrNoDesiredPageToKeep
 	}
 
-	return i.setPages([]int{pageObjIds[targetPageNumber]})
+	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
 func (i *PDFt) setPages(pageObjIds []int) error {
-- 
2.43.0


From fb27316eb44bc49cb41dae1ecd31522573341fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:42 +0000
Subject: [PATCH 03/55] fix: page edits keep page size, parent and inherited
 attributes of pages

---
 pdf_page_attr.go | 27 +++++++++++++++++++++++++++
 pdft.go          |  5 ++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/pdf_page_attr.go b/pdf_page_attr.go
index a5a9bf5..ecf89be 100644
--- a/pdf_page_attr.go
+++ b/pdf_page_attr.go
@@ -40,3 +40,30 @@ func (p *PDFData) directVal(rawVal string) string {
 	}
 	return rawVal
 }
+
+// detachPage make page a direct child of pages object parentID, attributes that
+// page inherited from other parents move to the page itself
+func (p *PDFData) detachPage(objID int, parentID int) {
+	pageObj := p.getObjByID(objID)
+	props, err := pageObj.readProperties()
+	if err != nil {
+		return
+	}
+	parent := props.getPropByKey("Parent")
+	if parent == nil {
+		return
+	}
+	if id, _, err := parent.asDictionary(); err != nil || id == parentID {
+		return
+	}
+	for _, key := range []string{"Resources", "MediaBox", "CropBox", "Rotate"} {
+		if props.getPropByKey(key) != nil {
+			continue
+		}
+		if prop := p.inheritedProp(objID, key); prop != nil {
+			props.append(*prop)
+		}
+	}
+	props.getPropByKey("Parent").setAsDictionary(parentID, 0)
+	pageObj.setProperties(props)
+}
diff --git a/pdft.go b/pdft.go
index c760eca..bf06f1f 100644
--- a/pdft.go
+++ b/pdft.go
@@ -201,11 +201,14 @@ func (i *PDFt) setPages(pageObjIds []int) error {
 	if err != nil {
 		return err
 	}
+	for _, pageObjID := range pageObjIds {
+		i.pdf.detachPage(pageObjID, rootPagesID)
+	}
 	nPage := len(pageObjIds)
 	props.getPropByKey("Count").rawVal = strconv.Itoa(nPage)
 	props.getPropByKey("Kids").setAsDictionaryArr(pageObjIds, nil)
 	pagesObj.setProperties(props)
-	return nil
+	return parsePageSize(&i.pdf)
 }
 
 // GetNumberOfPage get number of page
-- 
2.43.0


From 6e6736318807b02521f0eebf91d260528f3a9670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:12 +0000
Subject: [PATCH 04/55] fix: saving a document does not change it, so that it
 can be saved again

---
 pdf_font_data.go | 7 +++++++
 pdft.go          | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/pdf_font_data.go b/pdf_font_data.go
index ce7d668..93ecddb 100644
--- a/pdf_font_data.go
+++ b/pdf_font_data.go
@@ -88,6 +88,13 @@ func (p *PDFFontData) build() (int, error) {
 	//dictionary
 	p.dictionary.SetPtrToSubsetFontObj(&p.font)
 
+	//font may be built before
+	p.font.GetObjBuff().Reset()
+	p.cid.GetObjBuff().Reset()
+	p.unicodeMap.GetObjBuff().Reset()
+	p.fontDesc.GetObjBuff().Reset()
+	p.dictionary.GetObjBuff().Reset()
+
 	var err error
 	err = p.font.Build(p.fontID)
 	if err != nil {
diff --git a/pdft.go b/pdft.go
index bf06f1f..ab95182 100644
--- a/pdft.go
+++ b/pdft.go
@@ -615,6 +615,8 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	}
 
 	newpdf := i.pdf //copy
+	newpdf.objIDs = append([]int{}, i.pdf.objIDs...)
+	newpdf.objs = append([]PDFObjData{}, i.pdf.objs...)
 
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
-- 
2.43.0


From 3e3b418ea96a10ffa7e93e309fc71b65cbf6c5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:15 +0000
Subject: [PATCH 05/55] fix: visit shared objects once and page trees of any
 depth when looking for resources

---
 crawl.go    | 4 ++++
 pdf_data.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/crawl.go b/crawl.go
index 4cdab91..752e549 100644
--- a/crawl.go
+++ b/crawl.go
@@ -44,6 +44,10 @@ func (c *crawl) next(data *[]byte, i int, id int, cr *crawlResult) error {
 		return nil
 	}
 
+	if len(cr.items) > 0 { //object is shared, already visited
+		return nil
+	}
+
 	var err error
 	var props PDFObjPropertiesData
 	err = readProperties(data, &props)
diff --git a/pdf_data.go b/pdf_data.go
index e0339ca..42ca769 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -93,10 +93,10 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 			subCw.set(p, key, path...)
 			subCw.run()
 			for k, v := range subCw.results {
-				cw.results[k] = v
 				if _, ok := cw.results[k]; !ok {
 					checkedQueue = append(checkedQueue, k)
 				}
+				cw.results[k] = v
 			}
 		}
 		checkedQueue = checkedQueue[1:]
-- 
2.43.0


From ec2d15dca0d63c419998453456a3641c95fab0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:54 +0000
Subject: [PATCH 06/55] fix: keep names of template fonts and xobjects as they
 are

---
 crawl_result_font.go     | 16 ++++++++++++----
 crawl_result_x_object.go | 10 ++++++++--
 pdf_data.go              |  8 +++++---
 3 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/crawl_result_font.go b/crawl_result_font.go
index 23ece59..45a99ca 100644
--- a/crawl_result_font.go
+++ b/crawl_result_font.go
@@ -39,12 +39,14 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 	for _, prop := range props {
 		var crFont crawlResultFont
 
-		prefix, fontIndex, err := splitFont(strings.TrimSpace(prop.key))
-		if err != nil {
-			return err
+		crFont.name = strings.TrimSpace(prop.key)
+		crFont.rawVal = strings.TrimSpace(prop.rawVal)
+		prefix, fontIndex, err := splitFont(crFont.name)
+		if err != nil { //name without index, it can not be same as name of new font
+			prefix, fontIndex = crFont.name, 0
 		}
 		objID, _, err := prop.asDictionary()
-		if err != nil {
+		if err != nil && prop.valType() != object {
 			return err
 		}
 		crFont.prefix = prefix
@@ -58,6 +60,10 @@ func (c *crawlResultFonts) parse(propVal *[]byte) error {
 func (c *crawlResultFonts) String() string {
 	var buff bytes.Buffer
 	for _, f := range *c {
+		if f.name != "" { //font of template keeps its name
+			buff.WriteString(fmt.Sprintf("/%s %s\n", f.name, f.rawVal))
+			continue
+		}
 		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R\n", f.prefix, f.fontIndex, f.fontObjID))
 	}
 	return buff.String()
@@ -85,4 +91,6 @@ type crawlResultFont struct {
 	fontIndex int
 	fontObjID int
 	prefix    string
+	name      string //name in template
+	rawVal    string //value in template
 }
diff --git a/crawl_result_x_object.go b/crawl_result_x_object.go
index ca895a0..b4d1fad 100644
--- a/crawl_result_x_object.go
+++ b/crawl_result_x_object.go
@@ -29,10 +29,11 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 		var xObj crawlResultXObject
 		xObj.xObjChar = tokens[1]
 		xObjIndex, err := strconv.Atoi(strings.TrimSpace(tokens[2]))
-		if err != nil {
-			return err
+		if err != nil { //name without index
+			xObjIndex = 0
 		}
 		xObj.xObjIndex = xObjIndex
+		xObj.name = strings.TrimSpace(prop.key)
 
 		xObjObjID, _, err := readObjIDFromDictionary(prop.rawVal)
 		if err != nil {
@@ -49,6 +50,10 @@ func (c *crawlResultXObjects) parse(propVal *[]byte) error {
 func (c *crawlResultXObjects) String() string {
 	var buff bytes.Buffer
 	for _, xObj := range *c {
+		if xObj.name != "" { //xobject of template keeps its name
+			buff.WriteString(fmt.Sprintf("/%s %d 0 R\n", xObj.name, xObj.xObjObjID))
+			continue
+		}
 		buff.WriteString(fmt.Sprintf("/%s%d %d 0 R", xObj.xObjChar, xObj.xObjIndex, xObj.xObjObjID))
 	}
 	return buff.String()
@@ -58,4 +63,5 @@ type crawlResultXObject struct {
 	xObjChar  string
 	xObjIndex int
 	xObjObjID int
+	name      string //name in template
 }
diff --git a/pdf_data.go b/pdf_data.go
index 42ca769..3e3e674 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -250,8 +250,10 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 			xobjs.parse(&propVal)
 			if len(xobjs) > 0 {
 				xObjChar = xobjs[len(xobjs)-1].xObjChar
-				if xobjs[len(xobjs)-1].xObjIndex > xObjIndex {
-					xObjIndex = xobjs[len(xobjs)-1].xObjIndex
+				for _, xobj := range xobjs {
+					if xobj.xObjIndex > xObjIndex {
+						xObjIndex = xobj.xObjIndex
+					}
 				}
 			}
 		}
@@ -288,7 +290,7 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 			for _, xobj := range xobjs { // pick new item from xobjs into newXObjs
 				isExisted := false
 				for _, existedXObj := range newXObjs {
-					if existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
+					if existedXObj.name == xobj.name && existedXObj.xObjChar == xobj.xObjChar && existedXObj.xObjIndex == xobj.xObjIndex { // Avoid conflict of same xObjIndex when editing emerged pdf
 						isExisted = true
 						break
 					}
-- 
2.43.0


From f59604c20e07047c50c0a895d2a4830cc0d58017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:59 +0000
Subject: [PATCH 07/55] fix: add fonts and images to the resources of every
 page, also of pages that inherit or lack them

---
 pdf_data.go      |  6 +++++-
 pdf_page_attr.go | 48 ++++++++++++++++++++++++++++++++++++++++++++++++
 pdft.go          |  5 +++++
 3 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 3e3e674..b066b50 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -160,6 +160,9 @@ func (p *PDFData) maxID() int {
 }
 
 func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
+	if len(pdfImgs) == 0 {
+		return nil
+	}
 	var err error
 	isEmbedResources := false
 	rootOfXObjectID := -1
@@ -208,7 +211,8 @@ func (p *PDFData) injectImgsToPDF(pdfImgs []*PDFImageData) error {
 		return err
 	}
 
-	found := false
+	found := false //images are added to /XObject of all pages, see below
+	cw.results = nil
 	xObjectVals := make(map[int]string)
 	for objID, r := range cw.results {
 		xobject, err := r.valOf("XObject")
diff --git a/pdf_page_attr.go b/pdf_page_attr.go
index ecf89be..c78a458 100644
--- a/pdf_page_attr.go
+++ b/pdf_page_attr.go
@@ -67,3 +67,51 @@ func (p *PDFData) detachPage(objID int, parentID int) {
 	props.getPropByKey("Parent").setAsDictionary(parentID, 0)
 	pageObj.setProperties(props)
 }
+
+// prepareResources make every page have /Resources with /Font and /XObject, so
+// that new fonts and images can be added to all of them
+func (p *PDFData) prepareResources() error {
+	pageObjIDs, err := p.getPageObjIDs()
+	if err != nil {
+		return err
+	}
+	for _, pageObjID := range pageObjIDs {
+		pageObj := p.getObjByID(pageObjID)
+		props, err := pageObj.readProperties()
+		if err != nil {
+			return err
+		}
+		res := props.getPropByKey("Resources")
+		if res == nil {
+			props.append(PDFObjPropertyData{key: "Resources", rawVal: "<<>>"})
+			res = props.getPropByKey("Resources")
+			if inherited := p.inheritedProp(pageObjID, "Resources"); inherited != nil {
+				res.rawVal = inherited.rawVal
+			}
+		}
+		resObj := &PDFObjData{data: []byte(res.rawVal)}
+		resID, _, err := res.asDictionary()
+		isRef := err == nil && p.getObjByID(resID) != nil
+		if isRef {
+			resObj = p.getObjByID(resID)
+		}
+		resProps, err := resObj.readProperties()
+		if err != nil {
+			return err
+		}
+		if resProps.getPropByKey("Font") == nil {
+			resProps.append(PDFObjPropertyData{key: "Font", rawVal: "<<>>"})
+		}
+		if xobj := resProps.getPropByKey("XObject"); xobj == nil {
+			resProps.append(PDFObjPropertyData{key: "XObject", rawVal: "<<>>"})
+		} else {
+			xobj.setRaw(p.directVal(xobj.rawVal))
+		}
+		resObj.setProperties(resProps)
+		if !isRef {
+			res.rawVal = string(resObj.data)
+		}
+		pageObj.setProperties(props)
+	}
+	return nil
+}
diff --git a/pdft.go b/pdft.go
index ab95182..59bec9c 100644
--- a/pdft.go
+++ b/pdft.go
@@ -618,6 +618,11 @@ func (i *PDFt) build() (*PDFData, int, error) {
 	newpdf.objIDs = append([]int{}, i.pdf.objIDs...)
 	newpdf.objs = append([]PDFObjData{}, i.pdf.objs...)
 
+	err = newpdf.prepareResources()
+	if err != nil {
+		return nil, 0, err
+	}
+
 	err = newpdf.injectFontsToPDF(i.fontDatas)
 	if err != nil {
 		return nil, 0, err
-- 
2.43.0


From f963930a2823acd0e5bc617f91586bc46f2ac54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:25 +0000
Subject: [PATCH 08/55] fix: append text after all content of a page, whatever
 the form of its /Contents

---
 pdf_data.go      | 18 ++++++++++++-
 pdf_page_attr.go | 68 ++++++++++++++++++++++++++++++++++++++++++++++++
 pdft.go          | 10 ++++---
 3 files changed, 92 insertions(+), 4 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index b066b50..2c5517c 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -433,7 +433,23 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 	}
 	pageObjIDs, _ := p.getPageObjIDs()
 	objMustReplaces := make(map[int]string)
+	countOfUse := make(map[int]int)
+	for _, pageObjID := range pageObjIDs {
+		if props, err := p.getObjByID(pageObjID).readProperties(); err == nil {
+			ids, _ := p.contentIDs(props)
+			for _, id := range ids {
+				countOfUse[id]++
+			}
+		}
+	}
 	for pageIndex, pageObjID := range pageObjIDs {
+		if _, ok := pageBuffs[pageIndex+1]; !ok {
+			continue
+		}
+		err = p.prepareContents(pageObjID, countOfUse)
+		if err != nil {
+			return err
+		}
 
 		var cw2Content crawl
 		cw2Content.set(p, pageObjID, "Contents")
@@ -469,7 +485,7 @@ func (p *PDFData) injectContentToPDF(contenters *[]Contenter) error {
 				if err != nil || len(contentsObjIDs) <= 0 {
 					return err
 				}
-				contentsObjID = contentsObjIDs[0]
+				contentsObjID = contentsObjIDs[len(contentsObjIDs)-1]
 			} else {
 				return errors.New("not support /Contents type not dictionary,array yet")
 			}
diff --git a/pdf_page_attr.go b/pdf_page_attr.go
index c78a458..48dcf14 100644
--- a/pdf_page_attr.go
+++ b/pdf_page_attr.go
@@ -115,3 +115,71 @@ func (p *PDFData) prepareResources() error {
 	}
 	return nil
 }
+
+// contentIDs object IDs of content streams of page
+func (p *PDFData) contentIDs(props *PDFObjPropertiesData) ([]int, error) {
+	contents := props.getPropByKey("Contents")
+	if contents == nil {
+		return nil, nil
+	}
+	rawVal := contents.rawVal
+	if val := p.directVal(rawVal); propertyType(val) == array { //array or reference to array
+		rawVal = val
+	}
+	rawVal = strings.Join(strings.Fields(strings.Trim(rawVal, "[] \r\n\t")), " ")
+	if rawVal == "" {
+		return nil, nil
+	}
+	ids, _, err := readObjIDFromDictionaryArr(rawVal)
+	return ids, err
+}
+
+// prepareContents make the last content stream of page a stream that belongs to
+// this page only and that text can be appended to
+func (p *PDFData) prepareContents(pageObjID int, countOfUse map[int]int) error {
+	props, err := p.getObjByID(pageObjID).readProperties()
+	if err != nil {
+		return err
+	}
+	ids, err := p.contentIDs(props)
+	if err != nil {
+		return err
+	}
+	isOK := false
+	if max := len(ids); max > 0 {
+		last := p.getObjByID(ids[max-1])
+		if last != nil && countOfUse[ids[max-1]] == 1 && isAppendableStream(last) {
+			isOK = true
+		}
+	}
+	if isOK && len(ids) == 1 {
+		if id, _, err := props.getPropByKey("Contents").asDictionary(); err == nil && id == ids[0] {
+			return nil
+		}
+	}
+	if !isOK {
+		ids = append(ids, p.putNewObject(PDFObjData{data: []byte("<<\n/Length 0\n>>\nstream\n\nendstream")}))
+	}
+	if props.getPropByKey("Contents") == nil {
+		props.append(PDFObjPropertyData{key: "Contents"})
+	}
+	props.getPropByKey("Contents").setAsDictionaryArr(ids, nil)
+	p.getObjByID(pageObjID).setProperties(props)
+	return nil
+}
+
+// isAppendableStream stream has no filter or only /FlateDecode
+func isAppendableStream(obj *PDFObjData) bool {
+	props, err := obj.readProperties()
+	if err != nil {
+		return false
+	}
+	filter := props.getPropByKey("Filter")
+	if filter == nil {
+		return true
+	}
+	if props.getPropByKey("DecodeParms") != nil {
+		return false
+	}
+	return strings.TrimSpace(filter.rawVal) == "" && props.getPropByKey("FlateDecode") != nil
+}
diff --git a/pdft.go b/pdft.go
index 59bec9c..8fa4bb8 100644
--- a/pdft.go
+++ b/pdft.go
@@ -140,11 +140,13 @@ func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
 		return ErrNoContentsProperty
 	}
 	contentID, _, err := pageContent.asDictionary()
-	if err != nil {
+	if err != nil && pageContent.valType() != array {
 		return err
 	}
-	contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
-	pageContent.setAsDictionary(contentID, 0)
+	if err == nil {
+		contentID = i.pdf.putNewObject(*(i.pdf.getObjByID(contentID))) //copy object value
+		pageContent.setAsDictionary(contentID, 0)
+	}
 	pageObj.setProperties(props)
 
 	pageID := i.pdf.putNewObject(pageObj)
@@ -675,6 +677,8 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		return nil, 0, err
 	}
 
+	nextID = newpdf.maxID()
+
 	//set for protection
 	if i.protection() != nil {
 		max := newpdf.Len()
-- 
2.43.0


From b374aa2636b8616b73a4269ee6920f49deda856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:48 +0000
Subject: [PATCH 09/55] fix: take exactly the bytes of a content stream, white
 space included

---
 pdf_data.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pdf_data.go b/pdf_data.go
index 2c5517c..3dfb9bd 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -571,7 +571,10 @@ func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 	index := bytes.Index(*b, extractStreamBytes)
 	offset := len(extractStreamBytes)
 	tmp := (*b)[index+offset:]
-	tmp = bytes.TrimSpace(tmp)
+	tmp = trimStreamEOL(tmp)
+	if length < 0 || length > len(tmp) {
+		return nil, errors.New("bad /Length of stream")
+	}
 	tmp = tmp[0:length]
 	var buff bytes.Buffer
 	buff.Write(tmp)
@@ -591,6 +594,15 @@ func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 	return &out, nil
 }
 
+// trimStreamEOL remove end-of-line that follows the keyword stream, white space
+// after it is data
+func trimStreamEOL(b []byte) []byte {
+	if eol := bytes.IndexByte(b, '\n'); eol >= 0 && len(bytes.TrimSpace(b[:eol])) == 0 {
+		return b[eol+1:]
+	}
+	return bytes.TrimPrefix(b, []byte("\r"))
+}
+
 func findMaxFontIndex(cw *crawl, p *PDFData) (int, error) {
 	//find max font index
 	max := 0
-- 
2.43.0


From 4d8984a1273164d2fdcf1301db31bb84c1f8ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:28 +0000
Subject: [PATCH 10/55] fix: encrypt exactly the data of a stream and nothing
 that only contains the word stream

---
 pdf_data.go              |  5 ++++-
 pdf_obj_data.go          | 19 +++++++++++++++++--
 pdf_obj_property_data.go |  2 +-
 pdft.go                  |  9 ++++++++-
 regex.go                 |  1 +
 5 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pdf_data.go b/pdf_data.go
index 3dfb9bd..5d03f64 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -568,7 +568,10 @@ var extractStreamBytes = []byte{0x73, 0x74, 0x72, 0x65, 0x61, 0x6D}
 
 func extractStream(b *[]byte, length int, zip bool) (*bytes.Buffer, error) {
 
-	index := bytes.Index(*b, extractStreamBytes)
+	index := indexOfStream(*b)
+	if index == -1 {
+		return nil, errors.New("stream not found")
+	}
 	offset := len(extractStreamBytes)
 	tmp := (*b)[index+offset:]
 	tmp = trimStreamEOL(tmp)
diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index 719a34a..d36be23 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -64,19 +64,25 @@ func (p *PDFObjData) setProperties(props *PDFObjPropertiesData) {
 	p.data = data.Bytes()
 }
 
-func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
+func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, length int) error {
 
 	stream := []byte("stream")
 	endstream := []byte("endstream")
-	start := bytes.Index(p.data, stream)
+	start := indexOfStream(p.data)
 	if start != -1 {
 		end := bytes.LastIndex(p.data, endstream)
+		if end < start {
+			return errors.New("bad endstream")
+		}
 
 		var head, body bytes.Buffer
 		head.Write(p.data[0:start])
 		body.Write(p.data[start+len(stream) : end])
 		tmp := bytes.Trim(body.Bytes(), "\r\n")
 		tmp = bytes.Trim(tmp, "\n")
+		if raw := trimStreamEOL(body.Bytes()); length >= 0 && length <= len(raw) {
+			tmp = raw[:length] //end-of-line at begin or end of data is data
+		}
 		bodyRc4, err := rc4Cip(protection.Objectkey(p.objID), tmp)
 		if err != nil {
 			return err
@@ -94,6 +100,15 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection) error {
 	return nil
 }
 
+// indexOfStream index of keyword stream, the word can be in strings or names too
+func indexOfStream(b []byte) int {
+	index := regexpStream.FindIndex(b)
+	if index == nil {
+		return -1
+	}
+	return index[1] - len("stream")
+}
+
 func rc4Cip(key []byte, src []byte) ([]byte, error) {
 	cip, err := rc4.NewCipher(key)
 	if err != nil {
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index bbe0127..fe9c2da 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -78,7 +78,7 @@ func readProperty(rawObj *[]byte, key string) (*PDFObjPropertyData, error) {
 func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 
 	tmp0 := *rawObj
-	index := bytes.Index(*rawObj, extractStreamBytes)
+	index := indexOfStream(*rawObj)
 	if index != -1 { //เป็น stream
 		tmp0 = tmp0[0:index]
 	}
diff --git a/pdft.go b/pdft.go
index 8fa4bb8..99abb37 100644
--- a/pdft.go
+++ b/pdft.go
@@ -684,7 +684,14 @@ func (i *PDFt) build() (*PDFData, int, error) {
 		max := newpdf.Len()
 		x := 0
 		for x < max {
-			newpdf.objs[x].encrypt(i.protection())
+			length, err := streamLength(&newpdf, &newpdf.objs[x].data)
+			if err != nil {
+				length = -1 //not stream
+			}
+			err = newpdf.objs[x].encrypt(i.protection(), length)
+			if err != nil {
+				return nil, 0, err
+			}
 			x++
 		}
 	}
diff --git a/regex.go b/regex.go
index 18e38fc..74d8861 100644
--- a/regex.go
+++ b/regex.go
@@ -8,3 +8,4 @@ var regexpStartObj = regexp.MustCompile("[0-9]+[\\n\\r\\t ]0[\\n\\r\\t ]obj")
 var regexpEndObj = regexp.MustCompile("endobj")
 var regexpTrailer = regexp.MustCompile("trailer")
 var regexpStartxref = regexp.MustCompile("startxref")
+var regexpStream = regexp.MustCompile(">>[\\n\\r\\t ]*stream")
-- 
2.43.0


From db4f72f3f2dd78ecac7db0294c267114abceca8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:33 +0000
Subject: [PATCH 11/55] fix: do not write behind the passwords given by the
 caller

---
 minigopdf/pdf_protection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/pdf_protection.go b/minigopdf/pdf_protection.go
index 5fa588b..ecff346 100644
--- a/minigopdf/pdf_protection.go
+++ b/minigopdf/pdf_protection.go
@@ -50,6 +50,9 @@ func (p *PDFProtection) setProtection(permissions int, userPass []byte, ownerPas
 
 func (p *PDFProtection) generateEncryptionKey(userPass []byte, ownerPass []byte, protection int) error {
 
+	//passwords belong to caller
+	userPass = append([]byte{}, userPass...)
+	ownerPass = append([]byte{}, ownerPass...)
 	userPass = append(userPass, protectionPadding...)
 	userPassWithPadding := userPass[0:32]
 	ownerPass = append(ownerPass, protectionPadding...)
-- 
2.43.0


From 52f94ef29c2be95044231d16fbaa8309ed382032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:24 +0000
Subject: [PATCH 12/55] fix: keep strings in rewritten dictionaries as they are

---
 pdf_obj_property_data.go |   3 ++
 pdf_string.go            | 113 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 116 insertions(+)
 create mode 100644 pdf_string.go

diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index fe9c2da..5fb8d6d 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -98,6 +98,9 @@ func readProperties(rawObj *[]byte, outProps *PDFObjPropertiesData) error {
 	var regexpLine = regexp.MustCompile("[\\r\\n\\t ]+")
 
 	tmp := strings.TrimSpace(string((*rawObj)[startObjInx+len("<<") : endObjInx]))
+	if hexed, err := mapStrings([]byte(tmp), func(val []byte) ([]byte, error) { return val, nil }); err == nil {
+		tmp = string(hexed) //white space and delimiters in strings are not syntax
+	}
 	tmp = regexpLine.ReplaceAllString(tmp, " ")
 	tmp = regexpSlash.ReplaceAllString(tmp, "/")
 	tmp = regexpOpenB.ReplaceAllString(tmp, "[")
diff --git a/pdf_string.go b/pdf_string.go
new file mode 100644
index 0000000..ca0bfb9
--- /dev/null
+++ b/pdf_string.go
@@ -0,0 +1,113 @@
+package pdft
+
+import (
+	"bytes"
+	"encoding/hex"
+	"fmt"
+)
+
+// mapStrings replace value of every string in b by fn(value), result strings are
+// in hexadecimal form so they contain no delimiter nor white space
+func mapStrings(b []byte, fn func([]byte) ([]byte, error)) ([]byte, error) {
+	var out bytes.Buffer
+	i := 0
+	for i < len(b) {
+		var val []byte
+		next := i
+		if b[i] == '(' {
+			val, next = readLiteralString(b, i)
+		} else if b[i] == '<' && i+1 < len(b) && b[i+1] != '<' {
+			val, next = readHexString(b, i)
+		} else if b[i] == '<' || b[i] == '>' { //<< or >>
+			next = i
+			for next < len(b) && next < i+2 && b[next] == b[i] {
+				out.WriteByte(b[next])
+				next++
+			}
+			i = next
+			continue
+		}
+		if next == i { //not string
+			out.WriteByte(b[i])
+			i++
+			continue
+		}
+		val, err := fn(val)
+		if err != nil {
+			return nil, err
+		}
+		out.WriteString(fmt.Sprintf("<%X>", val))
+		i = next
+	}
+	return out.Bytes(), nil
+}
+
+// readLiteralString read string at b[start] = '(', return value and index after
+// the string, index is start if string does not end
+func readLiteralString(b []byte, start int) ([]byte, int) {
+	val := []byte{}
+	depth := 0
+	for i := start; i < len(b); i++ {
+		c := b[i]
+		switch c {
+		case '(':
+			depth++
+			if depth == 1 {
+				continue
+			}
+		case ')':
+			depth--
+			if depth == 0 {
+				return val, i + 1
+			}
+		case '\r': //end-of-line in string is \n
+			c = '\n'
+			if i+1 < len(b) && b[i+1] == '\n' {
+				i++
+			}
+		case '\\':
+			i++
+			if i >= len(b) {
+				return nil, start
+			}
+			c = b[i]
+			if index := bytes.IndexByte([]byte("nrtbf"), c); index >= 0 {
+				c = "\n\r\t\b\f"[index]
+			} else if c == '\r' || c == '\n' { //string continues on next line
+				if c == '\r' && i+1 < len(b) && b[i+1] == '\n' {
+					i++
+				}
+				continue
+			} else if c >= '0' && c <= '7' {
+				n := 0
+				j := i
+				for j < len(b) && j < i+3 && b[j] >= '0' && b[j] <= '7' {
+					n = n*8 + int(b[j]-'0')
+					j++
+				}
+				i = j - 1
+				c = byte(n)
+			}
+		}
+		val = append(val, c)
+	}
+	return nil, start
+}
+
+// readHexString read string at b[start] = '<', return value and index after the
+// string, index is start if it is not a string
+func readHexString(b []byte, start int) ([]byte, int) {
+	end := bytes.IndexByte(b[start:], '>')
+	if end < 0 {
+		return nil, start
+	}
+	digits := bytes.Join(bytes.Fields(b[start+1:start+end]), nil)
+	if len(digits)%2 == 1 {
+		digits = append(digits, '0')
+	}
+	val := make([]byte, len(digits)/2)
+	if _, err := hex.Decode(val, digits); err != nil {
+		return nil, start
+	}
+	return val, start + end + 1
+}
-- 
2.43.0


From c9a7ff0b665158fd7cee6999dca77e061d6c2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:27 +0000
Subject: [PATCH 13/55] fix: encrypt strings of a protected document, readers
 decrypt them

---
 pdf_obj_data.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index d36be23..ebd5453 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -76,7 +76,11 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, length int) error
 		}
 
 		var head, body bytes.Buffer
-		head.Write(p.data[0:start])
+		dict, err := p.encryptStrings(p.data[0:start], protection)
+		if err != nil {
+			return err
+		}
+		head.Write(dict)
 		body.Write(p.data[start+len(stream) : end])
 		tmp := bytes.Trim(body.Bytes(), "\r\n")
 		tmp = bytes.Trim(tmp, "\n")
@@ -96,10 +100,23 @@ func (p *PDFObjData) encrypt(protection *gopdf.PDFProtection, length int) error
 		data.WriteString("\n")
 		data.Write(endstream)
 		p.data = data.Bytes()
+		return nil
 	}
+	data, err := p.encryptStrings(p.data, protection)
+	if err != nil {
+		return err
+	}
+	p.data = data
 	return nil
 }
 
+// encryptStrings strings are encrypted with the key of their object like streams
+func (p *PDFObjData) encryptStrings(b []byte, protection *gopdf.PDFProtection) ([]byte, error) {
+	return mapStrings(b, func(val []byte) ([]byte, error) {
+		return rc4Cip(protection.Objectkey(p.objID), val)
+	})
+}
+
 // indexOfStream index of keyword stream, the word can be in strings or names too
 func indexOfStream(b []byte) int {
 	index := regexpStream.FindIndex(b)
-- 
2.43.0


From 45af2783c12ee2bb648813b180f47de62839e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:06 +0000
Subject: [PATCH 14/55] fix: failed Insert adds nothing, measuring without font
 returns an error, color is taken at insert

---
 pdft.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pdft.go b/pdft.go
index 99abb37..2db523d 100644
--- a/pdft.go
+++ b/pdft.go
@@ -306,7 +306,10 @@ func (i *PDFt) InsertWrapText(text string,
 func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64, h float64, align int, fontColor *FontColor) error {
 	var ct ContentText
 	ct.text = text
-	ct.fontColor = fontColor
+	if fontColor != nil {
+		color := *fontColor //caller can change it after insert
+		ct.fontColor = &color
+	}
 	ct.fontName = i.curr.fontName
 	ct.fontStyle = i.curr.fontStyle
 	ct.fontSize = i.curr.fontSize
@@ -323,12 +326,19 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 		return ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
+	err := i.fontDatas[ct.fontName].addChars(text)
+	if err != nil {
+		return err
+	}
 	i.contenters = append(i.contenters, &ct)
-	return i.fontDatas[ct.fontName].addChars(text)
+	return nil
 }
 
 // MeasureTextWidth measure text width
 func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
+	if _, have := i.fontDatas[i.curr.fontName]; !have {
+		return 0, ErrFontNameNotFound
+	}
 	i.fontDatas[i.curr.fontName].addChars(text)
 	var ct ContentText
 	ct.text = text
-- 
2.43.0


From 248e089915bef9fdea52c4e7b96b1a5d85e8552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:11 +0000
Subject: [PATCH 15/55] fix: black text and colors whose sum is a multiple of
 256 do not take the color of preceding content

---
 content_text.go                 | 3 ++-
 minigopdf/cache_content_text.go | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/content_text.go b/content_text.go
index e236813..be7374f 100644
--- a/content_text.go
+++ b/content_text.go
@@ -51,7 +51,8 @@ func (c *ContentText) toSteram() (*bytes.Buffer, error) {
 		rgb.SetR(uint8(c.fontColor.R))
 		rgb.SetG(uint8(c.fontColor.G))
 		rgb.SetB(uint8(c.fontColor.B))
-	} else {
+	}
+	if c.fontColor == nil || *c.fontColor == (FontColor{}) { //black, 0 means color is not set
 		rgb.SetR(1)
 		rgb.SetG(1)
 		rgb.SetB(1)
diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 0da146c..56f1329 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -129,7 +129,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
-	if r+g+b != 0 {
+	if int(r)+int(g)+int(b) != 0 {
 		rFloat := float64(r) * 0.00392156862745
 		gFloat := float64(g) * 0.00392156862745
 		bFloat := float64(b) * 0.00392156862745
-- 
2.43.0


From f9480aafe833740461d40d10ce88146767456a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:16 +0000
Subject: [PATCH 16/55] fix: text rise does not apply to the text inserted next

---
 minigopdf/cache_content_text.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 56f1329..5ce57d6 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -291,6 +291,9 @@ func createContent(f *SubsetFontObj, text string, fontSize int, rectangle *Rect,
 		runeIndex++
 	}
 	out.WriteString(">] TJ\n")
+	if f.funcTextriseOverride != nil {
+		out.WriteString("0 Ts\n") //text rise is kept after ET
+	}
 
 	cellWidthPdfUnit := float64(0)
 	cellHeightPdfUnit := float64(0)
-- 
2.43.0


From acb68de9773fe0b279eb164a6caa051d6dcf5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:16 +0000
Subject: [PATCH 17/55] fix: opening a document forgets the document that was
 open before

---
 pdft.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdft.go b/pdft.go
index 2db523d..81ebfcd 100644
--- a/pdft.go
+++ b/pdft.go
@@ -100,12 +100,15 @@ func (i *PDFt) Open(filepath string) error {
 // OpenFrom open pdf from io.Reader
 func (i *PDFt) OpenFrom(r io.Reader) error {
 	//init
+	prev := *i
+	*i = PDFt{pdfProtection: prev.pdfProtection}
 	i.fontDatas = make(map[string]*PDFFontData)
 	i.curr.lineWidth = 1.0
 	i.pdfImgsMd5Map = make(map[string]*PDFImageData)
 	//open
 	err := PDFParse(r, &i.pdf)
 	if err != nil {
+		*i = prev
 		return err
 	}
 
-- 
2.43.0


From a7898f7c58c8cd14b68e7c382564b9dad65c676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:21 +0000
Subject: [PATCH 18/55] fix: embed every glyph once and the components of
 nested composite glyphs

---
 minigopdf/pdf_dictionary_obj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index c31501b..6597c9c 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -255,7 +255,12 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	//copy
 	isContainZero := false
 	glyphs := mapOfglyphs.AllVals()
+	seen := make(map[uint]bool)
 	for _, v := range glyphs {
+		if seen[v] { //characters can share glyph
+			continue
+		}
+		seen[v] = true
 		glyphArray = append(glyphArray, int(v))
 		if v == 0 {
 			isContainZero = true
@@ -266,8 +271,7 @@ func (p *PdfDictionaryObj) completeGlyphClosure(mapOfglyphs *MapOfCharacterToGly
 	}
 
 	i := 0
-	count := len(glyphs)
-	for i < count {
+	for i < len(glyphArray) { //glyphs of composite glyph can be composite too
 		p.AddCompositeGlyphs(&glyphArray, glyphArray[i])
 		i++
 	}
-- 
2.43.0


From 1548d58ff02c172f6b69275ebe576471d054479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:26 +0000
Subject: [PATCH 19/55] fix: last character of a cmap format 12 group belongs
 to the group

---
 minigopdf/subset_font_obj.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/subset_font_obj.go b/minigopdf/subset_font_obj.go
index 284706e..1bc87be 100644
--- a/minigopdf/subset_font_obj.go
+++ b/minigopdf/subset_font_obj.go
@@ -186,7 +186,7 @@ func (s *SubsetFontObj) charCodeToGlyphIndexFormat12(r rune) (uint, error) {
 	value := uint(r)
 	gTbs := s.ttfp.GroupingTables()
 	for _, gTb := range gTbs {
-		if value >= gTb.StartCharCode && value < gTb.EndCharCode {
+		if value >= gTb.StartCharCode && value <= gTb.EndCharCode {
 			gIndex := (value - gTb.StartCharCode) + gTb.GlyphID
 			return gIndex, nil
 		}
-- 
2.43.0


From f7cc699cc6fc61e181ad28190081fc44235cfed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:31 +0000
Subject: [PATCH 20/55] fix: write characters outside of the BMP as UTF-16 in
 ToUnicode

---
 minigopdf/unicode_map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 4068711..a9c1c52 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -3,6 +3,7 @@ package gopdf
 import (
 	"bytes"
 	"fmt"
+	"unicode/utf16"
 )
 
 // UnicodeMap unicode map
@@ -85,6 +86,10 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	indexs := glyphIndexToCharacter.allIndexs()
 	for _, k := range indexs {
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
+		if r1, r2 := utf16.EncodeRune(v); v > 0xFFFF { //UTF-16BE
+			buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X%04X>\n", k, k, r1, r2))
+			continue
+		}
 		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
 	}
 	buff.WriteString("endbfrange\n")
-- 
2.43.0


From b66724b8e7f299087a1e31ed421fe5737c82a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:35 +0000
Subject: [PATCH 21/55] fix: embed fonts whose last table is not padded

---
 minigopdf/buff_write.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minigopdf/buff_write.go b/minigopdf/buff_write.go
index 2901ff2..d61f2aa 100644
--- a/minigopdf/buff_write.go
+++ b/minigopdf/buff_write.go
@@ -40,6 +40,10 @@ func WriteTag(w io.Writer, tag string) error {
 // WriteBytes writes []byte value to w io.Writer
 func WriteBytes(w io.Writer, data []byte, offset int, count int) error {
 
+	if offset >= 0 && offset <= len(data) && offset+count > len(data) { //font may end without padding
+		data = append(append([]byte{}, data[offset:]...), make([]byte, offset+count-len(data))...)
+		offset = 0
+	}
 	_, err := w.Write(data[offset : offset+count])
 	if err != nil {
 		return err
-- 
2.43.0


From a9e6dd2ee163c427fb5db6f0abe7a4d9c9d9858e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:56 +0000
Subject: [PATCH 22/55] fix: insert gray alpha and indexed png images, chunks
 of any size and order

---
 minigopdf/image_obj_parse.go | 53 +++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/minigopdf/image_obj_parse.go b/minigopdf/image_obj_parse.go
index e230ff5..21407c9 100644
--- a/minigopdf/image_obj_parse.go
+++ b/minigopdf/image_obj_parse.go
@@ -8,6 +8,7 @@ import (
 	"fmt"
 	"image"
 	"image/color"
+	"io"
 	"io/ioutil"
 	"strings"
 )
@@ -21,7 +22,11 @@ func buildImgProp(imginfo imgInfo) (*bytes.Buffer, error) {
 	buffer.WriteString(fmt.Sprintf("/Height %d\n", imginfo.h)) //  /Height 942\n"
 	if isColspaceIndexed(imginfo) {
 		size := len(imginfo.pal)/3 - 1
-		buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1))
+		if imginfo.deviceRGBObjID > 0 {
+			buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d %d 0 R]\n", size, imginfo.deviceRGBObjID+1))
+		} else { //palette is not an object of its own
+			buffer.WriteString(fmt.Sprintf("/ColorSpace [/Indexed /DeviceRGB %d <%x>]\n", size, imginfo.pal))
+		}
 	} else {
 		buffer.WriteString(fmt.Sprintf("/ColorSpace /%s\n", imginfo.colspace))
 		if imginfo.colspace == "DeviceCMYK" {
@@ -219,6 +224,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 	var pal []byte
 	var trns []byte
 	var data []byte
+chunks:
 	for {
 		n, err := readInt(f)
 		if err != nil {
@@ -248,6 +254,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 
+			if (ct[0] == 0 && len(t) < 2) || (ct[0] == 2 && len(t) < 6) {
+				return errors.New("bad tRNS")
+			}
 			if ct[0] == 0 {
 				trns = []byte{(t[1])}
 			} else if ct[0] == 2 {
@@ -277,7 +286,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 				return err
 			}
 		} else if string(typ) == "IEND" {
-			break
+			break chunks
 		} else {
 			_, err = f.Seek(int64(n+4), 1) //skip
 			if err != nil {
@@ -285,9 +294,6 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 			}
 		}
 
-		if n <= 0 {
-			break
-		}
 	} //end for
 
 	//info.data = data //ok
@@ -296,7 +302,7 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 	//fmt.Printf("data= %x", md5.Sum(data))
 
-	if colspace == "Indexed" && strings.TrimSpace(string(pal)) == "" {
+	if colspace == "Indexed" && len(pal) < 3 {
 		return errors.New("Missing palette")
 	}
 
@@ -330,6 +336,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		if ct[0] == 4 {
 			// Gray image
 			length := 2 * w
+			if len(afterZipData) < (1+length)*h {
+				return io.ErrUnexpectedEOF
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -351,6 +360,9 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 		} else {
 			// RGB image
 			length := 4 * w
+			if len(afterZipData) < (1+length)*h {
+				return io.ErrUnexpectedEOF
+			}
 			i := 0
 			for i < h {
 				pos := (1 + length) * i
@@ -367,15 +379,15 @@ func paesePng(f *bytes.Reader, info *imgInfo, imgConfig image.Config) error {
 
 				i++
 			}
-			info.smask, err = compress(alpha)
-			if err != nil {
-				return err
-			}
+		}
+		info.smask, err = compress(alpha)
+		if err != nil {
+			return err
+		}
 
-			info.data, err = compress(color)
-			if err != nil {
-				return err
-			}
+		info.data, err = compress(color)
+		if err != nil {
+			return err
 		}
 
 	} else {
@@ -416,18 +428,15 @@ func readInt(f *bytes.Reader) (int, error) {
 	if err != nil {
 		return 0, err
 	}
-	var v int
-	if u >= 0x8000 {
-		v = int(u) - 65536
-	} else {
-		v = int(u)
-	}
-	return v, nil
+	return int(u), nil
 }
 
 func readBytes(f *bytes.Reader, len int) ([]byte, error) {
+	if len < 0 || len > f.Len() {
+		return nil, io.ErrUnexpectedEOF
+	}
 	b := make([]byte, len)
-	_, err := f.Read(b)
+	_, err := io.ReadFull(f, b)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b6e97e168d7eb6b1e456c86a184362d5941692c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:37 +0000
Subject: [PATCH 23/55] fix: broken pdf and font files return an error instead
 of panicking

---
 minigopdf/fontmaker/core/ttfparser.go |  7 +++++++
 minigopdf/pdf_dictionary_obj.go       |  3 +++
 pdf_data.go                           | 12 +++++++++---
 pdf_font_data.go                      |  9 ++++++---
 pdf_obj_property_data.go              |  3 +++
 pdf_parse.go                          |  3 ++-
 pdf_recover.go                        | 10 ++++++++++
 pdft.go                               | 18 +++++++++++++-----
 8 files changed, 53 insertions(+), 12 deletions(-)
 create mode 100644 pdf_recover.go

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index c750a59..461ba24 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -863,6 +863,10 @@ func (t *TTFParser) ParseHead(fd *bytes.Reader) error {
 		return err
 	}
 
+	if t.unitsPerEm == 0 {
+		return errors.New("unitsPerEm is zero")
+	}
+
 	err = t.Skip(fd, 2*8) // created, modified
 	if err != nil {
 		return err
@@ -933,6 +937,9 @@ func (t *TTFParser) ParseHhea(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
+	if t.numberOfHMetrics == 0 {
+		return errors.New("numberOfHMetrics is zero")
+	}
 
 	return nil
 }
diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 6597c9c..6eeaf38 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -104,6 +104,9 @@ func (p *PdfDictionaryObj) makeGlyfAndLocaTable() ([]byte, []int, error) {
 	for idx := 0; idx < glyphCount; idx++ {
 		size += p.getGlyphSize(glyphArray[idx])
 	}
+	if size < 0 || size > len(ttfp.FontData()) {
+		return nil, nil, errors.New("bad loca table")
+	}
 	glyf.Length = uint(size)
 
 	glyphTable := make([]byte, glyf.PaddedLength())
diff --git a/pdf_data.go b/pdf_data.go
index 5d03f64..0a00d47 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -105,8 +105,9 @@ func (p *PDFData) getPageCrawl(objID int, path ...string) (*crawl, error) {
 }
 
 // getPageObjIDs get page obj IDs
-func (p *PDFData) getPageObjIDs() ([]int, error) {
-	results := []int{}
+func (p *PDFData) getPageObjIDs() (results []int, err error) {
+	defer recoverAsError(&err)
+	results = []int{}
 	rootProps, _ := p.getObjByID(p.trailer.rootObjID).readProperties()
 	rootPagesID, _, _ := rootProps.getPropByKey("Pages").asDictionary()
 	objProps := map[int]*PDFObjPropertiesData{} // cache props
@@ -135,9 +136,14 @@ func (p *PDFData) getPageObjIDs() ([]int, error) {
 		}
 		return false
 	}
-	var visit func(id int) // Preorder Traversal, supporting for page nesting
+	visited := map[int]bool{} // broken file, node is its own ancestor
+	var visit func(id int)    // Preorder Traversal, supporting for page nesting
 	visit = func(id int) {
 		if kids := getKids(id); kids != nil {
+			if visited[id] {
+				return
+			}
+			visited[id] = true
 			for _, kid := range kids {
 				visit(kid)
 			}
diff --git a/pdf_font_data.go b/pdf_font_data.go
index 93ecddb..364f317 100644
--- a/pdf_font_data.go
+++ b/pdf_font_data.go
@@ -49,15 +49,18 @@ func (p *PDFFontData) fontName() string {
 	return p.fontname
 }
 
-func (p *PDFFontData) setTTFPath(path string) error {
+func (p *PDFFontData) setTTFPath(path string) (err error) {
+	defer recoverAsError(&err)
 	return p.font.SetTTFByPath(path)
 }
 
-func (p *PDFFontData) setTTFReader(reader io.Reader) error {
+func (p *PDFFontData) setTTFReader(reader io.Reader) (err error) {
+	defer recoverAsError(&err)
 	return p.font.SetTTFByReader(reader)
 }
 
-func (p *PDFFontData) addChars(text string) error {
+func (p *PDFFontData) addChars(text string) (err error) {
+	defer recoverAsError(&err)
 	return p.font.AddChars(text)
 }
 
diff --git a/pdf_obj_property_data.go b/pdf_obj_property_data.go
index 5fb8d6d..b0b9cbc 100644
--- a/pdf_obj_property_data.go
+++ b/pdf_obj_property_data.go
@@ -186,6 +186,9 @@ func readObjIDFromDictionaryArr(str string) ([]int, []int, error) {
 	i := 0
 	max := len(tokens)
 	for i < max {
+		if i+1 >= max {
+			return nil, nil, ErrorObjectIDNotFound
+		}
 		objID, err := strconv.Atoi(strings.TrimSpace(tokens[i]))
 		if err != nil {
 			return nil, nil, err
diff --git a/pdf_parse.go b/pdf_parse.go
index 79129c7..0e1ccad 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -10,7 +10,8 @@ import (
 )
 
 // PDFParse parse pdf
-func PDFParse(file io.Reader, outPdf *PDFData) error {
+func PDFParse(file io.Reader, outPdf *PDFData) (err error) {
+	defer recoverAsError(&err)
 
 	raw, err := ioutil.ReadAll(file)
 	if err != nil {
diff --git a/pdf_recover.go b/pdf_recover.go
new file mode 100644
index 0000000..d1cde7d
--- /dev/null
+++ b/pdf_recover.go
@@ -0,0 +1,10 @@
+package pdft
+
+import "fmt"
+
+// recoverAsError return panic, that comes from broken input, as error
+func recoverAsError(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("broken pdf or font : %v", r)
+	}
+}
diff --git a/pdft.go b/pdft.go
index 81ebfcd..a02c0d1 100644
--- a/pdft.go
+++ b/pdft.go
@@ -118,7 +118,8 @@ func (i *PDFt) OpenFrom(r io.Reader) error {
 }
 
 // DuplicatePageAfter ...
-func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) error {
+func (i *PDFt) DuplicatePageAfter(targetPageNumber, position int) (err error) {
+	defer recoverAsError(&err)
 
 	pageObjIds, err := i.pdf.getPageObjIDs()
 	if err != nil {
@@ -192,7 +193,8 @@ func (i *PDFt) RemoveOtherPages(targetPageNumber int) error {
 	return i.setPages([]int{pageObjIds[targetPageNumber-1]})
 }
 
-func (i *PDFt) setPages(pageObjIds []int) error {
+func (i *PDFt) setPages(pageObjIds []int) (err error) {
+	defer recoverAsError(&err)
 	rootProps, err := i.pdf.getObjByID(i.pdf.trailer.rootObjID).readProperties()
 	if err != nil {
 		return err
@@ -338,7 +340,7 @@ func (i *PDFt) Insert(text string, pageNum int, x float64, y float64, w float64,
 }
 
 // MeasureTextWidth measure text width
-func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
+func (i *PDFt) MeasureTextWidth(text string) (width float64, err error) {
 	if _, have := i.fontDatas[i.curr.fontName]; !have {
 		return 0, ErrFontNameNotFound
 	}
@@ -354,7 +356,8 @@ func (i *PDFt) MeasureTextWidth(text string) (float64, error) {
 		return 0, ErrFontNameNotFound
 	}
 	ct.pdfFontData = i.fontDatas[ct.fontName]
-	width, err := ct.measureTextWidth()
+	defer recoverAsError(&err)
+	width, err = ct.measureTextWidth()
 	return width, err
 }
 
@@ -600,7 +603,7 @@ func (i *PDFt) Save(filepath string) error {
 // SaveTo save pdf to io.Writer
 func (i *PDFt) SaveTo(w io.Writer) error {
 
-	newpdf, lastID, err := i.build()
+	newpdf, lastID, err := i.buildRecovered()
 	if err != nil {
 		return err
 	}
@@ -616,6 +619,11 @@ func (i *PDFt) SaveTo(w io.Writer) error {
 	return nil
 }
 
+func (i *PDFt) buildRecovered() (newpdf *PDFData, lastID int, err error) {
+	defer recoverAsError(&err)
+	return i.build()
+}
+
 func (i *PDFt) build() (*PDFData, int, error) {
 
 	var err error
-- 
2.43.0


From 89fda60ecdd16ecb526474261919fa66497a7dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:57 +0000
Subject: [PATCH 24/55] fix: wrapped text has no empty line before a token that
 is wider than the box

---
 pdft.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pdft.go b/pdft.go
index a02c0d1..2dbcf53 100644
--- a/pdft.go
+++ b/pdft.go
@@ -262,6 +262,10 @@ func (i *PDFt) InsertWrapText(text string,
 		if err != nil {
 			return err
 		}
+		if width > w && strings.TrimSpace(prevText) == "" { //nothing to break before this token, no empty line
+			prevText = currText
+			continue
+		}
 		if width > w {
 			renderCaches = append(renderCaches, cacheWrapTextRender{
 				text:      strings.TrimSpace(prevText),
-- 
2.43.0


From c15fbbe9f5ab9ab0456091d04a8cce9d7b04a73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:57 +0000
Subject: [PATCH 25/55] fix: words trailer and endobj in content of template
 are not syntax

---
 pdf_obj_data.go |  9 +++++++++
 pdf_parse.go    | 11 ++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pdf_obj_data.go b/pdf_obj_data.go
index ebd5453..6334a9d 100644
--- a/pdf_obj_data.go
+++ b/pdf_obj_data.go
@@ -21,6 +21,15 @@ func (p *PDFObjData) parse(raw *[]byte, stratoffset int) error {
 	if len(endObjIndex) <= 0 {
 		return errors.New("bad endobj")
 	}
+	if stm := regexpStream.FindIndex(tmp[:endObjIndex[0][0]]); stm != nil { //data of stream can have this word too
+		if endStm := bytes.Index(tmp[stm[1]:], []byte("endstream")); endStm > endObjIndex[0][0]-stm[1] {
+			end := regexpEndObj.FindIndex(tmp[stm[1]+endStm:])
+			if end == nil {
+				return errors.New("bad endobj")
+			}
+			endObjIndex[0][0] = end[0] + stm[1] + endStm
+		}
+	}
 	endObjOffsetBefore := endObjIndex[0][0] + stratoffset
 
 	tmp = (*raw)[stratoffset:endObjOffsetBefore]
diff --git a/pdf_parse.go b/pdf_parse.go
index 0e1ccad..930ec7a 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -124,16 +124,17 @@ func setPagesObj(pdf *PDFData) error {
 
 func parseTrailer(raw *[]byte, pdf *PDFData) error {
 
-	indexTrailers := regexpTrailer.FindAllIndex(*raw, 1)
-	if len(indexTrailers) <= 0 {
-		return errors.New("trailer not found")
-	}
-
 	indexStartxrefs := regexpStartxref.FindAllIndex(*raw, 1)
 	if len(indexStartxrefs) <= 0 {
 		return errors.New("startxref not found")
 	}
 
+	indexTrailers := regexpTrailer.FindAllIndex((*raw)[:indexStartxrefs[0][0]], -1)
+	if len(indexTrailers) <= 0 {
+		return errors.New("trailer not found")
+	}
+	indexTrailers = indexTrailers[len(indexTrailers)-1:] //content can have this word too
+
 	tmp := (*raw)[indexTrailers[0][1]:indexStartxrefs[0][0]]
 	var props PDFObjPropertiesData
 	err := readProperties(&tmp, &props)
-- 
2.43.0


From 35a79705653da99fa201e070c357b4439d848dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:45 +0000
Subject: [PATCH 26/55] fix: object numbers over the limit of pdf return an
 error instead of writing an endless xref

---
 pdf_data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 0a00d47..25e1795 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -666,5 +666,8 @@ func objIDFromStartObjLine(line string) (int, error) {
 	if err != nil {
 		return 0, err
 	}
+	if id > 8388607 { //limit of pdf, every number up to the last has a row in xref
+		return 0, errors.New("bad start obj")
+	}
 	return id, nil
 }
-- 
2.43.0


From d97d0e2f290926fbbdcde719444430b6634e1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:57 +0000
Subject: [PATCH 27/55] fix: font tables that lie outside of the file return an
 error

---
 minigopdf/pdf_dictionary_obj.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/pdf_dictionary_obj.go b/minigopdf/pdf_dictionary_obj.go
index 6eeaf38..00b9032 100644
--- a/minigopdf/pdf_dictionary_obj.go
+++ b/minigopdf/pdf_dictionary_obj.go
@@ -233,6 +233,9 @@ func (p *PdfDictionaryObj) makeFont() ([]byte, error) {
 			entry.CheckSum = CheckSum(data)
 			WriteBytes(&buff, data, 0, len(data))
 		} else {
+			if size := uint(len(ttfp.FontData())); entry.Offset > size || entry.Length > size-entry.Offset {
+				return nil, errors.New("bad table directory")
+			}
 			WriteBytes(&buff, ttfp.FontData(), int(entry.Offset), entry.PaddedLength())
 		}
 		endPosition := buff.Position()
-- 
2.43.0


From 20da9201969d090c48fcade0ffcdd03fde93296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:12 +0000
Subject: [PATCH 28/55] fix: keep document information of the template

---
 pdf_data.go  | 1 +
 pdf_parse.go | 6 ++++++
 pdft.go      | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/pdf_data.go b/pdf_data.go
index 25e1795..dc20cee 100644
--- a/pdf_data.go
+++ b/pdf_data.go
@@ -23,6 +23,7 @@ type PDFData struct {
 // TrailerData trailer
 type TrailerData struct {
 	rootObjID int
+	infoObjID int //0 = no /Info
 }
 
 // Len count
diff --git a/pdf_parse.go b/pdf_parse.go
index 930ec7a..5aa6c43 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -153,6 +153,12 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 	}
 	pdf.trailer.rootObjID = rootID
 
+	if propInfo := props.getPropByKey("Info"); propInfo != nil {
+		if infoID, _, err := propInfo.asDictionary(); err == nil {
+			pdf.trailer.infoObjID = infoID
+		}
+	}
+
 	return nil
 }
 
diff --git a/pdft.go b/pdft.go
index 2dbcf53..721457f 100644
--- a/pdft.go
+++ b/pdft.go
@@ -797,6 +797,9 @@ func (i *PDFt) xref(linelens map[int]int, buff *bytes.Buffer, size int, rootID i
 	buff.WriteString("<<\n")
 	buff.WriteString(fmt.Sprintf("/Size %d\n", size+1))
 	buff.WriteString(fmt.Sprintf("/Root %d 0 R\n", rootID))
+	if infoID := i.pdf.trailer.infoObjID; infoID > 0 && i.pdf.getObjByID(infoID) != nil {
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", infoID))
+	}
 	if i.protection() != nil {
 		buff.WriteString(fmt.Sprintf("/Encrypt %d 0 R\n", encryptionObjID))
 		buff.WriteString("/ID [()()]\n")
-- 
2.43.0


From 35089287b33cae2209ff3362a7561cbd1baa9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:17 +0000
Subject: [PATCH 29/55] fix: names of fonts with delimiters or white space do
 not break the file

---
 minigopdf/strhelper.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/minigopdf/strhelper.go b/minigopdf/strhelper.go
index 18f0614..ccb3ca4 100644
--- a/minigopdf/strhelper.go
+++ b/minigopdf/strhelper.go
@@ -20,9 +20,12 @@ func StrHelperGetStringWidth(str string, fontSize int, ifont IFont) float64 {
 
 // CreateEmbeddedFontSubsetName create Embedded font (subset font) name
 func CreateEmbeddedFontSubsetName(name string) string {
-	name = strings.Replace(name, " ", "+", -1)
-	name = strings.Replace(name, "/", "+", -1)
-	return name
+	return strings.Map(func(r rune) rune {
+		if r <= ' ' || strings.ContainsRune("()<>[]{}/%#", r) { //white space and delimiter end a name
+			return '+'
+		}
+		return r
+	}, name)
 }
 
 // ReadShortFromByte read short from byte array
-- 
2.43.0


From 2e6f53993b8c20e63fa3610c2d95e6aab5e8a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:40 +0000
Subject: [PATCH 30/55] fix: texts and cells drawn one after another by gopdf
 are placed where they belong

---
 minigopdf/cache_content_text.go | 5 +++++
 minigopdf/list_cache_content.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 5ce57d6..945ae2f 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -45,7 +45,12 @@ func (c *cacheContentText) isSame(cache cacheContentText) bool {
 		c.fontCountIndex == cache.fontCountIndex &&
 		c.fontSize == cache.fontSize &&
 		c.fontStyle == cache.fontStyle &&
+		c.contentType == cache.contentType &&
+		c.cellOpt == cache.cellOpt &&
+		c.cellOpt.Border == 0 &&
+		cache.rectangle == nil &&
 		c.setXCount == cache.setXCount &&
+		c.x+c.cellWidthPdfUnit == cache.x &&
 		c.y == cache.y {
 		return true
 	}
diff --git a/minigopdf/list_cache_content.go b/minigopdf/list_cache_content.go
index fbe898e..8110c47 100644
--- a/minigopdf/list_cache_content.go
+++ b/minigopdf/list_cache_content.go
@@ -53,10 +53,10 @@ func (l *listCacheContent) appendContentText(cache cacheContentText, text string
 	}
 
 	if cacheFont.cellOpt.Float == 0 || cacheFont.cellOpt.Float&Right == Right || cacheFont.contentType == ContentTypeText {
-		x += textWidthPdfUnit
+		x = cacheFont.x + textWidthPdfUnit
 	}
 	if cacheFont.cellOpt.Float&Bottom == Bottom {
-		y += textHeightPdfUnit
+		y = cacheFont.y + textHeightPdfUnit
 	}
 
 	return x, y, nil
-- 
2.43.0


From 1b2333c2a95f584aa80232465287f9e3e0c4e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:41 +0000
Subject: [PATCH 31/55] fix: measuring text with gopdf does not panic

---
 minigopdf/gopdf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 637e7e9..4ec010b 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -628,7 +628,7 @@ func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
 		return 0, err
 	}
 
-	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, nil)
+	_, _, textWidthPdfUnit, err := createContent(gp.curr.Font_ISubset, text, gp.curr.Font_Size, nil, new(bytes.Buffer))
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 8f78fa1cccd7c6c8579d0060109e69d4e607c80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:42 +0000
Subject: [PATCH 32/55] fix: gopdf draws images with alpha channel and with
 palette

---
 minigopdf/gopdf.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 4ec010b..b2725f0 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -247,7 +247,7 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
-			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj)
+			imgobj.imginfo.smarkObjID = gp.addObj(smaskObj) + 1
 		}
 
 		if imgobj.isColspaceIndexed() {
@@ -255,6 +255,9 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 			if err != nil {
 				return err
 			}
+			dRGB.init(func() *GoPdf {
+				return gp
+			})
 			imgobj.imginfo.deviceRGBObjID = gp.addObj(dRGB)
 		}
 
-- 
2.43.0


From 1a01abda914df6bbdf3b5a0cd293e9aa03dc2120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:44 +0000
Subject: [PATCH 33/55] fix: a page of gopdf without content is a valid page

---
 minigopdf/page_obj.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/minigopdf/page_obj.go b/minigopdf/page_obj.go
index f737f9b..364377e 100644
--- a/minigopdf/page_obj.go
+++ b/minigopdf/page_obj.go
@@ -38,7 +38,9 @@ func (p *PageObj) build(objID int) error {
 	}
 	me.buffer.WriteString("    >>\n")*/
 	//me.buffer.WriteString("  >>\n")
-	p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	if p.Contents != "" {
+		p.buffer.WriteString("  /Contents " + p.Contents + "\n") //sample  Contents 8 0 R
+	}
 	if !p.pageOption.isEmpty() {
 		height := fmt.Sprintf("%0.2f", p.pageOption.PageSize.H)
 		width := fmt.Sprintf("%0.2f", p.pageOption.PageSize.W)
-- 
2.43.0


From e9bb5652aa90ff153d1c43548d217e8ed8222db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:46 +0000
Subject: [PATCH 34/55] fix: document information of gopdf with date or
 characters outside of the BMP is valid

---
 minigopdf/gopdf.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index b2725f0..2ce3582 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"strconv"
 	"time"
+	"unicode/utf16"
 )
 
 const subsetFont = "SubsetFont"
@@ -821,7 +822,7 @@ func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)>>\n", infodate(gp.info.CreationDate)))
+		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
@@ -858,12 +859,8 @@ func (gp *GoPdf) getContent() *ContentObj {
 
 func encodeUtf8(str string) string {
 	var buff bytes.Buffer
-	for _, r := range str {
-		c := fmt.Sprintf("%X", r)
-		for len(c) < 4 {
-			c = "0" + c
-		}
-		buff.WriteString(c)
+	for _, u := range utf16.Encode([]rune(str)) {
+		buff.WriteString(fmt.Sprintf("%04X", u))
 	}
 	return buff.String()
 }
-- 
2.43.0


From dc7b3b76ca2dceb91b8869f0aeeeec25f2514e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:47 +0000
Subject: [PATCH 35/55] fix: color of a text drawn by gopdf does not apply to
 what is drawn next

---
 minigopdf/cache_content_text.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/minigopdf/cache_content_text.go b/minigopdf/cache_content_text.go
index 945ae2f..eb7ad73 100644
--- a/minigopdf/cache_content_text.go
+++ b/minigopdf/cache_content_text.go
@@ -131,6 +131,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		return nil, err
 	}
 
+	stream.WriteString("q\n") //color of text does not apply to what is drawn next
 	stream.WriteString("BT\n")
 	stream.WriteString(fmt.Sprintf("%0.2f %0.2f TD\n", x, y))
 	stream.WriteString("/F" + strconv.Itoa(c.fontCountIndex) + " " + strconv.Itoa(c.fontSize) + " Tf\n")
@@ -159,6 +160,7 @@ func (c *cacheContentText) toStream(protection *PDFProtection) (*bytes.Buffer, e
 		}
 	}
 
+	stream.WriteString("Q\n")
 	c.drawBorder(&stream)
 
 	return &stream, nil
-- 
2.43.0


From 7b57b3a019ff9a64d923fb081e6ae6f2e5d70a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:49 +0000
Subject: [PATCH 36/55] fix: gopdf can write a document more than once

---
 minigopdf/content_obj.go | 4 +---
 minigopdf/gopdf.go       | 6 +++++-
 minigopdf/procset_obj.go | 3 +--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/minigopdf/content_obj.go b/minigopdf/content_obj.go
index 19940a8..1a2cf30 100644
--- a/minigopdf/content_obj.go
+++ b/minigopdf/content_obj.go
@@ -41,15 +41,13 @@ func (c *ContentObj) build(objID int) error {
 			// should never happen...
 			return err
 		}
-		c.stream.WriteTo(zwriter)
 		buff.WriteTo(zwriter)
 		zwriter.Close()
 		cPtr = &zbuff
 	} else {
 		// zlib compressLevel = 0 adds header and thus
 		// needs /FlateDecode => pass through
-		buff.WriteTo(&c.stream)
-		cPtr = &c.stream
+		cPtr = buff
 	}
 	streamlen := (*cPtr).Len()
 	c.buffer.WriteString("<<\n")
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 2ce3582..64349f0 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -416,6 +416,7 @@ func (gp *GoPdf) compilePdf() error {
 		objID := i + 1
 		linelens[i] = gp.buf.Len()
 		pdfObj := gp.pdfObjs[i]
+		pdfObj.getObjBuff().Reset()
 		err = pdfObj.build(objID)
 		if err != nil {
 			return err
@@ -718,7 +719,7 @@ func (gp *GoPdf) protection() *PDFProtection {
 
 func (gp *GoPdf) prepare() {
 
-	if gp.isUseProtection() {
+	if gp.isUseProtection() && gp.encryptionObjID == 0 {
 		encObj := gp.pdfProtection.encryptionObj()
 		gp.addObj(encObj)
 	}
@@ -727,6 +728,8 @@ func (gp *GoPdf) prepare() {
 		indexCurrPage := -1
 		var pagesObj *PagesObj
 		pagesObj = gp.pdfObjs[gp.indexOfPagesObj].(*PagesObj)
+		pagesObj.Kids = ""
+		pagesObj.PageCount = 0
 		i := 0 //gp.indexOfFirstPageObj
 		max := len(gp.pdfObjs)
 		for i < max {
@@ -736,6 +739,7 @@ func (gp *GoPdf) prepare() {
 				pagesObj.Kids = fmt.Sprintf("%s %d 0 R ", pagesObj.Kids, i+1)
 				pagesObj.PageCount++
 				indexCurrPage = i
+				gp.pdfObjs[i].(*PageObj).Contents = ""
 			} else if objtype == "Content" {
 				if indexCurrPage != -1 {
 					gp.pdfObjs[indexCurrPage].(*PageObj).Contents = fmt.Sprintf("%s %d 0 R ", gp.pdfObjs[indexCurrPage].(*PageObj).Contents, i+1)
diff --git a/minigopdf/procset_obj.go b/minigopdf/procset_obj.go
index 8c6a48f..acd7ca3 100644
--- a/minigopdf/procset_obj.go
+++ b/minigopdf/procset_obj.go
@@ -38,8 +38,7 @@ func (pr *ProcSetObj) build(objID int) error {
 	i = 0
 	max = len(pr.RealteXobjs)
 	for i < max {
-		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", pr.getRoot().curr.CountOfL+1, pr.RealteXobjs[i].IndexOfObj+1))
-		pr.getRoot().curr.CountOfL++
+		pr.buffer.WriteString(fmt.Sprintf("/I%d %d 0 R\n", i+1, pr.RealteXobjs[i].IndexOfObj+1))
 		i++
 	}
 	pr.buffer.WriteString(">>\n")
-- 
2.43.0


From bedf2cb9981c36a9822ca74646e0abadc2cca1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:33 +0000
Subject: [PATCH 37/55] fix: an image gopdf draws again without a size has its
 own size

---
 minigopdf/gopdf.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 64349f0..973d588 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -263,11 +263,16 @@ func (gp *GoPdf) ImageByHolder(img ImageHolder, x float64, y float64, rect *Rect
 		}
 
 	} else { //same img
-		var imgRect *Rect
+		imgRect := rect
 		if rect == nil {
-			imgRect = gp.curr.ImgCaches[cacheImageIndex].Rect
-		} else {
-			imgRect = rect
+			//size of the image itself, not the size it had when it was drawn first
+			procset := gp.pdfObjs[gp.indexOfProcSet].(*ProcSetObj)
+			imgobj := gp.pdfObjs[procset.RealteXobjs[cacheImageIndex].IndexOfObj].(*ImageObj)
+			var err error
+			imgRect, err = imgobj.getRect()
+			if err != nil {
+				return err
+			}
 		}
 		gp.getContent().AppendStreamImage(cacheImageIndex, x, y, imgRect)
 	}
-- 
2.43.0


From 93c5f2fa6a6ede0b24c8e4d63c413b4c48292fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:58 +0000
Subject: [PATCH 38/55] fix: length of protected images and fonts of gopdf is
 the length of their data

---
 minigopdf/embedfont_obj.go | 1 -
 minigopdf/image_obj.go     | 1 -
 minigopdf/smask_obj.go     | 1 -
 3 files changed, 3 deletions(-)

diff --git a/minigopdf/embedfont_obj.go b/minigopdf/embedfont_obj.go
index 7f72991..c3ef327 100644
--- a/minigopdf/embedfont_obj.go
+++ b/minigopdf/embedfont_obj.go
@@ -38,7 +38,6 @@ func (e *EmbedFontObj) build(objID int) error {
 			return err
 		}
 		e.buffer.Write(tmp)
-		e.buffer.WriteString("\n")
 	} else {
 		e.buffer.Write(b)
 	}
diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index 7873b7e..aa11124 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -59,7 +59,6 @@ func (i *ImageObj) build(objID int) error {
 			return err
 		}
 		i.buffer.Write(tmp)
-		i.buffer.WriteString("\n")
 	} else {
 		i.buffer.Write(i.imginfo.data)
 	}
diff --git a/minigopdf/smask_obj.go b/minigopdf/smask_obj.go
index 9338bba..08eb5aa 100644
--- a/minigopdf/smask_obj.go
+++ b/minigopdf/smask_obj.go
@@ -52,7 +52,6 @@ func (s *SMask) build(objID int) error {
 			return err
 		}
 		s.buffer.Write(tmp)
-		s.buffer.WriteString("\n")
 	} else {
 		s.buffer.Write(s.data)
 	}
-- 
2.43.0


From bdd473ff74e4100c21e1ea738b405528a0e6020a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:19 +0000
Subject: [PATCH 39/55] fix: kerning pairs of every subtable of a font are used

---
 minigopdf/fontmaker/core/ttfparser_kern.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser_kern.go b/minigopdf/fontmaker/core/ttfparser_kern.go
index 92315b7..bba2f28 100644
--- a/minigopdf/fontmaker/core/ttfparser_kern.go
+++ b/minigopdf/fontmaker/core/ttfparser_kern.go
@@ -16,7 +16,8 @@ func (t *TTFParser) Parsekern(fd *bytes.Reader) error {
 		return err
 	}
 
-	t.kern = new(KernTable) //init
+	t.kern = new(KernTable)        //init
+	t.kern.Kerning = make(KernMap) //pairs of all subtables
 
 	version, err := t.ReadUShort(fd)
 	if err != nil {
@@ -53,7 +54,6 @@ func (t *TTFParser) parsekernSubTable(fd *bytes.Reader) error {
 
 	format := coverage & 0xf0
 	//fmt.Printf("format = %d\n", format) //debug
-	t.kern.Kerning = make(KernMap) //init
 	if format == 0 {
 		t.parsekernSubTableFormat0(fd)
 	} else {
-- 
2.43.0


From 9c9cf1761235dad01da43a3edf068045c20ddce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:54 +0000
Subject: [PATCH 40/55] fix: strings of the fonts of a protected gopdf document
 are encrypted

---
 minigopdf/cid_font_obj.go | 27 +++++++++++++++++++++++++--
 minigopdf/gopdf.go        |  1 +
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/minigopdf/cid_font_obj.go b/minigopdf/cid_font_obj.go
index 310b2d2..22d9ba3 100644
--- a/minigopdf/cid_font_obj.go
+++ b/minigopdf/cid_font_obj.go
@@ -9,19 +9,42 @@ type CIDFontObj struct {
 	buffer                    bytes.Buffer
 	PtrToSubsetFontObj        *SubsetFontObj
 	indexObjSubfontDescriptor int
+	pdfProtection             *PDFProtection
 }
 
 func (ci *CIDFontObj) init(funcGetRoot func() *GoPdf) {
 }
 
+func (ci *CIDFontObj) setProtection(p *PDFProtection) {
+	ci.pdfProtection = p
+}
+
+func (ci *CIDFontObj) protection() *PDFProtection {
+	return ci.pdfProtection
+}
+
 func (ci *CIDFontObj) build(objID int) error {
 
+	ordering, registry := "(Identity)", "(Adobe)"
+	if ci.protection() != nil {
+		key := ci.protection().objectkey(objID)
+		o, err := rc4Cip(key, []byte("Identity"))
+		if err != nil {
+			return err
+		}
+		r, err := rc4Cip(key, []byte("Adobe"))
+		if err != nil {
+			return err
+		}
+		ordering, registry = fmt.Sprintf("<%X>", o), fmt.Sprintf("<%X>", r)
+	}
+
 	ci.buffer.WriteString("<<\n")
 	ci.buffer.WriteString(fmt.Sprintf("/BaseFont /%s\n", CreateEmbeddedFontSubsetName(ci.PtrToSubsetFontObj.GetFamily())))
 	ci.buffer.WriteString("/CIDSystemInfo\n")
 	ci.buffer.WriteString("<<\n")
-	ci.buffer.WriteString("  /Ordering (Identity)\n")
-	ci.buffer.WriteString("  /Registry (Adobe)\n")
+	ci.buffer.WriteString("  /Ordering " + ordering + "\n")
+	ci.buffer.WriteString("  /Registry " + registry + "\n")
 	ci.buffer.WriteString("  /Supplement 0\n")
 	ci.buffer.WriteString(">>\n")
 	ci.buffer.WriteString(fmt.Sprintf("/FontDescriptor %d 0 R\n", ci.indexObjSubfontDescriptor+1)) //TODO fix
diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 973d588..c189dd6 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -552,6 +552,7 @@ func (gp *GoPdf) AddTTFFontByReaderWithOption(family string, rd io.Reader, optio
 	cidfont.init(func() *GoPdf {
 		return gp
 	})
+	cidfont.setProtection(gp.protection())
 	cidfont.SetPtrToSubsetFontObj(subsetFont)
 	cidfont.SetIndexObjSubfontDescriptor(subfontdescindex)
 	cidindex := gp.addObj(cidfont)
-- 
2.43.0


From 74d04c397f0ceaebe54347f3465cc1823f9e31d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 41/55] fix: difference at code 1 of an encoding made by
 fontmaker has its code

---
 minigopdf/fontmaker/core/fontmaker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 549e3a5..656bd1c 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -309,7 +309,7 @@ func (f *FontMaker) MakeFontEncoding(mappath string, fontmaps []FontMap) (string
 		return "", err
 	}
 	s := ""
-	last := 0
+	last := -2 //nothing is written yet
 	for c := 0; c <= 255; c++ {
 		if fontmaps[c].Name != ref[c].Name {
 			if c != last+1 {
-- 
2.43.0


From 53d35e8d45c2b986659833e097c101b80013c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 42/55] fix: original size of a font made by fontmaker is the
 size of the font

---
 minigopdf/fontmaker/core/fontmaker.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 656bd1c..9e0387e 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -191,7 +191,11 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	str += "}\n"
 
 	str += "func (me * " + gofontname + ") GetOriginalsize() int{\n"
-	str += "\treturn 98764\n"
+	originalSize, err := info.GetInt64("OriginalSize")
+	if err != nil {
+		return "", err
+	}
+	str += fmt.Sprintf("\treturn %d\n", originalSize)
 	str += "}\n"
 
 	str += "func (me * " + gofontname + ")  SetFamily(family string){\n"
@@ -382,7 +386,7 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 	if err != nil {
 		return nil, err
 	}
-	info.PushInt64("OriginalSize", size)
+	info.PushInt("OriginalSize", int(size))
 
 	k := float64(1000.0 / float64(parser.unitsPerEm))
 	info.PushString("FontName", parser.postScriptName)
-- 
2.43.0


From bc5469bcecfa9040cc1940c25af4aabe4c9437b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 43/55] fix: definition made by fontmaker compiles for every
 name of a font or file

---
 minigopdf/fontmaker/core/fontmaker.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 9e0387e..598461b 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -11,6 +11,8 @@ import (
 	"path/filepath"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // ErrFontLicenseDoesNotAllowEmbedding Font license does not allow embedding
@@ -92,8 +94,18 @@ func (f *FontMaker) MakeFont(fontpath string, mappath string, encode string, out
 }
 
 func (f *FontMaker) GoStructName(name string) string {
-	goname := strings.ToUpper(name[0:1]) + name[1:]
-	return goname
+	//only letters, digits and _ can be in a name of go
+	goname := strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, name)
+	first, size := utf8.DecodeRuneInString(goname)
+	if size == 0 || !unicode.IsUpper(unicode.ToUpper(first)) {
+		return "Font" + goname
+	}
+	return string(unicode.ToUpper(first)) + goname[size:]
 }
 
 func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, exportfile string, encode string, fontmaps []FontMap, info TtfInfo) (string, error) {
@@ -146,15 +158,15 @@ func (f *FontMaker) MakeDefinitionFile(gofontname string, mappath string, export
 	if err != nil {
 		return "", err
 	}
-	str += fmt.Sprintf("\tme.name = \"%s\"\n", tmpStr)
+	str += fmt.Sprintf("\tme.name = %q\n", tmpStr)
 
-	str += "\tme.enc = \"" + encode + "\"\n"
+	str += fmt.Sprintf("\tme.enc = %q\n", encode)
 	diff, err := f.MakeFontEncoding(mappath, fontmaps)
 	if err != nil {
 		return "", err
 	}
 	if diff != "" {
-		str += "\tme.diff = \"" + diff + "\"\n"
+		str += fmt.Sprintf("\tme.diff = %q\n", diff)
 	}
 
 	fd, err := f.MakeFontDescriptor(info)
-- 
2.43.0


From 713e2d61d0f163e6f9a5b6fdffe5bb64c9047fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 44/55] fix: postscript name of a font keeps its zeros and has
 no delimiters

---
 minigopdf/fontmaker/core/ttfparser.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index 461ba24..256517d 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -11,8 +11,6 @@ import (
 	"io/ioutil"
 	"os"
 	"regexp"
-	"strconv"
-	"strings"
 )
 
 var ERROR_NO_UNICODE_ENCODING_FOUND = errors.New("No Unicode encoding found")
@@ -570,8 +568,7 @@ func (t *TTFParser) ParseName(fd *bytes.Reader) error {
 				}
 			}
 			s := fmt.Sprintf("%s", string(tmpStmp)) //strings(stmp)
-			s = strings.Replace(s, strconv.Itoa(0), "", -1)
-			s, err = t.PregReplace("|[ \\[\\](){}<>/%]|", "", s)
+			s, err = t.PregReplace("[ \\[\\](){}<>/%]", "", s)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 53f162143b289e1d89410e26d08d7660a81aa2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 45/55] fix: restricted license of a font is found also with
 other flags

---
 minigopdf/fontmaker/core/ttfparser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/ttfparser.go b/minigopdf/fontmaker/core/ttfparser.go
index 256517d..8fa3216 100644
--- a/minigopdf/fontmaker/core/ttfparser.go
+++ b/minigopdf/fontmaker/core/ttfparser.go
@@ -438,7 +438,7 @@ func (t *TTFParser) ParseOS2(fd *bytes.Reader) error {
 	if err != nil {
 		return err
 	}
-	t.Embeddable = (fsType != 2) && ((fsType & 0x200) == 0)
+	t.Embeddable = (fsType&0x0F != 2) && ((fsType & 0x200) == 0)
 
 	err = t.Skip(fd, (11*2)+10+(4*4)+4)
 	if err != nil {
-- 
2.43.0


From 790c39cd3b652fc10bc4e1293802f7f803bf97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 46/55] fix: malformed map of an encoding returns an error
 instead of panicking

---
 minigopdf/fontmaker/core/fontmaker.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 598461b..81f49a9 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -484,7 +484,13 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.TrimSpace(scanner.Text())
-		e := strings.Split(line, " ")
+		if line == "" {
+			continue
+		}
+		e := strings.Fields(line)
+		if len(e) < 3 || len(e[0]) < 2 || len(e[1]) < 3 {
+			return nil, fmt.Errorf("wrong line in map : %s", line)
+		}
 		strC := (e[0])[1:]
 		strUv := (e[1])[2:]
 		c, err := strconv.ParseInt(strC, 16, 0)
@@ -495,11 +501,17 @@ func (f *FontMaker) LoadMap(encodingpath string) ([]FontMap, error) {
 		if err != nil {
 			return nil, err
 		}
+		if c < 0 || c >= int64(max) || uv < 0 {
+			return nil, fmt.Errorf("wrong code in map : %s", line)
+		}
 		name := e[2]
 		//fmt.Println("strC = "+strC+"strUv = "+strUv+" c=%d , uv= %d", c, uv)
 		fontmaps[c].Name = name
 		fontmaps[c].Uv = int(uv)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, err
+	}
 
 	return fontmaps, nil
 }
-- 
2.43.0


From b78243ff86bde161f688931b090d1074e0be1cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:35 +0000
Subject: [PATCH 47/55] fix: fontmaker returns an error for a font whose glyph
 has no width

---
 minigopdf/fontmaker/core/fontmaker.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minigopdf/fontmaker/core/fontmaker.go b/minigopdf/fontmaker/core/fontmaker.go
index 81f49a9..d61f626 100644
--- a/minigopdf/fontmaker/core/fontmaker.go
+++ b/minigopdf/fontmaker/core/fontmaker.go
@@ -433,6 +433,9 @@ func (f *FontMaker) GetInfoFromTrueType(fontpath string, fontmaps []FontMap) (Tt
 		if fontmaps[c].Name != ".notdef" {
 			uv := fontmaps[c].Uv
 			if val, ok := parser.chars[int(uv)]; ok {
+				if val >= uint(len(parser.widths)) {
+					return nil, fmt.Errorf("broken font : glyph %d has no width", val)
+				}
 				w := parser.widths[val]
 				widths[c] = f.MultiplyAndRoundWithUInt64(k, w)
 			} else {
-- 
2.43.0


From 254d122c11f03d0f07ecf60930737d7d5d5bb685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:15 +0000
Subject: [PATCH 48/55] fix: broken fonts return an error from gopdf instead of
 panicking

---
 minigopdf/gopdf.go   | 35 +++++++++++++++++++++++------------
 minigopdf/recover.go | 10 ++++++++++
 2 files changed, 33 insertions(+), 12 deletions(-)
 create mode 100644 minigopdf/recover.go

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index c189dd6..8d88908 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -407,9 +407,15 @@ func (gp *GoPdf) Close() error {
 	return nil
 }
 
-func (gp *GoPdf) compilePdf() error {
+func (gp *GoPdf) compilePdf() (err error) {
+	defer func() {
+		if err != nil {
+			gp.buf = bytes.Buffer{} //nothing of a document that can not be written
+		}
+	}()
+	defer recoverAsError(&err)
 	gp.prepare()
-	err := gp.Close()
+	err = gp.Close()
 	if err != nil {
 		return err
 	}
@@ -456,9 +462,10 @@ func (gp *GoPdf) GetBytesPdf() []byte {
 }
 
 // Text write text start at current x,y ( current y is the baseline of text )
-func (gp *GoPdf) Text(text string) error {
+func (gp *GoPdf) Text(text string) (err error) {
+	defer recoverAsError(&err)
 
-	err := gp.curr.Font_ISubset.AddChars(text)
+	err = gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
 	}
@@ -472,8 +479,9 @@ func (gp *GoPdf) Text(text string) error {
 }
 
 // CellWithOption create cell of text ( use current x,y is upper-left corner of cell)
-func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) error {
-	err := gp.curr.Font_ISubset.AddChars(text)
+func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) (err error) {
+	defer recoverAsError(&err)
+	err = gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
 	}
@@ -486,7 +494,8 @@ func (gp *GoPdf) CellWithOption(rectangle *Rect, text string, opt CellOption) er
 
 // Cell : create cell of text ( use current x,y is upper-left corner of cell)
 // Note that this has no effect on Rect.H pdf (now). Fix later :-)
-func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
+func (gp *GoPdf) Cell(rectangle *Rect, text string) (err error) {
+	defer recoverAsError(&err)
 
 	defaultopt := CellOption{
 		Align:  Left | Top,
@@ -494,7 +503,7 @@ func (gp *GoPdf) Cell(rectangle *Rect, text string) error {
 		Float:  Right,
 	}
 
-	err := gp.curr.Font_ISubset.AddChars(text)
+	err = gp.curr.Font_ISubset.AddChars(text)
 	if err != nil {
 		return err
 	}
@@ -512,14 +521,15 @@ func (gp *GoPdf) AddTTFFontByReader(family string, rd io.Reader) error {
 }
 
 // AddTTFFontByReaderWithOption add font file
-func (gp *GoPdf) AddTTFFontByReaderWithOption(family string, rd io.Reader, option TtfOption) error {
+func (gp *GoPdf) AddTTFFontByReaderWithOption(family string, rd io.Reader, option TtfOption) (err error) {
+	defer recoverAsError(&err)
 	subsetFont := new(SubsetFontObj)
 	subsetFont.init(func() *GoPdf {
 		return gp
 	})
 	subsetFont.SetTtfFontOption(option)
 	subsetFont.SetFamily(family)
-	err := subsetFont.SetTTFByReader(rd)
+	err = subsetFont.SetTTFByReader(rd)
 	if err != nil {
 		return err
 	}
@@ -632,9 +642,10 @@ func (gp *GoPdf) SetFillColor(r uint8, g uint8, b uint8) {
 }
 
 // MeasureTextWidth : measure Width of text (use current font)
-func (gp *GoPdf) MeasureTextWidth(text string) (float64, error) {
+func (gp *GoPdf) MeasureTextWidth(text string) (width float64, err error) {
+	defer recoverAsError(&err)
 
-	err := gp.curr.Font_ISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
+	err = gp.curr.Font_ISubset.AddChars(text) //AddChars for create CharacterToGlyphIndex
 	if err != nil {
 		return 0, err
 	}
diff --git a/minigopdf/recover.go b/minigopdf/recover.go
new file mode 100644
index 0000000..0130fe6
--- /dev/null
+++ b/minigopdf/recover.go
@@ -0,0 +1,10 @@
+package gopdf
+
+import "fmt"
+
+// recoverAsError return panic, that comes from broken font, as error
+func recoverAsError(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("broken font : %v", r)
+	}
+}
-- 
2.43.0


From 67de26fcf9cfa4f6869add7468f488e9ea556cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:52 +0000
Subject: [PATCH 49/55] fix: size of an image is read without decoding it, an
 image without size returns an error

---
 minigopdf/image_obj.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/minigopdf/image_obj.go b/minigopdf/image_obj.go
index aa11124..8769f22 100644
--- a/minigopdf/image_obj.go
+++ b/minigopdf/image_obj.go
@@ -2,6 +2,7 @@ package gopdf
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"image"
 	_ "image/jpeg"
@@ -152,12 +153,15 @@ func (i *ImageObj) GetRect() *Rect {
 func (i *ImageObj) getRect() (*Rect, error) {
 
 	i.rawImgReader.Seek(0, 0)
-	m, _, err := image.Decode(i.rawImgReader)
+	m, _, err := image.DecodeConfig(i.rawImgReader)
 	if err != nil {
 		return nil, err
 	}
+	if m.Width <= 0 || m.Height <= 0 {
+		return nil, errors.New("image has no size")
+	}
 
-	imageRect := m.Bounds()
+	imageRect := image.Rect(0, 0, m.Width, m.Height)
 	k := 1
 	w := -128 //init
 	h := -128 //init
-- 
2.43.0


From b7ad417a2d91d73614b4b4b5a8fabaee7f063176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:49 +0000
Subject: [PATCH 50/55] fix: compress level that is too big uses the best
 compression

---
 minigopdf/gopdf.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 8d88908..75e64df 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -80,7 +80,6 @@ func (gp *GoPdf) SetCompressLevel(level int) {
 	} else if level > zlib.BestCompression {
 		fmt.Fprintf(os.Stderr, errfmt, "big", "BestCompression")
 		level = zlib.BestCompression
-		return
 	}
 	// sanity check complete
 	gp.compressLevel = level
-- 
2.43.0


From cdbb500f5ad738d7e74c1077dae3e6e495d4db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 51/55] fix: creation date with a time zone of half an hour

---
 minigopdf/gopdf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 75e64df..663eee9 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -886,8 +886,8 @@ func encodeUtf8(str string) string {
 }
 
 func infodate(t time.Time) string {
-	ft := t.Format("20060102150405-07'00'")
-	return ft
+	ft := t.Format("20060102150405-0700")
+	return ft[:len(ft)-2] + "'" + ft[len(ft)-2:] + "'"
 }
 
 //tool for validate pdf https://www.pdf-online.com/osa/validate.aspx
-- 
2.43.0


From 1977289585e2d3355656fd6b72a909873cebd0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:17 +0000
Subject: [PATCH 52/55] fix: document information of GoPdf is an object of its
 own

---
 minigopdf/gopdf.go | 49 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/minigopdf/gopdf.go b/minigopdf/gopdf.go
index 663eee9..e7b9719 100644
--- a/minigopdf/gopdf.go
+++ b/minigopdf/gopdf.go
@@ -437,6 +437,16 @@ func (gp *GoPdf) compilePdf() (err error) {
 		gp.buf.WriteString("endobj\n\n")
 		i++
 	}
+	if gp.isUseInfo { //info is an object of its own
+		linelens = append(linelens, gp.buf.Len())
+		i++
+		gp.buf.WriteString(strconv.Itoa(i) + " 0 obj\n")
+		err = gp.bindInfo(&gp.buf, i)
+		if err != nil {
+			return err
+		}
+		gp.buf.WriteString("endobj\n\n")
+	}
 	gp.xref(linelens, &gp.buf, &i)
 	return nil
 }
@@ -805,7 +815,7 @@ func (gp *GoPdf) xref(linelens []int, buff *bytes.Buffer, i *int) error {
 		buff.WriteString("/ID [()()]\n")
 	}
 	if gp.isUseInfo {
-		gp.bindInfo(buff)
+		buff.WriteString(fmt.Sprintf("/Info %d 0 R\n", max))
 	}
 	buff.WriteString(">>\n")
 	buff.WriteString("startxref\n")
@@ -817,35 +827,43 @@ func (gp *GoPdf) xref(linelens []int, buff *bytes.Buffer, i *int) error {
 	return nil
 }
 
-func (gp *GoPdf) bindInfo(buff *bytes.Buffer) {
+func (gp *GoPdf) bindInfo(buff *bytes.Buffer, objID int) error {
 	var zerotime time.Time
-	buff.WriteString("/Info <<\n")
+	var err error
+	write := func(key string, val []byte) { //strings of object are encrypted like its streams
+		if gp.protection() != nil && err == nil {
+			val, err = rc4Cip(gp.protection().objectkey(objID), val)
+		}
+		buff.WriteString(fmt.Sprintf("/%s <%X>\n", key, val))
+	}
+	buff.WriteString("<<\n")
 
 	if gp.info.Author != "" {
-		buff.WriteString(fmt.Sprintf("/Author <FEFF%s>\n", encodeUtf8(gp.info.Author)))
+		write("Author", encodeUtf16(gp.info.Author))
 	}
 
 	if gp.info.Title != "" {
-		buff.WriteString(fmt.Sprintf("/Title <FEFF%s>\n", encodeUtf8(gp.info.Title)))
+		write("Title", encodeUtf16(gp.info.Title))
 	}
 
 	if gp.info.Subject != "" {
-		buff.WriteString(fmt.Sprintf("/Subject <FEFF%s>\n", encodeUtf8(gp.info.Subject)))
+		write("Subject", encodeUtf16(gp.info.Subject))
 	}
 
 	if gp.info.Creator != "" {
-		buff.WriteString(fmt.Sprintf("/Creator <FEFF%s>\n", encodeUtf8(gp.info.Creator)))
+		write("Creator", encodeUtf16(gp.info.Creator))
 	}
 
 	if gp.info.Producer != "" {
-		buff.WriteString(fmt.Sprintf("/Producer <FEFF%s>\n", encodeUtf8(gp.info.Producer)))
+		write("Producer", encodeUtf16(gp.info.Producer))
 	}
 
 	if !zerotime.Equal(gp.info.CreationDate) {
-		buff.WriteString(fmt.Sprintf("/CreationDate(D:%s)\n", infodate(gp.info.CreationDate)))
+		write("CreationDate", []byte("D:"+infodate(gp.info.CreationDate)))
 	}
 
 	buff.WriteString(" >>\n")
+	return err
 }
 
 // ปรับ xref ให้เป็น 10 หลัก
@@ -877,12 +895,17 @@ func (gp *GoPdf) getContent() *ContentObj {
 	return content
 }
 
-func encodeUtf8(str string) string {
-	var buff bytes.Buffer
+// encodeUtf16 text string, UTF-16BE with byte order mark
+func encodeUtf16(str string) []byte {
+	buff := []byte{0xFE, 0xFF}
 	for _, u := range utf16.Encode([]rune(str)) {
-		buff.WriteString(fmt.Sprintf("%04X", u))
+		buff = append(buff, byte(u>>8), byte(u))
 	}
-	return buff.String()
+	return buff
+}
+
+func encodeUtf8(str string) string {
+	return fmt.Sprintf("%X", encodeUtf16(str)[2:])
 }
 
 func infodate(t time.Time) string {
-- 
2.43.0


From 2c99f4a0e4de57f62d6cac347ed3c2f1a68be567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 53/55] fix: code space of ToUnicode contains all its glyphs

---
 minigopdf/unicode_map.go | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index a9c1c52..0782f95 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -60,19 +60,10 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	suffix := "endcmap CMapName currentdict /CMap defineresource pop end end"
 
 	glyphIndexToCharacter := newMapGlyphIndexToCharacter() //make(map[int]rune)
-	lowIndex := 65536
-	hiIndex := -1
-
 	keys := u.PtrToSubsetFontObj.CharacterToGlyphIndex.AllKeys()
 	for _, k := range keys {
 		v, _ := u.PtrToSubsetFontObj.CharacterToGlyphIndex.Val(k)
 		index := int(v)
-		if index < lowIndex {
-			lowIndex = index
-		}
-		if index > hiIndex {
-			hiIndex = index
-		}
 		//glyphIndexToCharacter[index] = k
 		glyphIndexToCharacter.set(index, k)
 	}
@@ -80,7 +71,7 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	var buff bytes.Buffer
 	buff.WriteString(prefix)
 	buff.WriteString("1 begincodespacerange\n")
-	buff.WriteString(fmt.Sprintf("<%04X><%04X>\n", lowIndex, hiIndex))
+	buff.WriteString("<0000><FFFF>\n") //low and high are limits of every byte
 	buff.WriteString("endcodespacerange\n")
 	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
-- 
2.43.0


From 8d27c692689a04b6de52d172ccd62459c6647bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 54/55] fix: at most 100 ranges in a block of ToUnicode

---
 minigopdf/unicode_map.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/minigopdf/unicode_map.go b/minigopdf/unicode_map.go
index 0782f95..807c2bc 100644
--- a/minigopdf/unicode_map.go
+++ b/minigopdf/unicode_map.go
@@ -6,6 +6,9 @@ import (
 	"unicode/utf16"
 )
 
+// maxBfrange limit of entries of one beginbfrange
+const maxBfrange = 100
+
 // UnicodeMap unicode map
 type UnicodeMap struct {
 	buffer             bytes.Buffer
@@ -73,9 +76,18 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 	buff.WriteString("1 begincodespacerange\n")
 	buff.WriteString("<0000><FFFF>\n") //low and high are limits of every byte
 	buff.WriteString("endcodespacerange\n")
-	buff.WriteString(fmt.Sprintf("%d beginbfrange\n", glyphIndexToCharacter.size()))
 	indexs := glyphIndexToCharacter.allIndexs()
-	for _, k := range indexs {
+	for i, k := range indexs {
+		if i%maxBfrange == 0 {
+			size := len(indexs) - i
+			if size > maxBfrange {
+				size = maxBfrange
+			}
+			if i > 0 {
+				buff.WriteString("endbfrange\n")
+			}
+			buff.WriteString(fmt.Sprintf("%d beginbfrange\n", size))
+		}
 		v, _ := glyphIndexToCharacter.runeByIndex(k)
 		if r1, r2 := utf16.EncodeRune(v); v > 0xFFFF { //UTF-16BE
 			buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X%04X>\n", k, k, r1, r2))
@@ -83,7 +95,9 @@ func (u *UnicodeMap) pdfToUnicodeMap(objID int) (*bytes.Buffer, error) {
 		}
 		buff.WriteString(fmt.Sprintf("<%04X><%04X><%04X>\n", k, k, v))
 	}
-	buff.WriteString("endbfrange\n")
+	if len(indexs) > 0 {
+		buff.WriteString("endbfrange\n")
+	}
 	buff.WriteString(suffix)
 	buff.WriteString("\n")
 
-- 
2.43.0


From 72397a1ec63dd693d61e0e50d7ba40c5c1fc5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:19 +0000
Subject: [PATCH 55/55] fix: open of encrypted pdf returns error

---
 pdf_parse.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pdf_parse.go b/pdf_parse.go
index 5aa6c43..f0f5979 100644
--- a/pdf_parse.go
+++ b/pdf_parse.go
@@ -9,6 +9,9 @@ import (
 	"strings"
 )
 
+// ErrEncrypted pdf is encrypted
+var ErrEncrypted = errors.New("not support encrypted pdf yet")
+
 // PDFParse parse pdf
 func PDFParse(file io.Reader, outPdf *PDFData) (err error) {
 	defer recoverAsError(&err)
@@ -142,6 +145,10 @@ func parseTrailer(raw *[]byte, pdf *PDFData) error {
 		return err
 	}
 
+	if props.getPropByKey("Encrypt") != nil { //strings and streams can not be read
+		return ErrEncrypted
+	}
+
 	propRoot := props.getPropByKey("Root")
 	if propRoot == nil {
 		return errors.New("/Root not found")
-- 
2.43.0

