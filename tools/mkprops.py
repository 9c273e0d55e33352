#!/usr/bin/env python3
# Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table.
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), level="model_checking", technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state, observe=observe, level=level, technique=technique, note=note))

prop("C01", "Every saved file is a well-formed PDF",
 "Whatever sequence of successful calls is made on an opened template, the bytes written by a save form one well-formed PDF file: header, every object once, a cross-reference table whose every entry points exactly at its object, startxref, trailer with Root and Size, stream Lengths equal to the data, no reference to a missing object, and a page tree whose Count and Parent entries agree with its leaves. The number of pages a reader counts is the number the document reports.",
 ["histories", "inputs"], "all histories of calls (fonts, text, images, page edits, borders, saves, protection) on all well-formed classic-xref templates",
 "The tests save a few fixed documents and do not read the result back; a wrong offset or dangling reference appears only for particular object numbers, counts or call orders.",
 ["pdft.go", "pdf_data.go", "pdf_obj_data.go", "xref_data.go"],
 [("build and serialise", "pdft.go: build, toStream, xref"), ("object allocation", "pdf_data.go: putNewObject, maxID")],
 [("objects", "ordered list of numbered objects of the open document")], ["bytes of SaveTo, parsed by an independent strict reader"],
 technique="exhaustive operation-sequence exploration on the real code, every saved file read by an independent strict PDF reader and compared with a reference model",
 note="All histories up to the stated depth over a 12-letter alphabet on several templates; trusts the independent reader (harness/pdfx)")

prop("C02", "What the template contains survives",
 "Everything a template holds is in every saved file unchanged in meaning: each page's content (decoded bytes, before anything that was added), size, rotation, annotations and other page attributes, its fonts, images and other resources under their own names, the document catalog and information, and every other reachable object. Nothing that is added takes a resource name the template already uses on that page.",
 ["inputs", "configurations", "histories"], "all templates: any form of Contents, Resources (own, shared, inherited, indirect), names, page-tree shape, entries and stream encodings, under any use of the document",
 "The tests use a handful of PDF files of two producers and check no content; loss depends on how the template spells its dictionaries.",
 ["pdf_data.go", "pdf_parse.go", "pdf_parse_font.go", "crawl.go", "pdf_obj_properties_data.go", "pdf_page_attr.go", "pdf_string.go"],
 [("resource discovery", "crawl.go, pdf_data.go: injectFontsToPDF, injectImgsToPDF"), ("content rewrite", "pdf_data.go: injectContentToPDF"), ("dictionary parsing", "pdf_parse.go, pdf_obj_properties_data.go")],
 technique="exhaustive enumeration of template shapes x uses on the real code against a reference model of the document graph",
 note="Whole cross products of content, resource, name and page-tree forms; templates outside the generator's grammar (xref streams, generations) are out of the domain")

prop("C03", "Text appears where and how it was asked for",
 "Each inserted text appears exactly once, on the page it was asked for, after the template's content and in call order, with the font, size, style, colour, alignment, box and border that were in force when it was inserted, at the position measured from the top left corner of that page. No setting of one text (colour, font, size, rise, underline, border) affects another text or the template, and text for a page that does not exist appears nowhere.",
 ["histories", "inputs"], "all sequences of text operations with all alignments, styles, colours, boxes and pages",
 "The tests draw a few texts and never interpret the content stream; leaks between texts need particular successions.",
 ["pdft.go", "content_text.go", "content_line_style.go", "pdf_data.go", "pdf_font_data.go"],
 [("text operators", "content_text.go"), ("insertion", "pdft.go: Insert, SetFont"), ("content stream", "pdf_data.go: injectContentToPDF")],
 technique="exhaustive exploration of operation sequences and argument products on the real code; content streams run by a graphics-state interpreter and compared with a reference model",
 note="Interpreter executes the page content and compares placed glyph runs (font, size, colour, position, rise, kern) with the model to 0.01 pt")

prop("C04", "An embedded font shows what the source font shows",
 "Every character drawn with an added TrueType font is shown by the glyph the font's character map gives it, with the outline (all components of composite glyphs included) and advance width of the source font, for every character of every text, whatever other characters and fonts are used. Copying the text out of the saved file gives back the characters inserted, and the font description agrees with the font file.",
 ["inputs", "histories"], "all TrueType fonts (units per em, cmap formats and segment forms, short and long loca, shared metrics, nested composites) and all texts",
 "The tests embed one or two real fonts and do not look at glyphs; subsetting errors depend on the table layout and on which characters occur together.",
 ["pdf_font_data.go", "minigopdf/subset_font_obj.go", "minigopdf/pdf_dictionary_obj.go", "minigopdf/cid_font_obj.go", "minigopdf/unicode_map.go", "minigopdf/subfont_descriptor_obj.go", "minigopdf/fontmaker/core"],
 [("subsetting", "minigopdf/pdf_dictionary_obj.go"), ("cmap lookup", "minigopdf/subset_font_obj.go, fontmaker/core/ttfparser.go"), ("widths and ToUnicode", "minigopdf/cid_font_obj.go, unicode_map.go")],
 technique="exhaustive enumeration of generated fonts x character sequences on the real code; embedded fonts decoded by an independent reader and compared glyph by glyph with the source font",
 note="Generated fonts cover the products of table forms listed in the evidence; CFF fonts are not supported by the library")

prop("C05", "Inserted images show exactly their pixels, where asked",
 "Each inserted image (PNG or JPEG, as bytes, as base64 or through the cache) appears once, on its page and in its rectangle, and its stored samples, palette, transparency and colour space give exactly the pixels of the source; a form of image that is not supported is refused with an error. Inserting through the cache shares one stored image among equal images and never shows a different one.",
 ["inputs", "histories"], "all supported PNG forms (colour type, depth, filters, chunk layout, transparency) and JPEG colour spaces, all placements and sequences of insertions",
 "The tests insert two or three images and do not decode the result.",
 ["pdft.go", "pdf_image_data.go", "content_img_base64.go", "pdf_data.go", "minigopdf/image_obj.go", "minigopdf/image_obj_parse.go", "minigopdf/smask_obj.go"],
 [("image parsing", "minigopdf/image_obj_parse.go"), ("injection", "pdf_data.go: injectImgsToPDF"), ("cache", "pdft.go: InsertImgWithCache")],
 technique="exhaustive enumeration of generated image files, placements and insertion sequences on the real code; images decoded by an independent decoder and compared pixel by pixel",
 note="Independent PNG writer/decoder; 16-bit and interlaced PNG must be rejected, not mis-shown")

prop("C06", "Page copy, removal and selection act like list operations",
 "Duplicating a page, removing a page and keeping a single page change the sequence of pages exactly as the corresponding list operation, with content, size and all attributes of every page kept, copies and originals independent of each other, and page numbers of later operations referring to the new sequence. A page number outside the document is refused with an error and no effect.",
 ["histories"], "all sequences of page edits, inserts and saves, on all page-tree shapes",
 "The tests do one edit on one file and look at nothing but the error.",
 ["pdft.go", "pdf_data.go", "pdf_page_attr.go"],
 [("page edits", "pdft.go: DuplicatePageAfter, RemovePage, RemoveOtherPages, setPages"), ("page list", "pdf_data.go: getPageObjIDs")],
 [("page sequence", "pages in reading order with their attributes")],
 technique="explicit exploration of all page-edit histories on the real code against a list model",
 note="All histories up to depth with every page number and position incl. out of range")

prop("C07", "Saving is pure and repeatable",
 "Saving does not change the document: saving again gives an equivalent file (same pages, content, fonts and images), saving at any point of a history changes nothing in what later calls and saves give, and saving to a file writes the same document, and nothing else, as saving to a writer.",
 ["histories"], "all histories with saves at all positions",
 "Each test saves once.",
 ["pdft.go", "pdf_data.go", "pdf_obj_data.go"],
 [("build on a copy", "pdft.go: build, toStream, Save, SaveTo")],
 technique="exhaustive exploration of histories x save positions on the real code, differential against the same history with one save",
 note="Files are compared by meaning through the reference model (object numbers of fonts may differ between saves)")

prop("C08", "Protected documents open with their passwords and permissions only",
 "After protection is requested, the saved file can be read with the user password and with the owner password and carries exactly the requested permissions; every stream and string in it (template's and inserted) decrypts to the same document as without protection, and none of them is stored in clear. Requesting protection does not alter the caller's password bytes.",
 ["inputs", "histories"], "all permission sets, passwords (any bytes and length) and histories with a protection request at any position",
 "The only protection test writes one file and does not read it.",
 ["pdft.go", "pdf_obj_data.go", "pdf_string.go", "minigopdf/pdf_protection.go", "minigopdf/encryption_obj.go"],
 [("standard security handler", "minigopdf/pdf_protection.go"), ("stream and string encryption", "pdf_obj_data.go, pdf_string.go")],
 technique="exhaustive enumeration of permissions, passwords and histories on the real code; independent implementation of the standard security handler (revision 2/3) decrypts and compares",
 note="Cryptographic strength is not a subject; an empty owner password is random by design")

prop("C09", "Wrapped text loses nothing and fits its box",
 "Wrapped text shows every token of the text in order, broken only where the breaker allows, each line holding as many tokens as fit the width (never less), lines evenly spaced downwards, the block starting at the top of the box or vertically centred as asked, each line horizontally aligned as asked. A single token wider than the box gets a line of its own.",
 ["inputs", "configurations"], "all texts, box widths, fonts, sizes, alignments and text breakers",
 "The tests wrap two texts without checking lines.",
 ["pdft.go", "textbreak"],
 [("wrapping", "pdft.go: InsertWrapText"), ("breakers", "textbreak/")],
 technique="exhaustive enumeration of texts x widths x breakers on the real code against a greedy reference",
 note="Widths include the exact-fit boundary on both sides")

prop("C10", "Measured width is the width drawn",
 "The measured width of a text equals the horizontal extent of that text when drawn with the same font, size and overrides, and right and centre alignment use exactly that width. Measuring has no effect on the document, and measuring without a font is an error.",
 ["inputs", "histories"], "all texts, fonts, sizes, kerning and rise overrides, and histories with measurements at any position",
 "No test compares a measurement with a drawing.",
 ["pdft.go", "content_text.go", "pdf_font_data.go", "func_textrise_override.go"],
 [("measuring", "pdft.go: MeasureTextWidth; content_text.go")],
 technique="exhaustive enumeration of strings x fonts x overrides on the real code; drawn extent computed by the content interpreter",
 note="Compared to the resolution of the written numbers")

prop("C11", "Malformed input is refused, never a panic or endless loop",
 "Whatever bytes are given as template, font or image, also to the drawing package, every call returns, with a result or an error; none panics, hangs or exhausts memory, and a document opened from such bytes can still be used and saved (or refuses with an error). A save that reports success has written a whole file.",
 ["inputs", "fault_sequences"], "all byte sequences; explored: every single (and many double) structural and byte mutation of small complete files",
 "The tests give well-formed files only.",
 ["pdf_parse.go", "pdf_recover.go", "pdf_data.go", "crawl.go", "pdf_obj_properties_data.go", "minigopdf/fontmaker/core", "minigopdf/pdf_dictionary_obj.go", "minigopdf/image_obj_parse.go", "minigopdf/image_obj.go", "minigopdf/gopdf.go"],
 [("parser", "pdf_parse.go"), ("recovery at the API boundary", "pdf_recover.go"), ("font parser", "minigopdf/fontmaker/core/ttfparser.go")],
 level="fault_enumeration",
 technique="exhaustive single- and pair-fault enumeration over template, font and image bytes on the real code, each followed by a full use and save",
 note="Exhaustive over the mutation alphabet of small seed files, not over all byte strings")

prop("C12", "A failed call changes nothing",
 "A call that returns an error (unknown font, wrong page number, unreadable or unsupported image or font, breaker failure) leaves the document, the selected font and all settings as they were: every later call and save gives what it would have given without the failed call.",
 ["histories", "fault_sequences"], "all histories with failing calls of every kind at every position",
 "The tests stop at the first error.",
 ["pdft.go", "pdf_font_data.go", "pdf_image_data.go"],
 [("validate before change", "pdft.go: Insert*, AddFont*, SetFont, page edits")],
 technique="exhaustive enumeration of failing calls x positions x histories on the real code, differential against the history without the failing calls",
 note="Compared on saved bytes / model state")

prop("C13", "Documents are independent, and re-opening starts afresh",
 "Two documents used in the same process, opened from templates or drawn from scratch, do not influence each other, in whatever order their calls interleave or overlap in time (each document used by one goroutine), and also when they share fonts, images and templates given as bytes, which the library never modifies. Opening another template in the same document value forgets pages, texts, images and added content of the earlier one.",
 ["histories", "schedules"], "all interleavings of calls on two documents; all schedules of two threads with a document each, with one preemption at any function start or package-variable use, and with two at package-variable uses; all histories with re-openings",
 "Each test uses one document once.",
 ["pdft.go", "pdf_font_data.go", "minigopdf"],
 [("per-document state", "pdft.go: PDFt"), ("reset on open", "pdft.go: OpenFrom")],
 technique="exhaustive exploration on the real code of all call interleavings of two documents' histories, and of all preemption-bounded schedules of two threads under a controlled scheduler (the library compiled with scheduling points before its statements); each document verified against the reference model",
 note="Preemption bound 1 (2 at package-variable uses); the thorough tier preempts at every loop iteration as well, and at every statement for two pairs")

prop("C14", "Reader and writer faults surface and do no damage",
 "An error of the reader while a template or font is read is returned by the call, a short or failed write is returned by the save, and in neither case is the document damaged: a later save gives the complete file. How a reader splits its data makes no difference.",
 ["fault_sequences", "inputs"], "a fault at every byte position of reads and writes; all small chunkings",
 "The tests read and write real files without faults.",
 ["pdft.go", "pdf_parse.go", "minigopdf/fontmaker/core"],
 [("reading", "pdft.go: OpenFrom, AddFontFrom"), ("writing", "pdft.go: Save, SaveTo")],
 level="fault_enumeration",
 technique="exhaustive fault-position enumeration on readers and writers of the real code, differential against the fault-free run",
 note="Single faults at every byte position, then recovery")

prop("C15", "Output does not depend on map iteration order",
 "The same history of calls gives an equivalent document whatever order the runtime iterates its maps in: the same pages, content, fonts, images and names bound to the same objects, in every run.",
 ["schedules", "histories"], "all map-iteration orders the runtime may choose in every save of every history with several fonts, images and pages",
 "A test run sees one random order per map.",
 ["pdft.go", "pdf_data.go", "minigopdf/pdf_dictionary_obj.go", "render/render.go"],
 [("loops over maps", "pdf_data.go, pdft.go, render/render.go")],
 technique="deviation-bounded exploration of map-iteration choices: the runtime's iteration seed is put under a scheduler through a build overlay and every choice sequence up to the bound is run on the real code",
 note="Maps of up to 8 entries have 8 iteration starts, all of them enumerated; deviations bounded as stated in the evidence")

prop("C16", "The serialisation of the template makes no difference",
 "Two template files that spell the same document differently (white space, comments-free token layout, line ends, object order and numbering, free entries, line ends of the cross-reference table, padding before and after) give equivalent results under every use.",
 ["inputs", "configurations"], "all layouts out of the product of serialisation choices",
 "The tests have templates of two producers.",
 ["pdf_parse.go", "regex.go", "xref_data.go", "pdf_obj_properties_data.go"],
 [("tokenising", "pdf_parse.go, regex.go"), ("cross-reference", "xref_data.go")],
 technique="exhaustive enumeration of serialisations of the same documents on the real code, all compared with one reference model",
 note="Layouts of classic-xref PDF 1.x files")

prop("C17", "Rendering fields equals inserting them directly",
 "Rendering text and images by field name gives the same document as inserting them directly at the position, size and alignment of the field, for the fields given and no others, in any order and number of calls; unknown names draw nothing. The design view shows exactly the fields' boxes.",
 ["histories", "configurations"], "all sequences of renderer and document operations over several field sets",
 "The render package has one test that writes a file.",
 ["render/render.go", "render/field_info.go"],
 [("render", "render/render.go")],
 technique="exhaustive exploration of renderer call sequences on the real code against a reference model of direct insertion",
 note="All sequences up to the stated depth for each field set")

prop("C18", "A saved file is a template like any other",
 "A file saved by the library can be opened and used again, any number of times: texts and images added in earlier generations stay as they were, new ones are added with names of their own, and the result satisfies the same guarantees. The same holds for a document made with the drawing package, whatever its sizes, compression and information. An encrypted document, which cannot be used as a template, is refused with an error, and the refusal leaves an open document as it was.",
 ["histories"], "all chains of generations over the uses; all drawn documents (pages, information, compression) x uses; all protected documents x uses",
 "Tests re-open their own output never.",
 ["pdft.go", "pdf_parse.go", "pdf_data.go", "pdf_parse_font.go"],
 [("parse of own output", "pdf_parse.go"), ("name allocation", "pdf_data.go: findMaxFontIndex")],
 technique="exhaustive exploration of chains of generations on the real code against a cumulative reference model",
 note="Chains up to the stated depth over all uses")

prop("C19", "A page drawn from scratch shows exactly what was drawn",
 "In a document made with the drawing package (minigopdf's GoPdf), every page shows exactly the texts, cells, lines, rectangles, ovals, curves and images drawn on it, in order, at their positions from the top left corner of a page of the given size, with the font, size, underline, kerning, alignment, borders, colours, gray levels, line widths and line types in force. After every call the current position is where the next text belongs, and a measured width is the width drawn. What is set or drawn on one page does not change another, except for the font, the text colour and the margins, which stay in force.",
 ["histories", "inputs", "configurations"], "all sequences of drawing calls up to a depth, all shapes, cells and images out of products of their parameters",
 "Tests of the drawing package write files nobody reads.",
 ["minigopdf/gopdf.go", "minigopdf/content_obj.go", "minigopdf/cache_content_text.go", "minigopdf/list_cache_content.go", "minigopdf/page_obj.go", "minigopdf/fontmaker/core/ttfparser_kern.go"],
 [("content streams", "minigopdf/content_obj.go, minigopdf/cache_content_*.go"), ("positions", "minigopdf/gopdf.go, minigopdf/cache_content_text.go"), ("kerning", "minigopdf/cache_content_text.go: kern, minigopdf/fontmaker/core/ttfparser_kern.go")],
 technique="exhaustive exploration of drawing call sequences and parameter products on the real code against a reference model of the pages",
 note="All sequences up to the stated depth over the stated alphabets; a document is started once, drawing begins after the first page is added", observe=["bytes of GetBytesPdf, WritePdf and Read, read by the independent reader", "GetX, GetY, MeasureTextWidth"])

prop("C20", "A document drawn from scratch is complete, however and whenever written",
 "A document made with the drawing package is a well-formed PDF with its pages in order and the given sizes, its fonts and images embedded completely and each image stored once, its document information as given, and, if protection is asked for, every stream and string of its objects encrypted for the given passwords and permissions; the compression level is the one asked for (0: content stored as it is; too big: the best; too small: the default) and changes nothing but the bytes. Every way of writing it (bytes, file, reader) gives the same document, any number of times, and drawing can go on afterwards; what was handed out does not change. Failed calls (broken fonts or images, unknown fonts) and other documents leave no trace in it.",
 ["histories", "inputs", "configurations"], "all sequences of output, font and drawing calls up to a depth, all combinations of information, protection and compression, all interleavings of two documents up to a number of switches",
 "Tests write one document once, without reading it.",
 ["minigopdf/gopdf.go", "minigopdf/pdf_protection.go", "minigopdf/image_obj.go", "minigopdf/procset_obj.go", "minigopdf/pdf_info_obj.go", "minigopdf/encryption_obj.go", "minigopdf/content_obj.go"],
 [("compilePdf, prepare, xref", "minigopdf/gopdf.go"), ("protection", "minigopdf/pdf_protection.go, minigopdf/encryption_obj.go"), ("image objects", "minigopdf/image_obj.go, minigopdf/smask_obj.go, minigopdf/device_rgb_obj.go")],
 technique="exhaustive exploration of call sequences, configurations and interleavings of documents on the real code against a reference model of the document",
 note="All sequences up to the stated depth; document information is compared as text, time zones of whole hours", observe=["bytes of GetBytesPdf, WritePdf and Read, read and decrypted by the independent reader"])

prop("C21", "The font maker describes the font it is given",
 "For every embeddable TrueType font with a Unicode cmap and every pair of code page maps, MakeFont (and the fontmaker command) stores, in files named after the font, the font compressed without loss and a Go source that compiles, whatever the names of file, font and code page, and says through IFont: for each of the 256 codes the width, in thousandths of the em, of the character the map assigns to it (the width of the missing glyph where there is none), differences that turn cp1252 into the code page, and the PostScript name, size, underline metrics and descriptor values of the font; exactly the characters the font lacks are reported as missing. Other fonts made before, also failing ones, do not matter. A missing font, map or folder, a file that is no TrueType font, a font that may not be embedded and a malformed map are errors, and no font file or map makes it panic.",
 ["inputs", "faults"], "all code pages over a set of codes, all combinations of metrics, names and layouts, every prefix and one-word or one-byte fault of fonts and maps",
 "The repository has no test of the font maker.",
 ["minigopdf/fontmaker/core/fontmaker.go", "minigopdf/fontmaker/core/ttfparser.go", "minigopdf/fontmaker/main.go"],
 [("MakeFont, MakeDefinitionFile, LoadMap", "minigopdf/fontmaker/core/fontmaker.go"), ("TTFParser", "minigopdf/fontmaker/core/ttfparser.go")],
 technique="exhaustive enumeration of fonts, code pages and faults on the real code; the generated definitions are compiled and executed and compared with the model the fonts and maps were generated from",
 note="Within the stated sets of codes, metrics and names; widths are compared to the nearest thousandth", observe=["values the compiled definition returns through IFont", "stored font, decompressed", "GetResults"])

NA = []

if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                    "state": [{"name": a, "meaning": b} for a, b in p["state"]],
                    "observe_at": list(p["observe"]) or ["bytes of SaveTo/Save, read by the independent reader"]}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
        "checks": [{"property": p["id"], "quick_cmd": "bash /verif/run.sh %s quick" % p["id"],
                    "thorough_cmd": "bash /verif/run.sh %s thorough" % p["id"],
                    "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P],
        "not_applicable": [{"property": a, "reason": b} for a, b in NA],
        "notes": "No hooks in /repo: the checks drive the public API of the real code; C15 puts the Go runtime's map iteration under a scheduler by a build overlay of GOROOT."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
    import re
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = len([s for s in re.split(r"(?<=[.!?]) (?=[A-Z])", p["statement"]) if s])
        assert n <= 3, (p["id"], n)
