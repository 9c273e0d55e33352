import subprocess
M = {
"font tables that lie":"C11","object numbers over":"C11","words trailer":"C02","wrapped text has no":"C09","broken pdf and font":"C11",
"insert gray alpha":"C05","embed fonts whose":"C04","write characters outside":"C04","last character of a cmap":"C04","embed every glyph":"C04",
"opening a document forgets":"C13","text rise does not":"C03","black text":"C03","failed Insert":"C12","encrypt strings":"C08","keep strings":"C02",
"do not write behind":"C08","encrypt exactly":"C08","take exactly":"C02","append text after":"C02","add fonts and images":"C02","keep names":"C02",
"visit shared":"C02","saving a document does":"C07","page edits keep":"C06","RemoveOtherPages":"C06","read inherited":"C02","keep document information":"C02","names of fonts with":"C04",
"texts and cells drawn one":"C19","measuring text with gopdf":"C19","gopdf draws images with":"C20","a page of gopdf without":"C20","document information of gopdf":"C20","color of a text drawn":"C19","gopdf can write":"C20","an image gopdf draws again":"C19","length of protected":"C20","kerning pairs of every":"C19","strings of the fonts of a protected":"C20",
"difference at code 1":"C21","original size of a font":"C21","definition made by fontmaker":"C21","postscript name of a font":"C21","restricted license":"C21","malformed map":"C21","fontmaker returns an error":"C21","broken fonts return":"C11","size of an image is read":"C11","compress level that":"C20","creation date with":"C20","document information of GoPdf is":"C18","code space of ToUnicode":"C04","at most 100 ranges":"C04","open of encrypted pdf":"C18"}
out=subprocess.check_output(["git","-C","/repo","log","--format=%h %s","--reverse"],text=True)
print("# Genuine defects. 'fixed:' entries were repaired in /repo and suppress nothing.")
print("# 'finding:' entries (property :: case glob :: message part :: text) are recorded, not repaired.")
for l in out.splitlines():
    h,s=l.split(" ",1)
    if not s.startswith("fix: "): continue
    s=s[5:]
    p=[v for k,v in M.items() if s.startswith(k)]
    assert len(p)==1,s
    print(f"fixed: property={p[0]} {h} before this commit the following did not hold: {s}")

FIND=[("C02","structure-words|word0-page:*","saving failed: Object ID not found","the word endobj inside a string of a page dictionary ends the object for the parser: saving fails"),
("C02","structure-words|word0-object:*","saved file is not a valid PDF","the word endobj inside a string of an annotation ends the object for the parser: the saved object is cut off"),
("C02","structure-words|word1-page:*","saved file is not a valid PDF","the words '>> stream' inside a string of a page dictionary are taken for the start of a stream: the saved page is cut off"),
("C02","structure-words|word2-*","trailer not found","the word startxref before the end of the file (in a string or in content) hides the trailer: opening fails"),
("C05","palette-alpha|*alpha[0 0]/*","expected {39 189 5 0}","PNG with a palette of which two entries are transparent: only the first is masked, the second is drawn"),
("C05","palette-alpha|*alpha[255 0 255 0]/*","expected {113 167 45 0}","PNG with a palette of which two entries are transparent: only the first is masked, the second is drawn"),
("C05","palette-alpha|*alpha[128]/*","expected {2 200 0 128}","PNG with a palette of which an entry is half transparent: it is drawn opaque"),
("C05","palette-alpha|*alpha[0 128]/*","expected {39 189 5 128}","PNG with a palette of which an entry is half transparent: it is drawn opaque"),
]
for p,c,m,t in FIND: print(f"finding: property={p} :: case={c} :: msg={m} :: {t}")
