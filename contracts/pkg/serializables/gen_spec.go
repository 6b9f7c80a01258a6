//go:build verif

package serializables

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
)

// The generated files live in a directory of their own below the scratch
// directory of the run.

// GenDirs makes an empty working directory and an empty taxonomy store.
func GenDirs(g *vspec.G) string {
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = filepath.Join(os.TempDir(), fmt.Sprintf("verif-%d", os.Getpid()))
	}
	base = filepath.Join(base, "files")
	_ = os.RemoveAll(base)
	WorkingDirectoryPath = filepath.Join(base, "wd")
	GlobalTaxonomySetPath = filepath.Join(base, "gts")
	_ = os.MkdirAll(filepath.Join(WorkingDirectoryPath, "folders"), 0o755)
	_ = os.MkdirAll(filepath.Join(GlobalTaxonomySetPath, "concepts"), 0o755)
	return base
}

// GenWrite writes one file of a filing folder.
func GenWrite(id, name, text string) {
	p := filepath.Join(WorkingDirectoryPath, "folders", id, name)
	_ = os.MkdirAll(filepath.Dir(p), 0o755)
	_ = os.WriteFile(p, []byte(text), 0o644)
}

const genXmlns = ` xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:q="urn:other" xmlns:xbrli="http://www.xbrl.org/2003/instance"`

func genBroken(g *vspec.G, text string) string {
	switch g.Intn(4) {
	case 0:
		return ""
	case 1:
		return text[:len(text)/2]
	case 2:
		return "<other/>"
	}
	return "no markup"
}

var genSchemaNames = []string{"a.xsd", "b.xsd", "c.xsd", "sub/d.xsd"}

var genLinkbaseNames = []string{"p.xml", "d.xml", "c.xml", "l.xml", "m.xml", "sub/l.xml", "P.xml"}

func genSchema(g *vspec.G, name string) string {
	var b strings.Builder
	b.WriteString("<xs:schema" + genXmlns)
	if !g.P(6) {
		b.WriteString(` targetNamespace="urn:` + name + `"`)
	}
	b.WriteString(">")
	ann := func() {
		for n := g.Intn(3); n > 0; n-- {
			b.WriteString("<" + genTag(g, "xs:annotation") + ">")
			for k := 1 + g.Intn(2); k > 0; k-- {
				b.WriteString("<" + genTag(g, "xs:appinfo") + ">")
				for j := g.Intn(4); j > 0; j-- {
					role := g.Pick("presentation", "definition", "calculation", "label", "label", "presentation", "reference")
					e := genTag(g, "link:linkbaseRef")
					b.WriteString("<" + e + ` xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase"`)
					if !g.P(5) {
						b.WriteString(` xlink:role="http://www.xbrl.org/2003/role/` + role + `LinkbaseRef"`)
					}
					if !g.P(5) {
						b.WriteString(` xlink:href="` + g.Pick(append([]string{"missing.xml", "http://x.org/l.xml"}, genLinkbaseNames...)...) + `"`)
					}
					b.WriteString("/>")
				}
				b.WriteString("</" + genClose(&b) + ">")
			}
			b.WriteString("</" + genClose(&b) + ">")
		}
	}
	ann()
	for n := g.Intn(4); n > 0; n-- {
		to := g.Pick(genSchemaNames[0], genSchemaNames[1], genSchemaNames[2], genSchemaNames[3], "missing.xsd", "http://x.org/g.xsd")
		if g.P(50) {
			b.WriteString("<" + genTag(g, "xs:import"))
			if !g.P(6) {
				b.WriteString(` namespace="urn:` + to + `"`)
			}
		} else {
			b.WriteString("<" + genTag(g, "xs:include"))
		}
		if !g.P(6) {
			b.WriteString(` schemaLocation="` + to + `"`)
		}
		b.WriteString("/>")
	}
	for n := g.Intn(3); n > 0; n-- {
		b.WriteString(`<xs:element name="` + g.ID() + `" id="` + g.ID() + `"/>`)
	}
	ann()
	b.WriteString("</xs:schema>")
	return b.String()
}

// genTag sometimes takes the name from a foreign namespace.
func genTag(g *vspec.G, name string) string {
	if g.P(4) {
		return "q:" + name[strings.Index(name, ":")+1:]
	}
	return name
}

// genClose is the name of the innermost element that is still open.
func genClose(b *strings.Builder) string {
	var open []string
	s := b.String()
	for {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			break
		}
		j := i + strings.IndexByte(s[i:], '>')
		t := s[i+1 : j]
		s = s[j+1:]
		switch {
		case strings.HasPrefix(t, "/"):
			open = open[:len(open)-1]
		case strings.HasSuffix(t, "/"):
		default:
			open = append(open, strings.Fields(t)[0])
		}
	}
	return open[len(open)-1]
}

func genLinkbase(g *vspec.G) string {
	var b strings.Builder
	b.WriteString("<link:linkbase" + genXmlns + ">")
	for n := g.Intn(4); n > 0; n-- {
		k := g.Pick("presentation", "definition", "calculation", "label")
		b.WriteString("<link:" + k + `Link xlink:role="` + g.ID() + `">`)
		for m := g.Intn(3); m > 0; m-- {
			b.WriteString(`<link:loc xlink:label="` + g.ID() + `"/><link:` + k + `Arc xlink:from="` + g.ID() + `" xlink:to="` + g.ID() + `"/>`)
			if k == "label" {
				b.WriteString(`<link:label xlink:label="` + g.ID() + `">` + g.ID() + `</link:label>`)
			}
		}
		b.WriteString("</link:" + k + "Link>")
	}
	b.WriteString("</link:linkbase>")
	return b.String()
}

func genInstance(g *vspec.G) string {
	var b strings.Builder
	b.WriteString("<xbrli:xbrl" + genXmlns + ">")
	for n := 1 + g.Intn(3); n > 0; n-- {
		b.WriteString("<" + genTag(g, "link:schemaRef") + ` xlink:type="simple"`)
		if !g.P(4) {
			b.WriteString(` xlink:href="` + g.Pick(genSchemaNames[0], genSchemaNames[1], genSchemaNames[2], genSchemaNames[3], "missing.xsd", "http://x.org/g.xsd") + `"`)
		}
		b.WriteString("/>")
	}
	for n := g.Intn(3); n > 0; n-- {
		b.WriteString(`<xbrli:context id="` + g.ID() + `"/>`)
	}
	b.WriteString("</xbrli:xbrl>")
	return b.String()
}

func genImageBytes(g *vspec.G) string {
	text := g.Pick("\xff\xd8\xff\xe0", "\x89PNG\r\n\x1a\n", "GIF89a", "plain", "") + g.Str()
	if g.P(30) {
		b := make([]byte, g.Intn(2000))
		g.Read(b)
		text += string(b)
	}
	return text
}

func genInline(g *vspec.G) string {
	var b strings.Builder
	b.WriteString(`<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL"><head><title>t</title></head><body>`)
	for n := g.Intn(5); n > 0; n-- {
		if g.P(50) {
			in := g.Pick("div", "div", "noscript", "table", "td", "a", "picture", "ix:nonNumeric", "ix:header", "svg", "ul", "IMG", "script", "style", "template", "button", "form", "video")
			b.WriteString("<" + in + "><p>" + g.ID() + "</p>")
			for m := g.Intn(3); m > 0; m-- {
				genImg(g, &b)
			}
			b.WriteString("</" + in + ">")
		} else {
			genImg(g, &b)
		}
	}
	b.WriteString("</body></html>")
	return b.String()
}

func genImg(g *vspec.G, b *strings.Builder) {
	if g.P(15) {
		b.WriteString(g.Pick(`<a href="i.png">`+g.ID()+`</a>`, `<a src="i.png"></a>`, `<script src="i.png"></script>`, `<video src="j.jpg"></video>`, `<input type="image" src="i.png"/>`,
			`<!-- <img src="i.png"/> -->`, `<source src="n.png"/>`, `<embed src="k.jpeg"/>`, "\n", "&lt;img src=\"i.png\"/&gt;"))
		return
	}
	b.WriteString(g.Pick("<img", "<img", "<img", "<IMG"))
	if g.P(40) {
		b.WriteString(` alt="` + g.Pick("i.png", "x", "j.jpg") + `"`)
	}
	if !g.P(10) {
		b.WriteString(` src="` + g.Pick("", "", "./", "sub/", "http://x.org/", "/", "x", "sub/sub/") + g.Pick("i.png", "j.jpg", "k.jpeg", "n.png", "gone.png", "I.png", "i.png?x") + `"`)
	}
	if g.P(20) {
		b.WriteString(` width="3"`)
	}
	b.WriteString("/>")
}

// GenFolder writes a filing folder.
func GenFolder(g *vspec.G, id string) {
	entry := g.Pick("i.xml", "i.xbrl", "e.htm", "e.xhtml", "i.xml")
	instance := entry
	if strings.HasPrefix(entry, "e.") {
		instance = entry + ".xml"
		text := genInline(g)
		if g.P(4) {
			text = genBroken(g, text)
		}
		if !g.P(3) {
			GenWrite(id, entry, text)
		}
	}
	if !g.P(4) {
		text := genInstance(g)
		if g.P(4) {
			text = genBroken(g, text)
		}
		GenWrite(id, instance, text)
	}
	for _, n := range genSchemaNames {
		if !g.P(15) {
			text := genSchema(g, n)
			if g.P(5) {
				text = genBroken(g, text)
			}
			GenWrite(id, n, text)
		}
	}
	for _, n := range genLinkbaseNames {
		if !g.P(12) {
			text := genLinkbase(g)
			if g.P(5) {
				text = genBroken(g, text)
			}
			GenWrite(id, n, text)
		}
	}
	for _, n := range []string{"i.png", "j.jpg", "k.jpeg", "n.png"} {
		if g.P(40) {
			GenWrite(id, n, genImageBytes(g))
		}
	}
	if g.P(10) {
		GenWrite(id, "sub/i.png", genImageBytes(g))
	}
	switch {
	case g.P(3):
	case g.P(3):
		GenWrite(id, "_", `{"Entry"`)
	default:
		GenWrite(id, "_", fmt.Sprintf("{%q:%q,%q:%q}", "Entry", entry, "Note", "n"))
	}
}

func Gen_Discover(g *vspec.G) string {
	g.Tame()
	GenDirs(g)
	id := "f1"
	GenFolder(g, id)
	if g.P(30) {
		GenFolder(g, "f2")
	}
	return id
}

// the files before the call
var genBefore map[string]string

func genTree() map[string]string {
	ret := map[string]string{}
	_ = filepath.Walk(WorkingDirectoryPath, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(WorkingDirectoryPath, p)
		if fi.IsDir() {
			ret[rel+"/"] = ""
			return nil
		}
		b, _ := os.ReadFile(p)
		ret[rel] = string(b)
		return nil
	})
	return ret
}

func genUnderscore(g *vspec.G) Underscore {
	return Underscore{Entry: g.Pick("i.xml", "e.htm", "", "a \"b\" <c>&", "ü.xml", g.Str()), Note: g.Pick("", "note", "{}", "line\nline", g.Str())}
}

var genKeys = []string{"k1", "k2", "K1", "k1 ", "", "k1", "k1/", "../k1", "\x00", "0000950170-23-027673", "0000950170-23-027674", "0000950170-23-0276731", strings.Repeat("k", 100), strings.Repeat("k", 101)}

// keys of the folders that exist already
var genUsed map[string]bool

func Gen_NewFolder(g *vspec.G) (string, Underscore) {
	GenDirs(g)
	genUsed = map[string]bool{}
	for n := g.Intn(3); n > 0; n-- {
		k := g.Pick(genKeys...)
		if _, err := NewFolder(k, genUnderscore(g)); err == nil {
			genUsed[k] = true
		}
	}
	if g.P(20) { // a folder that lost its metadata
		list, _ := os.ReadDir(filepath.Join(WorkingDirectoryPath, "folders"))
		for _, e := range list {
			if g.P(50) {
				_ = os.Remove(filepath.Join(WorkingDirectoryPath, "folders", e.Name(), "_"))
			}
		}
	}
	switch {
	case g.P(4):
		WorkingDirectoryPath = ""
	case g.P(4):
		WorkingDirectoryPath = filepath.Join(WorkingDirectoryPath, "gone")
	}
	genBefore = nil
	if WorkingDirectoryPath != "" {
		genBefore = genTree()
	}
	return g.Pick(genKeys...), genUnderscore(g)
}

func Gen_GetEntryFileName(g *vspec.G) string {
	GenDirs(g)
	for _, id := range []string{"f1", "f2"} {
		switch {
		case g.P(10):
		case g.P(10):
			GenWrite(id, "_", g.Pick("", "{", "[]", `{"Entry":3}`))
		default:
			GenWrite(id, "_", fmt.Sprintf("{%q:%q,%q:%q}", "Entry", g.Pick("i.xml", "e.htm", g.ID()), "Note", g.Pick("", "n")))
		}
	}
	return g.Pick("f1", "f2", "f3")
}

// genUrl is a location of the shared taxonomy store, or nearly one.
func genUrl(g *vspec.G) string {
	if g.P(8) {
		return g.Str()
	}
	var b strings.Builder
	if !g.P(4) {
		b.WriteString(g.Pick("http", "https", "HTTP", "ftp", "file", "x", "urn"))
		b.WriteString(g.Pick("://", "://", "://", "://", "://", ":", "/"))
	}
	if g.P(4) {
		b.WriteString(g.Pick("u@", "u:p@"))
	}
	b.WriteString(g.Pick("x.org", "y.org", "x.org", "a", "", "..", ".", "[..]", "[::1]", "x..org", "..x"))
	if g.P(8) {
		b.WriteString(g.Pick(":80", ":8080", ":"))
	}
	for n := g.Intn(5); n > 0; n-- {
		b.WriteString("/" + g.Pick("a", "b", "c.xsd", "a", "b", "A", "C.xsd", "", ".", "..", "...", "%2e%2e", "%2F..", "..%2f..", "a%20b", "%61", "c%2Exsd", "..a", "concepts", "x.org", "%00"))
	}
	if g.P(10) {
		b.WriteString(g.Pick("?q=1", "#f", "?q=../..", "#../.."))
	}
	return b.String()
}

func Gen_UrlToFilename(g *vspec.G) string {
	GlobalTaxonomySetPath = g.Pick("/store", "/store/gts", "store", "/")
	return genUrl(g)
}

func Gen_DiscoverGlobalFile(g *vspec.G) string {
	g.Tame()
	base := GenDirs(g)
	for _, f := range []string{"gts/concepts/http/x.org/a", "gts/concepts/http/x.org/b/c.xsd", "gts/concepts/https/x.org/a", "gts/concepts/http/y.org/a", "gts/concepts/http/a/b",
		"gts/a", "gts/b", "a", "b", "gts/concepts/http/x.org/A", "gts/concepts/http/x.org/B/C.xsd", "gts/concepts/http/x.org/b/C.xsd", "gts/concepts/http/x.org/b/c", "gts/concepts/HTTP/x.org/a", "gts/concepts/http/x.org:80/a", "gts/concepts/a", "gts/concepts/http/c.xsd", "gts/concepts/http/x.org/c.xsd"} {
		if g.P(60) {
			p := filepath.Join(base, f)
			if os.MkdirAll(filepath.Dir(p), 0o755) == nil {
				_ = os.WriteFile(p, []byte("text of "+f), 0o644)
			}
		}
	}
	return genUrl(g)
}

func Gen_TransformInlineImages(g *vspec.G) ([]byte, map[string]string) {
	g.Tame()
	images := map[string]string{}
	for _, n := range []string{"i.png", "j.jpg", "k.jpeg", "n.png"} {
		if g.P(50) {
			images[n] = "data:" + g.Pick("image/png", "image/jpeg") + ";base64," + g.Pick("AAAA", "QUJD", "Zm9v") + fmt.Sprint(len(images))
		}
	}
	return []byte(genInline(g)), images
}

func Gen_DecodeIxbrlFile(g *vspec.G) []byte {
	g.Tame()
	var b strings.Builder
	b.WriteString(`<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:o="urn:other" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:xbrli="http://www.xbrl.org/2003/instance">`)
	var elem func(depth int)
	elem = func(depth int) {
		tag := g.Pick("ix:nonFraction", "ix:nonNumeric", "ix:nonFraction", "ix:nonNumeric", "ix:exclude", "ix:relationship", "ix:header", "ix:resources", "div", "p", "o:nonFraction", "xbrli:context", "xbrli:unit", "link:schemaRef", "ix:continuation")
		b.WriteString("<" + tag)
		if g.P(60) {
			b.WriteString(` id="` + fmt.Sprintf("%s%d", g.ID(), b.Len()) + `"`)
		}
		if g.P(70) {
			b.WriteString(` name="` + g.ID() + `:` + g.ID() + `"`)
		}
		if g.P(70) {
			b.WriteString(` contextRef="` + g.ID() + `"`)
		}
		b.WriteString(">")
		for n := g.Intn(4); n > 0 && depth < 5; n-- {
			if g.P(30) {
				b.WriteString(g.ID())
			} else {
				elem(depth + 1)
			}
		}
		b.WriteString("</" + tag + ">")
	}
	for _, part := range []string{"head", "", "body", ""} {
		if part != "body" && !g.P(15) {
			continue
		}
		if part != "" {
			b.WriteString("<" + part + ">")
		}
		for n := 1 + g.Intn(4); n > 0; n-- {
			elem(0)
		}
		if part != "" {
			b.WriteString("</" + part + ">")
		}
	}
	b.WriteString("</html>")
	text := b.String()
	if g.P(5) {
		text = genBroken(g, text)
	}
	return []byte(text)
}

// GenSite writes a working directory with loadable and unloadable filings and
// the shared files that loading needs.
func GenSite(g *vspec.G) {
	base := GenDirs(g)
	utr := filepath.Join(base, "gts/concepts/http/www.xbrl.org/utr/utr.xml")
	_ = os.MkdirAll(filepath.Dir(utr), 0o755)
	if !g.P(5) {
		_ = os.WriteFile(utr, []byte(`<utr><units><unit><unitId>USD</unitId><unitName>Dollar</unitName><nsUnit>http://www.xbrl.org/2003/iso4217</nsUnit><symbol>$</symbol></unit></units></utr>`), 0o644)
	}
	if !g.P(5) {
		_ = os.WriteFile(filepath.Join(base, "wd/names.json"), []byte(`{"urn:s":{"1":"One","2":"Two"}}`), 0o644)
	}
	for _, id := range []string{"f1", "f2", "f3", "names.json"} {
		genFiling(g, id)
	}
	GenWrite("empty", "x", "")
	GenWrite("gone", "_", `{"Entry":"gone.xml"}`)
}

// GenIds are identifiers of that site.
var GenIds = []string{"f1", "f2", "f3", "f1", "f2", "empty", "gone", "missing", "names.json"}

func genFiling(g *vspec.G, id string) {
	const x = ` xmlns:xlink="http://www.w3.org/1999/xlink" xmlns:link="http://www.xbrl.org/2003/linkbase" xmlns:a="urn:a" `
	entry := g.Pick("i.xml", "e.htm", "e.htm", "e.xhtml")
	GenWrite(id, "_", fmt.Sprintf("{%q:%q}", "Entry", entry))
	GenWrite(id, "a.xsd", `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"`+x+`xmlns:xbrli="http://www.xbrl.org/2003/instance" targetNamespace="urn:a"><xs:annotation><xs:appinfo>`+
		`<link:roleType roleURI="urn:role1" id="r1"><link:definition>1 - Document - Cover</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>`+
		`<link:roleType roleURI="urn:role2" id="r2"><link:definition>2 - Statement - Sums</link:definition><link:usedOn>link:presentationLink</link:usedOn></link:roleType>`+
		`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/presentationLinkbaseRef" xlink:href="p.xml"/>`+
		`<link:linkbaseRef xlink:type="simple" xlink:arcrole="http://www.w3.org/1999/xlink/properties/linkbase" xlink:role="http://www.xbrl.org/2003/role/labelLinkbaseRef" xlink:href="l.xml"/>`+
		`</xs:appinfo></xs:annotation>`+
		`<xs:element name="p" id="a_p" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>`+
		`<xs:element name="q" id="a_q" type="xbrli:monetaryItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>`+
		`<xs:element name="pc" id="a_pc" type="xbrli:stringItemType" substitutionGroup="xbrli:item" xbrli:periodType="instant"/>`+
		`<xs:element name="r" id="a_r" type="xbrli:stringItemType" abstract="true" substitutionGroup="xbrli:item" xbrli:periodType="instant"/></xs:schema>`)
	pre := ""
	for _, role := range []string{"r1", "r2"} {
		pre += `<link:roleRef roleURI="urn:role` + role[1:] + `" xlink:type="simple" xlink:href="a.xsd#` + role + `"/>`
	}
	for _, role := range []string{"1", "2"} {
		if g.P(85) {
			pre += `<link:presentationLink xlink:type="extended" xlink:role="urn:role` + role + `">`
			for _, n := range []string{"r", "p", "q"} {
				pre += `<link:loc xlink:type="locator" xlink:label="l` + n + `" xlink:href="a.xsd#a_` + n + `"/>`
			}
			for i, n := range []string{"p", "q"} {
				pre += fmt.Sprintf(`<link:presentationArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/parent-child" xlink:from="lr" xlink:to="l%s" order="%d"/>`, n, i+1)
			}
			pre += `</link:presentationLink>`
		}
	}
	GenWrite(id, "p.xml", `<link:linkbase`+x+`>`+pre+`</link:linkbase>`)
	lab := `<link:labelLink xlink:type="extended" xlink:role="http://www.xbrl.org/2003/role/link">`
	for _, n := range []string{"r", "p", "q"} {
		if g.P(80) {
			lab += `<link:loc xlink:type="locator" xlink:label="l` + n + `" xlink:href="a.xsd#a_` + n + `"/><link:label xlink:type="resource" xlink:label="t` + n + `" xlink:role="http://www.xbrl.org/2003/role/label" xml:lang="en-US">Label ` + id + n + `</link:label>` +
				`<link:labelArc xlink:type="arc" xlink:arcrole="http://www.xbrl.org/2003/arcrole/concept-label" xlink:from="l` + n + `" xlink:to="t` + n + `"/>`
		}
	}
	GenWrite(id, "l.xml", `<link:linkbase`+x+`>`+lab+`</link:labelLink></link:linkbase>`)
	inst := `<xbrli:xbrl xmlns:xbrli="http://www.xbrl.org/2003/instance" xmlns:iso="http://www.xbrl.org/2003/iso4217"` + x + `><link:schemaRef xlink:type="simple" xlink:href="a.xsd"/>`
	for _, c := range []string{"c1", "c2", "1", "p:c1", "C1"} {
		inst += `<xbrli:context id="` + c + `"><xbrli:entity><xbrli:identifier scheme="urn:s">` + g.Pick("1", "1", "2") + `</xbrli:identifier></xbrli:entity><xbrli:period><xbrli:instant>2020-0` + c[len(c)-1:] + `-1` + fmt.Sprint(len(c)+int(c[0])%7) + `</xbrli:instant></xbrli:period></xbrli:context>`
	}
	inst += `<xbrli:unit id="u"><xbrli:measure>iso:USD</xbrli:measure></xbrli:unit>`
	ix := ""
	for i, c := range []string{"c1", "c2", "1", "p:c1", "C1"} {
		if g.P(40) {
			inst += fmt.Sprintf(`<a:pc contextRef="%s" id="pc%d">more %s %d</a:pc>`, c, i, id, g.Intn(100))
			ix += fmt.Sprintf(`<ix:nonNumeric name="a:pc" contextRef="%s" id="pc%d">text</ix:nonNumeric>`, c, i)
		}
		if g.P(80) {
			inst += fmt.Sprintf(`<a:p contextRef="%s" id="p%d">text %s %d</a:p>`, c, i, id, g.Intn(100))
			ix += fmt.Sprintf(`<ix:nonNumeric name="a:p" contextRef="%s" id="p%d">text</ix:nonNumeric>`, c, i)
		}
		if g.P(80) {
			inst += fmt.Sprintf(`<a:q contextRef="%s" unitRef="u" decimals="0" id="q%d">%d</a:q>`, c, i, g.Intn(10000))
			ix += fmt.Sprintf(`<ix:nonFraction name="%s" contextRef="%s" unitRef="u" id="q%d">7</ix:nonFraction>`, g.Pick("a:q", "a:q", "a:q", "a:q", "a:q", "a:q", "a:q", "zz:q"), c, i)
		}
	}
	inst += `</xbrli:xbrl>`
	if entry == "i.xml" {
		GenWrite(id, "i.xml", inst)
		return
	}
	GenWrite(id, entry+".xml", inst)
	GenWrite(id, entry, `<html xmlns="http://www.w3.org/1999/xhtml" xmlns:ix="http://www.xbrl.org/2013/inlineXBRL" xmlns:a="urn:a"><body><p>`+id+`</p>`+ix+`</body></html>`)
}
