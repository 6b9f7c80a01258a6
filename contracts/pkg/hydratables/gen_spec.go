//go:build verif

package hydratables

import (
	"encoding/xml"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

// Generators of inputs that hang together.

var genSpaces = []string{"urn:a", "urn:b", "urn:c"}
var genLocs = []string{"a.xsd", "b.xsd", "http://x.com/c.xsd"}
var genLocals = []string{"p", "q", "r", "s"}

func genAttr(name, value string) xml.Attr { return xml.Attr{Name: xml.Name{Local: name}, Value: value} }

func GenConcepts(g *vspec.G, space, loc string) []Concept {
	var cs []Concept
	for i, l := range genLocals {
		if g.P(12) {
			continue
		}
		c := Concept{XMLName: xml.Name{Space: space, Local: l}, ID: l}
		if g.P(10) {
			c.XMLName.Space = g.Pick(genSpaces...)
		}
		if g.P(15) {
			c.ID = g.Pick(genLocals...)
		}
		if g.P(10) {
			c.XMLName.Local = g.Pick(genLocals...)
		}
		if i == 2 || g.P(10) {
			c.TypedDomainHref = loc + "#" + g.Pick(genLocals...)
		}
		c.PeriodType = g.Pick("instant", "duration")
		c.Balance = g.Pick("debit", "credit", "")
		c.Type = xml.Name{Space: attr.XBRLI, Local: g.Pick("monetaryItemType", "stringItemType", "textBlockItemType")}
		c.Abstract = g.P(20)
		cs = append(cs, c)
	}
	return cs
}

func GenSchemaFile(g *vspec.G, space, loc string) serializables.SchemaFile {
	f := serializables.SchemaFile{}
	f.XMLAttrs = []xml.Attr{genAttr("targetNamespace", space)}
	for _, c := range GenConcepts(g, space, loc) {
		var e specText
		e.XMLName = xml.Name{Space: attr.XSD, Local: "element"}
		e.XMLAttrs = []xml.Attr{genAttr("id", c.ID), genAttr("name", c.XMLName.Local), genAttr("type", "xbrli:"+c.Type.Local)}
		if c.TypedDomainHref != "" {
			e.XMLAttrs = append(e.XMLAttrs, xml.Attr{Name: xml.Name{Space: attr.XBRLDT, Local: "typedDomainRef"}, Value: c.TypedDomainHref})
		}
		f.Element = append(f.Element, e)
	}
	return f
}

// GenWorld is a folder with three schemas, one of which is absolute and cached.
func GenWorld(g *vspec.G) *Hydratable {
	h := &Hydratable{Folder: &serializables.Folder{
		Namespaces: map[string]string{},
		Schemas:    map[string]serializables.SchemaFile{},
	}}
	InjectCache(gocache.New(gocache.NoExpiration, gocache.NoExpiration))
	for i, s := range genSpaces {
		if !g.P(8) {
			h.Folder.Namespaces[s] = genLocs[i]
		}
		if g.P(5) {
			h.Folder.Namespaces[s] = g.Pick(append(genLocs, "", "http://x.com/missing.xsd")...)
		}
		if g.P(6) {
			continue
		}
		if attr.IsValidUrl(genLocs[i]) {
			globalCache.Set(genLocs[i], Schema{FileName: genLocs[i], Element: GenConcepts(g, s, genLocs[i])}, gocache.NoExpiration)
		} else {
			h.Folder.Schemas[genLocs[i]] = GenSchemaFile(g, s, genLocs[i])
		}
	}
	if g.P(5) {
		h.Folder.Namespaces["urn:z"] = g.Pick(genLocs...)
	}
	if g.P(90) {
		globalCache.Set("names.json", map[string]map[string]string{"s1": {"1": "One", "2": "Two"}, "s2": {"1": "Uno"}}, gocache.NoExpiration)
	}
	return h
}

func Gen_Hydratable_NameQuery(g *vspec.G) (*Hydratable, string, string) {
	h := GenWorld(g)
	return h, g.Pick("urn:a", "urn:b", "urn:c", "urn:z", ""), g.Pick("p", "q", "r", "s", "")
}

func Gen_Hydratable_HashQuery(g *vspec.G) (*Hydratable, string) {
	h := GenWorld(g)
	switch g.Intn(10) {
	case 0:
		return h, g.Pick("", "#", "#p", "a.xsd", "a.xsd#", "a.xsd#p#q", "no.xsd#p")
	}
	return h, g.Pick(genLocs...) + "#" + g.Pick(genLocals...)
}

func Gen_EntityQuery(g *vspec.G) (string, string) {
	GenWorld(g)
	return g.Pick("s1", "s2", "s3", ""), g.Pick("1", "2", "3", "")
}

func genXlink(name, value string) xml.Attr {
	return xml.Attr{Name: xml.Name{Space: attr.XLINK, Local: name}, Value: value}
}

// genDrop leaves out, empties or garbles an attribute now and then.
func genDrop(g *vspec.G, as []xml.Attr) []xml.Attr {
	if !g.P(12) || len(as) == 0 {
		return as
	}
	i := g.Intn(len(as))
	switch g.Intn(4) {
	case 0:
		return append(append([]xml.Attr{}, as[:i]...), as[i+1:]...)
	case 1:
		as[i].Value = ""
	case 2:
		as[i].Value = g.Str()
	case 3:
		b := as[i]
		b.Value = g.Str()
		as = append([]xml.Attr{b}, as...)
	}
	return as
}

func genQName(g *vspec.G) string {
	if g.P(6) {
		return g.Pick("", "p", "z:p", "a:", "a:none", ":p")
	}
	return g.Pick("a", "b", "c") + ":" + g.Pick(genLocals...)
}

func genInner(g *vspec.G, depth int) string {
	q := g.Pick("a", "b", "c") + ":" + g.Pick(genLocals...)
	if g.P(3) {
		q = "a:none"
	}
	s := "<" + q + ">"
	if depth > 0 && g.P(45) {
		for i := 1 + g.Intn(3); i > 0; i-- {
			s += g.Pick("", " ", "\n") + genInner(g, depth-1)
		}
	} else if g.P(90) {
		s += g.Pick("v", " 1 ", "x&amp;y", "")
	}
	return s + "</" + q + ">"
}

func genDims(g *vspec.G) []specDims {
	if g.P(40) {
		return nil
	}
	var d specDims
	for i := g.Intn(3); i > 0; i-- {
		var e specText
		e.XMLAttrs = genDrop(g, []xml.Attr{genAttr("dimension", genQName(g))})
		e.CharData = genQName(g)
		d.ExplicitMember = append(d.ExplicitMember, e)
	}
	for i := g.Intn(3); i > 0; i-- {
		var e specInner
		e.XMLAttrs = genDrop(g, []xml.Attr{genAttr("dimension", genQName(g))})
		for k := g.Intn(3); k > 0; k-- {
			e.XMLInner += genInner(g, 2)
		}
		if g.P(3) {
			e.XMLInner += g.Pick("<", "</a>", "<a:p>", "&bad;")
		}
		d.TypedMember = append(d.TypedMember, e)
	}
	ds := []specDims{d}
	if g.P(10) {
		ds = append(ds, genDims(g)...)
	}
	return ds
}

func genTexts(g *vspec.G, ss ...string) []specText {
	var out []specText
	for n := g.Intn(8); n > 0 && len(out) < 2; n -= 4 {
		out = append(out, specText{CharData: g.Pick(ss...)})
	}
	return out
}

func genXbrli(g *vspec.G, local string) xml.Name {
	if g.P(4) {
		return xml.Name{Space: g.Pick("", attr.LINK, "urn:a"), Local: local}
	}
	return xml.Name{Space: attr.XBRLI, Local: local}
}

var genDates = []string{"2020-01-01", "2020-03-31", "2020-12-31", "2019-12-31", "2020-02-30", ""}

func genContext(g *vspec.G) specContext {
	var c specContext
	c.XMLName = genXbrli(g, "context")
	c.XMLAttrs = genDrop(g, []xml.Attr{genAttr("id", g.Pick("c1", "c2", "c3", "c4"))})
	for i := 1; i > 0 || g.P(5); i-- {
		if g.P(4) {
			break
		}
		var e specEntity
		for k := 1; k > 0 || g.P(5); k-- {
			if g.P(4) {
				break
			}
			e.Identifier = append(e.Identifier, specText{
				XMLAttrs: genDrop(g, []xml.Attr{genAttr("scheme", g.Pick("s1", "s2"))}),
				CharData: g.Pick("1", "2", "1", "2", "")})
		}
		e.Segment = genDims(g)
		c.Entity = append(c.Entity, e)
	}
	if g.P(95) {
		var p specPeriod
		p.Instant = genTexts(g, genDates...)
		p.StartDate = genTexts(g, genDates...)
		p.EndDate = genTexts(g, genDates...)
		c.Period = append(c.Period, p)
	}
	c.Scenario = genDims(g)
	return c
}

func genUnit(g *vspec.G) specUnit {
	var u specUnit
	u.XMLName = genXbrli(g, "unit")
	u.XMLAttrs = genDrop(g, []xml.Attr{genAttr("id", g.Pick("u1", "u2", "u3"))})
	if g.P(55) {
		u.Measure = genTexts(g, genQName(g), "a:p")
	}
	if g.P(60) {
		var d specDivide
		for i := 1 - g.Intn(15)/14; i > 0; i-- {
			var n specNumerator
			for _, m := range genTexts(g, genQName(g), "a:p") {
				n.Measure = append(n.Measure, specMeasureN{CharData: m.CharData})
			}
			d.UnitNumerator = append(d.UnitNumerator, n)
		}
		for i := 1 - g.Intn(15)/14; i > 0; i-- {
			d.UnitDenominator = append(d.UnitDenominator, specDenominator{Measure: genTexts(g, genQName(g), "b:q")})
		}
		u.Divide = append(u.Divide, d)
	}
	return u
}

func genFact(g *vspec.G) specInner {
	var f specInner
	f.XMLName = xml.Name{Space: g.Pick(genSpaces...), Local: g.Pick(genLocals...)}
	if g.P(6) {
		f.XMLName = xml.Name{Space: g.Pick("", "urn:z"), Local: g.Pick("", "p")}
	}
	f.XMLAttrs = genDrop(g, []xml.Attr{
		genAttr("contextRef", g.Pick("c1", "c2", "c3")),
		genAttr("id", g.Pick("f1", "f2", "f3", "f4")),
		genAttr("unitRef", g.Pick("u1", "u2")),
		genAttr("decimals", g.Pick("INF", "0", "2", "-3", "x")),
		{Name: xml.Name{Space: "http://www.w3.org/2001/XMLSchema-instance", Local: "nil"}, Value: g.Pick("true", "false", "1", "0", "x", "")},
	})
	for len(f.XMLAttrs) > 0 && g.P(25) {
		i := g.Intn(len(f.XMLAttrs))
		f.XMLAttrs = append(append([]xml.Attr{}, f.XMLAttrs[:i]...), f.XMLAttrs[i+1:]...)
	}
	f.XMLInner = g.Pick("1", "-2.5", "text", "", "1000")
	return f
}

func genFootnoteLink(g *vspec.G) specFootnoteLink {
	var l specFootnoteLink
	l.XMLAttrs = genDrop(g, []xml.Attr{genXlink("type", "extended"), genXlink("role", attr.ROLELINK), genXlink("title", g.Pick("t1", "t2", ""))})
	for i := g.Intn(4); i > 0; i-- {
		l.Loc = append(l.Loc, specAttrsOnly{XMLAttrs: genDrop(g, []xml.Attr{genXlink("type", "locator"), genXlink("href", g.Pick("#f1", "#f2", "i.xml#f3", "f4")), genXlink("label", g.Pick("l1", "l2", "l3"))})})
	}
	for i := g.Intn(4); i > 0; i-- {
		l.Footnote = append(l.Footnote, specInner{XMLAttrs: genDrop(g, []xml.Attr{genXlink("type", "resource"), genAttr("id", g.Pick("n1", "n2", "n3")), genXlink("label", g.Pick("n1", "n2", "m1")), genAttr("lang", "en")}), XMLInner: g.Pick("x", "y")})
	}
	for i := g.Intn(5); i > 0; i-- {
		l.FootnoteArc = append(l.FootnoteArc, specEl{XMLAttrs: genDrop(g, []xml.Attr{genXlink("type", "arc"), genXlink("arcrole", attr.FactFootnoteArcrole), genXlink("from", g.Pick("l1", "l2", "l3", "f1")), genXlink("to", g.Pick("n1", "n2", "n3", "m1"))})})
	}
	return l
}

// GenInstanceFile is an instance document over GenWorld's taxonomy.
func GenInstanceFile(g *vspec.G) *serializables.InstanceFile {
	f := &serializables.InstanceFile{}
	for i, p := range []string{"a", "b", "c"} {
		if !g.P(4) {
			f.XMLAttrs = append(f.XMLAttrs, xml.Attr{Name: xml.Name{Space: "xmlns", Local: p}, Value: genSpaces[i]})
		}
	}
	if g.P(10) {
		f.XMLAttrs = append(f.XMLAttrs, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: g.Pick(genSpaces...)})
	}
	n := func() int {
		if g.P(25) {
			return 0
		}
		if g.P(2) {
			return 13 + g.Intn(30)
		}
		return 1 + g.Intn(4)
	}
	for i := n(); i > 0; i-- {
		f.Context = append(f.Context, genContext(g))
	}
	for i := n(); i > 0; i-- {
		f.Unit = append(f.Unit, genUnit(g))
	}
	for i := n(); i > 0; i-- {
		f.Facts = append(f.Facts, genFact(g))
	}
	for i := n(); i > 0; i-- {
		f.FootnoteLink = append(f.FootnoteLink, genFootnoteLink(g))
	}
	return f
}

func Gen_HydrateInstance(g *vspec.G) (*serializables.InstanceFile, string, *Hydratable) {
	h := GenWorld(g)
	if g.P(2) {
		return nil, "i.xml", h
	}
	f := GenInstanceFile(g)
	if g.P(2) {
		return f, "", h
	}
	return f, "i.xml", h
}
