//go:build verif

package renderables

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	gohtml "html"
	"sort"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

// GenFiling builds a loaded filing: a taxonomy of a few concepts in a local
// and a shared schema, one or two instances, and for a few roles at most one
// presentation, definition and calculation link.

const genShared = "http://x.com/c.xsd"

var genItems = []string{"p", "q", "r", "s", "t", "w", "pc", "ab"}
var genMembers = []string{"m1", "m2", "m3", "m4", "m5"}
var genDimsE = []string{"d1", "d2"}
var genDimsT = []string{"d3", "d4"}
var genOthers = []string{"dom1", "dom2", "h1", "h2", "x", "y", "z"}
var genRoles = []string{"role:A", "role:B", "role:C"}

// genExtra are further concepts of a large filing.
var genExtra []string

// genAlike tells what the contexts of a filing have in common: 1 the entity,
// 2 the period, 4 that most of them have members.
var genAlike int

func genLarge(g *vspec.G) {
	genExtra = nil
	genAlike = 0
	if g.P(50) {
		genAlike = g.Intn(8)
	}
	if g.P(2) {
		for i := 0; i < 130; i++ {
			genExtra = append(genExtra, "e"+string(rune('a'+i/10))+string(rune('0'+i%10)))
		}
	}
}

func genNow() []string { return append(append([]string{}, genItems...), genExtra...) }

func genHref(l string) string {
	switch l {
	case "s", "m5", "d2", "y":
		return genShared + "#" + l
	}
	return "a.xsd#" + l
}

func genConcept(g *vspec.G, l string) hydratables.Concept {
	c := hydratables.Concept{XMLName: xml.Name{Space: "urn:a", Local: l}, ID: l, PeriodType: "duration"}
	switch l {
	case "s", "m5", "d2", "y":
		c.XMLName.Space = "urn:c"
	}
	switch l {
	case "t":
		c.Type = xml.Name{Space: attr.NONNUM, Local: attr.TextBlockItemType}
	case "w":
		c.Type = xml.Name{Space: attr.XBRLI, Local: "stringItemType"}
	case "pc":
		c.Type = xml.Name{Space: attr.NUM, Local: attr.PercentItemType}
		if g.P(15) {
			c.Type.Space = "urn:other"
		}
	case "p", "q", "r", "s":
		c.Type = xml.Name{Space: attr.XBRLI, Local: "monetaryItemType"}
		if l == "r" && g.P(30) {
			c.Type = xml.Name{Space: attr.NUM, Local: "perShareItemType"}
		}
		c.Balance = map[string]string{"p": "debit", "q": "credit", "r": "", "s": "credit"}[l]
	default:
		c.Type = xml.Name{Space: attr.XBRLI, Local: "stringItemType"}
		c.Abstract = len(l) != 3 || l[0] != 'e'
	}
	return c
}

func genAttr(name, value string) xml.Attr { return xml.Attr{Name: xml.Name{Local: name}, Value: value} }

func genTaxonomy(g *vspec.G) *hydratables.Hydratable {
	h := &hydratables.Hydratable{
		Folder: &serializables.Folder{
			EntryFileName: "e.htm",
			Namespaces:    map[string]string{"urn:a": "a.xsd", "urn:c": genShared},
			Schemas:       map[string]serializables.SchemaFile{},
		},
		Instances:             map[string]hydratables.Instance{},
		Schemas:               map[string]hydratables.Schema{},
		LabelLinkbases:        map[string]hydratables.LabelLinkbase{},
		PresentationLinkbases: map[string]hydratables.PresentationLinkbase{},
		DefinitionLinkbases:   map[string]hydratables.DefinitionLinkbase{},
		CalculationLinkbases:  map[string]hydratables.CalculationLinkbase{},
	}
	c := gocache.New(gocache.NoExpiration, gocache.NoExpiration)
	hydratables.InjectCache(c)
	f := serializables.SchemaFile{}
	f.XMLAttrs = []xml.Attr{genAttr("targetNamespace", "urn:a"),
		{Name: xml.Name{Space: "xmlns", Local: "xbrli"}, Value: attr.XBRLI},
		{Name: xml.Name{Space: "xmlns", Local: "num"}, Value: attr.NUM},
		{Name: xml.Name{Space: "xmlns", Local: "nonnum"}, Value: attr.NONNUM}}
	shared := hydratables.Schema{FileName: genShared}
	for _, l := range genAll() {
		if g.P(3) {
			continue
		}
		k := genConcept(g, l)
		if k.XMLName.Space == "urn:c" {
			shared.Element = append(shared.Element, k)
			continue
		}
		prefix := map[string]string{attr.XBRLI: "xbrli", attr.NUM: "num", attr.NONNUM: "nonnum"}[k.Type.Space]
		var e = struct {
			XMLName  xml.Name
			XMLAttrs []xml.Attr `xml:",any,attr"`
			CharData string     `xml:",chardata"`
		}{XMLName: xml.Name{Space: attr.XSD, Local: "element"}}
		e.XMLAttrs = []xml.Attr{genAttr("id", k.ID), genAttr("name", k.XMLName.Local), genAttr("type", prefix+":"+k.Type.Local),
			genAttr("abstract", map[bool]string{true: "true", false: "false"}[k.Abstract])}
		if k.Balance != "" {
			e.XMLAttrs = append(e.XMLAttrs, xml.Attr{Name: xml.Name{Space: attr.XBRLI, Local: "balance"}, Value: k.Balance})
		}
		f.Element = append(f.Element, e)
	}
	h.Folder.Schemas["a.xsd"] = f
	c.Set(genShared, shared, gocache.NoExpiration)
	if g.P(80) {
		c.Set("names.json", map[string]map[string]string{"s1": {"1": "One", "2": "Two"}, "s2": {"1": "Uno"}}, gocache.NoExpiration)
	}
	utr := hydratables.UnitTypeRegistry{"urn:u": {
		"USD": hydratables.Measurement{UnitID: "USD", UnitName: "US Dollar", Symbol: "$"},
		"EUR": hydratables.Measurement{UnitID: "EUR", UnitName: "Euro", Symbol: "€"},
		"sh":  hydratables.Measurement{UnitID: "sh", UnitName: "Share"},
		"pu":  hydratables.Measurement{UnitID: "pu", UnitName: "Pure"},
	}}
	c.Set(attr.UTR, utr, gocache.NoExpiration)
	roles := func() []hydratables.RoleType {
		var out []hydratables.RoleType
		for i, r := range genRoles {
			if g.P(75) {
				out = append(out, hydratables.RoleType{RoleURI: r, ID: r, Definition: genTitle(g, []string{"1 - One", "2 - Two", "1 - One"}[i])})
			}
			if g.P(6) {
				out = append(out, hydratables.RoleType{RoleURI: g.Pick(append(genRoles, "")...), ID: r, Definition: g.Pick("0 - Zero", "")})
			}
		}
		return out
	}
	for _, n := range []string{"a.xsd", "b.xsd"} {
		if g.P(60) {
			s := hydratables.Schema{FileName: n}
			s.RoleTypes = roles()
			h.Schemas[n] = s
		}
	}
	return h
}

func genAll() []string {
	var out []string
	for _, l := range [][]string{genItems, genExtra, genMembers, genDimsE, genDimsT, genOthers} {
		out = append(out, l...)
	}
	return out
}

var genPeriods = [][2]string{{"", "2020-12-31"}, {"2020-01-01", "2020-12-31"}, {"2020-12-01", "2020-12-31"}, {"2020-02-01", "2020-02-15"}, {"", "2019-12-31"}, {"2019-11-30", "2020-01-15"}, {"", "bad"}, {"x", "2020-12-31"}, {"2020-12-31", "2020-12-31"}, {"1/2", "2020-12-31"}, {"2020-12-31", "2020-01-01"}, {"2020-12-02", "2021-01-01"}}

func genMember(g *vspec.G, d string, m string) hydratables.ExplicitMember {
	e := hydratables.ExplicitMember{}
	e.Dimension.Href = genHref(d)
	e.Dimension.Value = "a:" + d
	e.Member.Href = genHref(m)
	e.Member.CharData = "a:" + m
	return e
}

func genTyped(g *vspec.G, d string) hydratables.TypedMember {
	t := hydratables.TypedMember{TypedMembersMap: map[string]string{}}
	t.Dimension.Href = genHref(d)
	t.Dimension.Value = "a:" + d
	t.Dimension.TypedDomainHref = genHref("x")
	if d == "d3" {
		t.TypedDomainArcs = []hydratables.TypedDomainArc{{Order: 1, From: t.Dimension.Href, To: genHref("x")}}
		if g.P(92) {
			t.TypedMembersMap[genHref("x")] = g.Pick("v1", "v2")
		}
		if g.P(4) { // no content at all
			t.TypedDomainArcs, t.TypedMembersMap = nil, nil
		}
		return t
	}
	t.TypedDomainArcs = []hydratables.TypedDomainArc{{Order: 1, From: t.Dimension.Href, To: genHref("y")}}
	if g.P(30) {
		t.TypedDomainArcs = append(t.TypedDomainArcs, hydratables.TypedDomainArc{Order: 2, From: genHref("y"), To: genHref("z")})
		t.TypedMembersMap[genHref("z")] = g.Pick("z1", "z2")
		if g.P(50) {
			t.TypedDomainArcs = append(t.TypedDomainArcs, hydratables.TypedDomainArc{Order: 3, From: genHref("y"), To: genHref("x")})
			t.TypedMembersMap[genHref("x")] = g.Pick("z1", "x2")
		}
	} else {
		t.TypedMembersMap[genHref("y")] = g.Pick("y1", "y2")
	}
	return t
}

func genTitle(g *vspec.G, s string) string {
	if g.P(8) {
		return g.Pick(s+" ", " "+s, s+"\n", strings.ToUpper(s))
	}
	return s
}

func genContext(g *vspec.G, id string) hydratables.Context {
	c := hydratables.Context{ID: id}
	c.Entity.Identifier.Scheme = g.Pick("s1", "s1", "s1", "s2")
	c.Entity.Identifier.CharData = g.Pick("1", "1", "1", "2")
	if genAlike&1 != 0 && g.P(95) {
		c.Entity.Identifier.Scheme, c.Entity.Identifier.CharData = "s1", "1"
	} else if g.P(4) {
		c.Entity.Identifier.CharData = g.Pick("Ab", "ab", " 1", "1/1", "01")
	}
	if g.P(3) {
		c.Entity.Identifier.CharData = ""
	}
	p := genPeriods[g.Intn(len(genPeriods))]
	if g.P(50) {
		p = genPeriods[g.Intn(3)]
	}
	if genAlike&2 != 0 && g.P(90) {
		p = genPeriods[1]
	}
	if p[0] == "" {
		c.Period.Instant.CharData = p[1]
	} else {
		c.Period.Duration.StartDate, c.Period.Duration.EndDate = p[0], p[1]
	}
	if g.P(2) {
		c.Period.Instant.CharData, c.Period.Duration.EndDate = "", ""
	}
	side := func(d *hydratables.DimensionContext, percent int, left map[string]bool) {
		if !g.P(percent) {
			return
		}
		for _, e := range []string{"d1", "d2"} {
			if g.P(55) && !left[e] {
				left[e] = true
				d.ExplicitMembers = append(d.ExplicitMembers, genMember(g, e, g.Pick(genMembers...)))
			}
		}
		for _, e := range []string{"d3", "d4"} {
			if g.P(25) && !left[e] {
				left[e] = true
				d.TypedMembers = append(d.TypedMembers, genTyped(g, e))
			}
		}
	}
	used := map[string]bool{}
	percent := 60
	if genAlike&4 != 0 {
		percent = 95
	}
	side(&c.Entity.Segment, percent, used)
	side(&c.Scenario, 20, used)
	return c
}

var genValues = []string{"1", "-2.5", "1234567.891", "-1000", "0", "0.25", "12345678", "abc", "", "1e3", "0.07", "0.1234", "-0.29"}
var genBlocks = []string{"plain", "a &lt;b&gt; c", "&lt;p&gt;one&lt;/p&gt;&lt;script&gt;alert(1)&lt;/script&gt;", "&lt;table&gt;&lt;tr&gt;&lt;td colspan=\"2\"&gt;x&lt;/td&gt;&lt;td&gt;y&lt;/td&gt;&lt;/tr&gt;&lt;/table&gt;",
	"&amp;lt;img src=x onerror=y&amp;gt;", "&lt;div onclick=\"z\"&gt;q &amp;amp; r&lt;/div&gt;", "x &amp;lt;td&amp;gt; y"}

func genFact(g *vspec.G, item, ctx, id string) hydratables.Fact {
	f := hydratables.Fact{Href: genHref(item), ID: id, ContextRef: ctx, IsNil: g.P(5)}
	switch item {
	case "t":
		f.Precision = hydratables.Precisionless
		f.XMLInner = g.Pick(genBlocks...)
		if g.P(60) {
			f.XMLInner = genBlock(g)
		}
	case "w", "ab", "eb7", "ec3":
		f.Precision = hydratables.Precisionless
		f.XMLInner = g.Pick("text", "5", "<b>x</b>")
	default:
		f.UnitRef = g.Pick("u1", "u2", "u3", "u4", "u5", "")
		f.Precision = hydratables.Precision([]int{int(hydratables.Exact), 0, 2, -3, -6, 1, int(hydratables.Precisionless), 40}[g.Intn(8)])
		f.XMLInner = g.Pick(genValues...)
	}
	return f
}

// genBlock is escaped markup of any shape.
func genBlock(g *vspec.G) string {
	out := ""
	var open []string
	for i := 1 + g.Intn(10); i > 0; i-- {
		switch g.Intn(7) {
		case 0, 1:
			t := g.Pick("table", "tr", "td", "th", "TD", "div", "p", "h2", "b", "br", "img", "a", "svg", "iframe", "title", "style", "script", "textarea", "plaintext", "noscript", "select")
			if t == "plaintext" && g.P(80) {
				t = "i"
			}
			out += "<" + t
			for k := g.Intn(3); k > 0; k-- {
				out += " " + g.Pick("colspan", "id", "class", "onclick", "style", "href", "COLSPAN") + "=" + g.Pick("\"2\"", "'3'", "1", "\"-1\"", "\"x\"", "\"a>b\"", "\"javascript:z\"", "\"&quot;>\"")
			}
			if g.P(10) {
				out += "/"
			}
			out += ">"
			open = append(open, t)
		case 2, 3:
			if len(open) > 0 {
				out += "</" + open[len(open)-1] + ">"
				open = open[:len(open)-1]
			}
		case 4:
			out += g.Pick("<!-- c -->", "<!DOCTYPE html>", "<![CDATA[d]]>", "<?pi e?>", "<", ">", "&lt;td&gt;", "&lt;script&gt;", "&amp;lt;tr&amp;gt;", "\"", "'", "&nbsp;")
		default:
			out += g.Pick("one", " two ", "\n", "3", "&amp;", "x<y", "a&b") + g.Pick("", " ")
		}
	}
	return gohtml.EscapeString(out)
}

func genUnits() []hydratables.Unit {
	m := func(l string) hydratables.UnitMeasure {
		return hydratables.UnitMeasure{XMLName: xml.Name{Space: "urn:u", Local: l}, CharData: "u:" + l}
	}
	us := []hydratables.Unit{{ID: "u1", Measure: m("USD")}, {ID: "u2", Measure: m("pu")}, {ID: "u3"}, {ID: "u4", Measure: m("none")}, {ID: "u5"}}
	us[2].Divide.UnitNumerator.Measure = m("EUR")
	us[2].Divide.UnitDenominator.Measure = m("sh")
	us[4].Divide.UnitNumerator.Measure = m("USD")
	us[4].Divide.UnitDenominator.Measure = m("EUR")
	return us
}

// two footnotes may have the same text
func genNote(g *vspec.G, id string) string {
	if g.P(10) {
		return "note"
	}
	return "note " + id
}

func genInstance(g *vspec.G, name, mark string) hydratables.Instance {
	ins := hydratables.Instance{FileName: name, Units: genUnits()}
	nc := 1 + g.Intn(5)
	if len(genExtra) > 0 || g.P(2) {
		nc = 9 + g.Intn(12)
	}
	// names of contexts sometimes differ in the case of a letter only
	cased := g.P(12)
	name1 := func(i int) string {
		if cased && i%2 == 1 {
			return strings.ToUpper(mark) + string(rune('0'+i))
		}
		return mark + string(rune('1'+i))
	}
	for i := 0; i < nc; i++ {
		ins.Contexts = append(ins.Contexts, genContext(g, name1(i)))
	}
	nf := g.Intn(14)
	if nc > 8 {
		nf = 10 + g.Intn(100)
	}
	for i := 0; i < nf; i++ {
		ctx := name1(g.Intn(nc))
		if g.P(3) {
			ctx = mark + "0"
		}
		id := "f" + mark + string(rune('a'+i%26)) + string(rune('a'+i/26))
		if g.P(10) {
			id = ""
		}
		ins.Facts = append(ins.Facts, genFact(g, g.Pick(genNow()...), ctx, id))
	}
	for k := g.Intn(3); k > 0 && nf > 0; k-- {
		l := hydratables.FootnoteLink{}
		for i := 0; i < 3; i++ {
			id := mark + "n" + string(rune('0'+k)) + string(rune('0'+i))
			l.Footnotes = append(l.Footnotes, hydratables.Footnote{ID: id, Label: "n" + string(rune('0'+i)), InnerHtml: genNote(g, id), Lang: "en"})
			f := ins.Facts[g.Intn(nf)]
			if f.ID != "" {
				l.Locs = append(l.Locs, hydratables.FootnoteLinkLoc{Href: "#" + f.ID, Label: "l" + string(rune('0'+i))})
			}
		}
		for i := 1 + g.Intn(4); i > 0; i-- {
			l.FootnoteArcs = append(l.FootnoteArcs, hydratables.FootnoteArc{From: g.Pick("l0", "l1", "l2"), To: g.Pick("n0", "n1", "n2"), Arcrole: attr.FactFootnoteArcrole})
		}
		ins.FootnoteLinks = append(ins.FootnoteLinks, l)
	}
	return ins
}

var genOrders = []float64{1, 2, 3, 1.5, 2, 10, 1.2, 2.5, 1e25, 0}

// genForest yields arcs that form a forest over the locators.
func genForest(g *vspec.G, ls []string) [][2]string {
	var out [][2]string
	for i := 1; i < len(ls); i++ {
		if g.P(85) {
			out = append(out, [2]string{ls[g.Intn(i)], ls[i]})
		}
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func genPickSome(g *vspec.G, ls []string, percent int) []string {
	var out []string
	for _, l := range ls {
		if g.P(percent) {
			out = append(out, l)
		}
	}
	g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

func genLocs(g *vspec.G, ls []string) []hydratables.Loc {
	var out []hydratables.Loc
	for _, l := range ls {
		if g.P(3) {
			continue
		}
		href := genHref(l)
		if g.P(2) {
			href = l
		}
		if g.P(2) { // labels are case sensitive
			out = append(out, hydratables.Loc{Href: genHref("q"), Label: "Loc_" + l})
		}
		out = append(out, hydratables.Loc{Href: href, Label: "loc_" + l})
		if g.P(3) {
			out = append(out, hydratables.Loc{Href: genHref("p"), Label: "loc_" + l})
		}
	}
	return out
}

func genRoleRefs(g *vspec.G, rs []string) []hydratables.RoleRef {
	var out []hydratables.RoleRef
	for _, r := range rs {
		if !g.P(4) {
			out = append(out, hydratables.RoleRef{RoleURI: r, Href: "a.xsd#" + r})
		}
	}
	return out
}

func genPresentation(g *vspec.G, role string) hydratables.PresentationLink {
	l := hydratables.PresentationLink{Role: role}
	ls := genPickSome(g, genNow(), 70)
	l.Locs = genLocs(g, ls)
	for _, e := range genForest(g, ls) {
		l.PresentationArcs = append(l.PresentationArcs, hydratables.PresentationArc{
			Order: genOrders[g.Intn(len(genOrders))], Arcrole: attr.PresentationArcrole, From: "loc_" + e[0], To: "loc_" + e[1]})
	}
	if g.P(10) {
		l.PresentationArcs = append(l.PresentationArcs, hydratables.PresentationArc{Order: 1, Arcrole: "other", From: "loc_p", To: "loc_q"})
	}
	return l
}

func genCalculation(g *vspec.G, role string) hydratables.CalculationLink {
	l := hydratables.CalculationLink{Role: role}
	ls := []string{"p", "q", "r", "s", "pc"}
	l.Locs = genLocs(g, ls)
	seen := map[[2]string]bool{}
	for i := 1 + g.Intn(6); i > 0; i-- {
		e := [2]string{g.Pick(ls...), g.Pick(ls...)}
		if e[0] == e[1] || seen[e] {
			continue
		}
		seen[e] = true
		role := attr.CalculationArcrole
		if g.P(6) {
			role = "other"
		}
		l.CalculationArcs = append(l.CalculationArcs, hydratables.CalculationArc{Order: genOrders[g.Intn(len(genOrders))], Arcrole: role,
			From: "loc_" + e[0], To: "loc_" + e[1], Weight: []float64{1, -1, 0.5, -2, 0, -0.25, 100, 0.26, 1.97}[g.Intn(9)]})
	}
	return l
}

func genDefinition(g *vspec.G, role string) hydratables.DefinitionLink {
	l := hydratables.DefinitionLink{Role: role}
	l.Locs = genLocs(g, genAll())
	add := func(arcrole, from, to string) {
		a := hydratables.DefinitionArc{Order: genOrders[g.Intn(len(genOrders))], Arcrole: arcrole, From: "loc_" + from, To: "loc_" + to, Usable: !g.P(15)}
		if arcrole == attr.HasInclusiveHypercubeArcrole || arcrole == attr.HasExclusiveHypercubeArcrole {
			a.Closed = g.P(50)
			a.ContextElement = g.Pick("segment", "scenario")
		}
		if g.P(4) {
			a.TargetRole = g.Pick(genRoles...)
		}
		l.DefinitionArcs = append(l.DefinitionArcs, a)
	}
	items := genPickSome(g, genItems, 50)
	for _, e := range genForest(g, items) {
		add(attr.DomainMemberArcrole, e[0], e[1])
	}
	ms := genPickSome(g, genMembers, 70)
	for i, m := range ms {
		switch {
		case i == 0 || g.P(40):
			add(attr.DomainMemberArcrole, "dom1", m)
		case g.P(50):
			add(attr.DomainMemberArcrole, "dom2", m)
		default:
			add(attr.DomainMemberArcrole, ms[g.Intn(i)], m)
		}
	}
	for _, d := range genDimsE {
		if g.P(85) {
			add(attr.DimensionDomainArcrole, d, map[string]string{"d1": "dom1", "d2": "dom2"}[d])
		}
		if g.P(50) {
			add(attr.DimensionDefaultArcrole, d, map[string]string{"d1": "dom1", "d2": "dom2"}[d])
		}
	}
	for _, c := range []string{"h1", "h2"} {
		for _, d := range []string{"d1", "d2", "d3"} {
			if g.P(45) {
				add(attr.HypercubeDimensionArcrole, c, d)
			}
		}
	}
	for _, i := range items {
		if g.P(45) {
			add(attr.HasInclusiveHypercubeArcrole, i, "h1")
		}
		if g.P(25) {
			add(attr.HasExclusiveHypercubeArcrole, i, g.Pick("h2", "h2", "h2", "h1"))
		}
	}
	if g.P(10) {
		add("other", "p", "q")
	}
	g.Shuffle(len(l.DefinitionArcs), func(i, j int) { l.DefinitionArcs[i], l.DefinitionArcs[j] = l.DefinitionArcs[j], l.DefinitionArcs[i] })
	return l
}

var genLangs = []string{"en", "en-US", "es", "fr"}
var genLabelRoles = []string{attr.Label, attr.TerseLabel, attr.VerboseLabel, "other"}

func genLabels(g *vspec.G, only func(string) bool) []hydratables.LabelLink {
	var out []hydratables.LabelLink
	density := 5 + g.Intn(60)
	mono := g.P(15)
	for k := 1 + g.Intn(2); k > 0; k-- {
		l := hydratables.LabelLink{Role: attr.ROLELINK}
		n := 0
		for _, c := range genAll() {
			if !only(c) || !g.P(density) {
				continue
			}
			href := genHref(c)
			if g.P(3) {
				href = g.Pick(href[1:], href+"0", href[strings.Index(href, "#"):])
			} else if g.P(3) {
				href = genHref("q")
				if !only("q") {
					continue
				}
			}
			l.Locs = append(l.Locs, hydratables.Loc{Href: href, Label: "loc_" + c})
			for i := 1 + g.Intn(3); i > 0; i-- {
				n++
				lab := hydratables.LabelLinkLabel{Label: "lab_" + c, Role: g.Pick(genLabelRoles...), Lang: g.Pick(genLangs...), CharData: c + string(rune('a'+n%26)) + string(rune('0'+k))}
				if mono && lab.Role != attr.Label {
					lab.Lang = genLangs[len(lab.Role)%len(genLangs)]
				}
				if g.P(5) {
					lab.Label = "lab_p"
				}
				l.Labels = append(l.Labels, lab)
			}
			a := hydratables.LabelArc{Order: 1, Arcrole: attr.LabelArcrole, From: "loc_" + c, To: "lab_" + c}
			if g.P(4) {
				a.Arcrole = "other"
			}
			if g.P(4) {
				a.To = "lab_p"
			}
			l.LabelArcs = append(l.LabelArcs, a)
		}
		g.Shuffle(len(l.LabelArcs), func(i, j int) { l.LabelArcs[i], l.LabelArcs[j] = l.LabelArcs[j], l.LabelArcs[i] })
		out = append(out, l)
	}
	return out
}

func GenFiling(g *vspec.G) *hydratables.Hydratable {
	genLarge(g)
	h := genTaxonomy(g)
	h.Instances["i.xml"] = genInstance(g, "i.xml", "c")
	if g.P(15) {
		h.Instances["j.xml"] = genInstance(g, "j.xml", "k")
	}
	second := g.P(25)
	half := map[string]bool{}
	for _, c := range genAll() {
		half[c] = g.P(50)
	}
	h.LabelLinkbases["l.xml"] = hydratables.LabelLinkbase{FileName: "l.xml", LabelLink: genLabels(g, func(c string) bool { return !second || half[c] })}
	if second {
		h.LabelLinkbases["m.xml"] = hydratables.LabelLinkbase{FileName: "m.xml", LabelLink: genLabels(g, func(c string) bool { return !half[c] })}
	}
	parts := [][]string{genRoles}
	if g.P(25) {
		parts = [][]string{genRoles[:1], genRoles[1:]}
	}
	for i, rs := range parts {
		n := string(rune('1' + i))
		p := hydratables.PresentationLinkbase{FileName: "p" + n + ".xml", RoleRefs: genRoleRefs(g, rs)}
		d := hydratables.DefinitionLinkbase{FileName: "d" + n + ".xml", RoleRefs: genRoleRefs(g, rs)}
		c := hydratables.CalculationLinkbase{FileName: "c" + n + ".xml", RoleRefs: genRoleRefs(g, rs)}
		for _, r := range rs {
			if g.P(75) {
				p.PresentationLinks = append(p.PresentationLinks, genPresentation(g, r))
			}
			if g.P(65) {
				d.DefinitionLinks = append(d.DefinitionLinks, genDefinition(g, r))
			}
			if g.P(65) {
				c.CalculationLinks = append(c.CalculationLinks, genCalculation(g, r))
			}
		}
		h.PresentationLinkbases[p.FileName] = p
		h.DefinitionLinkbases[d.FileName] = d
		h.CalculationLinkbases[c.FileName] = c
	}
	if g.P(80) {
		h.Document = &hydratables.Document{NamespaceMap: map[string]xml.Name{}, ContextRefMap: map[string]bool{}}
		for _, l := range genItems {
			if g.P(80) {
				k := genConcept(g, l)
				h.Document.NamespaceMap[l] = k.XMLName
			}
		}
		for _, f := range h.Instances["i.xml"].Facts {
			h.Document.ContextRefMap[f.ContextRef] = true
		}
		for _, f := range h.Instances["j.xml"].Facts {
			h.Document.ContextRefMap[f.ContextRef] = true
		}
		if g.P(20) { // facts of the instance that the document does not show
			hidden := byte(g.Intn(3))
			for k := range h.Document.ContextRefMap {
				if k != "" && k[len(k)-1]%3 == hidden {
					delete(h.Document.ContextRefMap, k)
				}
			}
		}
	}
	return h
}

// genSlug picks a slug that the catalog lists, or another one.
func genSlug(g *vspec.G, h *hydratables.Hydratable) string {
	data, err := MarshalCatalog(h)
	var c Catalog
	if err == nil && json.Unmarshal(data, &c) == nil && !g.P(4) {
		var all []string
		for _, m := range c.Networks {
			for _, s := range m {
				all = append(all, s)
			}
		}
		sort.Strings(all)
		if len(all) > 0 {
			s := []byte(all[g.Intn(len(all))])
			if g.P(4) && len(s) > 0 { // almost a slug
				i := g.Intn(len(s))
				if g.P(50) {
					i = g.Intn(2) * (len(s) - 1)
				}
				switch g.Intn(4) {
				case 0:
					s[i] = "0123456789abcdef"[g.Intn(16)]
				case 1:
					s = s[:i]
				case 2:
					s = append(s, '0')
				default:
					s = bytes.ToUpper(s)
				}
			}
			return string(s)
		}
	}
	return g.Pick("", "x", "bde8e195e86119e0ef56096707591d82")
}

func Gen_MarshalRenderable(g *vspec.G) (string, *hydratables.Hydratable) {
	h := GenFiling(g)
	return genSlug(g, h), h
}

func Gen_MarshalCatalog(g *vspec.G) *hydratables.Hydratable { return GenFiling(g) }

func Gen_MarshalExpressable(g *vspec.G) (string, string, *hydratables.Hydratable) {
	h := GenFiling(g)
	if fs := h.Instances["i.xml"].Facts; len(fs) > 0 && g.P(80) {
		f := fs[g.Intn(len(fs))]
		for _, l := range genItems {
			if genHref(l) == f.Href {
				return l, f.ContextRef, h
			}
		}
	}
	return g.Pick(append(genItems, "")...), g.Pick("c1", "c2", "k1", "", "c9"), h
}

func Gen_GetLabel(g *vspec.G) (*hydratables.Hydratable, string) {
	h := GenFiling(g)
	l := g.Pick(genAll()...)
	if g.P(5) {
		return h, g.Pick("#"+l, l, "", "a#b#"+l, genHref(l)[1:])
	}
	return h, genHref(l)
}
