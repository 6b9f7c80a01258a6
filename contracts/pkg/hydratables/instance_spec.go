//go:build verif

package hydratables

import (
	"encoding/xml"
	"io"
	"strconv"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
)

// ---- contexts

type specInner = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr `xml:",any,attr"`
	XMLInner string     `xml:",innerxml"`
}

type specDims = struct {
	XMLName        xml.Name
	XMLAttrs       []xml.Attr  `xml:",any,attr"`
	ExplicitMember []specText  `xml:"explicitMember"`
	TypedMember    []specInner `xml:"typedMember"`
}

type specEntity = struct {
	XMLName    xml.Name
	XMLAttrs   []xml.Attr `xml:",any,attr"`
	Identifier []specText `xml:"identifier"`
	Segment    []specDims `xml:"segment"`
}

type specPeriod = struct {
	XMLName   xml.Name
	XMLAttrs  []xml.Attr `xml:",any,attr"`
	Instant   []specText `xml:"instant"`
	StartDate []specText `xml:"startDate"`
	EndDate   []specText `xml:"endDate"`
}

type specContext = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr   `xml:",any,attr"`
	Entity   []specEntity `xml:"entity"`
	Period   []specPeriod `xml:"period"`
	Scenario []specDims   `xml:"scenario"`
}

// SpecConceptOf resolves a name used in the instance to a concept.
func SpecConceptOf(h *Hydratable, as []xml.Attr, qname string) (string, *Concept, bool) {
	n := attr.SpecQName(as, qname)
	if n.Space == "" {
		return "", nil, false
	}
	href, c, err := h.NameQuery(n.Space, n.Local)
	return href, c, err == nil && href != "" && c != nil
}

// SpecDimension: the dimension a member belongs to.
func SpecDimension(h *Hydratable, as []xml.Attr, member []xml.Attr) (string, *Concept, bool) {
	a := attr.SpecFirstAttr(member, "dimension")
	if a == nil || a.Value == "" {
		return "", nil, false
	}
	return SpecConceptOf(h, as, a.Value)
}

func SpecExplicit(h *Hydratable, as []xml.Attr, e specText) (ExplicitMember, bool) {
	var r ExplicitMember
	dim, _, ok := SpecDimension(h, as, e.XMLAttrs)
	if !ok {
		return r, false
	}
	mem, _, ok := SpecConceptOf(h, as, e.CharData)
	if !ok {
		return r, false
	}
	r.Dimension.Href = dim
	r.Dimension.Value = SpecVal(e.XMLAttrs, "dimension")
	r.Member.Href = mem
	r.Member.CharData = e.CharData
	return r, true
}

func SpecTyped(h *Hydratable, file *serializables.InstanceFile, e specInner) (TypedMember, bool) {
	var r TypedMember
	dim, c, ok := SpecDimension(h, file.XMLAttrs, e.XMLAttrs)
	if !ok {
		return r, false
	}
	r.Dimension.Href = dim
	r.Dimension.Value = SpecVal(e.XMLAttrs, "dimension")
	r.Dimension.TypedDomainHref = c.TypedDomainHref
	r.TypedMembersMap, r.TypedDomainArcs = hydrateTypedMembers(dim, e.XMLInner, file, h)
	return r, true
}

func SpecDims(h *Hydratable, file *serializables.InstanceFile, ds []specDims) DimensionContext {
	if len(ds) == 0 {
		return DimensionContext{}
	}
	return DimensionContext{
		ExplicitMembers: vspec.FilterMap(ds[0].ExplicitMember, func(e specText) (ExplicitMember, bool) { return SpecExplicit(h, file.XMLAttrs, e) }),
		TypedMembers:    vspec.FilterMap(ds[0].TypedMember, func(e specInner) (TypedMember, bool) { return SpecTyped(h, file, e) }),
	}
}

func SpecContext(h *Hydratable, file *serializables.InstanceFile, e specContext) (Context, bool) {
	var r Context
	if e.XMLName.Space != attr.XBRLI || !SpecHas(e.XMLAttrs, "id") || len(e.Entity) == 0 || len(e.Entity[0].Identifier) == 0 {
		return r, false
	}
	id := e.Entity[0].Identifier[0]
	if id.CharData == "" || attr.SpecFirstAttr(id.XMLAttrs, "scheme") == nil {
		return r, false
	}
	r.ID = SpecVal(e.XMLAttrs, "id")
	r.Entity.Identifier.Scheme = SpecVal(id.XMLAttrs, "scheme")
	r.Entity.Identifier.CharData = id.CharData
	r.Entity.Segment = SpecDims(h, file, e.Entity[0].Segment)
	r.Scenario = SpecDims(h, file, e.Scenario)
	if len(e.Period) > 0 {
		p := e.Period[0]
		if len(p.Instant) > 0 {
			r.Period.Instant.CharData = p.Instant[0].CharData
		}
		if len(p.StartDate) > 0 && len(p.EndDate) > 0 {
			r.Period.Duration.StartDate = p.StartDate[0].CharData
			r.Period.Duration.EndDate = p.EndDate[0].CharData
		}
	}
	return r, true
}

func SpecContexts(file *serializables.InstanceFile, h *Hydratable) []Context {
	return vspec.SortBy(vspec.FilterMap(file.Context, func(e specContext) (Context, bool) { return SpecContext(h, file, e) }),
		func(a, b Context) bool { return a.ID < b.ID })
}

func Requires_hydrateContexts(file *serializables.InstanceFile, h *Hydratable) bool {
	return file != nil && h != nil && h.Folder != nil
}
func Ensures_hydrateContexts__exact(file *serializables.InstanceFile, h *Hydratable, r []Context) bool {
	return vspec.Eq(r, SpecContexts(file, h))
}

//vc:trusted walks the tokens of an XML fragment; compared with a reference on generated fragments only
func Ensures_hydrateTypedMembers__something(dimensionHref string, typedMember string, file *serializables.InstanceFile, h *Hydratable, m map[string]string, arcs []TypedDomainArc) bool {
	return true
}
func Requires_hydrateTypedMembers(dimensionHref string, typedMember string, file *serializables.InstanceFile, h *Hydratable) bool {
	return file != nil && h != nil && h.Folder != nil
}

// specTypedContent is an independent reading of a typed member's content:
// one arc per element from its parent (the dimension for a top level element)
// in document order, and the trimmed text of each element.
func specTypedContent(h *Hydratable, as []xml.Attr, dimHref string, inner string) (map[string]string, []TypedDomainArc, bool) {
	if _, _, err := h.HashQuery(dimHref); err != nil {
		return nil, nil, true
	}
	texts := map[string]string{}
	var arcs []TypedDomainArc
	open := []string{dimHref}
	d := xml.NewDecoder(strings.NewReader(inner))
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return texts, arcs, true
		}
		if err != nil {
			return nil, nil, true
		}
		switch t := tok.(type) {
		case xml.StartElement:
			n := attr.SpecQName(as, t.Name.Space+":"+t.Name.Local)
			if n.Space == "" {
				return nil, nil, false // not judged
			}
			href, c, err := h.NameQuery(n.Space, n.Local)
			if err != nil || c == nil {
				return nil, nil, true
			}
			arcs = append(arcs, TypedDomainArc{Order: float64(len(arcs) + 1), From: open[len(open)-1], To: href})
			open = append(open, href)
		case xml.EndElement:
			open = open[:len(open)-1]
		case xml.CharData:
			if s := strings.TrimSpace(string(t)); s != "" {
				if len(open) == 1 {
					return nil, nil, false // text outside any element is not judged
				}
				texts[open[len(open)-1]] = s
			}
		}
	}
}

// Every typed member of every context carries the content of its element.
//
//vc:bounded
func Ensures_HydrateInstance__typed_content(file *serializables.InstanceFile, fileName string, h *Hydratable, r *Instance, err error) bool {
	if err != nil || file == nil || r == nil {
		return true
	}
	check := func(ds []specDims, got []TypedMember) bool {
		if len(ds) == 0 {
			return true
		}
		k := 0
		for _, e := range ds[0].TypedMember {
			dim, _, ok := SpecDimension(h, file.XMLAttrs, e.XMLAttrs)
			if !ok {
				continue
			}
			if k >= len(got) {
				return false
			}
			m, arcs, judged := specTypedContent(h, file.XMLAttrs, dim, e.XMLInner)
			if judged && (!vspec.Eq(m, got[k].TypedMembersMap) || !vspec.Eq(arcs, got[k].TypedDomainArcs)) {
				return false
			}
			k++
		}
		return k == len(got)
	}
	used := map[string]int{}
	for _, e := range file.Context {
		c, ok := SpecContext(h, file, e)
		if !ok {
			continue
		}
		n := used[c.ID]
		used[c.ID]++
		for _, rc := range r.Contexts {
			if rc.ID != c.ID {
				continue
			}
			if n > 0 {
				n--
				continue
			}
			if !check(e.Entity[0].Segment, rc.Entity.Segment.TypedMembers) || !check(e.Scenario, rc.Scenario.TypedMembers) {
				return false
			}
			break
		}
	}
	return true
}

// ---- units

type specMeasureN = struct {
	XMLName  xml.Name
	CharData string `xml:",chardata"`
}

func SpecMeasure(as []xml.Attr, qname string) UnitMeasure {
	return UnitMeasure{XMLName: attr.SpecQName(as, qname), CharData: qname}
}

type specNumerator = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr     `xml:",any,attr"`
	Measure  []specMeasureN `xml:"measure"`
}

type specDenominator = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr `xml:",any,attr"`
	Measure  []specText `xml:"measure"`
}

type specDivide = struct {
	XMLName         xml.Name
	XMLAttrs        []xml.Attr        `xml:",any,attr"`
	UnitNumerator   []specNumerator   `xml:"unitNumerator"`
	UnitDenominator []specDenominator `xml:"unitDenominator"`
}

type specUnit = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr   `xml:",any,attr"`
	Measure  []specText   `xml:"measure"`
	Divide   []specDivide `xml:"divide"`
}

func SpecUnits(file *serializables.InstanceFile) []Unit {
	return vspec.SortBy(vspec.FilterMap(file.Unit, func(u specUnit) (Unit, bool) { return SpecUnit(file.XMLAttrs, u) }),
		func(a, b Unit) bool { return a.ID < b.ID })
}

func SpecUnit(as []xml.Attr, u specUnit) (Unit, bool) {
	var r Unit
	if u.XMLName.Space != attr.XBRLI || !SpecHas(u.XMLAttrs, "id") {
		return r, false
	}
	r.ID = SpecVal(u.XMLAttrs, "id")
	if len(u.Measure) > 0 {
		r.Measure = SpecMeasure(as, u.Measure[0].CharData)
		return r, true
	}
	if len(u.Divide) == 0 || len(u.Divide[0].UnitNumerator) == 0 || len(u.Divide[0].UnitDenominator) == 0 {
		return r, false
	}
	num, den := u.Divide[0].UnitNumerator[0].Measure, u.Divide[0].UnitDenominator[0].Measure
	if len(num) == 0 || len(den) == 0 {
		return r, false
	}
	r.Divide.UnitNumerator.Measure = SpecMeasure(as, num[0].CharData)
	r.Divide.UnitDenominator.Measure = SpecMeasure(as, den[0].CharData)
	return r, true
}

func Requires_hydrateUnits(file *serializables.InstanceFile) bool { return file != nil }
func Ensures_hydrateUnits__exact(file *serializables.InstanceFile, r []Unit) bool {
	return vspec.Eq(r, SpecUnits(file))
}

// ---- facts

func SpecPrecision(as []xml.Attr) Precision {
	a := attr.SpecFirstAttr(as, "decimals")
	if a == nil {
		return Precisionless
	}
	if a.Value == "INF" {
		return Exact
	}
	n, err := strconv.Atoi(a.Value)
	if err != nil {
		return Precisionless
	}
	return Precision(n)
}

func SpecFact(h *Hydratable, e specInner) (Fact, bool) {
	if e.XMLName.Local == "" || e.XMLName.Space == "" {
		return Fact{}, false
	}
	href, c, err := h.NameQuery(e.XMLName.Space, e.XMLName.Local)
	return Fact{
		ID:         SpecVal(e.XMLAttrs, "id"),
		Href:       href,
		ContextRef: SpecVal(e.XMLAttrs, "contextRef"),
		UnitRef:    SpecVal(e.XMLAttrs, "unitRef"),
		Precision:  SpecPrecision(e.XMLAttrs),
		IsNil:      SpecBool(e.XMLAttrs, "nil", false),
		XMLInner:   e.XMLInner,
	}, err == nil && href != "" && c != nil && SpecHas(e.XMLAttrs, "contextRef")
}

func SpecFacts(file *serializables.InstanceFile, h *Hydratable) []Fact {
	return vspec.SortBy(vspec.FilterMap(file.Facts, func(e specInner) (Fact, bool) { return SpecFact(h, e) }),
		func(a, b Fact) bool { return a.ID < b.ID })
}

func Requires_hydrateFacts(file *serializables.InstanceFile, h *Hydratable) bool {
	return file != nil && h != nil && h.Folder != nil
}
func Ensures_hydrateFacts__exact(file *serializables.InstanceFile, h *Hydratable, r []Fact) bool {
	return vspec.Eq(r, SpecFacts(file, h))
}

// ---- footnotes

type specAttrsOnly = struct {
	XMLAttrs []xml.Attr `xml:",any,attr"`
}

type specFootnoteLink = struct {
	XMLName     xml.Name
	XMLAttrs    []xml.Attr      `xml:",any,attr"`
	Footnote    []specInner     `xml:"footnote"`
	Loc         []specAttrsOnly `xml:"loc"`
	FootnoteArc []specEl        `xml:"footnoteArc"`
}

func SpecFnLoc(e specAttrsOnly) (FootnoteLinkLoc, bool) {
	return FootnoteLinkLoc{Href: SpecVal(e.XMLAttrs, "href"), Label: SpecVal(e.XMLAttrs, "label")},
		SpecVal(e.XMLAttrs, "type") == "locator" && SpecHas(e.XMLAttrs, "href") && SpecHas(e.XMLAttrs, "label")
}

func SpecFn(e specInner) (Footnote, bool) {
	return Footnote{
		ID:        SpecVal(e.XMLAttrs, "id"),
		Label:     SpecVal(e.XMLAttrs, "label"),
		Lang:      SpecVal(e.XMLAttrs, "lang"),
		InnerHtml: e.XMLInner,
	}, SpecVal(e.XMLAttrs, "type") == "resource" && SpecHas(e.XMLAttrs, "id") &&
		SpecHas(e.XMLAttrs, "label") && SpecHas(e.XMLAttrs, "lang")
}

func SpecFnArc(e specEl) (FootnoteArc, bool) {
	return FootnoteArc{
		Arcrole: attr.FactFootnoteArcrole,
		From:    SpecVal(e.XMLAttrs, "from"),
		To:      SpecVal(e.XMLAttrs, "to"),
	}, SpecVal(e.XMLAttrs, "arcrole") == attr.FactFootnoteArcrole && SpecVal(e.XMLAttrs, "type") == "arc" &&
		SpecHas(e.XMLAttrs, "from") && SpecHas(e.XMLAttrs, "to")
}

func SpecFnLink(e specFootnoteLink) (FootnoteLink, bool) {
	return FootnoteLink{
		Title:        SpecVal(e.XMLAttrs, "title"),
		Footnotes:    vspec.FilterMap(e.Footnote, SpecFn),
		Locs:         vspec.FilterMap(e.Loc, SpecFnLoc),
		FootnoteArcs: vspec.FilterMap(e.FootnoteArc, SpecFnArc),
	}, SpecVal(e.XMLAttrs, "type") == "extended" && SpecVal(e.XMLAttrs, "role") == attr.ROLELINK
}

func SpecFnLinks(file *serializables.InstanceFile) []FootnoteLink {
	return vspec.SortBy(vspec.FilterMap(file.FootnoteLink, SpecFnLink),
		func(a, b FootnoteLink) bool { return a.Title < b.Title })
}

func Requires_hydrateFootnoteLinks(file *serializables.InstanceFile) bool { return file != nil }
func Ensures_hydrateFootnoteLinks__exact(file *serializables.InstanceFile, r []FootnoteLink) bool {
	return vspec.Eq(r, SpecFnLinks(file))
}

// ---- the instance

func Requires_HydrateInstance(file *serializables.InstanceFile, fileName string, h *Hydratable) bool {
	return h != nil && h.Folder != nil
}
func Ensures_HydrateInstance__rejects(file *serializables.InstanceFile, fileName string, h *Hydratable, r *Instance, err error) bool {
	if fileName == "" || file == nil {
		return err != nil
	}
	return err == nil && r != nil && r.FileName == fileName
}
func Ensures_HydrateInstance__contexts(file *serializables.InstanceFile, fileName string, h *Hydratable, r *Instance, err error) bool {
	if fileName == "" || file == nil {
		return true
	}
	return r != nil && vspec.Eq(r.Contexts, SpecContexts(file, h))
}
func Ensures_HydrateInstance__units(file *serializables.InstanceFile, fileName string, h *Hydratable, r *Instance, err error) bool {
	if fileName == "" || file == nil {
		return true
	}
	return r != nil && vspec.Eq(r.Units, SpecUnits(file))
}
func Ensures_HydrateInstance__facts(file *serializables.InstanceFile, fileName string, h *Hydratable, r *Instance, err error) bool {
	if fileName == "" || file == nil {
		return true
	}
	return r != nil && vspec.Eq(r.Facts, SpecFacts(file, h))
}
func Ensures_HydrateInstance__footnotes(file *serializables.InstanceFile, fileName string, h *Hydratable, r *Instance, err error) bool {
	if fileName == "" || file == nil {
		return true
	}
	return r != nil && vspec.Eq(r.FootnoteLinks, SpecFnLinks(file))
}
