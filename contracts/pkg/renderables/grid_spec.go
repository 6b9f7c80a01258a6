//go:build verif

package renderables

import (
	"strconv"

	"ecksbee.com/telefacts/internal/graph"
	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	myarcs "github.com/joshuanario/arcs"
)

// ------------------------------------------------------------- contexts

func Requires_getContext(i *hydratables.Instance, ref string) bool { return i != nil }

func Ensures_getContext__first(i *hydratables.Instance, ref string, r *hydratables.Context) bool {
	k := vspec.Find(i.Contexts, func(c hydratables.Context) bool { return c.ID == ref })
	if k < 0 {
		return r == nil
	}
	return r != nil && vspec.Eq(*r, i.Contexts[k])
}

// ------------------------------------------------------------- members

func SpecTyped(e vspec.Entry[string, string], d Dimension, h *hydratables.Hydratable) RelevantMember {
	return RelevantMember{
		Dimension:   d,
		TypedDomain: &TypedDomain{Href: e.Key, Label: GetLabel(h, e.Key)},
		TypedMember: e.Val,
	}
}

func Requires_getTypedMember(m hydratables.TypedMember, d Dimension, segment bool, h *hydratables.Hydratable) bool {
	return h != nil
}

func Ensures_getTypedMember__members(m hydratables.TypedMember, d Dimension, segment bool, h *hydratables.Hydratable, r []RelevantMember, arcs []myarcs.Arc, packs []LabelPack) bool {
	return vspec.SomeOrder(m.TypedMembersMap, func(es []vspec.Entry[string, string]) bool {
		return vspec.Eq(r, vspec.Map(es, func(e vspec.Entry[string, string]) RelevantMember { return SpecTyped(e, d, h) })) &&
			vspec.Eq(packs, append([]LabelPack{d.Label}, vspec.Map(es, func(e vspec.Entry[string, string]) LabelPack { return GetLabel(h, e.Key) })...))
	}) && vspec.Eq(arcs, tDomArcs(m.TypedDomainArcs))
}

func SpecExplicit(m hydratables.ExplicitMember, segment bool, h *hydratables.Hydratable) RelevantMember {
	return RelevantMember{
		Dimension:      Dimension{Href: m.Dimension.Href, Label: GetLabel(h, m.Dimension.Href)},
		IsSegment:      segment,
		ExplicitMember: &ExplicitMember{Href: m.Member.Href, Label: GetLabel(h, m.Member.Href)},
	}
}

func SpecTypedMembers(m hydratables.TypedMember, segment bool, h *hydratables.Hydratable) []RelevantMember {
	r, _, _ := getTypedMember(m, Dimension{Href: m.Dimension.Href, Label: GetLabel(h, m.Dimension.Href)}, segment, h)
	return r
}

func SpecTypedTree(m hydratables.TypedMember, segment bool, h *hydratables.Hydratable) myarcs.RArc {
	_, arcs, _ := getTypedMember(m, Dimension{Href: m.Dimension.Href, Label: GetLabel(h, m.Dimension.Href)}, segment, h)
	return *graph.Tree(arcs, typedDomainArcRole)
}

func SpecMembersOf(es []hydratables.ExplicitMember, ts []hydratables.TypedMember, segment bool, h *hydratables.Hydratable) []RelevantMember {
	return append(vspec.Map(es, func(m hydratables.ExplicitMember) RelevantMember { return SpecExplicit(m, segment, h) }),
		vspec.FlatMap(ts, func(m hydratables.TypedMember) []RelevantMember { return SpecTypedMembers(m, segment, h) })...)
}

func Requires_getContextualMembers(c *hydratables.Context, h *hydratables.Hydratable) bool {
	return c != nil && h != nil
}

func Ensures_getContextualMembers__members(c *hydratables.Context, h *hydratables.Hydratable, r []RelevantMember, seg []myarcs.RArc, scen []myarcs.RArc, packs []LabelPack) bool {
	return vspec.Eq(r, append(SpecMembersOf(c.Entity.Segment.ExplicitMembers, c.Entity.Segment.TypedMembers, true, h),
		SpecMembersOf(c.Scenario.ExplicitMembers, c.Scenario.TypedMembers, false, h)...))
}

func Ensures_getContextualMembers__trees(c *hydratables.Context, h *hydratables.Hydratable, r []RelevantMember, seg []myarcs.RArc, scen []myarcs.RArc, packs []LabelPack) bool {
	return vspec.Eq(seg, vspec.Map(c.Entity.Segment.TypedMembers, func(m hydratables.TypedMember) myarcs.RArc { return SpecTypedTree(m, true, h) })) &&
		vspec.Eq(scen, vspec.Map(c.Scenario.TypedMembers, func(m hydratables.TypedMember) myarcs.RArc { return SpecTypedTree(m, false, h) }))
}

// ------------------------------------------------------------- effective dimensions

func SpecDimensions(role string, arcs []hydratables.DefinitionArc, d *hydratables.DefinitionLinkbase) []string {
	return vspec.Fold([]string{}, arcs, func(u []string, a hydratables.DefinitionArc) []string {
		dim := mapDLocatorToHref(role, d, a.To)
		if a.Arcrole != attr.HypercubeDimensionArcrole || vspec.Contains(u, dim) {
			return u
		}
		return vspec.Append(u, dim)
	})
}

func Requires_getEffectiveDimensions(role string, arcs []hydratables.DefinitionArc, d *hydratables.DefinitionLinkbase, h *hydratables.Hydratable) bool {
	return d != nil && h != nil
}

func Ensures_getEffectiveDimensions__once(role string, arcs []hydratables.DefinitionArc, d *hydratables.DefinitionLinkbase, h *hydratables.Hydratable, r []EffectiveDimension, hrefs []string, roles []LabelRole, langs []Lang) bool {
	return vspec.Eq(hrefs, SpecDimensions(role, arcs, d))
}

// ------------------------------------------------------------- relationships

func SpecOrder(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }

func SpecConnection(arc hydratables.DefinitionArc, from string, to string) DRSLink {
	l := DRSLink{SourceHref: from, TargetHref: to}
	order := SpecOrder(arc.Order)
	switch arc.Arcrole {
	case attr.DomainMemberArcrole:
		l.DomainMemberConnection = &DomainMemberConnection{Order: order, Usable: arc.Usable, External: arc.TargetRole}
	case attr.HypercubeDimensionArcrole:
		l.HypercubeDimensionConnection = &HypercubeDimensionConnection{Order: order, External: arc.TargetRole}
	case attr.DimensionDefaultArcrole:
		l.DimensionDomainConnection = &DimensionDomainConnection{Order: order, Default: true, Usable: true, External: arc.TargetRole}
	case attr.DimensionDomainArcrole:
		l.DimensionDomainConnection = &DimensionDomainConnection{Order: order, Default: false, Usable: arc.Usable, External: arc.TargetRole}
	case attr.HasInclusiveHypercubeArcrole:
		l.HypercubeConnection = &HypercubeConnection{IsClosed: arc.Closed, ContextElement: arc.ContextElement, IsInclusive: true, External: arc.TargetRole}
	case attr.HasExclusiveHypercubeArcrole:
		l.HypercubeConnection = &HypercubeConnection{IsClosed: arc.Closed, ContextElement: arc.ContextElement, IsInclusive: false, External: arc.TargetRole}
	}
	return l
}

func SpecTo(arc hydratables.DefinitionArc, role string, d *hydratables.DefinitionLinkbase) string {
	if arc.TargetRole != "" {
		return mapDLocatorToHref(arc.TargetRole, d, arc.To)
	}
	return mapDLocatorToHref(role, d, arc.To)
}

func SpecHasRole(d hydratables.DefinitionLinkbase, role string) bool {
	return vspec.Exists(d.RoleRefs, func(r hydratables.RoleRef) bool { return role == r.RoleURI })
}

// SpecNetworkLinks: the links of the network in one linkbase.
func SpecNetworkLinks(d hydratables.DefinitionLinkbase, role string) []DRSLink {
	if !SpecHasRole(d, role) {
		return nil
	}
	return vspec.FlatMap(d.DefinitionLinks, func(l hydratables.DefinitionLink) []DRSLink {
		if l.Role != role {
			return nil
		}
		return vspec.Map(l.DefinitionArcs, func(a hydratables.DefinitionArc) DRSLink {
			return SpecConnection(a, mapDLocatorToHref(role, &d, a.From), SpecTo(a, role, &d))
		})
	})
}

func Requires_getDRS(entity string, role string, h *hydratables.Hydratable) bool { return h != nil }

func Ensures_getDRS__links(entity string, role string, h *hydratables.Hydratable, r DRS) bool {
	return vspec.SomeOrder(h.DefinitionLinkbases, func(ds []vspec.Entry[string, hydratables.DefinitionLinkbase]) bool {
		return vspec.Eq(r.Links, vspec.FlatMap(ds, func(e vspec.Entry[string, hydratables.DefinitionLinkbase]) []DRSLink {
			return SpecNetworkLinks(e.Val, role)
		}))
	})
}

// ------------------------------------------------------------- small steps

func Requires_getPFactualQuadrant(ls []IndentedLabel, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang) bool {
	return specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

func Ensures_getPFactualQuadrant__rows(ls []IndentedLabel, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang, r FactualQuadrant, grid [][][]int, notes []string) bool {
	q, g, n := getFactualQuadrant(vspec.Map(ls, func(l IndentedLabel) string { return l.Href }), ctxs, ff, cf, mf, langs)
	return vspec.Eq(r, q) && vspec.Eq(grid, g) && vspec.Eq(notes, n)
}

func Requires_injectFactualQuadrant(d RootDomain, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang) bool {
	return specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

func Ensures_injectFactualQuadrant__rows(d RootDomain, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang, r RootDomain) bool {
	q, g, n := getFactualQuadrant(append([]string{d.Href}, vspec.Map(d.PrimaryItems, func(p PrimaryItem) string { return p.Href })...), ctxs, ff, cf, mf, langs)
	want := d
	want.FactualQuadrant, want.FootnoteGrid, want.Footnotes = q, g, n
	return vspec.Eq(r, want)
}

// ------------------------------------------------------------- label packs

func Ensures_reduce__some(packs []LabelPack, r *LabelPack) bool {
	return (r == nil) == (len(packs) == 0)
}

// SpecRoles and SpecLangs list what a pack offers, in one order of its roles.
func SpecRoles(es []vspec.Entry[LabelRole, LanguagePack]) []LabelRole {
	return vspec.Map(es, func(e vspec.Entry[LabelRole, LanguagePack]) LabelRole { return e.Key })
}

func Ensures_destruct__roles(pack LabelPack, roles []LabelRole, langs []Lang) bool {
	return vspec.SomeOrder(pack, func(es []vspec.Entry[LabelRole, LanguagePack]) bool {
		return vspec.Eq(roles, SpecRoles(es))
	})
}

// ------------------------------------------------------------- rows of a presentation network

func SpecIndented(c *myarcs.RArc, level int, role string, p hydratables.PresentationLinkbase, h *hydratables.Hydratable) IndentedLabel {
	href := mapPLocatorToHref(role, &p, c.Locator)
	return IndentedLabel{Href: href, Label: GetLabel(h, href), Indentation: level}
}

func SpecRows(n *myarcs.RArc, level int, role string, p hydratables.PresentationLinkbase, h *hydratables.Hydratable) []IndentedLabel {
	return vspec.FlatMap(n.Children, func(c *myarcs.RArc) []IndentedLabel {
		return append([]IndentedLabel{SpecIndented(c, level, role, p, h)}, SpecRows(c, level+1, role, p, h)...)
	})
}

func SpecRowPacks(n *myarcs.RArc, role string, p hydratables.PresentationLinkbase, h *hydratables.Hydratable) []LabelPack {
	return vspec.FlatMap(n.Children, func(c *myarcs.RArc) []LabelPack {
		return append([]LabelPack{GetLabel(h, mapPLocatorToHref(role, &p, c.Locator))}, SpecRowPacks(c, role, p, h)...)
	})
}

func Needs_getIndentedLabels__makeIndents(node *myarcs.RArc, level int, linkroleURI string, presentation hydratables.PresentationLinkbase, h *hydratables.Hydratable, ret []IndentedLabel, labelPacks []LabelPack) bool {
	return graph.SpecNodes(node)
}

func Effect_getIndentedLabels__makeIndents(node *myarcs.RArc, level int, linkroleURI string, presentation hydratables.PresentationLinkbase, h *hydratables.Hydratable, ret []IndentedLabel, labelPacks []LabelPack) (post_ret []IndentedLabel, post_labelPacks []LabelPack) {
	return append(ret, SpecRows(node, level, linkroleURI, presentation, h)...),
		append(labelPacks, SpecRowPacks(node, linkroleURI, presentation, h)...)
}

func Requires_getIndentedLabels(role string, h *hydratables.Hydratable) bool { return h != nil }

// The rows are those of the first link of the network in a linkbase that
// refers to it.
func Ensures_getIndentedLabels__rows(role string, h *hydratables.Hydratable, r []IndentedLabel, packs []LabelPack) bool {
	return vspec.SomeOrder(h.PresentationLinkbases, func(es []vspec.Entry[string, hydratables.PresentationLinkbase]) bool {
		k := vspec.Find(es, func(e vspec.Entry[string, hydratables.PresentationLinkbase]) bool {
			return vspec.Exists(e.Val.RoleRefs, func(f hydratables.RoleRef) bool { return role == f.RoleURI }) && SpecPLink(e.Val, role) >= 0
		})
		if k < 0 {
			return len(r) == 0 && len(packs) == 0
		}
		p := es[k].Val
		tree := graph.Tree(pArcs(p.PresentationLinks[SpecPLink(p, role)].PresentationArcs), attr.PresentationArcrole)
		return vspec.Eq(r, SpecRows(tree, 0, role, p, h)) && vspec.Eq(packs, SpecRowPacks(tree, role, p, h))
	})
}

func SpecPLink(p hydratables.PresentationLinkbase, role string) int {
	return vspec.Find(p.PresentationLinks, func(l hydratables.PresentationLink) bool { return l.Role == role })
}

// ------------------------------------------------------------- order of the columns

func SpecBefore(a, b relevantContext) bool {
	if a.PeriodHeader[PureLabel] != b.PeriodHeader[PureLabel] {
		return a.PeriodHeader[PureLabel] < b.PeriodHeader[PureLabel]
	}
	if len(a.Members) != len(b.Members) {
		return len(a.Members) < len(b.Members)
	}
	return len(a.Members) > 0 && SpecMemberBefore(a.Members[0], b.Members[0])
}

// Segments come before scenarios, typed members before explicit ones.
func SpecMemberBefore(a, b RelevantMember) bool {
	if a.IsSegment != b.IsSegment {
		return a.IsSegment
	}
	if (a.TypedDomain == nil) != (b.TypedDomain == nil) {
		return a.TypedDomain != nil
	}
	if a.TypedDomain != nil {
		return a.TypedDomain.Href < b.TypedDomain.Href || a.TypedDomain.Href == b.TypedDomain.Href && a.TypedMember < b.TypedMember
	}
	if (a.ExplicitMember == nil) != (b.ExplicitMember == nil) {
		return a.ExplicitMember == nil
	}
	return a.ExplicitMember != nil && a.ExplicitMember.Href < b.ExplicitMember.Href
}

func Ensures_sortContexts__sorted(cs []relevantContext, post_cs []relevantContext) bool {
	return vspec.Eq(post_cs, vspec.SortBy(cs, SpecBefore))
}

// ------------------------------------------------------------- columns

type SpecCols struct {
	Cols  []relevantContext
	Seg   []myarcs.RArc
	Scen  []myarcs.RArc
	Packs []LabelPack
	Taken map[string]bool
}

// A fact of the row brings the column of its context, unless it is there.
func SpecCol(s SpecCols, i hydratables.Instance, href string, f hydratables.Fact, entity string, h *hydratables.Hydratable) SpecCols {
	_, taken := s.Taken[f.ContextRef]
	if taken || href != f.Href {
		return s
	}
	c := getContext(&i, f.ContextRef)
	if c == nil || c.Entity.Identifier.Scheme+"/"+c.Entity.Identifier.CharData != entity {
		return s
	}
	ms, seg, scen, packs := getContextualMembers(c, h)
	return SpecCols{
		Cols:  vspec.Append(s.Cols, relevantContext{ContextRef: c.ID, PeriodHeader: periodString(c), Members: ms}),
		Seg:   append(s.Seg, seg...),
		Scen:  append(s.Scen, scen...),
		Packs: append(s.Packs, packs...),
		Taken: vspec.Put(s.Taken, f.ContextRef, true),
	}
}

func SpecColsOfRow(s SpecCols, i hydratables.Instance, href string, entity string, h *hydratables.Hydratable) SpecCols {
	return vspec.Fold(s, i.Facts, func(s SpecCols, f hydratables.Fact) SpecCols { return SpecCol(s, i, href, f, entity, h) })
}

func SpecColsOf(s SpecCols, i hydratables.Instance, hrefs []string, entity string, h *hydratables.Hydratable) SpecCols {
	return vspec.Fold(SpecCols{s.Cols, s.Seg, s.Scen, s.Packs, map[string]bool{}}, hrefs, func(s SpecCols, href string) SpecCols { return SpecColsOfRow(s, i, href, entity, h) })
}

func SpecReported(href string, h *hydratables.Hydratable) bool {
	_, c, err := h.HashQuery(href)
	return err == nil && c != nil && !c.Abstract
}

func Requires_getRelevantContexts(entity string, h *hydratables.Hydratable, hrefs []string) bool {
	return h != nil && h.Folder != nil
}

func Ensures_getRelevantContexts__columns(entity string, h *hydratables.Hydratable, hrefs []string, r []relevantContext, seg, scen []myarcs.RArc, packs []LabelPack) bool {
	rows := vspec.Filter(hrefs, func(href string) bool { return SpecReported(href, h) })
	if len(rows) == 0 {
		return len(r) == 0 && len(seg) == 0 && len(scen) == 0 && len(packs) == 0
	}
	return vspec.SomeOrder(h.Instances, func(es []vspec.Entry[string, hydratables.Instance]) bool {
		all := vspec.Fold(SpecCols{}, es, func(s SpecCols, e vspec.Entry[string, hydratables.Instance]) SpecCols {
			return SpecColsOf(s, e.Val, rows, entity, h)
		})
		return vspec.Eq(r, vspec.SortBy(all.Cols, SpecBefore)) && vspec.Eq(seg, all.Seg) && vspec.Eq(scen, all.Scen) && vspec.Eq(packs, all.Packs)
	})
}

func Requires_getPresentationContexts(entity string, h *hydratables.Hydratable, labels []IndentedLabel) bool {
	return h != nil && h.Folder != nil
}

func Ensures_getPresentationContexts__columns(entity string, h *hydratables.Hydratable, labels []IndentedLabel, r []relevantContext, seg, scen []myarcs.RArc, packs []LabelPack) bool {
	cols, a, b, ps := getRelevantContexts(entity, h, vspec.Map(labels, func(l IndentedLabel) string { return l.Href }))
	return vspec.Eq(r, cols) && vspec.Eq(seg, a) && vspec.Eq(scen, b) && vspec.Eq(packs, ps)
}

// ------------------------------------------------------------- headers of the columns

func SpecMatches(m RelevantMember, v *VoidCell) bool {
	return m.Dimension.Href == v.Dimension.Href &&
		(m.TypedDomain == nil && v.TypedDomain == nil ||
			m.TypedDomain != nil && v.TypedDomain != nil && m.TypedDomain.Href == v.TypedDomain.Href)
}

func SpecMemberCell(c relevantContext, v *VoidCell) *ContextualMemberCell {
	k := vspec.Find(c.Members, func(m RelevantMember) bool { return SpecMatches(m, v) })
	if k < 0 {
		return &ContextualMemberCell{}
	}
	if c.Members[k].TypedDomain != nil {
		return &ContextualMemberCell{TypedMember: c.Members[k].TypedMember}
	}
	return &ContextualMemberCell{ExplicitMember: c.Members[k].ExplicitMember}
}

//vc:trusted walks a merged tree of typed domains and sorts its nodes in place; compared by execution (C17)
func Ensures_getVoidQuadrant__rows(cs []relevantContext, seg, scen []myarcs.RArc, r VoidQuadrant) bool {
	return vspec.All(r, func(v *VoidCell) bool { return v != nil })
}

func Ensures_getMemberGridAndVoidQuadrant__cells(cs []relevantContext, seg, scen []myarcs.RArc, grid ContextualMemberGrid, void VoidQuadrant, post_seg, post_scen []myarcs.RArc) bool {
	if len(cs) == 0 {
		return len(grid) == 0 && len(void) == 0 && vspec.Eq(post_seg, seg) && vspec.Eq(post_scen, scen)
	}
	less := func(a, b myarcs.RArc) bool { return a.Locator < b.Locator }
	vs := getVoidQuadrant(cs, vspec.SortBy(seg, less), vspec.SortBy(scen, less))
	return vspec.Eq(post_seg, vspec.SortBy(seg, less)) && vspec.Eq(post_scen, vspec.SortBy(scen, less)) &&
		vspec.Eq(void, vs) && vspec.Eq(grid, vspec.Map(vs, func(v *VoidCell) []*ContextualMemberCell {
		return vspec.Map(cs, func(c relevantContext) *ContextualMemberCell { return SpecMemberCell(c, v) })
	}))
}

// ------------------------------------------------------------- the grid of a presentation network

func SpecOffered(packs []LabelPack) ([]LabelRole, []Lang) {
	all := reduce(packs)
	if all == nil {
		return nil, nil
	}
	return destruct(*all)
}

func Requires_pGrid(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) bool {
	return h != nil && h.Folder != nil && specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

func Ensures_pGrid__grid(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, r PGrid, roles []LabelRole, langs []Lang, err error) bool {
	rows, packs := getIndentedLabels(role, h)
	cols, seg, scen, more := getPresentationContexts(entity, h, rows)
	rs, ls := SpecOffered(append(packs, more...))
	facts, marks, texts := getPFactualQuadrant(rows, cols, ff, cf, mf, ls)
	members, void := getMemberGridAndVoidQuadrant(cols, seg, scen)
	return err == nil && vspec.Eq(roles, rs) && vspec.Eq(langs, ls) && vspec.Eq(r, PGrid{
		IndentedLabels:       rows,
		PeriodHeaders:        getPeriodHeaders(cols),
		ContextualMemberGrid: members,
		VoidQuadrant:         void,
		FactualQuadrant:      facts,
		FootnoteGrid:         marks,
		Footnotes:            texts,
	})
}
