//go:build verif

package renderables

import (
	"encoding/json"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/hydratables"
)

// ------------------------------------------------------------- the document of one fact

func Requires_appendLanguagePackFromPeriod(p LanguagePack, labels LabelPack, start, end string) bool {
	return p != nil
}

func Ensures_appendLanguagePackFromPeriod__same(p LanguagePack, labels LabelPack, start, end string, r LanguagePack, post_p LanguagePack) bool {
	return vspec.Eq(r, post_p) && r != nil
}

func Requires_periodMultilingualString(labels LabelPack, c *hydratables.Context) bool {
	return c != nil
}

func Ensures_periodMultilingualString__period(labels LabelPack, c *hydratables.Context, r LanguagePack) bool {
	d, i := c.Period.Duration, c.Period.Instant.CharData
	if d.StartDate != "" && d.EndDate != "" {
		s := d.StartDate + "/" + d.EndDate
		return vspec.Eq(r, appendLanguagePackFromPeriod(vspec.Put(vspec.Put(LanguagePack{}, PureLabel, s), BriefLabel, s), labels, d.StartDate, d.EndDate))
	}
	if i != "" {
		return vspec.Eq(r, appendLanguagePackFromPeriod(vspec.Put(vspec.Put(LanguagePack{}, PureLabel, i), BriefLabel, i), labels, "", i))
	}
	return vspec.Eq(r, vspec.Put(LanguagePack{}, PureLabel, ""))
}

// SpecExpressed: the column of the context among those of the fact.
func SpecExpressed(cols []relevantContext, ref string) []relevantContext {
	k := vspec.Find(cols, func(c relevantContext) bool { return c.ContextRef == ref })
	if k < 0 {
		return nil
	}
	return []relevantContext{cols[k]}
}

func SpecExpression(h *hydratables.Hydratable, href string, ref string, f *hydratables.Fact, c *hydratables.Context) Expressable {
	labels := GetLabel(h, href)
	cols, seg, scen, _ := getRelevantContexts(stringify(&Entity{Scheme: c.Entity.Identifier.Scheme, CharData: c.Entity.Identifier.CharData}), h, []string{href})
	members, void := getMemberGridAndVoidQuadrant(SpecExpressed(cols, ref), seg, scen)
	x := Expressable{
		Href:       href,
		Labels:     labels,
		Expression: render(f, h, h, []Lang{PureLabel}),
		Footnotes:  vspec.Map(h.GetFootnotes(f), func(n *hydratables.Footnote) string { return n.InnerHtml }),
	}
	x.Context.Period = periodMultilingualString(labels, c)
	x.Context.ContextualMemberGrid = members
	x.Context.VoidQuadrant = void
	return x
}

// Nothing for a name or context that the document does not have, otherwise the
// fact of the concept in the first context of that name.
func Ensures_MarshalExpressable__document(name string, contextref string, h *hydratables.Hydratable, r []byte, err error) bool {
	if h.Document == nil {
		return len(r) == 0 && err == nil
	}
	xn, known := h.Document.NamespaceMap[name]
	_, used := h.Document.ContextRefMap[contextref]
	if !known || !used {
		return len(r) == 0 && err == nil
	}
	href, _, qerr := h.NameQuery(xn.Space, xn.Local)
	if qerr != nil {
		return len(r) == 0 && err != nil
	}
	f := h.FindFact(href, contextref)
	if f == nil {
		return len(r) == 0 && err == nil
	}
	return vspec.SomeOrder(h.Instances, func(es []vspec.Entry[string, hydratables.Instance]) bool {
		k := vspec.Find(es, func(e vspec.Entry[string, hydratables.Instance]) bool { return getContext(&e.Val, contextref) != nil })
		if k < 0 {
			return len(r) == 0 && err == nil
		}
		want, werr := json.Marshal(SpecExpression(h, href, contextref, f, getContext(&es[k].Val, contextref)))
		return vspec.Eq(r, want) && (err == nil) == (werr == nil)
	})
}

// ------------------------------------------------------------- the document of a network

func Requires_cGrid(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) bool {
	return h != nil && h.Folder != nil && specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

//vc:trusted groups arcs in a map of slices that it sorts in place; compared by execution (C19)
func Ensures_cGrid__done(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, r CGrid, roles []LabelRole, langs []Lang, err error) bool {
	return err == nil
}

//vc:trusted writes into the maps of the period headers through copies of the grids; compared by execution (C24)
func Requires_formatPeriod(p PGrid, d DGrid, c CGrid, langs []Lang) bool { return true }

func SpecSlug(e Entity, s RelationshipSet) string { return hash(stringify(&e), s.RoleURI, s.Title) }

// SpecSet: the first of the relationship sets that has the slug.
func SpecSet(e Entity, ss []RelationshipSet, slug string) int {
	return vspec.Find(ss, func(s RelationshipSet) bool { return slug == SpecSlug(e, s) })
}

func SpecNetwork(e Entity, s RelationshipSet, h *hydratables.Hydratable) Renderable {
	entity := stringify(&e)
	p, roles, langs, _ := pGrid(entity, s.RoleURI, h, h, h, h)
	d, droles, dlangs, _ := dGrid(entity, s.RoleURI, h, h, h, h)
	c, croles, clangs, _ := cGrid(entity, s.RoleURI, h, h, h, h)
	ls := dedupLang(append(append(langs, dlangs...), clangs...))
	name := e.Scheme + "/" + e.CharData
	if n, err := hydratables.EntityQuery(e.Scheme, e.CharData); err == nil {
		name = n
	}
	fp, fd, fc := formatPeriod(p, d, c, ls)
	return Renderable{
		RelationshipSet: s,
		Subject:         Subject{Name: name, Entity: e},
		PGrid:           fp,
		DGrid:           fd,
		CGrid:           fc,
		Lang:            ls,
		LabelRoles:      dedupLabelRole(append(append(roles, droles...), croles...)),
	}
}

// The document of the first network with the slug, in the order of the catalog.
func Ensures_MarshalRenderable__document(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	es, ss := sortedEntities(h), sortedRelationshipSets(h)
	k := vspec.Find(es, func(e Entity) bool { return SpecSet(e, ss, slug) >= 0 })
	if k < 0 {
		return len(r) == 0 && err != nil
	}
	j := SpecSet(es[k], ss, slug)
	if j < 0 {
		return false
	}
	want, werr := json.Marshal(SpecNetwork(es[k], ss[j], h))
	return vspec.Eq(r, want) && (err == nil) == (werr == nil)
}
