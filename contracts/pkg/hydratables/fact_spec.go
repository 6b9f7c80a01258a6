//go:build verif

package hydratables

import (
	"strings"

	"ecksbee.com/telefacts/internal/graph"
	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	myarcs "github.com/joshuanario/arcs"
)

func Requires_Hydratable_FindFact(h *Hydratable, href, contextRef string) bool { return h != nil }
func Ensures_Hydratable_FindFact__first_match(h *Hydratable, href, contextRef string, r *Fact) bool {
	return vspec.SomeOrder(h.Instances, func(es []vspec.Entry[string, Instance]) bool {
		is := func(f Fact) bool { return f.Href == href && f.ContextRef == contextRef }
		k := vspec.Find(es, func(e vspec.Entry[string, Instance]) bool { return vspec.Find(e.Val.Facts, is) >= 0 })
		if k < 0 {
			return r == nil
		}
		fs := es[k].Val.Facts
		return vspec.Eq(r, &fs[vspec.Find(fs, is)])
	})
}

func Requires_Hydratable_FindFootnote(h *Hydratable, id string) bool { return h != nil }
func Ensures_Hydratable_FindFootnote__first_match(h *Hydratable, id string, r *Footnote) bool {
	return vspec.SomeOrder(h.Instances, func(es []vspec.Entry[string, Instance]) bool {
		has := func(f Footnote) bool { return f.ID == id }
		in := func(l FootnoteLink) bool { return vspec.Find(l.Footnotes, has) >= 0 }
		k := vspec.Find(es, func(e vspec.Entry[string, Instance]) bool { return vspec.Find(e.Val.FootnoteLinks, in) >= 0 })
		if k < 0 {
			return r == nil
		}
		ls := es[k].Val.FootnoteLinks
		fs := ls[vspec.Find(ls, in)].Footnotes
		return vspec.Eq(r, &fs[vspec.Find(fs, has)])
	})
}

// ---- footnotes of a fact

// SpecFnHref is what a label of a footnote link points at.
func SpecFnHref(l FootnoteLink, label string) string {
	i := vspec.Find(l.Locs, func(loc FootnoteLinkLoc) bool { return loc.Label == label && strings.Index(loc.Href, "#") >= 0 })
	if i < 0 {
		return "#" + label
	}
	return l.Locs[i].Href
}

func Requires_mapFnoteLocatorToHref(l *FootnoteLink, label string) bool { return l != nil }
func Ensures_mapFnoteLocatorToHref__located(l *FootnoteLink, label string, r string) bool {
	return r == SpecFnHref(*l, label)
}

// SpecFragment is the part after the last '#'.
func SpecFragment(href string) string {
	i := strings.LastIndex(href, "#")
	if i < 0 || i+1 >= len(href) {
		return href
	}
	return href[i+1:]
}

func Requires_findLabeledFootnotes(l *FootnoteLink, label string) bool { return l != nil }
func Ensures_findLabeledFootnotes__all(l *FootnoteLink, label string, r []*Footnote) bool {
	return vspec.Eq(r, SpecLabeled(*l, label))
}

func Ensures_findLabeledFootnotes__set(l *FootnoteLink, label string, r []*Footnote) bool {
	return SpecSet(r)
}

func SpecSet(s []*Footnote) bool {
	return vspec.All(s, func(f *Footnote) bool { return f != nil })
}

func SpecLabeled(l FootnoteLink, label string) []*Footnote {
	return vspec.FilterMap(l.Footnotes, func(f Footnote) (*Footnote, bool) { return &f, f.Label == label })
}

func SpecFnArcs(as []FootnoteArc) []myarcs.Arc {
	return vspec.MapI(as, func(i int, a FootnoteArc) myarcs.Arc {
		return myarcs.Arc{Arcrole: a.Arcrole, Order: float64(i), From: a.From, To: a.To}
	})
}

func Ensures_fnoteArcs__in_order(as []FootnoteArc, r []myarcs.Arc) bool {
	return vspec.Eq(r, SpecFnArcs(as))
}

// SpecFnTargets: the footnotes one arc of a link leads to.
func SpecFnTargets(h *Hydratable, l FootnoteLink, label string) []*Footnote {
	own := SpecLabeled(l, label)
	if len(own) > 0 {
		return own
	}
	f := h.FindFootnote(SpecFragment(SpecFnHref(l, label)))
	if f == nil {
		return nil
	}
	return []*Footnote{f}
}

func SpecLinkFootnotes(h *Hydratable, l FootnoteLink, id string) []*Footnote {
	root := graph.Tree(SpecFnArcs(l.FootnoteArcs), attr.FactFootnoteArcrole)
	return vspec.FlatMap(root.Children, func(c *myarcs.RArc) []*Footnote {
		if SpecFragment(SpecFnHref(l, c.Locator)) != id {
			return nil
		}
		return vspec.FlatMap(c.Children, func(t *myarcs.RArc) []*Footnote { return SpecFnTargets(h, l, t.Locator) })
	})
}

func Requires_Hydratable_GetFootnotes(h *Hydratable, fact *Fact) bool { return h != nil }
func Ensures_Hydratable_GetFootnotes__set(h *Hydratable, fact *Fact, r []*Footnote) bool {
	return SpecSet(r)
}

func Ensures_Hydratable_GetFootnotes__linked(h *Hydratable, fact *Fact, r []*Footnote) bool {
	if fact == nil {
		return len(r) == 0
	}
	return vspec.SomeOrder(h.Instances, func(es []vspec.Entry[string, Instance]) bool {
		return vspec.Eq(r, vspec.FlatMap(es, func(e vspec.Entry[string, Instance]) []*Footnote {
			return vspec.FlatMap(e.Val.FootnoteLinks, func(l FootnoteLink) []*Footnote { return SpecLinkFootnotes(h, l, fact.ID) })
		}))
	})
}

func Gen_Hydratable_FindFact(g *vspec.G) (*Hydratable, string, string) {
	return GenHydrated(g), g.Pick(genLocs...) + "#" + g.Pick(genLocals...), g.Pick("c1", "c2", "c3")
}

func Gen_Hydratable_FindFootnote(g *vspec.G) (*Hydratable, string) {
	return GenHydrated(g), g.Pick("n1", "n2", "n3", "n1j", "")
}

func Gen_Hydratable_GetFootnotes(g *vspec.G) (*Hydratable, *Fact) {
	return GenHydrated(g), &Fact{ID: g.Pick("f1", "f2", "f3", "f4", "")}
}
