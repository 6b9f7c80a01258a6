//go:build verif

package hydratables

import (
	"encoding/xml"
	"strconv"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/serializables"
)

// ---- calculation

type specCLink = struct {
	XMLName        xml.Name
	XMLAttrs       []xml.Attr `xml:",any,attr"`
	Loc            []specEl   `xml:"loc"`
	CalculationArc []specEl   `xml:"calculationArc"`
}

func SpecCArc(e specEl) (CalculationArc, bool) {
	return CalculationArc{
		Order:   SpecOrder(e.XMLAttrs),
		Arcrole: SpecVal(e.XMLAttrs, "arcrole"),
		From:    SpecVal(e.XMLAttrs, "from"),
		To:      SpecVal(e.XMLAttrs, "to"),
		Weight:  SpecWeight(e.XMLAttrs),
	}, SpecIsArc(e.XMLAttrs) && SpecHas(e.XMLAttrs, "order") && SpecHas(e.XMLAttrs, "weight")
}

// SpecWeight: a weight that is not a number contributes nothing.
func SpecWeight(as []xml.Attr) float64 {
	f, err := strconv.ParseFloat(SpecVal(as, "weight"), 64)
	if err != nil {
		return 0.0
	}
	return f
}

func SpecCLinkOf(l specCLink) (CalculationLink, bool) {
	return CalculationLink{
		Role:            SpecVal(l.XMLAttrs, "role"),
		Locs:            vspec.FilterMap(l.Loc, SpecLoc),
		CalculationArcs: vspec.FilterMap(l.CalculationArc, SpecCArc),
	}, SpecIsExtended(l.XMLAttrs)
}

// SpecMergeC: links of one role are one link with all locators and arcs.
func SpecMergeC(ls []CalculationLink) map[string]CalculationLink {
	return vspec.Fold(map[string]CalculationLink{}, ls, func(m map[string]CalculationLink, l CalculationLink) map[string]CalculationLink {
		old, seen := m[l.Role]
		if !seen {
			return vspec.Put(m, l.Role, l)
		}
		return vspec.Put(m, l.Role, CalculationLink{
			Role:            old.Role,
			Locs:            append(old.Locs, l.Locs...),
			CalculationArcs: append(old.CalculationArcs, l.CalculationArcs...),
		})
	})
}

func SpecCLinks(file *serializables.CalculationLinkbaseFile, r []CalculationLink) bool {
	return SpecMergedC(vspec.FilterMap(file.CalculationLink, SpecCLinkOf), r)
}

func SpecMergedC(ls, r []CalculationLink) bool {
	return vspec.SomeOrder(SpecMergeC(ls), func(es []vspec.Entry[string, CalculationLink]) bool {
		return vspec.Eq(r, vspec.Map(es, func(e vspec.Entry[string, CalculationLink]) CalculationLink { return e.Val }))
	})
}

func Ensures_dedupCalculationLink__one_link_per_role(links []CalculationLink, r []CalculationLink) bool {
	return SpecMergedC(links, r)
}

func Requires_hydrateCalculationLinkbaseRoleRefs(f *serializables.CalculationLinkbaseFile) bool {
	return f != nil
}
func Ensures_hydrateCalculationLinkbaseRoleRefs__exact(f *serializables.CalculationLinkbaseFile, r []RoleRef) bool {
	return vspec.Eq(r, vspec.FilterMap(f.RoleRef, SpecRoleRef))
}

func Requires_hydrateCalculationLink(f *serializables.CalculationLinkbaseFile) bool { return f != nil }
func Ensures_hydrateCalculationLink__exact(f *serializables.CalculationLinkbaseFile, r []CalculationLink) bool {
	return SpecCLinks(f, r)
}

func Ensures_HydrateCalculationLinkbase__faithful(file *serializables.CalculationLinkbaseFile, fileName string, r *CalculationLinkbase, err error) bool {
	if fileName == "" || file == nil {
		return err != nil
	}
	return err == nil && r != nil && r.FileName == fileName &&
		vspec.Eq(r.RoleRefs, vspec.FilterMap(file.RoleRef, SpecRoleRef)) && SpecCLinks(file, r.CalculationLinks)
}
