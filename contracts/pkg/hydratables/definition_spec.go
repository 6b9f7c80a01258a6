//go:build verif

package hydratables

import (
	"encoding/xml"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/serializables"
)

// ---- definition

type specDLink = struct {
	XMLName       xml.Name
	XMLAttrs      []xml.Attr `xml:",any,attr"`
	Loc           []specEl   `xml:"loc"`
	DefinitionArc []specEl   `xml:"definitionArc"`
}

func SpecDArc(e specEl) (DefinitionArc, bool) {
	return DefinitionArc{
		Order:          SpecOrder(e.XMLAttrs),
		Arcrole:        SpecVal(e.XMLAttrs, "arcrole"),
		From:           SpecVal(e.XMLAttrs, "from"),
		To:             SpecVal(e.XMLAttrs, "to"),
		Closed:         SpecBool(e.XMLAttrs, "closed", false),
		Usable:         SpecBool(e.XMLAttrs, "usable", true),
		ContextElement: SpecVal(e.XMLAttrs, "contextElement"),
		TargetRole:     SpecVal(e.XMLAttrs, "targetRole"),
	}, SpecIsArc(e.XMLAttrs) && SpecHas(e.XMLAttrs, "order")
}

func SpecDLinkOf(l specDLink) (DefinitionLink, bool) {
	return DefinitionLink{
		Role:           SpecVal(l.XMLAttrs, "role"),
		Locs:           vspec.FilterMap(l.Loc, SpecLoc),
		DefinitionArcs: vspec.FilterMap(l.DefinitionArc, SpecDArc),
	}, SpecIsExtended(l.XMLAttrs)
}

// SpecMergeD: links of one role are one link with all locators and arcs.
func SpecMergeD(ls []DefinitionLink) map[string]DefinitionLink {
	return vspec.Fold(map[string]DefinitionLink{}, ls, func(m map[string]DefinitionLink, l DefinitionLink) map[string]DefinitionLink {
		old, seen := m[l.Role]
		if !seen {
			return vspec.Put(m, l.Role, l)
		}
		return vspec.Put(m, l.Role, DefinitionLink{
			Role:           old.Role,
			Locs:           append(old.Locs, l.Locs...),
			DefinitionArcs: append(old.DefinitionArcs, l.DefinitionArcs...),
		})
	})
}

func SpecDLinks(file *serializables.DefinitionLinkbaseFile, r []DefinitionLink) bool {
	return SpecMergedD(vspec.FilterMap(file.DefinitionLink, SpecDLinkOf), r)
}

func SpecMergedD(ls, r []DefinitionLink) bool {
	return vspec.SomeOrder(SpecMergeD(ls), func(es []vspec.Entry[string, DefinitionLink]) bool {
		return vspec.Eq(r, vspec.Map(es, func(e vspec.Entry[string, DefinitionLink]) DefinitionLink { return e.Val }))
	})
}

func Ensures_dedupDefinitionLink__one_link_per_role(links []DefinitionLink, r []DefinitionLink) bool {
	return SpecMergedD(links, r)
}

func Requires_hydrateDefinitionLinkbaseRoleRefs(f *serializables.DefinitionLinkbaseFile) bool {
	return f != nil
}
func Ensures_hydrateDefinitionLinkbaseRoleRefs__exact(f *serializables.DefinitionLinkbaseFile, r []RoleRef) bool {
	return vspec.Eq(r, vspec.FilterMap(f.RoleRef, SpecRoleRef))
}

func Requires_hydrateDefinitionLink(f *serializables.DefinitionLinkbaseFile) bool { return f != nil }
func Ensures_hydrateDefinitionLink__exact(f *serializables.DefinitionLinkbaseFile, r []DefinitionLink) bool {
	return SpecDLinks(f, r)
}

func Ensures_HydrateDefinitionLinkbase__faithful(file *serializables.DefinitionLinkbaseFile, fileName string, r *DefinitionLinkbase, err error) bool {
	if fileName == "" || file == nil {
		return err != nil
	}
	return err == nil && r != nil && r.FileName == fileName &&
		vspec.Eq(r.RoleRefs, vspec.FilterMap(file.RoleRef, SpecRoleRef)) && SpecDLinks(file, r.DefinitionLinks)
}
