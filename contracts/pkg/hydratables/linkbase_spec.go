//go:build verif

package hydratables

import (
	"encoding/xml"
	"math"
	"strconv"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
)

// ---- vocabulary

// an element of which only the attributes are read
type specEl = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr `xml:",any,attr"`
}

type specText = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr `xml:",any,attr"`
	CharData string     `xml:",chardata"`
}

// SpecHas: the element carries the attribute with a non-empty value.
func SpecHas(as []xml.Attr, name string) bool {
	a := attr.SpecFirstAttr(as, name)
	return a != nil && a.Value != ""
}

// SpecHasXlink: ditto, in the xlink namespace.
func SpecHasXlink(as []xml.Attr, name string) bool {
	a := attr.SpecFirstAttr(as, name)
	return a != nil && a.Name.Space == attr.XLINK && a.Value != ""
}

func SpecIsXlinkType(as []xml.Attr, v string) bool {
	a := attr.SpecFirstAttr(as, "type")
	return a != nil && a.Name.Space == attr.XLINK && a.Value == v
}

// SpecVal is the attribute's value, empty when it is absent.
func SpecVal(as []xml.Attr, name string) string {
	a := attr.SpecFirstAttr(as, name)
	if a == nil {
		return ""
	}
	return a.Value
}

func SpecRoleRef(e specEl) (RoleRef, bool) {
	return RoleRef{RoleURI: SpecVal(e.XMLAttrs, "roleURI"), Href: SpecVal(e.XMLAttrs, "href")},
		e.XMLName.Space == attr.LINK && SpecHas(e.XMLAttrs, "roleURI") && SpecHasXlink(e.XMLAttrs, "href")
}

func SpecLoc(e specEl) (Loc, bool) {
	return Loc{Href: SpecVal(e.XMLAttrs, "href"), Label: SpecVal(e.XMLAttrs, "label")},
		SpecIsXlinkType(e.XMLAttrs, "locator") && SpecHasXlink(e.XMLAttrs, "label") && SpecHas(e.XMLAttrs, "href")
}

func SpecIsArc(as []xml.Attr) bool {
	return SpecIsXlinkType(as, "arc") && SpecHasXlink(as, "arcrole") && SpecHasXlink(as, "from") && SpecHasXlink(as, "to")
}

func SpecIsExtended(as []xml.Attr) bool {
	return SpecIsXlinkType(as, "extended") && SpecHas(as, "role")
}

// SpecOrder: an order that is not a number comes last.
func SpecOrder(as []xml.Attr) float64 {
	f, err := strconv.ParseFloat(SpecVal(as, "order"), 64)
	if err != nil {
		return math.MaxFloat64
	}
	return f
}

// SpecBool reads a Boolean attribute.
func SpecBool(as []xml.Attr, name string, dflt bool) bool {
	a := attr.SpecFirstAttr(as, name)
	if a == nil {
		return dflt
	}
	b, err := strconv.ParseBool(a.Value)
	if err != nil {
		return dflt
	}
	return b
}

// ---- presentation

type specPLink = struct {
	XMLName         xml.Name
	XMLAttrs        []xml.Attr `xml:",any,attr"`
	Loc             []specEl   `xml:"loc"`
	PresentationArc []specEl   `xml:"presentationArc"`
}

func SpecPArc(e specEl) (PresentationArc, bool) {
	return PresentationArc{
		Order:          SpecOrder(e.XMLAttrs),
		Arcrole:        SpecVal(e.XMLAttrs, "arcrole"),
		From:           SpecVal(e.XMLAttrs, "from"),
		To:             SpecVal(e.XMLAttrs, "to"),
		PreferredLabel: SpecVal(e.XMLAttrs, "preferredLabel"),
	}, SpecIsArc(e.XMLAttrs) && SpecHas(e.XMLAttrs, "order")
}

func SpecPLinkOf(l specPLink) (PresentationLink, bool) {
	return PresentationLink{
		Role:             SpecVal(l.XMLAttrs, "role"),
		Locs:             vspec.FilterMap(l.Loc, SpecLoc),
		PresentationArcs: vspec.FilterMap(l.PresentationArc, SpecPArc),
	}, SpecIsExtended(l.XMLAttrs)
}

// SpecMergeP: links of one role are one link with all locators and arcs.
func SpecMergeP(ls []PresentationLink) map[string]PresentationLink {
	return vspec.Fold(map[string]PresentationLink{}, ls, func(m map[string]PresentationLink, l PresentationLink) map[string]PresentationLink {
		old, seen := m[l.Role]
		if !seen {
			return vspec.Put(m, l.Role, l)
		}
		return vspec.Put(m, l.Role, PresentationLink{
			Role:             old.Role,
			Locs:             append(old.Locs, l.Locs...),
			PresentationArcs: append(old.PresentationArcs, l.PresentationArcs...),
		})
	})
}

func SpecPLinks(file *serializables.PresentationLinkbaseFile, r []PresentationLink) bool {
	return SpecMergedP(vspec.FilterMap(file.PresentationLink, SpecPLinkOf), r)
}

func SpecMergedP(ls, r []PresentationLink) bool {
	return vspec.SomeOrder(SpecMergeP(ls), func(es []vspec.Entry[string, PresentationLink]) bool {
		return vspec.Eq(r, vspec.Map(es, func(e vspec.Entry[string, PresentationLink]) PresentationLink { return e.Val }))
	})
}

func Ensures_dedupPresentationLink__one_link_per_role(links []PresentationLink, r []PresentationLink) bool {
	return SpecMergedP(links, r)
}

func Requires_hydratePresentationLinkbaseRoleRefs(f *serializables.PresentationLinkbaseFile) bool {
	return f != nil
}
func Ensures_hydratePresentationLinkbaseRoleRefs__exact(f *serializables.PresentationLinkbaseFile, r []RoleRef) bool {
	return vspec.Eq(r, vspec.FilterMap(f.RoleRef, SpecRoleRef))
}

func Requires_hydratePresentationLink(f *serializables.PresentationLinkbaseFile) bool {
	return f != nil
}
func Ensures_hydratePresentationLink__exact(f *serializables.PresentationLinkbaseFile, r []PresentationLink) bool {
	return SpecPLinks(f, r)
}

func Ensures_HydratePresentationLinkbase__faithful(file *serializables.PresentationLinkbaseFile, fileName string, r *PresentationLinkbase, err error) bool {
	if fileName == "" || file == nil {
		return err != nil
	}
	return err == nil && r != nil && r.FileName == fileName &&
		vspec.Eq(r.RoleRefs, vspec.FilterMap(file.RoleRef, SpecRoleRef)) && SpecPLinks(file, r.PresentationLinks)
}
