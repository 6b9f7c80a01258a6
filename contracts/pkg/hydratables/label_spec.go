//go:build verif

package hydratables

import (
	"encoding/xml"
	"strconv"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/serializables"
)

// ---- labels

type specLLink = struct {
	XMLName  xml.Name
	XMLAttrs []xml.Attr `xml:",any,attr"`
	Loc      []specEl   `xml:"loc"`
	Label    []specText `xml:"label"`
	LabelArc []specEl   `xml:"labelArc"`
}

// SpecLLabel: a label resource has a label, a role and a language.
func SpecLLabel(e specText) (LabelLinkLabel, bool) {
	return LabelLinkLabel{
		Label:    SpecVal(e.XMLAttrs, "label"),
		Role:     SpecVal(e.XMLAttrs, "role"),
		Lang:     SpecVal(e.XMLAttrs, "lang"),
		CharData: e.CharData,
	}, SpecHasXlink(e.XMLAttrs, "label") && SpecHasXlink(e.XMLAttrs, "role") && SpecHas(e.XMLAttrs, "lang")
}

// SpecLOrder: an arc without an order comes after all that have a small one.
func SpecLOrder(as []xml.Attr, dflt float64) float64 {
	if !SpecHas(as, "order") {
		return dflt
	}
	f, _ := strconv.ParseFloat(SpecVal(as, "order"), 64)
	return f
}

func SpecLArc(n, i int, e specEl) (LabelArc, bool) {
	return LabelArc{
		Order:   SpecLOrder(e.XMLAttrs, float64(n+i)),
		Arcrole: SpecVal(e.XMLAttrs, "arcrole"),
		From:    SpecVal(e.XMLAttrs, "from"),
		To:      SpecVal(e.XMLAttrs, "to"),
	}, SpecIsArc(e.XMLAttrs)
}

func SpecLLinkOf(l specLLink) (LabelLink, bool) {
	return LabelLink{
		Role:   SpecVal(l.XMLAttrs, "role"),
		Locs:   vspec.FilterMap(l.Loc, SpecLoc),
		Labels: vspec.FilterMap(l.Label, SpecLLabel),
		LabelArcs: vspec.FilterMapI(l.LabelArc, func(i int, e specEl) (LabelArc, bool) {
			return SpecLArc(len(l.LabelArc), i, e)
		}),
	}, SpecIsExtended(l.XMLAttrs)
}

func Requires_hydrateLabelLinkbaseRoleRefs(f *serializables.LabelLinkbaseFile) bool {
	return f != nil
}
func Ensures_hydrateLabelLinkbaseRoleRefs__exact(f *serializables.LabelLinkbaseFile, r []RoleRef) bool {
	return vspec.Eq(r, vspec.FilterMap(f.RoleRef, SpecRoleRef))
}

func Requires_hydrateLabelLink(f *serializables.LabelLinkbaseFile) bool { return f != nil }
func Ensures_hydrateLabelLink__exact(f *serializables.LabelLinkbaseFile, r []LabelLink) bool {
	return vspec.Eq(r, vspec.FilterMap(f.LabelLink, SpecLLinkOf))
}

func Ensures_HydrateLabelLinkbase__faithful(file *serializables.LabelLinkbaseFile, fileName string, r *LabelLinkbase, err error) bool {
	if fileName == "" || file == nil {
		return err != nil
	}
	return err == nil && r != nil && r.FileName == fileName &&
		vspec.Eq(r.RoleRefs, vspec.FilterMap(file.RoleRef, SpecRoleRef)) &&
		vspec.Eq(r.LabelLink, vspec.FilterMap(file.LabelLink, SpecLLinkOf))
}
