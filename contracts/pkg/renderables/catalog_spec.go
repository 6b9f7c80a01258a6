//go:build verif

package renderables

import (
	"encoding/json"
	"math/big"
	"reflect"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	"github.com/joshuanario/digits"
)

func Requires_MarshalCatalog(h *hydratables.Hydratable) bool { return h != nil && h.Folder != nil }

//vc:bounded
func Ensures_MarshalCatalog__lists(h *hydratables.Hydratable, r []byte, err error) bool {
	var c Catalog
	if err != nil || json.Unmarshal(r, &c) != nil {
		return false
	}
	es := refEntities(h)
	if len(c.Subjects) != len(es) || !reflect.DeepEqual(c.RelationshipSets, refSets(h)) {
		return false
	}
	for i, e := range es {
		if c.Subjects[i].Entity != e || c.Subjects[i].Name != refName(e) {
			return false
		}
	}
	doc := ""
	if h.Document != nil {
		doc = h.Folder.EntryFileName
	}
	return c.DocumentName == doc
}

//vc:bounded
func Ensures_MarshalCatalog__networks(h *hydratables.Hydratable, r []byte, err error) bool {
	var c Catalog
	if err != nil || json.Unmarshal(r, &c) != nil || len(c.Networks) != len(refEntities(h)) {
		return false
	}
	roles := map[string]bool{}
	for _, s := range refSets(h) {
		roles[s.RoleURI] = true
	}
	slugs := map[string]bool{}
	for _, e := range refEntities(h) {
		m := c.Networks[e.Scheme+"/"+e.CharData]
		if len(m) != len(roles) {
			return false
		}
		for role, slug := range m {
			if !roles[role] || slugs[slug] {
				return false
			}
			slugs[slug] = true
		}
	}
	return true
}

func Requires_GetLabel(h *hydratables.Hydratable, href string) bool { return h != nil }

// The location and its fragment come first; every label resource reached from
// a locator of the location then sets the entry of its role and language.
func SpecRole(role string) LabelRole {
	switch role {
	case attr.Label:
		return Default
	case attr.TerseLabel:
		return Terse
	case attr.VerboseLabel:
		return Verbose
	}
	return ""
}

func SpecLanguage(lang string) Lang {
	switch lang {
	case "en", "en-US":
		return English
	case "es":
		return Español
	}
	return ""
}

func SpecWithRole(p LabelPack, role LabelRole) LabelPack {
	if _, found := p[role]; found {
		return p
	}
	return vspec.Put(p, role, LanguagePack{})
}

func SpecWithLabel(p LabelPack, l hydratables.LabelLinkLabel) LabelPack {
	role, lang := SpecRole(l.Role), SpecLanguage(l.Lang)
	if role == "" {
		return p
	}
	p = SpecWithRole(p, role)
	if lang == "" {
		return p
	}
	return vspec.Put(p, role, vspec.Put(p[role], lang, l.CharData))
}

func SpecLabels(p LabelPack, ls []vspec.Entry[string, hydratables.LabelLinkbase], href string) LabelPack {
	return vspec.Fold(p, ls, func(p LabelPack, e vspec.Entry[string, hydratables.LabelLinkbase]) LabelPack {
		return vspec.Fold(p, e.Val.LabelLink, func(p LabelPack, link hydratables.LabelLink) LabelPack {
			return vspec.Fold(p, link.Locs, func(p LabelPack, loc hydratables.Loc) LabelPack {
				if loc.Href != href {
					return p
				}
				return vspec.Fold(p, link.LabelArcs, func(p LabelPack, arc hydratables.LabelArc) LabelPack {
					if arc.From != loc.Label || arc.Arcrole != attr.LabelArcrole {
						return p
					}
					return vspec.Fold(p, link.Labels, func(p LabelPack, l hydratables.LabelLinkLabel) LabelPack {
						if l.Label != arc.To {
							return p
						}
						return SpecWithLabel(p, l)
					})
				})
			})
		})
	})
}

func Ensures_GetLabel__links(h *hydratables.Hydratable, href string, r LabelPack) bool {
	own := LanguagePack{}
	own = vspec.Put(own, PureLabel, href)
	if i := strings.IndexRune(href, '#'); i > -1 {
		own = vspec.Put(own, BriefLabel, href[i:])
	}
	return vspec.SomeOrder(h.LabelLinkbases, func(ls []vspec.Entry[string, hydratables.LabelLinkbase]) bool {
		return vspec.Eq(r, SpecLabels(vspec.Put(LabelPack{}, Default, own), ls, href))
	})
}

//vc:bounded
func Ensures_GetLabel__assigned(h *hydratables.Hydratable, href string, r LabelPack) bool {
	return refLabelOK(h, href, r)
}

func Requires_SigFigs(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune) bool {
	return concept != nil
}

func Gen_SigFigs(g *vspec.G) (string, hydratables.Precision, *hydratables.Concept, rune) {
	c := genConcept(g, g.Pick(genItems...))
	v := g.Pick(genValues...)
	if g.P(70) {
		n := 1 + g.Intn(8)
		v = ""
		for i := 0; i < n; i++ {
			v += string(rune('0' + g.Intn(10)))
		}
		if g.P(50) {
			v += "."
			for i := 1 + g.Intn(5); i > 0; i-- {
				v += string(rune('0' + g.Intn(10)))
			}
		}
		if g.P(40) {
			v = "-" + v
		}
	}
	p := hydratables.Precision(g.Intn(20) - 8)
	if g.P(15) {
		p = hydratables.Exact
	}
	if g.P(5) {
		p = hydratables.Precision(g.Intn(60) - 30)
	}
	return v, p, &c, []rune{',', ' '}[g.Intn(2)]
}

//vc:bounded
func Ensures_SigFigs__value(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune, r *FactExpression, err error) bool {
	want, ok := refNumber(value, precision, concept.Type.Space == attr.NUM && concept.Type.Local == attr.PercentItemType, g)
	if !ok {
		return err != nil && r == nil
	}
	return err == nil && r != nil && *r == want
}

// The displayed digits, with the separators taken out, read as the reported
// number when nothing had to be shortened.
//
//vc:bounded
func Ensures_SigFigs__digits(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune, r *FactExpression, err error) bool {
	if err != nil || r == nil || precision != hydratables.Exact {
		return true
	}
	f, ok := new(big.Rat).SetString(value)
	if !ok {
		return true
	}
	if concept.Type.Space == attr.NUM && concept.Type.Local == attr.PercentItemType {
		f.Mul(f, big.NewRat(100, 1))
	}
	if r.Head != "" && r.Head != "(" || (r.Head == "(") != strings.HasSuffix(r.Core+r.Tail, ")") {
		return false
	}
	s := strings.TrimSuffix(r.Core+r.Tail, ")")
	s = strings.ReplaceAll(s, string(g), "")
	if g == '.' || g == ' ' {
		s = strings.ReplaceAll(s, ",", ".")
	}
	x, ok := new(big.Rat).SetString(strings.TrimSuffix(s, "."))
	if !ok {
		return false
	}
	if r.Head == "(" {
		x.Neg(x)
	}
	d := new(big.Rat).Sub(x, f)
	d.Abs(d)
	_ = digits.PREC_BITS
	return d.Cmp(big.NewRat(1, 100)) <= 0
}

func Requires_MarshalExpressable(name string, contextref string, h *hydratables.Hydratable) bool {
	return h != nil && h.Folder != nil
}

//vc:bounded
func Ensures_MarshalExpressable__fact(name string, contextref string, h *hydratables.Hydratable, r []byte, err error) bool {
	if h.Document == nil {
		return r == nil
	}
	xn, ok := h.Document.NamespaceMap[name]
	if !ok || !h.Document.ContextRefMap[contextref] {
		return r == nil
	}
	href, concept, e := h.NameQuery(xn.Space, xn.Local)
	if e != nil {
		return r == nil && err != nil
	}
	f := refFact(h, href, contextref)
	var ctx *hydratables.Context
	for _, ins := range h.Instances {
		for i := range ins.Contexts {
			if ins.Contexts[i].ID == contextref {
				ctx = &ins.Contexts[i]
			}
		}
	}
	if f == nil || ctx == nil {
		return r == nil
	}
	var x Expressable
	if err != nil || json.Unmarshal(r, &x) != nil {
		return false
	}
	if x.Href != href || !refLabelOK(h, href, x.Labels) || x.Context.Period[PureLabel] != refPure(ctx) {
		return false
	}
	s, end := refPeriod(ctx)
	for l, text := range x.Context.Period {
		if text != refDate(l, s, end) {
			return false
		}
	}
	g := refGrid{hrefs: []string{href}, periods: PeriodHeaders{x.Context.Period}, members: x.Context.ContextualMemberGrid, void: x.Context.VoidQuadrant}
	shown, ok := refShown(&g, 0)
	if !concept.Abstract && (!ok || !reflect.DeepEqual(shown, refMembers(ctx))) {
		return false
	}
	if !refCellOK(h, f, x.Expression, PureLabel) {
		return false
	}
	notes := h.GetFootnotes(f)
	if len(notes) != len(x.Footnotes) {
		return false
	}
	for i, n := range notes {
		if n.InnerHtml != x.Footnotes[i] {
			return false
		}
	}
	return true
}
