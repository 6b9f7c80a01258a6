//go:build verif

package renderables

import (
	"encoding/hex"
	"encoding/json"
	"hash/fnv"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/hydratables"
	myarcs "github.com/joshuanario/arcs"
)

func Ensures_stringInSlice__found(a string, list []string, r bool) bool {
	return r == vspec.Exists(list, func(b string) bool { return b == a })
}

// SpecFirst keeps the first of equal elements.
func SpecFirst(arr []string) []string {
	return vspec.Fold([]string{}, arr, func(u []string, s string) []string {
		if vspec.Contains(u, s) {
			return u
		}
		return vspec.Append(u, s)
	})
}

func Ensures_dedup__first(arr []string, r []string) bool {
	return vspec.Eq(r, SpecFirst(arr))
}

func Ensures_dedupLang__first(langs []Lang, r []Lang) bool {
	return vspec.Eq(r, vspec.Map(SpecFirst(vspec.Map(langs, func(l Lang) string { return string(l) })),
		func(s string) Lang { return Lang(s) }))
}

func Ensures_dedupLabelRole__first(roles []LabelRole, r []LabelRole) bool {
	return vspec.Eq(r, vspec.Map(SpecFirst(vspec.Map(roles, func(l LabelRole) string { return string(l) })),
		func(s string) LabelRole { return LabelRole(s) }))
}

// SpecLoc: the first locator of that label whose location has a fragment.
func SpecLoc(locs []hydratables.Loc, locator string) int {
	return vspec.Find(locs, func(l hydratables.Loc) bool {
		return l.Label == locator && strings.Index(l.Href, "#") >= 0
	})
}

// A locator of a network stands for the location of the first of its locs
// with that label, in the first link of the network that has one.
func Ensures_mapPLocatorToHref__location(role string, p *hydratables.PresentationLinkbase, locator string, r string) bool {
	link := func(l hydratables.PresentationLink) bool {
		return l.Role == role && SpecLoc(l.Locs, locator) >= 0
	}
	if !vspec.Exists(p.RoleRefs, func(f hydratables.RoleRef) bool {
		return role == f.RoleURI && vspec.Find(p.PresentationLinks, link) >= 0
	}) {
		return r == "#"+locator
	}
	l := p.PresentationLinks[vspec.Find(p.PresentationLinks, link)]
	return r == l.Locs[SpecLoc(l.Locs, locator)].Href
}

func Requires_mapPLocatorToHref(role string, p *hydratables.PresentationLinkbase, locator string) bool {
	return p != nil
}

func Ensures_mapCLocatorToHref__location(role string, p *hydratables.CalculationLinkbase, locator string, r string) bool {
	link := func(l hydratables.CalculationLink) bool {
		return l.Role == role && SpecLoc(l.Locs, locator) >= 0
	}
	if !vspec.Exists(p.RoleRefs, func(f hydratables.RoleRef) bool {
		return role == f.RoleURI && vspec.Find(p.CalculationLinks, link) >= 0
	}) {
		return r == "#"+locator
	}
	l := p.CalculationLinks[vspec.Find(p.CalculationLinks, link)]
	return r == l.Locs[SpecLoc(l.Locs, locator)].Href
}

func Requires_mapCLocatorToHref(role string, p *hydratables.CalculationLinkbase, locator string) bool {
	return p != nil
}

func Ensures_mapDLocatorToHref__location(role string, p *hydratables.DefinitionLinkbase, locator string, r string) bool {
	link := func(l hydratables.DefinitionLink) bool {
		return l.Role == role && SpecLoc(l.Locs, locator) >= 0
	}
	if !vspec.Exists(p.RoleRefs, func(f hydratables.RoleRef) bool {
		return role == f.RoleURI && vspec.Find(p.DefinitionLinks, link) >= 0
	}) {
		return r == "#"+locator
	}
	l := p.DefinitionLinks[vspec.Find(p.DefinitionLinks, link)]
	return r == l.Locs[SpecLoc(l.Locs, locator)].Href
}

func Requires_mapDLocatorToHref(role string, p *hydratables.DefinitionLinkbase, locator string) bool {
	return p != nil
}

func SpecPArc(a hydratables.PresentationArc) myarcs.Arc {
	return myarcs.Arc{Arcrole: a.Arcrole, Order: a.Order, From: a.From, To: a.To}
}

func Ensures_pArcs__each(as []hydratables.PresentationArc, r []myarcs.Arc) bool {
	return vspec.Eq(r, vspec.Map(as, SpecPArc))
}

func SpecDArc(a hydratables.DefinitionArc) myarcs.Arc {
	return myarcs.Arc{Arcrole: a.Arcrole, Order: a.Order, From: a.From, To: a.To}
}

func Ensures_dArcs__each(as []hydratables.DefinitionArc, r []myarcs.Arc) bool {
	return vspec.Eq(r, vspec.Map(as, SpecDArc))
}

func SpecTArc(a hydratables.TypedDomainArc) myarcs.Arc {
	return myarcs.Arc{Arcrole: typedDomainArcRole, Order: a.Order, From: a.From, To: a.To}
}

func Ensures_tDomArcs__each(as []hydratables.TypedDomainArc, r []myarcs.Arc) bool {
	return vspec.Eq(r, vspec.Map(as, SpecTArc))
}

// ------------------------------------------------------------------ catalog

func SpecEntities(cs []hydratables.Context) []Entity {
	return vspec.FilterMap(cs, func(c hydratables.Context) (Entity, bool) {
		id := c.Entity.Identifier
		return Entity{Scheme: id.Scheme, CharData: id.CharData}, len(id.Scheme) > 0 && len(id.CharData) > 0
	})
}

func SpecAllEntities(is []vspec.Entry[string, hydratables.Instance]) []Entity {
	return vspec.FlatMap(is, func(i vspec.Entry[string, hydratables.Instance]) []Entity {
		return SpecEntities(i.Val.Contexts)
	})
}

func SpecFirstEntities(es []Entity) []Entity {
	return vspec.Fold([]Entity{}, es, func(u []Entity, e Entity) []Entity {
		if vspec.Contains(u, e) {
			return u
		}
		return vspec.Append(u, e)
	})
}

func Requires_dedupEntities(h *hydratables.Hydratable) bool { return h != nil }

func Ensures_dedupEntities__once(h *hydratables.Hydratable, r []Entity) bool {
	return vspec.SomeOrder(h.Instances, func(is []vspec.Entry[string, hydratables.Instance]) bool {
		return vspec.Eq(r, SpecFirstEntities(SpecAllEntities(is)))
	})
}

func SpecAllSets(is []vspec.Entry[string, hydratables.Schema]) []RelationshipSet {
	return vspec.FlatMap(is, func(i vspec.Entry[string, hydratables.Schema]) []RelationshipSet {
		return SpecSets(i.Val.Annotation.Appinfo.RoleTypes)
	})
}

func SpecFirstSets(es []RelationshipSet) []RelationshipSet {
	return vspec.Fold([]RelationshipSet{}, es, func(u []RelationshipSet, e RelationshipSet) []RelationshipSet {
		if vspec.Contains(u, e) {
			return u
		}
		return vspec.Append(u, e)
	})
}

func SpecSets(rs []hydratables.RoleType) []RelationshipSet {
	return vspec.FilterMap(rs, func(t hydratables.RoleType) (RelationshipSet, bool) {
		return RelationshipSet{RoleURI: t.RoleURI, Title: t.Definition}, len(t.RoleURI) > 0
	})
}

func Requires_dedupRelationshipSets(h *hydratables.Hydratable) bool { return h != nil }

func Ensures_dedupRelationshipSets__once(h *hydratables.Hydratable, r []RelationshipSet) bool {
	return vspec.SomeOrder(h.Schemas, func(is []vspec.Entry[string, hydratables.Schema]) bool {
		return vspec.Eq(r, SpecFirstSets(SpecAllSets(is)))
	})
}

func SpecEntityLess(a, b Entity) bool {
	if a.Scheme == b.Scheme {
		return a.CharData < b.CharData
	}
	return a.Scheme < b.Scheme
}

func SpecSetLess(a, b RelationshipSet) bool {
	if a.Title == b.Title {
		return a.RoleURI < b.RoleURI
	}
	return a.Title < b.Title
}

func Requires_sortedEntities(h *hydratables.Hydratable) bool { return h != nil }

func Ensures_sortedEntities__sorted(h *hydratables.Hydratable, r []Entity) bool {
	return vspec.SomeOrder(h.Instances, func(is []vspec.Entry[string, hydratables.Instance]) bool {
		return vspec.Eq(r, vspec.SortBy(SpecFirstEntities(SpecAllEntities(is)), SpecEntityLess))
	})
}

func Requires_sortedRelationshipSets(h *hydratables.Hydratable) bool { return h != nil }

func Ensures_sortedRelationshipSets__sorted(h *hydratables.Hydratable, r []RelationshipSet) bool {
	return vspec.SomeOrder(h.Schemas, func(is []vspec.Entry[string, hydratables.Schema]) bool {
		return vspec.Eq(r, vspec.SortBy(SpecFirstSets(SpecAllSets(is)), SpecSetLess))
	})
}

// SpecHash is the slug of a network.
func SpecHash(entity string, role string, title string) string {
	h := fnv.New128a()
	h.Write([]byte(entity + role + title))
	return hex.EncodeToString(h.Sum([]byte{}))
}

func Ensures_hash__slug(schemedEntity string, linkroleURI string, title string, r string) bool {
	return r == SpecHash(schemedEntity, linkroleURI, title)
}

func SpecSubject(e Entity) Subject {
	name, err := hydratables.EntityQuery(e.Scheme, e.CharData)
	if err != nil {
		name = e.Scheme + "/" + e.CharData
	}
	return Subject{Name: name, Entity: e}
}

func SpecSlugs(entity string, sets []RelationshipSet) map[string]string {
	return vspec.Fold(map[string]string{}, sets, func(m map[string]string, s RelationshipSet) map[string]string {
		return vspec.Put(m, s.RoleURI, SpecHash(entity, s.RoleURI, s.Title))
	})
}

func SpecNetworks(es []Entity, sets []RelationshipSet) map[string]map[string]string {
	return vspec.Fold(map[string]map[string]string{}, es, func(m map[string]map[string]string, e Entity) map[string]map[string]string {
		return vspec.Put(m, e.Scheme+"/"+e.CharData, SpecSlugs(e.Scheme+"/"+e.CharData, sets))
	})
}

func Ensures_MarshalCatalog__document(h *hydratables.Hydratable, r []byte, err error) bool {
	doc := ""
	if h.Document != nil {
		doc = h.Folder.EntryFileName
	}
	return vspec.SomeOrder(h.Instances, func(is []vspec.Entry[string, hydratables.Instance]) bool {
		es := vspec.SortBy(SpecFirstEntities(SpecAllEntities(is)), SpecEntityLess)
		return vspec.SomeOrder(h.Schemas, func(ss []vspec.Entry[string, hydratables.Schema]) bool {
			sets := vspec.SortBy(SpecFirstSets(SpecAllSets(ss)), SpecSetLess)
			b, e := json.Marshal(Catalog{
				Subjects:         vspec.Map(es, SpecSubject),
				RelationshipSets: sets,
				Networks:         SpecNetworks(es, sets),
				DocumentName:     doc,
			})
			return vspec.Eq(r, b) && (err == nil) == (e == nil)
		})
	})
}
