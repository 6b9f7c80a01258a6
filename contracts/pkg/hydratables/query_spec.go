//go:build verif

package hydratables

import (
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
)

// The taxonomy cache and the files behind it are taken as given: the functions
// below are assumed to be deterministic while a document is processed.

//vc:trusted reads the process wide cache and the taxonomy files
func Ensures_HydrateGlobalSchema__something(urlStr string, r *Schema, err error) bool {
	return vspec.Implies(err == nil, r != nil)
}

//vc:trusted reads the process wide cache and the entity name file
func Ensures_HydrateEntityNames__something(r map[string]map[string]string, err error) bool {
	return true
}

// SpecConceptsAt are the concepts of the schema at a location.
func SpecConceptsAt(h *Hydratable, loc string) ([]Concept, bool) {
	if attr.SpecAbsolute(loc) {
		s, err := HydrateGlobalSchema(loc)
		if err != nil || s == nil {
			return nil, false
		}
		return s.Element, true
	}
	file := h.Folder.Schemas[loc]
	return SpecConcepts(&file, loc), true
}

// SpecNamed: the first concept with the name in the schema of its namespace.
func SpecNamed(h *Hydratable, space, local string) (string, *Concept, bool) {
	loc := h.Folder.Namespaces[space]
	if loc == "" {
		return "", nil, false
	}
	cs, ok := SpecConceptsAt(h, loc)
	if !ok {
		return "", nil, false
	}
	i := vspec.Find(cs, func(c Concept) bool { return c.XMLName.Local == local && c.XMLName.Space == space })
	if i < 0 {
		return "", nil, true
	}
	return loc + "#" + cs[i].ID, &cs[i], true
}

func Requires_Hydratable_NameQuery(h *Hydratable, space, local string) bool {
	return h != nil && h.Folder != nil
}
func Ensures_Hydratable_NameQuery__first_with_that_name(h *Hydratable, space, local string, href string, c *Concept, err error) bool {
	sh, sc, ok := SpecNamed(h, space, local)
	return (err == nil) == ok && href == sh && vspec.Eq(c, sc)
}

//vc:assumed concepts come from hydrated schemas, which have none without a name
func Ensures_Hydratable_NameQuery__no_empty_name(h *Hydratable, space, local string, href string, c *Concept, err error) bool {
	return vspec.Implies(local == "", c == nil)
}

// SpecNamespaceOf: the namespace that was loaded from a location, if any.
func SpecNamespaceOf(h *Hydratable, base, ns string) bool {
	return vspec.SomeOrder(h.Folder.Namespaces, func(es []vspec.Entry[string, string]) bool {
		return ns == vspec.Fold("", es, func(s string, e vspec.Entry[string, string]) string {
			if e.Val == base {
				return e.Key
			}
			return s
		})
	})
}

func Requires_Hydratable_HashQuery(h *Hydratable, query string) bool {
	return h != nil && h.Folder != nil
}
func Ensures_Hydratable_HashQuery__by_location_and_id(h *Hydratable, query string, ns string, c *Concept, err error) bool {
	i := strings.Index(query, "#")
	if i <= 0 || i == len(query)-1 {
		return ns == "" && c == nil && err != nil
	}
	base := query[:i]
	if !SpecNamespaceOf(h, base, ns) {
		return false
	}
	cs, ok := SpecConceptsAt(h, base)
	if !ok {
		return c == nil && err != nil
	}
	k := vspec.Find(cs, func(c Concept) bool { return c.ID == query[i+1:] })
	if k < 0 {
		return c == nil && err != nil
	}
	return err == nil && vspec.Eq(c, &cs[k])
}

func Ensures_EntityQuery__registered_name(scheme, chardata string, r string, err error) bool {
	names, e := HydrateEntityNames()
	if e != nil {
		return r == "" && err != nil
	}
	return err == nil && r == SpecEntityName(names, scheme, chardata)
}

func SpecEntityName(names map[string]map[string]string, scheme, chardata string) string {
	byID, ok := names[scheme]
	if !ok {
		return scheme + "/" + chardata
	}
	name, ok := byID[chardata]
	if !ok {
		return scheme + "/" + chardata
	}
	return name
}
