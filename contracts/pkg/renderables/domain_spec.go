//go:build verif

package renderables

import (
	"ecksbee.com/telefacts/internal/graph"
	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	myarcs "github.com/joshuanario/arcs"
)

// ------------------------------------------------------------- primary items and members

func SpecGrandchildren(n *myarcs.RArc) []string {
	return vspec.FlatMap(n.Children, func(c *myarcs.RArc) []string {
		return vspec.Map(c.Children, func(d *myarcs.RArc) string { return d.Locator })
	})
}

func Requires_getPrimaryItemNetworkAndExplicitDomainNetwork(members, domains, defaults *myarcs.RArc) bool {
	return graph.SpecNodes(members) && graph.SpecNodes(domains) && graph.SpecNodes(defaults)
}

// The trees that start at the domain or the default of a dimension hold
// members, the others hold primary items.
func Ensures_getPrimaryItemNetworkAndExplicitDomainNetwork__split(members, domains, defaults *myarcs.RArc, items, explicit *myarcs.RArc) bool {
	tops := append(SpecGrandchildren(domains), SpecGrandchildren(defaults)...)
	return items != nil && explicit != nil &&
		vspec.Eq(items.Children, vspec.Filter(members.Children, func(c *myarcs.RArc) bool { return !stringInSlice(c.Locator, tops) })) &&
		vspec.Eq(explicit.Children, vspec.Filter(members.Children, func(c *myarcs.RArc) bool { return stringInSlice(c.Locator, tops) }))
}

func Ensures_getPrimaryItemNetworkAndExplicitDomainNetwork__nodes(members, domains, defaults *myarcs.RArc, items, explicit *myarcs.RArc) bool {
	return graph.SpecNodes(items) && graph.SpecNodes(explicit)
}

// ------------------------------------------------------------- the members of one dimension

// SpecCubes: the hypercubes of a primary item that have the dimension.
func SpecCubes(item, dim string, has, dims *myarcs.RArc, loc func(string) string) []string {
	return vspec.FlatMap(has.Children, func(p *myarcs.RArc) []string {
		if item != loc(p.Locator) {
			return nil
		}
		return vspec.FlatMap(p.Children, func(c *myarcs.RArc) []string {
			cube := loc(c.Locator)
			return vspec.FlatMap(dims.Children, func(n *myarcs.RArc) []string {
				if cube != loc(n.Locator) {
					return nil
				}
				return vspec.FilterMap(n.Children, func(d *myarcs.RArc) (string, bool) { return cube, dim == loc(d.Locator) })
			})
		})
	})
}

type SpecDomain struct {
	In, Out map[string]bool
	Ret     []EffectiveMember
	Packs   []LabelPack
}

// SpecWalk adds a member and those below it. A member that is there already
// empties the domain.
func SpecWalk(s SpecDomain, n *myarcs.RArc, include bool, loc func(string) string, h *hydratables.Hydratable) SpecDomain {
	href := loc(n.Locator)
	if include && s.In[href] || !include && s.Out[href] {
		return SpecDomain{In: s.In, Out: s.Out}
	}
	in, out := s.In, s.Out
	if include {
		in = vspec.Put(in, href, true)
	} else {
		out = vspec.Put(out, href, true)
	}
	t := SpecDomain{
		In:    in,
		Out:   out,
		Ret:   vspec.Append(s.Ret, EffectiveMember{Href: href, Label: GetLabel(h, href), IsStrikethrough: !include}),
		Packs: vspec.Append(s.Packs, GetLabel(h, href)),
	}
	return vspec.Fold(t, n.Children, func(u SpecDomain, c *myarcs.RArc) SpecDomain { return SpecWalk(u, c, include, loc, h) })
}

func Needs_getEffectiveDomain__traverseExplicitDomainNetwork(node *myarcs.RArc, isInclusive bool, mapDLocatorToHref func(string) string, h *hydratables.Hydratable, membersMap, excludedMembersMap map[string]bool, ret []EffectiveMember, labelPacks []LabelPack) bool {
	return graph.SpecNodes(node) && membersMap != nil && excludedMembersMap != nil
}

func Effect_getEffectiveDomain__traverseExplicitDomainNetwork(node *myarcs.RArc, isInclusive bool, mapDLocatorToHref func(string) string, h *hydratables.Hydratable, membersMap, excludedMembersMap map[string]bool, ret []EffectiveMember, labelPacks []LabelPack) (post_membersMap, post_excludedMembersMap map[string]bool, post_ret []EffectiveMember, post_labelPacks []LabelPack) {
	s := SpecWalk(SpecDomain{membersMap, excludedMembersMap, ret, labelPacks}, node, isInclusive, mapDLocatorToHref, h)
	return s.In, s.Out, s.Ret, s.Packs
}

func Requires_getEffectiveDomain(item, dim string, domains, items, explicit, exclusive, inclusive, dims, defaults *myarcs.RArc, loc func(string) string, h *hydratables.Hydratable) bool {
	return graph.SpecNodes(domains) && graph.SpecNodes(items) && graph.SpecNodes(explicit) && graph.SpecNodes(exclusive) &&
		graph.SpecNodes(inclusive) && graph.SpecNodes(dims) && graph.SpecNodes(defaults) && h != nil
}

type SpecDefault struct {
	Seen  map[string]bool
	Ret   []EffectiveMember
	Packs []LabelPack
	Twice bool
}

func SpecDefaultMember(s SpecDefault, n *myarcs.RArc, struck bool, loc func(string) string, h *hydratables.Hydratable) SpecDefault {
	if s.Twice {
		return s
	}
	href := loc(n.Locator)
	if s.Seen[href] {
		return SpecDefault{Twice: true}
	}
	return SpecDefault{
		Seen:  vspec.Put(s.Seen, href, true),
		Ret:   vspec.Append(s.Ret, EffectiveMember{Href: href, Label: GetLabel(h, href), IsDefault: true, IsStrikethrough: struck}),
		Packs: vspec.Append(s.Packs, GetLabel(h, href)),
	}
}

func SpecDefaultsOf(s SpecDefault, dim string, defaults *myarcs.RArc, struck bool, loc func(string) string, h *hydratables.Hydratable) SpecDefault {
	return vspec.Fold(s, defaults.Children, func(s SpecDefault, d *myarcs.RArc) SpecDefault {
		if s.Twice || loc(d.Locator) != dim {
			return s
		}
		return vspec.Fold(s, d.Children, func(s SpecDefault, m *myarcs.RArc) SpecDefault { return SpecDefaultMember(s, m, struck, loc, h) })
	})
}

// SpecDefaults: the default of the dimension, for every one of the cubes. A
// default that comes twice empties the domain.
func SpecDefaults(s SpecDefault, dim string, cubes []string, dims, defaults *myarcs.RArc, struck bool, loc func(string) string, h *hydratables.Hydratable) SpecDefault {
	return vspec.Fold(s, dims.Children, func(s SpecDefault, n *myarcs.RArc) SpecDefault {
		if s.Twice {
			return s
		}
		return vspec.Fold(s, cubes, func(s SpecDefault, cube string) SpecDefault {
			if s.Twice || cube != loc(n.Locator) {
				return s
			}
			return SpecDefaultsOf(s, dim, defaults, struck, loc, h)
		})
	})
}

func SpecDomainOf(s SpecDomain, top string, explicit *myarcs.RArc, include bool, loc func(string) string, h *hydratables.Hydratable) SpecDomain {
	return vspec.Fold(s, explicit.Children, func(s SpecDomain, n *myarcs.RArc) SpecDomain {
		if n.Locator != top {
			return s
		}
		return SpecWalk(s, n, include, loc, h)
	})
}

func SpecDomainsOf(s SpecDomain, dim string, domains, explicit *myarcs.RArc, include bool, loc func(string) string, h *hydratables.Hydratable) SpecDomain {
	return vspec.Fold(s, domains.Children, func(s SpecDomain, d *myarcs.RArc) SpecDomain {
		if dim != loc(d.Locator) {
			return s
		}
		return vspec.Fold(s, d.Children, func(s SpecDomain, t *myarcs.RArc) SpecDomain {
			return SpecDomainOf(s, t.Locator, explicit, include, loc, h)
		})
	})
}

// SpecMembers: the members below the domains of the dimension, for every one
// of the cubes.
func SpecMembers(s SpecDomain, dim string, cubes []string, dims, domains, explicit *myarcs.RArc, include bool, loc func(string) string, h *hydratables.Hydratable) SpecDomain {
	return vspec.Fold(s, dims.Children, func(s SpecDomain, n *myarcs.RArc) SpecDomain {
		return vspec.Fold(s, cubes, func(s SpecDomain, cube string) SpecDomain {
			if cube != loc(n.Locator) {
				return s
			}
			return vspec.Fold(s, n.Children, func(s SpecDomain, d *myarcs.RArc) SpecDomain {
				if dim != loc(d.Locator) {
					return s
				}
				return SpecDomainsOf(s, loc(d.Locator), domains, explicit, include, loc, h)
			})
		})
	})
}

func SpecMemberLess(a, b EffectiveMember) bool {
	if a.Href != b.Href {
		return a.Href < b.Href
	}
	if a.IsDefault != b.IsDefault {
		return a.IsDefault
	}
	return a.IsStrikethrough != b.IsStrikethrough && b.IsStrikethrough
}

// Nothing if a cube is both has-hypercube and not-has-hypercube or a default
// comes twice; otherwise the defaults and the members, those of the excluding
// cubes struck through, in order.
func Ensures_getEffectiveDomain__members(item, dim string, domains, items, explicit, exclusive, inclusive, dims, defaults *myarcs.RArc, loc func(string) string, h *hydratables.Hydratable, r EffectiveDomain, packs []LabelPack) bool {
	in := SpecCubes(item, dim, inclusive, dims, loc)
	out := SpecCubes(item, dim, exclusive, dims, loc)
	if vspec.Exists(in, func(a string) bool { return vspec.Exists(out, func(b string) bool { return a == b }) }) {
		return len(r) == 0 && len(packs) == 0
	}
	a := SpecDefaults(SpecDefault{Seen: map[string]bool{}}, dim, in, dims, defaults, false, loc, h)
	if a.Twice {
		return len(r) == 0 && len(packs) == 0
	}
	b := SpecDefaults(SpecDefault{Seen: map[string]bool{}, Ret: a.Ret, Packs: a.Packs}, dim, out, dims, defaults, true, loc, h)
	if b.Twice {
		return len(r) == 0 && len(packs) == 0
	}
	c := SpecMembers(SpecDomain{map[string]bool{}, map[string]bool{}, b.Ret, b.Packs}, dim, in, dims, domains, explicit, true, loc, h)
	d := SpecMembers(c, dim, out, dims, domains, explicit, false, loc, h)
	return vspec.Eq([]EffectiveMember(r), vspec.SortBy(d.Ret, SpecMemberLess)) && vspec.Eq(packs, d.Packs)
}

// SpecNets: the networks of the dimensions of a role.
type SpecNets struct {
	Domains, Items, Explicit, Exclusive, Inclusive, Dims, Defaults *myarcs.RArc
}

func SpecAllowed(item, dim string, n SpecNets, loc func(string) string, h *hydratables.Hydratable) EffectiveDomain {
	r, _ := getEffectiveDomain(item, dim, n.Domains, n.Items, n.Explicit, n.Exclusive, n.Inclusive, n.Dims, n.Defaults, loc, h)
	return r
}

func SpecAllowedPacks(item, dim string, n SpecNets, loc func(string) string, h *hydratables.Hydratable) []LabelPack {
	_, packs := getEffectiveDomain(item, dim, n.Domains, n.Items, n.Explicit, n.Exclusive, n.Inclusive, n.Dims, n.Defaults, loc, h)
	return packs
}

func Requires_getEffectiveDomainGrid(items, dims []string, domains, net, explicit, exclusive, inclusive, cubes, defaults *myarcs.RArc, loc func(string) string, h *hydratables.Hydratable) bool {
	return graph.SpecNodes(domains) && graph.SpecNodes(net) && graph.SpecNodes(explicit) && graph.SpecNodes(exclusive) &&
		graph.SpecNodes(inclusive) && graph.SpecNodes(cubes) && graph.SpecNodes(defaults) && h != nil
}

// One row for each primary item and one domain in it for each dimension.
func Ensures_getEffectiveDomainGrid__rows(items, dims []string, domains, net, explicit, exclusive, inclusive, cubes, defaults *myarcs.RArc, loc func(string) string, h *hydratables.Hydratable, r [][]EffectiveDomain, packs []LabelPack) bool {
	n := SpecNets{domains, net, explicit, exclusive, inclusive, cubes, defaults}
	return vspec.Eq(r, vspec.Map(items, func(i string) []EffectiveDomain {
		return vspec.Map(dims, func(d string) EffectiveDomain { return SpecAllowed(i, d, n, loc, h) })
	}))
}

func Ensures_getEffectiveDomainGrid__packs(items, dims []string, domains, net, explicit, exclusive, inclusive, cubes, defaults *myarcs.RArc, loc func(string) string, h *hydratables.Hydratable, r [][]EffectiveDomain, packs []LabelPack) bool {
	n := SpecNets{domains, net, explicit, exclusive, inclusive, cubes, defaults}
	return vspec.Eq(packs, vspec.FlatMap(items, func(i string) []LabelPack {
		return vspec.FlatMap(dims, func(d string) []LabelPack { return SpecAllowedPacks(i, d, n, loc, h) })
	}))
}

// ------------------------------------------------------------- the grid of a primary item tree

func SpecItem(c *myarcs.RArc, level int, role string, d hydratables.DefinitionLinkbase, h *hydratables.Hydratable) PrimaryItem {
	href := mapDLocatorToHref(role, &d, c.Locator)
	return PrimaryItem{Href: href, Label: GetLabel(h, href), Level: level}
}

func SpecItems(n *myarcs.RArc, level int, role string, d hydratables.DefinitionLinkbase, h *hydratables.Hydratable) []PrimaryItem {
	return vspec.FlatMap(n.Children, func(c *myarcs.RArc) []PrimaryItem {
		return append([]PrimaryItem{SpecItem(c, level, role, d, h)}, SpecItems(c, level+1, role, d, h)...)
	})
}

func SpecItemPacks(n *myarcs.RArc, role string, d hydratables.DefinitionLinkbase, h *hydratables.Hydratable) []LabelPack {
	return vspec.FlatMap(n.Children, func(c *myarcs.RArc) []LabelPack {
		return append([]LabelPack{GetLabel(h, mapDLocatorToHref(role, &d, c.Locator))}, SpecItemPacks(c, role, d, h)...)
	})
}

func Needs_getRootDomains__makeIndents(node *myarcs.RArc, level int, linkroleURI string, definition hydratables.DefinitionLinkbase, h *hydratables.Hydratable, indentedItems []PrimaryItem, labelPacks []LabelPack) bool {
	return graph.SpecNodes(node)
}

func Effect_getRootDomains__makeIndents(node *myarcs.RArc, level int, linkroleURI string, definition hydratables.DefinitionLinkbase, h *hydratables.Hydratable, indentedItems []PrimaryItem, labelPacks []LabelPack) (post_indentedItems []PrimaryItem, post_labelPacks []LabelPack) {
	return append(indentedItems, SpecItems(node, level, linkroleURI, definition, h)...),
		append(labelPacks, SpecItemPacks(node, linkroleURI, definition, h)...)
}

// SpecRoots: what is known after some of the trees of primary items.
type SpecRoots struct {
	Ret   []RootDomain
	Roles []LabelRole
	Langs []Lang
	Packs []LabelPack
}

func SpecRootNets(arcs []hydratables.DefinitionArc) SpecNets {
	as := dArcs(arcs)
	domains, defaults := graph.Tree(as, attr.DimensionDomainArcrole), graph.Tree(as, attr.DimensionDefaultArcrole)
	items, explicit := getPrimaryItemNetworkAndExplicitDomainNetwork(graph.Tree(as, attr.DomainMemberArcrole), domains, defaults)
	return SpecNets{
		Domains:   domains,
		Items:     items,
		Explicit:  explicit,
		Exclusive: graph.Tree(as, attr.HasExclusiveHypercubeArcrole),
		Inclusive: graph.Tree(as, attr.HasInclusiveHypercubeArcrole),
		Dims:      graph.Tree(as, attr.HypercubeDimensionArcrole),
		Defaults:  defaults,
	}
}

// SpecRoot adds the grid of one tree of primary items.
func SpecRoot(s SpecRoots, root *myarcs.RArc, dims []EffectiveDimension, dimHrefs []string, n SpecNets, entity, role string, d hydratables.DefinitionLinkbase, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) SpecRoots {
	items := SpecItems(root, 0, role, d, h)
	href := mapDLocatorToHref(role, &d, root.Locator)
	hrefs := append([]string{href}, vspec.Map(items, func(i PrimaryItem) string { return i.Href })...)
	grid, gridPacks := getEffectiveDomainGrid(hrefs, dimHrefs, n.Domains, n.Items, n.Explicit, n.Exclusive, n.Inclusive, n.Dims, n.Defaults,
		func(loc string) string { return mapDLocatorToHref(role, &d, loc) }, h)
	cols, seg, scen, colPacks := getRelevantContexts(entity, h, hrefs)
	label := GetLabel(h, href)
	packs := vspec.Append(append(append(append(s.Packs, SpecItemPacks(root, role, d, h)...), gridPacks...), colPacks...), label)
	roles, langs := SpecOffered(packs)
	members, void := getMemberGridAndVoidQuadrant(cols, seg, scen)
	ls := append(s.Langs, langs...)
	r := injectFactualQuadrant(RootDomain{
		PrimaryItems:         items,
		Href:                 href,
		Label:                label,
		PeriodHeaders:        getPeriodHeaders(cols),
		ContextualMemberGrid: members,
		VoidQuadrant:         void,
		EffectiveDimensions:  dims,
		EffectiveDomainGrid:  grid,
	}, cols, ff, cf, mf, ls)
	return SpecRoots{Ret: vspec.Append(s.Ret, r), Roles: append(s.Roles, roles...), Langs: ls, Packs: packs}
}

func SpecRootLink(s SpecRoots, l hydratables.DefinitionLink, entity, role string, d hydratables.DefinitionLinkbase, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) SpecRoots {
	if l.Role != role {
		return s
	}
	dims, hrefs, roles, langs := getEffectiveDimensions(role, l.DefinitionArcs, &d, h)
	n := SpecRootNets(l.DefinitionArcs)
	t := SpecRoots{Ret: s.Ret, Roles: append(s.Roles, roles...), Langs: append(s.Langs, langs...), Packs: s.Packs}
	return vspec.Fold(t, n.Items.Children, func(u SpecRoots, root *myarcs.RArc) SpecRoots {
		return SpecRoot(u, root, dims, hrefs, n, entity, role, d, h, ff, cf, mf)
	})
}

func SpecRootLinkbase(s SpecRoots, d hydratables.DefinitionLinkbase, entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) SpecRoots {
	if !vspec.Exists(d.RoleRefs, func(f hydratables.RoleRef) bool { return role == f.RoleURI }) {
		return s
	}
	return vspec.Fold(s, d.DefinitionLinks, func(u SpecRoots, l hydratables.DefinitionLink) SpecRoots {
		return SpecRootLink(u, l, entity, role, d, h, ff, cf, mf)
	})
}

func Requires_getRootDomains(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) bool {
	return h != nil && h.Folder != nil && specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

func Ensures_getRootDomains__grids(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, r []RootDomain, roles []LabelRole, langs []Lang) bool {
	return vspec.SomeOrder(h.DefinitionLinkbases, func(es []vspec.Entry[string, hydratables.DefinitionLinkbase]) bool {
		s := vspec.Fold(SpecRoots{}, es, func(u SpecRoots, e vspec.Entry[string, hydratables.DefinitionLinkbase]) SpecRoots {
			return SpecRootLinkbase(u, e.Val, entity, role, h, ff, cf, mf)
		})
		return vspec.Eq(r, s.Ret) && vspec.Eq(roles, s.Roles) && vspec.Eq(langs, s.Langs)
	})
}

func Requires_dGrid(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder) bool {
	return h != nil && h.Folder != nil && specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

func Ensures_dGrid__grid(entity, role string, h *hydratables.Hydratable, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, r DGrid, roles []LabelRole, langs []Lang, err error) bool {
	domains, rs, ls := getRootDomains(entity, role, h, ff, cf, mf)
	return err == nil && vspec.Eq(roles, rs) && vspec.Eq(langs, ls) && vspec.Eq(r, DGrid{RootDomains: domains, DRS: getDRS(entity, role, h)})
}
