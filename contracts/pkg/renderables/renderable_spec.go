//go:build verif

package renderables

import (
	"reflect"
	"sort"
	"strconv"

	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
)

func Requires_MarshalRenderable(slug string, h *hydratables.Hydratable) bool {
	return h != nil && h.Folder != nil
}

//vc:bounded
func Ensures_MarshalRenderable__network(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, e, rs, listed := refRendering(slug, h, r, err)
	if !listed {
		for _, e := range refEntities(h) {
			for _, s := range refSets(h) {
				if refSlugOf(e.Scheme+"/"+e.CharData, s.RoleURI, s.Title) == slug {
					return true
				}
			}
		}
		return err != nil
	}
	return out != nil && out.Subject.Entity == e && out.Subject.Name == refName(e) && out.RelationshipSet.RoleURI == rs.RoleURI
}

// every grid of the rendering, with the contexts it should show
func refEach(slug string, h *hydratables.Hydratable, r []byte, err error, ok func(g *refGrid, cols []refColumn) bool) bool {
	out, e, _, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	if out == nil {
		return false
	}
	for _, g := range refGrids(out) {
		if !ok(&g, refColumns(h, e.Scheme+"/"+e.CharData, g.hrefs)) {
			return false
		}
	}
	return true
}

//vc:bounded
func Ensures_MarshalRenderable__cells(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		if len(cols) > 0 && len(g.hrefs) > 0 {
			if len(g.facts) != len(g.hrefs) {
				return false
			}
			for _, row := range g.facts {
				if len(row) != len(cols) {
					return false
				}
			}
		} else if len(g.facts) != 0 {
			return false
		}
		return refMatch(g, cols, func(j int, c *refColumn) bool {
			for i, href := range g.hrefs {
				if !refCellOK(h, refFact(h, href, c.ctx.ID), g.facts[i][j], PureLabel) {
					return false
				}
			}
			return true
		})
	})
}

//vc:bounded
func Ensures_MarshalRenderable__values(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		langs := refLangs(h, g.hrefs)
		return refMatch(g, cols, func(j int, c *refColumn) bool {
			for i, href := range g.hrefs {
				if i >= len(g.facts) || j >= len(g.facts[i]) || g.facts[i][j] == nil {
					return false
				}
				f := refFact(h, href, c.ctx.ID)
				for lang := range *g.facts[i][j] {
					if !refCellOK(h, f, g.facts[i][j], lang) {
						return false
					}
				}
				if f == nil || f.IsNil {
					continue
				}
				for _, lang := range langs {
					if _, ok := (*g.facts[i][j])[lang]; !ok {
						return false
					}
				}
			}
			return true
		})
	})
}

// refLangs: the languages the labels of the rows are in.
func refLangs(h *hydratables.Hydratable, hrefs []string) []Lang {
	langs := []Lang{PureLabel}
	for _, lang := range []Lang{English, Español} {
		some := false
		for _, href := range hrefs {
			for _, role := range []LabelRole{Default, Terse, Verbose} {
				some = some || len(refTexts(h, href, role, lang)) > 0
			}
		}
		if some {
			langs = append(langs, lang)
		}
	}
	return langs
}

//vc:bounded
func Ensures_MarshalRenderable__markup(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		for i, row := range g.facts {
			for _, cell := range row {
				for _, e := range *cell {
					if e.InnerHtml == "" {
						continue
					}
					ok := false
					for _, c := range cols {
						f := refFact(h, g.hrefs[i], c.ctx.ID)
						ok = ok || f != nil && refMarkupOK(f.XMLInner, e.InnerHtml)
					}
					if !ok {
						return false
					}
				}
			}
		}
		return true
	})
}

//vc:bounded
func Ensures_MarshalRenderable__footnotes(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		all := map[string]string{}
		for _, href := range g.hrefs {
			for _, c := range cols {
				for id, text := range refFootnotes(h, refFact(h, href, c.ctx.ID)) {
					all[id] = text
				}
			}
		}
		if len(cols) == 0 || len(g.hrefs) == 0 {
			return len(g.notes) == 0 && len(g.marks) == 0
		}
		listed := append([]string{}, g.notes...)
		sort.Strings(listed)
		if !reflect.DeepEqual(listed, refValues(all)) || len(g.marks) != len(g.hrefs) {
			return false
		}
		return refMatch(g, cols, func(j int, c *refColumn) bool {
			for i, href := range g.hrefs {
				if j >= len(g.marks[i]) {
					return false
				}
				seen := map[int]bool{}
				shown := []string{}
				for _, k := range g.marks[i][j] {
					if k < 1 || k > len(g.notes) || seen[k] {
						return false
					}
					seen[k] = true
					shown = append(shown, g.notes[k-1])
				}
				sort.Strings(shown)
				if !reflect.DeepEqual(shown, refValues(refFootnotes(h, refFact(h, href, c.ctx.ID)))) {
					return false
				}
			}
			return true
		})
	})
}

//vc:bounded
func Ensures_MarshalRenderable__columns(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		if len(g.periods) != len(cols) {
			return false
		}
		for j := range cols {
			if g.periods[j][PureLabel] != cols[j].period {
				return false
			}
			shown, ok := refShown(g, j)
			if !ok || len(shown) != len(cols[j].members) {
				return false
			}
		}
		return refMatch(g, cols, func(j int, c *refColumn) bool { return true })
	})
}

//vc:bounded
func Ensures_MarshalRenderable__headers(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		want := map[string]bool{}
		for _, c := range cols {
			for k := range c.members {
				want[k] = true
			}
			for _, d := range []hydratables.DimensionContext{c.ctx.Entity.Segment, c.ctx.Scenario} {
				for _, t := range d.TypedMembers {
					if len(t.TypedMembersMap) > 0 {
						want[t.Dimension.Href+"|"] = true
					}
				}
			}
		}
		have := map[string]bool{}
		for _, v := range g.void {
			if v == nil || !refLabelOK(h, v.Dimension.Href, v.Dimension.Label) {
				return false
			}
			have[refKey(v)] = true
		}
		if !reflect.DeepEqual(want, have) || len(g.members) != len(g.void) {
			return false
		}
		for _, row := range g.members {
			if len(row) != len(cols) {
				return false
			}
			for _, c := range row {
				if c == nil || c.ExplicitMember != nil && !refLabelOK(h, c.ExplicitMember.Href, c.ExplicitMember.Label) {
					return false
				}
			}
		}
		return refMatch(g, cols, func(j int, c *refColumn) bool { return true })
	})
}

//vc:bounded
func Ensures_MarshalRenderable__periods(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, _, _, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	return refEach(slug, h, r, err, func(g *refGrid, cols []refColumn) bool {
		if len(g.periods) != len(cols) {
			return false
		}
		for j := range cols {
			s, e := refPeriod(cols[j].ctx)
			if g.periods[j][PureLabel] != cols[j].period {
				return false
			}
			for _, l := range out.Lang {
				if l != PureLabel && g.periods[j][l] != refDate(l, s, e) {
					return false
				}
			}
			for l := range g.periods[j] {
				ok := l == PureLabel
				for _, o := range out.Lang {
					ok = ok || o == l
				}
				if !ok {
					return false
				}
			}
		}
		return true
	})
}

//vc:bounded
func Ensures_MarshalRenderable__rows(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, _, rs, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	if out == nil {
		return false
	}
	l := refPresentation(h, rs.RoleURI)
	if l == nil {
		return len(out.PGrid.IndentedLabels) == 0
	}
	var as []refArc
	for _, a := range l.PresentationArcs {
		if a.Arcrole == attr.PresentationArcrole {
			as = append(as, refArc{a.Order, a.From, a.To})
		}
	}
	var rows []refRow
	for _, i := range out.PGrid.IndentedLabels {
		if !refLabelOK(h, i.Href, i.Label) {
			return false
		}
		rows = append(rows, refRow{i.Href, i.Indentation})
	}
	var blocks [][]refRow
	for _, root := range refRoots(as) {
		blocks = append(blocks, refTree(as, root, 0, func(s string) string { return refLoc(l.Locs, s) }))
	}
	return refBlocks(rows, blocks)
}

//vc:bounded
func Ensures_MarshalRenderable__contributions(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, _, rs, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	if out == nil {
		return false
	}
	l := refCalculation(h, rs.RoleURI)
	if l == nil {
		return len(out.CGrid.SummationItems) == 0
	}
	sums := map[string]bool{}
	for _, a := range l.CalculationArcs {
		if a.Arcrole == attr.CalculationArcrole {
			sums[refLoc(l.Locs, a.From)] = true
		}
	}
	var froms []string
	for f := range sums {
		if _, c, err := h.HashQuery(f); err == nil && c != nil {
			froms = append(froms, f)
		}
	}
	sort.Strings(froms)
	if len(froms) != len(out.CGrid.SummationItems) {
		return false
	}
	for i, f := range froms {
		it := out.CGrid.SummationItems[i]
		_, c, _ := h.HashQuery(f)
		if it.Href != f || it.BalanceType != c.Balance || !refLabelOK(h, f, it.Label) {
			return false
		}
		var want []ContributingConcept
		for _, a := range refSum(l, f) {
			to := refLoc(l.Locs, a.To)
			_, c, err := h.HashQuery(to)
			if err != nil {
				continue
			}
			sign := "+"
			if a.Weight < 0 {
				sign = "-"
			}
			want = append(want, ContributingConcept{Sign: sign, Scale: refAbs(a.Weight), BalanceType: c.Balance, Href: to, IsSummationItem: sums[to]})
		}
		if len(want) != len(it.ContributingConcepts) {
			return false
		}
		for k, w := range want {
			x := it.ContributingConcepts[k]
			if !refLabelOK(h, x.Href, x.Label) {
				return false
			}
			x.Label = nil
			if !reflect.DeepEqual(w, x) {
				return false
			}
		}
	}
	return true
}

//vc:bounded
func Ensures_MarshalRenderable__relationships(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, _, rs, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	if out == nil {
		return false
	}
	lb, l := refDefinition(h, rs.RoleURI)
	if l == nil {
		return len(out.DGrid.DRS.Links) == 0 && len(out.DGrid.DRS.Nodes) == 0
	}
	nodes := map[string]bool{}
	var links []DRSLink
	for _, a := range l.DefinitionArcs {
		from := refLoc(l.Locs, a.From)
		to := refLoc(l.Locs, a.To)
		if a.TargetRole != "" {
			to = "#" + a.To
			if refHasRole(lb.RoleRefs, a.TargetRole) {
				for _, o := range lb.DefinitionLinks {
					if o.Role == a.TargetRole {
						to = refLoc(o.Locs, a.To)
					}
				}
			}
		}
		nodes[from], nodes[to] = true, true
		x := DRSLink{SourceHref: from, TargetHref: to}
		order := strconv.FormatFloat(a.Order, 'f', -1, 64)
		switch a.Arcrole {
		case attr.DomainMemberArcrole:
			x.DomainMemberConnection = &DomainMemberConnection{order, a.Usable, a.TargetRole}
		case attr.HypercubeDimensionArcrole:
			x.HypercubeDimensionConnection = &HypercubeDimensionConnection{order, a.TargetRole}
		case attr.DimensionDefaultArcrole:
			x.DimensionDomainConnection = &DimensionDomainConnection{order, true, true, a.TargetRole}
		case attr.DimensionDomainArcrole:
			x.DimensionDomainConnection = &DimensionDomainConnection{order, false, a.Usable, a.TargetRole}
		case attr.HasInclusiveHypercubeArcrole, attr.HasExclusiveHypercubeArcrole:
			x.HypercubeConnection = &HypercubeConnection{a.Closed, a.ContextElement, a.Arcrole == attr.HasInclusiveHypercubeArcrole, a.TargetRole}
		}
		links = append(links, x)
	}
	if len(links) != len(out.DGrid.DRS.Links) || len(nodes) != len(out.DGrid.DRS.Nodes) {
		return false
	}
	for i := range links {
		if !reflect.DeepEqual(links[i], out.DGrid.DRS.Links[i]) {
			return false
		}
	}
	last := ""
	for _, n := range out.DGrid.DRS.Nodes {
		if !nodes[n.Href] || n.Href <= last || !refLabelOK(h, n.Href, n.Label) {
			return false
		}
		last = n.Href
	}
	return true
}

//vc:bounded
func Ensures_MarshalRenderable__domains(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, _, rs, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	if out == nil {
		return false
	}
	_, l := refDefinition(h, rs.RoleURI)
	if l == nil {
		return len(out.DGrid.RootDomains) == 0
	}
	href := func(s string) string { return refLoc(l.Locs, s) }
	dm := refDArcs(l, attr.DomainMemberArcrole)
	domains := map[string]bool{}
	for _, role := range []string{attr.DimensionDomainArcrole, attr.DimensionDefaultArcrole} {
		for _, a := range refDArcs(l, role) {
			domains[a.to] = true
		}
	}
	var want [][]refRow
	for _, root := range refRoots(dm) {
		if !domains[root] {
			want = append(want, refTree(dm, root, -1, href))
		}
	}
	var rows []refRow
	for _, d := range out.DGrid.RootDomains {
		rows = append(rows, refRow{d.Href, -1})
		for _, p := range d.PrimaryItems {
			if !refLabelOK(h, p.Href, p.Label) {
				return false
			}
			rows = append(rows, refRow{p.Href, p.Level})
		}
	}
	if !refBlocks(rows, want) {
		return false
	}
	dims := map[string]bool{}
	for _, a := range refDArcs(l, attr.HypercubeDimensionArcrole) {
		dims[href(a.to)] = true
	}
	for _, d := range out.DGrid.RootDomains {
		seen := map[string]bool{}
		for _, e := range d.EffectiveDimensions {
			if seen[e.Href] || !dims[e.Href] || !refLabelOK(h, e.Href, e.Label) {
				return false
			}
			seen[e.Href] = true
		}
		if len(seen) != len(dims) || len(d.EffectiveDomainGrid) != 1+len(d.PrimaryItems) {
			return false
		}
		items := []string{d.Href}
		for _, p := range d.PrimaryItems {
			items = append(items, p.Href)
		}
		for i, row := range d.EffectiveDomainGrid {
			if len(row) != len(d.EffectiveDimensions) {
				return false
			}
			for k, cell := range row {
				ms, decided := refDomain(l, items[i], d.EffectiveDimensions[k].Href)
				if !decided {
					continue
				}
				if len(ms) != len(cell) {
					return false
				}
				for n, m := range ms {
					x := cell[n]
					if (refMember{x.Href, x.IsDefault, x.IsStrikethrough}) != m || !refLabelOK(h, x.Href, x.Label) {
						return false
					}
				}
			}
		}
	}
	return true
}

//vc:bounded
func Ensures_MarshalRenderable__offered(slug string, h *hydratables.Hydratable, r []byte, err error) bool {
	out, _, _, listed := refRendering(slug, h, r, err)
	if !listed {
		return true
	}
	if out == nil {
		return false
	}
	roles, langs := map[LabelRole]bool{}, map[Lang]bool{}
	for _, l := range out.LabelRoles {
		if roles[l] {
			return false
		}
		roles[l] = true
	}
	for _, l := range out.Lang {
		if langs[l] {
			return false
		}
		langs[l] = true
	}
	ok := true
	shown := func(lp LabelPack) {
		for role, m := range lp {
			for lang := range m {
				ok = ok && roles[role] && langs[lang]
			}
		}
	}
	for _, i := range out.PGrid.IndentedLabels {
		shown(i.Label)
	}
	for _, d := range out.DGrid.RootDomains {
		shown(d.Label)
		for _, i := range d.PrimaryItems {
			shown(i.Label)
		}
		for _, i := range d.EffectiveDimensions {
			shown(i.Label)
		}
		for _, row := range d.EffectiveDomainGrid {
			for _, cell := range row {
				for _, m := range cell {
					shown(m.Label)
				}
			}
		}
	}
	for _, d := range out.CGrid.SummationItems {
		shown(d.Label)
		for _, i := range d.ContributingConcepts {
			shown(i.Label)
		}
	}
	for _, g := range refGrids(out) {
		for _, v := range g.void {
			shown(v.Dimension.Label)
			if v.TypedDomain != nil {
				shown(v.TypedDomain.Label)
			}
		}
		for _, row := range g.members {
			for _, c := range row {
				if c != nil && c.ExplicitMember != nil {
					shown(c.ExplicitMember.Label)
				}
			}
		}
	}
	if !ok {
		return false
	}
	for role := range roles {
		uri := map[LabelRole]string{Terse: attr.TerseLabel, Verbose: attr.VerboseLabel}[role]
		some := role == Default
		for _, lb := range h.LabelLinkbases {
			for _, ll := range lb.LabelLink {
				for _, l := range ll.Labels {
					some = some || uri != "" && l.Role == uri
				}
			}
		}
		if !some {
			return false
		}
	}
	for lang := range langs {
		if lang == PureLabel || lang == BriefLabel {
			continue
		}
		some := false
		for _, l := range genAll() {
			for role := range roles {
				some = some || len(refTexts(h, genHref(l), role, lang)) > 0
			}
		}
		if !some {
			return false
		}
	}
	return true
}
