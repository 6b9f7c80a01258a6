//go:build verif

package renderables

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	gohtml "html"
	"math"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	"github.com/joshuanario/digits"
	"github.com/klauspost/lctime"
	"golang.org/x/net/html"
)

// An independent reading of what a rendering shows. It is written from the
// properties and executed next to the code on generated filings; every clause
// that uses it is marked bounded.

// ---------------------------------------------------------------- labels

// refTexts: the texts that label links assign to a concept for a role and language.
func refTexts(h *hydratables.Hydratable, href string, role LabelRole, lang Lang) []string {
	uri := map[LabelRole]string{Default: attr.Label, Terse: attr.TerseLabel, Verbose: attr.VerboseLabel}[role]
	tags := map[Lang][]string{English: {"en", "en-US"}, Español: {"es"}}[lang]
	var out []string
	for _, lb := range h.LabelLinkbases {
		for _, ll := range lb.LabelLink {
			for _, loc := range ll.Locs {
				if loc.Href != href {
					continue
				}
				for _, a := range ll.LabelArcs {
					if a.From != loc.Label || a.Arcrole != attr.LabelArcrole {
						continue
					}
					for _, l := range ll.Labels {
						if l.Label == a.To && l.Role == uri {
							for _, t := range tags {
								if l.Lang == t {
									out = append(out, l.CharData)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// refLabelOK: a label pack shows exactly what the label links assign.
func refLabelOK(h *hydratables.Hydratable, href string, lp LabelPack) bool {
	if lp[Default][PureLabel] != href {
		return false
	}
	for role, m := range lp {
		for lang, text := range m {
			switch lang {
			case PureLabel:
				if role != Default {
					return false
				}
			case BriefLabel:
				i := strings.Index(href, "#")
				if role != Default || i < 0 || text != href[i:] {
					return false
				}
			default:
				ok := false
				for _, t := range refTexts(h, href, role, lang) {
					ok = ok || t == text
				}
				if !ok {
					return false
				}
			}
		}
	}
	if _, ok := lp[Default][BriefLabel]; ok != strings.Contains(href, "#") {
		return false
	}
	for _, role := range []LabelRole{Default, Terse, Verbose} {
		for _, lang := range []Lang{English, Español} {
			if _, ok := lp[role][lang]; ok != (len(refTexts(h, href, role, lang)) > 0) {
				return false
			}
		}
	}
	return true
}

// ---------------------------------------------------------------- numbers, dates, text

func refNumber(value string, precision hydratables.Precision, percent bool, sep rune) (FactExpression, bool) {
	if percent {
		if _, _, err := big.ParseFloat(value, 10, digits.PREC_BITS, big.ToZero); err != nil {
			return FactExpression{}, false
		}
		r, ok := new(big.Rat).SetString(value)
		if !ok {
			return FactExpression{}, false
		}
		neg := strings.HasPrefix(value, "-")
		value = r.Mul(r, big.NewRat(100, 1)).FloatString(30)
		value = strings.TrimSuffix(strings.TrimRight(value, "0"), ".")
		if value == "0" && neg {
			value = "-0"
		}
	}
	d, err := digits.New(digits.Precision(int(precision)), value, sep, digits.PreserveUpToHundredth)
	if err != nil {
		return FactExpression{}, false
	}
	return FactExpression{Head: d.Head(), Core: d.Core(), Tail: d.Tail()}, true
}

func refExpression(h *hydratables.Hydratable, f *hydratables.Fact, lang Lang) FactExpression {
	_, c, err := h.HashQuery(f.Href)
	if err != nil {
		return FactExpression{Core: "error"}
	}
	if c.Type.Local == attr.TextBlockItemType {
		return FactExpression{InnerHtml: "?"}
	}
	plain := FactExpression{Core: f.XMLInner}
	if f.Precision == hydratables.Precisionless {
		return plain
	}
	percent := c.Type.Space == attr.NUM && c.Type.Local == attr.PercentItemType
	sep := ','
	if lang == Español {
		sep = ' '
	}
	e, ok := refNumber(f.XMLInner, f.Precision, percent, sep)
	if !ok {
		return plain
	}
	num, den := h.FindMeasurement(f.UnitRef)
	unit := func(m *hydratables.Measurement) string {
		if m.Symbol != "" {
			return m.Symbol
		}
		return m.UnitName
	}
	if percent {
		e.Tail += "%"
	}
	if num != nil {
		if num.Symbol != "" {
			e.Head = num.Symbol + " " + e.Head
		}
		e.Tail += " "
		if num.Symbol == "" && !percent {
			e.Tail += num.UnitName
		}
		if den != nil {
			e.Tail += "/" + unit(den)
		}
	}
	return e
}

var refTag = regexp.MustCompile(`</?(table|tr|th|td)>|<br />`)

func refWords(s string) string { return strings.Join(strings.Fields(s), " ") }

// refMarkupOK: fixed tags without attributes, no other markup, the text in order.
func refMarkupOK(src, out string) bool {
	rest := refTag.ReplaceAllString(out, " ")
	if strings.ContainsAny(rest, "<>") {
		return false
	}
	text := ""
	z := html.NewTokenizer(strings.NewReader(gohtml.UnescapeString(src)))
	for tt := z.Next(); tt != html.ErrorToken; tt = z.Next() {
		if tt == html.TextToken {
			text += " " + z.Token().Data
		}
	}
	return refWords(gohtml.UnescapeString(rest)) == refWords(text)
}

func refDate(lang Lang, start, end string) string {
	raw := end
	if start != "" {
		raw = start + "/" + end
	}
	if lang != English && lang != Español {
		return raw
	}
	e, err := time.Parse("2006-01-02", end)
	if err != nil {
		return raw
	}
	date := e.Format("January 2, 2006")
	as, one, many := "as of ", "1 month ended ", " months ended "
	if lang == Español {
		if date, err = lctime.StrftimeLoc("es_ES", "%d %B %Y", e); err != nil {
			return raw
		}
		as, one, many = "al ", "un mes terminado al ", " meses terminados al "
	}
	if start == "" {
		return as + date
	}
	s, err := time.Parse("2006-01-02", start)
	if err != nil || e.Sub(s) < 30*24*time.Hour {
		return raw
	}
	n := 1 + 12*(e.Year()-s.Year()) + int(e.Month()) - int(s.Month())
	if n == 1 {
		return one + date
	}
	return strconv.Itoa(n) + many + date
}

func refPeriod(c *hydratables.Context) (string, string) {
	if c.Period.Duration.StartDate != "" && c.Period.Duration.EndDate != "" {
		return c.Period.Duration.StartDate, c.Period.Duration.EndDate
	}
	return "", c.Period.Instant.CharData
}

func refPure(c *hydratables.Context) string {
	s, e := refPeriod(c)
	if s != "" {
		return s + "/" + e
	}
	return e
}

// ---------------------------------------------------------------- contexts

// refColumn is one context of a grid.
type refColumn struct {
	ctx     *hydratables.Context
	period  string
	members map[string]string // dimension|typed domain -> shown member
}

func refMembers(c *hydratables.Context) map[string]string {
	out := map[string]string{}
	for _, d := range []hydratables.DimensionContext{c.Entity.Segment, c.Scenario} {
		for _, e := range d.ExplicitMembers {
			out[e.Dimension.Href+"|"] = "E:" + e.Member.Href
		}
		for _, t := range d.TypedMembers {
			for td, v := range t.TypedMembersMap {
				out[t.Dimension.Href+"|"+td] = "T:" + v
			}
		}
	}
	return out
}

func refColumns(h *hydratables.Hydratable, entity string, hrefs []string) []refColumn {
	rows := map[string]bool{}
	for _, r := range hrefs {
		if _, c, err := h.HashQuery(r); err == nil && c != nil && !c.Abstract {
			rows[r] = true
		}
	}
	var out []refColumn
	for _, name := range []string{"i.xml", "j.xml"} {
		ins := h.Instances[name]
		for i := range ins.Contexts {
			c := &ins.Contexts[i]
			if c.Entity.Identifier.Scheme+"/"+c.Entity.Identifier.CharData != entity {
				continue
			}
			for _, f := range ins.Facts {
				if f.ContextRef == c.ID && rows[f.Href] {
					out = append(out, refColumn{ctx: c, period: refPure(c), members: refMembers(c)})
					break
				}
			}
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		if out[i].period != out[j].period {
			return out[i].period < out[j].period
		}
		return len(out[i].members) < len(out[j].members)
	})
	return out
}

// ---------------------------------------------------------------- grids

// refGrid is one grid of a rendering.
type refGrid struct {
	hrefs   []string
	periods PeriodHeaders
	members ContextualMemberGrid
	void    VoidQuadrant
	facts   FactualQuadrant
	marks   [][][]int
	notes   []string
}

func refGrids(r *Renderable) []refGrid {
	g := refGrid{periods: r.PGrid.PeriodHeaders, members: r.PGrid.ContextualMemberGrid, void: r.PGrid.VoidQuadrant, facts: r.PGrid.FactualQuadrant, marks: r.PGrid.FootnoteGrid, notes: r.PGrid.Footnotes}
	for _, l := range r.PGrid.IndentedLabels {
		g.hrefs = append(g.hrefs, l.Href)
	}
	out := []refGrid{g}
	for _, d := range r.DGrid.RootDomains {
		g := refGrid{hrefs: []string{d.Href}, periods: d.PeriodHeaders, members: d.ContextualMemberGrid, void: d.VoidQuadrant, facts: d.FactualQuadrant, marks: d.FootnoteGrid, notes: d.Footnotes}
		for _, l := range d.PrimaryItems {
			g.hrefs = append(g.hrefs, l.Href)
		}
		out = append(out, g)
	}
	for _, d := range r.CGrid.SummationItems {
		g := refGrid{periods: d.PeriodHeaders, members: d.ContextualMemberGrid, void: d.VoidQuadrant, facts: d.FactualQuadrant, marks: d.FootnoteGrid, notes: d.Footnotes}
		for _, l := range d.ContributingConcepts {
			g.hrefs = append(g.hrefs, l.Href)
		}
		g.hrefs = append(g.hrefs, d.Href)
		out = append(out, g)
	}
	return out
}

func refKey(v *VoidCell) string {
	if v.TypedDomain != nil {
		return v.Dimension.Href + "|" + v.TypedDomain.Href
	}
	return v.Dimension.Href + "|"
}

// refShown: the members a column shows, and whether its rows are consistent.
func refShown(g *refGrid, j int) (map[string]string, bool) {
	out := map[string]string{}
	for i, v := range g.void {
		if v == nil || i >= len(g.members) || j >= len(g.members[i]) || g.members[i][j] == nil {
			return nil, false
		}
		c := g.members[i][j]
		s := ""
		if c.ExplicitMember != nil {
			s = "E:" + c.ExplicitMember.Href
		} else if c.TypedMember != "" {
			s = "T:" + c.TypedMember
		}
		k := refKey(v)
		if old, ok := out[k]; ok && old != s {
			return nil, false
		}
		out[k] = s
	}
	for k, s := range out {
		if s == "" {
			delete(out, k)
		}
	}
	return out, true
}

// refMatch pairs the shown columns with the contexts so that eq holds.
func refMatch(g *refGrid, cols []refColumn, eq func(j int, c *refColumn) bool) bool {
	if len(g.periods) != len(cols) {
		return false
	}
	n := len(cols)
	adj := make([][]int, n)
	for j := 0; j < n; j++ {
		shown, ok := refShown(g, j)
		if !ok {
			return false
		}
		for k := range cols {
			if g.periods[j][PureLabel] == cols[k].period && reflect.DeepEqual(shown, cols[k].members) && eq(j, &cols[k]) {
				adj[j] = append(adj[j], k)
			}
		}
	}
	match := make([]int, n)
	for i := range match {
		match[i] = -1
	}
	var try func(j int, seen map[int]bool) bool
	try = func(j int, seen map[int]bool) bool {
		for _, k := range adj[j] {
			if seen[k] {
				continue
			}
			seen[k] = true
			if match[k] < 0 || try(match[k], seen) {
				match[k] = j
				return true
			}
		}
		return false
	}
	for j := 0; j < n; j++ {
		if !try(j, map[int]bool{}) {
			return false
		}
	}
	return true
}

func refFact(h *hydratables.Hydratable, href, ctx string) *hydratables.Fact {
	for _, n := range []string{"i.xml", "j.xml"} {
		ins := h.Instances[n]
		for i := range ins.Facts {
			if ins.Facts[i].Href == href && ins.Facts[i].ContextRef == ctx {
				return &ins.Facts[i]
			}
		}
	}
	return nil
}

// refCellOK: the cell is the rendering of the fact in the given language.
func refCellOK(h *hydratables.Hydratable, f *hydratables.Fact, cell *MultilingualFact, lang Lang) bool {
	if cell == nil {
		return false
	}
	e, ok := (*cell)[lang]
	if f == nil {
		return ok == (lang == PureLabel) && e == FactExpression{}
	}
	if f.IsNil {
		return ok == (lang == PureLabel) && (!ok || e == FactExpression{Core: "nil"})
	}
	if !ok {
		return false
	}
	want := refExpression(h, f, lang)
	if want.InnerHtml == "?" {
		e.InnerHtml = refWords(gohtml.UnescapeString(refTag.ReplaceAllString(e.InnerHtml, " ")))
		z := html.NewTokenizer(strings.NewReader(gohtml.UnescapeString(f.XMLInner)))
		text := ""
		for tt := z.Next(); tt != html.ErrorToken; tt = z.Next() {
			if tt == html.TextToken {
				text += " " + z.Token().Data
			}
		}
		want.InnerHtml = refWords(text)
	}
	return e == want
}

func refFootnotes(h *hydratables.Hydratable, f *hydratables.Fact) map[string]string {
	out := map[string]string{}
	for _, n := range h.GetFootnotes(f) {
		out[n.ID] = n.InnerHtml
	}
	return out
}

// refValues: the texts, with their multiplicity.
func refValues(m map[string]string) []string {
	out := []string{}
	for _, v := range m {
		out = append(out, v)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------- networks

type refArc struct {
	order    float64
	from, to string
}

// refChildren: the targets of a locator, by ascending order, then document order.
func refChildren(as []refArc, loc string) []string {
	var mine []refArc
	for _, a := range as {
		if a.from == loc {
			mine = append(mine, a)
		}
	}
	sort.SliceStable(mine, func(i, j int) bool { return mine[i].order < mine[j].order })
	var out []string
	for _, a := range mine {
		out = append(out, a.to)
	}
	return out
}

func refRoots(as []refArc) []string {
	child := map[string]bool{}
	for _, a := range as {
		child[a.to] = true
	}
	var out []string
	seen := map[string]bool{}
	for _, a := range as {
		if !child[a.from] && !seen[a.from] {
			seen[a.from] = true
			out = append(out, a.from)
		}
	}
	return out
}

type refRow struct {
	href  string
	level int
}

func refTree(as []refArc, loc string, level int, href func(string) string) []refRow {
	out := []refRow{{href(loc), level}}
	for _, c := range refChildren(as, loc) {
		out = append(out, refTree(as, c, level+1, href)...)
	}
	return out
}

func refHasRole(rs []hydratables.RoleRef, role string) bool {
	for _, r := range rs {
		if r.RoleURI == role {
			return true
		}
	}
	return false
}

func refLoc(ls []hydratables.Loc, label string) string {
	for _, l := range ls {
		if l.Label == label && strings.Contains(l.Href, "#") {
			return l.Href
		}
	}
	return "#" + label
}

func refPresentation(h *hydratables.Hydratable, role string) *hydratables.PresentationLink {
	for _, p := range h.PresentationLinkbases {
		if refHasRole(p.RoleRefs, role) {
			for i := range p.PresentationLinks {
				if p.PresentationLinks[i].Role == role {
					return &p.PresentationLinks[i]
				}
			}
		}
	}
	return nil
}

func refCalculation(h *hydratables.Hydratable, role string) *hydratables.CalculationLink {
	for _, p := range h.CalculationLinkbases {
		if refHasRole(p.RoleRefs, role) {
			for i := range p.CalculationLinks {
				if p.CalculationLinks[i].Role == role {
					return &p.CalculationLinks[i]
				}
			}
		}
	}
	return nil
}

func refDefinition(h *hydratables.Hydratable, role string) (*hydratables.DefinitionLinkbase, *hydratables.DefinitionLink) {
	for _, p := range h.DefinitionLinkbases {
		if refHasRole(p.RoleRefs, role) {
			for i := range p.DefinitionLinks {
				if p.DefinitionLinks[i].Role == role {
					return &p, &p.DefinitionLinks[i]
				}
			}
		}
	}
	return nil, nil
}

// refBlocks: the rows are the blocks, each once, in some order.
func refBlocks(rows []refRow, blocks [][]refRow) bool {
	used := make([]bool, len(blocks))
	for len(rows) > 0 {
		hit := false
		for i, b := range blocks {
			if !used[i] && len(b) <= len(rows) && reflect.DeepEqual(b, rows[:len(b)]) {
				used[i], hit = true, true
				rows = rows[len(b):]
				break
			}
		}
		if !hit {
			return false
		}
	}
	for _, u := range used {
		if !u {
			return false
		}
	}
	return true
}

func refSum(l *hydratables.CalculationLink, from string) []hydratables.CalculationArc {
	var out []hydratables.CalculationArc
	for _, a := range l.CalculationArcs {
		if a.Arcrole == attr.CalculationArcrole && refLoc(l.Locs, a.From) == from {
			out = append(out, a)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Order < out[j].Order })
	return out
}

func refDArcs(l *hydratables.DefinitionLink, role string) []refArc {
	var out []refArc
	for _, a := range l.DefinitionArcs {
		if a.Arcrole == role {
			out = append(out, refArc{a.Order, a.From, a.To})
		}
	}
	return out
}

type refMember struct {
	href            string
	isDefault, excl bool
}

// refDomain: the effective domain of a dimension for a primary item; not decided
// when a member is stated twice.
func refDomain(l *hydratables.DefinitionLink, item, dim string) (out []refMember, decided bool) {
	href := func(s string) string { return refLoc(l.Locs, s) }
	cubes := func(role string) []string {
		var cs []string
		for _, a := range refDArcs(l, role) {
			if href(a.from) != item {
				continue
			}
			for _, b := range refDArcs(l, attr.HypercubeDimensionArcrole) {
				if href(b.from) == href(a.to) && href(b.to) == dim {
					cs = append(cs, href(a.to))
				}
			}
		}
		return cs
	}
	incl, excl := cubes(attr.HasInclusiveHypercubeArcrole), cubes(attr.HasExclusiveHypercubeArcrole)
	for _, a := range incl {
		for _, b := range excl {
			if a == b {
				return nil, true
			}
		}
	}
	if len(incl) > 1 || len(excl) > 1 {
		return nil, false
	}
	dm := refDArcs(l, attr.DomainMemberArcrole)
	roots := map[string]bool{}
	for _, r := range refRoots(dm) {
		roots[r] = true
	}
	add := func(x bool) {
		for _, a := range refDArcs(l, attr.DimensionDefaultArcrole) {
			if href(a.from) == dim {
				out = append(out, refMember{href(a.to), true, x})
			}
		}
		for _, a := range refDArcs(l, attr.DimensionDomainArcrole) {
			if href(a.from) == dim && roots[a.to] {
				for _, r := range refTree(dm, a.to, 0, href) {
					out = append(out, refMember{r.href, false, x})
				}
			}
		}
	}
	if len(incl) > 0 {
		add(false)
	}
	if len(excl) > 0 {
		add(true)
	}
	seen := map[refMember]bool{}
	for _, m := range out {
		if seen[m] {
			return nil, false
		}
		seen[m] = true
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.href != b.href {
			return a.href < b.href
		}
		if a.isDefault != b.isDefault {
			return a.isDefault
		}
		return !a.excl && b.excl
	})
	return out, true
}

// ---------------------------------------------------------------- requests

func refSlugOf(entity, role, title string) string {
	f := fnv.New128a()
	f.Write([]byte(entity + role + title))
	return hex.EncodeToString(f.Sum(nil))
}

func refEntities(h *hydratables.Hydratable) []Entity {
	seen := map[Entity]bool{}
	out := []Entity{}
	for _, ins := range h.Instances {
		for _, c := range ins.Contexts {
			e := Entity{c.Entity.Identifier.Scheme, c.Entity.Identifier.CharData}
			if e.Scheme != "" && e.CharData != "" && !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Scheme != out[j].Scheme {
			return out[i].Scheme < out[j].Scheme
		}
		return out[i].CharData < out[j].CharData
	})
	return out
}

func refSets(h *hydratables.Hydratable) []RelationshipSet {
	seen := map[RelationshipSet]bool{}
	out := []RelationshipSet{}
	for _, s := range h.Schemas {
		for _, r := range s.RoleTypes {
			e := RelationshipSet{RoleURI: r.RoleURI, Title: r.Definition}
			if r.RoleURI != "" && !seen[e] {
				seen[e] = true
				out = append(out, e)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Title != out[j].Title {
			return out[i].Title < out[j].Title
		}
		return out[i].RoleURI < out[j].RoleURI
	})
	return out
}

func refName(e Entity) string {
	if n, err := hydratables.EntityQuery(e.Scheme, e.CharData); err == nil {
		return n
	}
	return e.Scheme + "/" + e.CharData
}

// refRequest: the entity and relationship set a slug stands for.
func refRequest(h *hydratables.Hydratable, slug string) (Entity, RelationshipSet, bool) {
	data, err := MarshalCatalog(h)
	var c Catalog
	if err != nil || json.Unmarshal(data, &c) != nil {
		return Entity{}, RelationshipSet{}, false
	}
	for _, e := range refEntities(h) {
		for role, s := range c.Networks[e.Scheme+"/"+e.CharData] {
			if s != slug {
				continue
			}
			for _, r := range refSets(h) {
				if r.RoleURI == role && refSlugOf(e.Scheme+"/"+e.CharData, role, r.Title) == slug {
					return e, r, true
				}
			}
			for _, r := range refSets(h) {
				if r.RoleURI == role {
					return e, r, true
				}
			}
		}
	}
	return Entity{}, RelationshipSet{}, false
}

// refRendering decodes a rendering that was asked for with a listed slug.
func refRendering(slug string, h *hydratables.Hydratable, r []byte, err error) (*Renderable, Entity, RelationshipSet, bool) {
	e, rs, ok := refRequest(h, slug)
	if !ok {
		return nil, e, rs, false
	}
	var out Renderable
	if err != nil || json.Unmarshal(r, &out) != nil {
		return nil, e, rs, true
	}
	return &out, e, rs, true
}

func refAbs(w float64) string { return fmt.Sprintf("%.1f", math.Abs(w)) }
