//go:build verif

package renderables

import (
	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/hydratables"
)

// specHydratable: the finder is a filing that was loaded.
func specHydratable(finder any) bool {
	h, ok := finder.(*hydratables.Hydratable)
	return ok && h != nil && h.Folder != nil
}

// ------------------------------------------------------------- cells

func SpecCell(href string, ctx relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang) *MultilingualFact {
	m := specRendered(ff.FindFact(href, ctx.ContextRef), cf, mf, langs)
	return &m
}

func SpecCells(hrefs []string, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang) FactualQuadrant {
	return vspec.Map(hrefs, func(href string) []*MultilingualFact {
		return vspec.Map(ctxs, func(c relevantContext) *MultilingualFact { return SpecCell(href, c, ff, cf, mf, langs) })
	})
}

func Requires_getFactualQuadrant(hrefs []string, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang) bool {
	return specHydratable(ff) && specHydratable(cf) && specHydratable(mf)
}

func Ensures_getFactualQuadrant__cells(hrefs []string, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang, r FactualQuadrant, grid [][][]int, notes []string) bool {
	if len(hrefs) == 0 || len(ctxs) == 0 {
		return len(r) == 0
	}
	return vspec.Eq(r, SpecCells(hrefs, ctxs, ff, cf, mf, langs))
}

// ------------------------------------------------------------- footnotes

func SpecNotes(href string, ctx relevantContext, ff FactFinder) []*hydratables.Footnote {
	return ff.GetFootnotes(ff.FindFact(href, ctx.ContextRef))
}

// SpecNoteGrid holds the footnotes of the facts in the cells.
func SpecNoteGrid(hrefs []string, ctxs []relevantContext, ff FactFinder) [][][]*hydratables.Footnote {
	return vspec.Map(hrefs, func(href string) [][]*hydratables.Footnote {
		return vspec.Map(ctxs, func(c relevantContext) []*hydratables.Footnote { return SpecNotes(href, c, ff) })
	})
}

// SpecNoteIDs lists the ids of the footnotes in the order of their first use.
func SpecNoteIDs(hrefs []string, ctxs []relevantContext, ff FactFinder) []string {
	return vspec.Fold([]string{}, hrefs, func(ids []string, href string) []string {
		return vspec.Fold(ids, ctxs, func(ids []string, c relevantContext) []string {
			return vspec.Fold(ids, SpecNotes(href, c, ff), func(ids []string, f *hydratables.Footnote) []string {
				if vspec.Contains(ids, f.ID) {
					return ids
				}
				return vspec.Append(ids, f.ID)
			})
		})
	})
}

// SpecFirstNotes maps each id to the footnote that has it first.
func SpecFirstNotes(hrefs []string, ctxs []relevantContext, ff FactFinder) map[string]*hydratables.Footnote {
	return vspec.Fold(map[string]*hydratables.Footnote{}, hrefs, func(m map[string]*hydratables.Footnote, href string) map[string]*hydratables.Footnote {
		return vspec.Fold(m, ctxs, func(m map[string]*hydratables.Footnote, c relevantContext) map[string]*hydratables.Footnote {
			return vspec.Fold(m, SpecNotes(href, c, ff), func(m map[string]*hydratables.Footnote, f *hydratables.Footnote) map[string]*hydratables.Footnote {
				if _, found := m[f.ID]; found {
					return m
				}
				return vspec.Put(m, f.ID, f)
			})
		})
	})
}

// SpecMarks lists the numbers of the footnotes of one cell.
func SpecMarks(ids []string, notes []*hydratables.Footnote) []int {
	return vspec.FilterMapI(ids, func(k int, id string) (int, bool) {
		return k + 1, vspec.Exists(notes, func(f *hydratables.Footnote) bool { return f.ID == id })
	})
}

func SpecMarkGrid(hrefs []string, ctxs []relevantContext, ff FactFinder, ids []string) [][][]int {
	return vspec.Map(hrefs, func(href string) [][]int {
		return vspec.Map(ctxs, func(c relevantContext) []int { return SpecMarks(ids, SpecNotes(href, c, ff)) })
	})
}

func Ensures_getFactualQuadrant__marks(hrefs []string, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang, r FactualQuadrant, grid [][][]int, notes []string) bool {
	if len(hrefs) == 0 || len(ctxs) == 0 {
		return len(grid) == 0
	}
	return len(SpecNoteGrid(hrefs, ctxs, ff)) == len(hrefs) &&
		vspec.Eq(grid, SpecMarkGrid(hrefs, ctxs, ff, SpecNoteIDs(hrefs, ctxs, ff)))
}

func Ensures_getFactualQuadrant__texts(hrefs []string, ctxs []relevantContext, ff FactFinder, cf ConceptFinder, mf MeasurementFinder, langs []Lang, r FactualQuadrant, grid [][][]int, notes []string) bool {
	if len(hrefs) == 0 || len(ctxs) == 0 {
		return len(notes) == 0
	}
	first := SpecFirstNotes(hrefs, ctxs, ff)
	return vspec.Eq(notes, vspec.Map(SpecNoteIDs(hrefs, ctxs, ff), func(id string) string { return first[id].InnerHtml }))
}
