//go:build verif

package renderables

import (
	"math/big"
	"strconv"
	"strings"
	"time"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/hydratables"
	"github.com/joshuanario/digits"
	"github.com/klauspost/lctime"
)

// specNumber is the number with its digits at the stated precision.
func specNumber(value string, precision hydratables.Precision, sep rune) (FactExpression, bool) {
	d, err := digits.New(digits.Precision(int(precision)), value, sep, digits.PreserveUpToHundredth)
	if err != nil {
		return FactExpression{}, false
	}
	return FactExpression{Head: d.Head(), Core: d.Core(), Tail: d.Tail()}, true
}

func specHundredfold(value string) (string, bool) {
	f, _, err := big.ParseFloat(value, 10, 2*digits.PREC_BITS, big.ToNearestEven)
	if err != nil {
		return "", false
	}
	return f.Mul(f, big.NewFloat(100)).SetPrec(digits.PREC_BITS).Text('f', -1), true
}

func specPercent(c *hydratables.Concept) bool {
	return c.Type.Space == attr.NUM && c.Type.Local == attr.PercentItemType
}

func specSigFigs(value string, precision hydratables.Precision, c *hydratables.Concept, sep rune) (FactExpression, bool) {
	if !specPercent(c) {
		return specNumber(value, precision, sep)
	}
	hundredfold, ok := specHundredfold(value)
	if !ok {
		return FactExpression{}, false
	}
	return specNumber(hundredfold, precision, sep)
}

// the digits of the value itself, of its hundredfold for a percentage
func Ensures_SigFigs__library(value string, precision hydratables.Precision, concept *hydratables.Concept, g rune, r *FactExpression, err error) bool {
	want, ok := specSigFigs(value, precision, concept, g)
	return (err == nil) == ok && (r != nil) == ok && (r == nil || vspec.Eq(*r, want))
}

// specUnit adds the symbol or name of the unit and of its denominator.
func specUnit(e FactExpression, percent bool, numerator *hydratables.Measurement, denominator *hydratables.Measurement) FactExpression {
	head, tail := e.Head, e.Tail
	if percent {
		tail = tail + "%"
	}
	if numerator != nil {
		if numerator.Symbol != "" {
			head = numerator.Symbol + " " + head
		}
		tail = tail + " "
		if numerator.Symbol == "" && !percent {
			tail = tail + numerator.UnitName
		}
		if denominator != nil {
			if denominator.Symbol != "" {
				tail = tail + "/" + denominator.Symbol
			} else {
				tail = tail + "/" + denominator.UnitName
			}
		}
	}
	return FactExpression{Head: head, Core: e.Core, Tail: tail}
}

func specExpression(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, sep rune) FactExpression {
	_, concept, err := cf.HashQuery(fact.Href)
	if err != nil {
		return FactExpression{Core: "error"}
	}
	if block := renderTextBlock(fact, cf, mf); block != nil {
		return *block
	}
	if fact.Precision == hydratables.Precisionless {
		return FactExpression{Core: fact.XMLInner}
	}
	number, ok := specSigFigs(fact.XMLInner, fact.Precision, concept, sep)
	if !ok {
		return FactExpression{Core: fact.XMLInner}
	}
	numerator, denominator := mf.FindMeasurement(fact.UnitRef)
	return specUnit(number, specPercent(concept), numerator, denominator)
}

func Requires_renderEnglishFact(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder) bool {
	return fact != nil && specHydratable(cf) && specHydratable(mf)
}

func Ensures_renderEnglishFact__value(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, r *FactExpression) bool {
	return r != nil && vspec.Eq(*r, specExpression(fact, cf, mf, ','))
}

func Requires_renderSpanishFact(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder) bool {
	return fact != nil && specHydratable(cf) && specHydratable(mf)
}

func Ensures_renderSpanishFact__value(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, r *FactExpression) bool {
	return r != nil && vspec.Eq(*r, specExpression(fact, cf, mf, ' '))
}

//vc:opaque
//vc:trusted reads the markup with a tokenizer; what it makes of it is compared by execution (C25)
func Ensures_renderTextBlock__any(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, r *FactExpression) bool {
	return true
}

func specRendered(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, langs []Lang) MultilingualFact {
	if fact == nil {
		return MultilingualFact{PureLabel: FactExpression{}}
	}
	if fact.IsNil {
		return MultilingualFact{PureLabel: FactExpression{Core: "nil"}}
	}
	if mf == nil {
		return MultilingualFact{PureLabel: FactExpression{Core: "error"}}
	}
	return vspec.Fold(MultilingualFact{}, langs, func(m MultilingualFact, l Lang) MultilingualFact {
		if l == English || l == PureLabel {
			return vspec.Put(m, l, specExpression(fact, cf, mf, ','))
		}
		if l == Español {
			return vspec.Put(m, l, specExpression(fact, cf, mf, ' '))
		}
		return m
	})
}

func Requires_render(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, langs []Lang) bool {
	return specHydratable(cf) && (mf == nil || specHydratable(mf))
}

// one display per requested language that is supported
func Ensures_render__languages(fact *hydratables.Fact, cf ConceptFinder, mf MeasurementFinder, langs []Lang, r *MultilingualFact) bool {
	return r != nil && vspec.Eq(*r, specRendered(fact, cf, mf, langs))
}

// ---------------------------------------------------------------- periods

func specDates(start, end string) string {
	if start != "" {
		return start + "/" + end
	}
	return end
}

// the number of calendar months that a duration of at least thirty days touches
//
//vc:bounded
func Ensures_monthCount__months(start time.Time, end time.Time, r int) bool {
	if end.Sub(start).Hours() < 24*30 {
		return r == 0
	}
	return r == (end.Year()-start.Year())*12+int(end.Month())-int(start.Month())+1
}

func specEnglish(start, end string) string {
	e, err := time.Parse("2006-01-02", end)
	if err != nil {
		return specDates(start, end)
	}
	date := e.Format("January 2, 2006")
	if start == "" {
		return "as of " + date
	}
	s, err := time.Parse("2006-01-02", start)
	if err != nil || monthCount(s, e) < 1 {
		return specDates(start, end)
	}
	if monthCount(s, e) == 1 {
		return "1 month ended " + date
	}
	return strconv.Itoa(monthCount(s, e)) + " months ended " + date
}

func Ensures_formatEnglishDates__period(start string, end string, r string) bool {
	return r == specEnglish(start, end)
}

func specSpanish(start, end string) string {
	e, err := time.Parse("2006-01-02", end)
	if err != nil {
		return specDates(start, end)
	}
	date, err := lctime.StrftimeLoc("es_ES", "%d %B %Y", e)
	if err != nil {
		return specDates(start, end)
	}
	if start == "" {
		return "al " + date
	}
	s, err := time.Parse("2006-01-02", start)
	if err != nil || monthCount(s, e) < 1 {
		return specDates(start, end)
	}
	if monthCount(s, e) == 1 {
		return "un mes terminado al " + date
	}
	return strconv.Itoa(monthCount(s, e)) + " meses terminados al " + date
}

func Ensures_formatSpanishDates__period(start string, end string, r string) bool {
	return r == specSpanish(start, end)
}

func specPeriod(lang Lang, date string) string {
	start, end, found := strings.Cut(date, "/")
	if !found {
		start, end = "", date
	}
	if lang == English {
		return specEnglish(start, end)
	}
	if lang == Español {
		return specSpanish(start, end)
	}
	return date
}

func Ensures_formatDate__language(lang Lang, date string, r string) bool {
	return r == specPeriod(lang, date)
}

func specPure(c *hydratables.Context) string {
	p := c.Period
	if p.Duration.StartDate != "" && p.Duration.EndDate != "" {
		return p.Duration.StartDate + "/" + p.Duration.EndDate
	}
	return p.Instant.CharData
}

func Requires_periodString(context *hydratables.Context) bool { return context != nil }

// the reported dates
func Ensures_periodString__reported(context *hydratables.Context, r LanguagePack) bool {
	return vspec.Eq(r, LanguagePack{PureLabel: specPure(context)})
}

func Ensures_getPeriodHeaders__own(relevantContexts []relevantContext, r PeriodHeaders) bool {
	own := func(c relevantContext) LanguagePack { return c.PeriodHeader }
	return vspec.Eq(r, PeriodHeaders(vspec.Map(relevantContexts, own)))
}
