//go:build verif

package hydratables

import (
	"encoding/xml"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

//vc:trusted reads the process wide cache and the unit registry file
func Ensures_HydrateUnitTypeRegistry__something(r *UnitTypeRegistry, err error) bool {
	return vspec.Implies(err == nil, r != nil)
}

// SpecUtr is the registered measure with a qualified name, or nil.
func SpecUtr(n xml.Name) *Measurement {
	utr, err := HydrateUnitTypeRegistry()
	if err != nil || utr == nil {
		return nil
	}
	units, ok := (*utr)[n.Space]
	if !ok {
		return nil
	}
	m, ok := units[n.Local]
	if !ok {
		return nil
	}
	return &m
}

func Ensures_queryUTR__registered(space, id string, r *Measurement) bool {
	return vspec.Eq(r, SpecUtr(xml.Name{Space: space, Local: id}))
}

func specUnitMeasures(u Unit) (*Measurement, *Measurement) {
	if u.Measure.CharData != "" {
		return SpecUtr(u.Measure.XMLName), nil
	}
	num, den := u.Divide.UnitNumerator.Measure, u.Divide.UnitDenominator.Measure
	if num.CharData == "" || den.CharData == "" {
		return nil, nil
	}
	return SpecUtr(num.XMLName), SpecUtr(den.XMLName)
}

func Requires_Hydratable_FindMeasurement(h *Hydratable, unitRef string) bool { return h != nil }
func Ensures_Hydratable_FindMeasurement__of_the_referenced_unit(h *Hydratable, unitRef string, num, den *Measurement) bool {
	return vspec.SomeOrder(h.Instances, func(es []vspec.Entry[string, Instance]) bool {
		is := func(u Unit) bool { return u.ID == unitRef }
		k := vspec.Find(es, func(e vspec.Entry[string, Instance]) bool { return vspec.Find(e.Val.Units, is) >= 0 })
		if k < 0 {
			return num == nil && den == nil
		}
		us := es[k].Val.Units
		n, d := specUnitMeasures(us[vspec.Find(us, is)])
		return vspec.Eq(num, n) && vspec.Eq(den, d)
	})
}

// ---- the registry file

type specUtrUnit = struct {
	XMLName                xml.Name
	XMLAttrs               []xml.Attr  `xml:",any,attr"`
	UnitID                 []specText  `xml:"unitId"`
	UnitName               []specText  `xml:"unitName"`
	NSUnit                 []specText  `xml:"nsUnit"`
	ItemType               []specText  `xml:"itemType"`
	NSItemType             []specText  `xml:"nsItemType"`
	ItemTypeDate           []specText  `xml:"itemTypeDate"`
	Symbol                 []specText  `xml:"symbol"`
	Definition             []specText  `xml:"definition"`
	BaseStandard           []specText  `xml:"baseStandard"`
	ConversionPresentation []specInner `xml:"conversionPresentation"`
	ConversionContent      []specInner `xml:"conversionContent"`
	Status                 []specText  `xml:"status"`
	VersionDate            []specText  `xml:"versionDate"`
	NumeratorItemType      []specText  `xml:"numeratorItemType"`
	NSNumeratorItemType    []specText  `xml:"nsNumeratorItemType"`
	DenominatorItemType    []specText  `xml:"denominatorItemType"`
	NSDenominatorItemType  []specText  `xml:"nsDenominatorItemType"`
}

func specFirst(ts []specText) string {
	if len(ts) == 0 {
		return ""
	}
	return ts[0].CharData
}

func specFirstInner(ts []specInner) string {
	if len(ts) == 0 {
		return ""
	}
	return ts[0].XMLInner
}

func SpecRegistered(u specUtrUnit) Measurement {
	return Measurement{
		UnitID:                 specFirst(u.UnitID),
		UnitName:               specFirst(u.UnitName),
		NSUnit:                 specFirst(u.NSUnit),
		ItemType:               specFirst(u.ItemType),
		NsItemType:             specFirst(u.NSItemType),
		ItemTypeDate:           specFirst(u.ItemTypeDate),
		Symbol:                 specFirst(u.Symbol),
		Definition:             specFirst(u.Definition),
		BaseStandard:           specFirst(u.BaseStandard),
		ConversionPresentation: specFirstInner(u.ConversionPresentation),
		ConversionContent:      specFirstInner(u.ConversionContent),
		Status:                 specFirst(u.Status),
		VersionDate:            specFirst(u.VersionDate),
		NumeratorItemType:      specFirst(u.NumeratorItemType),
		NSNumeratorItemType:    specFirst(u.NSNumeratorItemType),
		DenominatorItemType:    specFirst(u.DenominatorItemType),
		NSDenominatorItemType:  specFirst(u.NSDenominatorItemType),
	}
}

// SpecRegistry: by namespace and id; of two entries the later one counts.
func SpecRegistry(us []specUtrUnit) map[string]map[string]Measurement {
	return vspec.Fold(map[string]map[string]Measurement{}, us, func(m map[string]map[string]Measurement, u specUtrUnit) map[string]map[string]Measurement {
		r := SpecRegistered(u)
		if r.UnitID == "" || r.UnitName == "" || r.NSUnit == "" {
			return m
		}
		byID, ok := m[r.NSUnit]
		if !ok {
			byID = map[string]Measurement{}
		}
		return vspec.Put(m, r.NSUnit, vspec.Put(byID, r.UnitID, r))
	})
}

func Requires_mapMeasurements(file *serializables.UnitTypeRegistryFile) bool { return file != nil }
func Ensures_mapMeasurements__by_name(file *serializables.UnitTypeRegistryFile, r UnitTypeRegistry) bool {
	if len(file.Units) == 0 {
		return vspec.Eq(map[string]map[string]Measurement(r), map[string]map[string]Measurement{})
	}
	return vspec.Eq(map[string]map[string]Measurement(r), SpecRegistry(file.Units[0].Unit))
}

// GenHydrated is a folder with hydrated instances.
func GenHydrated(g *vspec.G) *Hydratable {
	h := GenWorld(g)
	h.Instances = map[string]Instance{}
	for _, n := range []string{"i.xml", "j.xml"} {
		if n == "j.xml" && g.P(75) {
			continue
		}
		f := GenInstanceFile(g)
		ins, err := HydrateInstance(f, n, h)
		if err != nil {
			panic(err)
		}
		if n == "j.xml" { // no two instances share an id
			for i := range ins.FootnoteLinks {
				for k := range ins.FootnoteLinks[i].Footnotes {
					ins.FootnoteLinks[i].Footnotes[k].ID += "j"
				}
			}
		}
		h.Instances[n] = *ins
	}
	utr := UnitTypeRegistry{}
	for _, s := range genSpaces {
		utr[s] = map[string]Measurement{}
		for _, l := range genLocals {
			if !g.P(20) {
				utr[s][l] = Measurement{UnitID: l, NSUnit: s, UnitName: s + l, Symbol: g.Pick("$", "")}
			}
		}
	}
	globalCache.Set(attr.UTR, utr, gocache.NoExpiration)
	return h
}

func Gen_Hydratable_FindMeasurement(g *vspec.G) (*Hydratable, string) {
	return GenHydrated(g), g.Pick("u1", "u2", "u3", "")
}

func Gen_queryUTR(g *vspec.G) (string, string) {
	GenHydrated(g)
	return g.Pick(append(genSpaces, "")...), g.Pick(append(genLocals, "")...)
}
