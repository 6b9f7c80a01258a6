//go:build verif

package hydratables

import (
	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
)

func SpecLoadedSchemas(m map[string]serializables.SchemaFile) map[string]Schema {
	return vspec.MapValues(m, func(name string, f serializables.SchemaFile) Schema {
		r, _ := HydrateSchema(&f, name)
		if r == nil {
			return Schema{}
		}
		return *r
	})
}
func SpecLoadedPresentation(m map[string]serializables.PresentationLinkbaseFile) map[string]PresentationLinkbase {
	return vspec.MapValues(m, func(name string, f serializables.PresentationLinkbaseFile) PresentationLinkbase {
		r, _ := HydratePresentationLinkbase(&f, name)
		if r == nil {
			return PresentationLinkbase{}
		}
		return *r
	})
}
func SpecLoadedDefinition(m map[string]serializables.DefinitionLinkbaseFile) map[string]DefinitionLinkbase {
	return vspec.MapValues(m, func(name string, f serializables.DefinitionLinkbaseFile) DefinitionLinkbase {
		r, _ := HydrateDefinitionLinkbase(&f, name)
		if r == nil {
			return DefinitionLinkbase{}
		}
		return *r
	})
}
func SpecLoadedCalculation(m map[string]serializables.CalculationLinkbaseFile) map[string]CalculationLinkbase {
	return vspec.MapValues(m, func(name string, f serializables.CalculationLinkbaseFile) CalculationLinkbase {
		r, _ := HydrateCalculationLinkbase(&f, name)
		if r == nil {
			return CalculationLinkbase{}
		}
		return *r
	})
}
func SpecLoadedLabels(m map[string]serializables.LabelLinkbaseFile) map[string]LabelLinkbase {
	return vspec.MapValues(m, func(name string, f serializables.LabelLinkbaseFile) LabelLinkbase {
		r, _ := HydrateLabelLinkbase(&f, name)
		if r == nil {
			return LabelLinkbase{}
		}
		return *r
	})
}

// SpecInstanceView is what an instance takes from its own file alone.
type SpecInstanceView struct {
	FileName  string
	Units     []Unit
	Footnotes []FootnoteLink
}

func SpecLoadedInstances(m map[string]serializables.InstanceFile) map[string]SpecInstanceView {
	return vspec.MapValues(m, func(name string, f serializables.InstanceFile) SpecInstanceView {
		return SpecInstanceView{name, SpecUnits(&f), SpecFnLinks(&f)}
	})
}
func SpecViewInstances(m map[string]Instance) map[string]SpecInstanceView {
	return vspec.MapValues(m, func(name string, i Instance) SpecInstanceView {
		return SpecInstanceView{i.FileName, i.Units, i.FootnoteLinks}
	})
}

// SpecLoadable: every file of the folder can be loaded.
func SpecLoadable(folder *serializables.Folder) bool {
	return vspec.AllEntries(folder.Schemas, func(name string, f serializables.SchemaFile) bool {
		_, err := HydrateSchema(&f, name)
		return err == nil
	}) && vspec.AllEntries(folder.PresentationLinkbases, func(name string, f serializables.PresentationLinkbaseFile) bool {
		_, err := HydratePresentationLinkbase(&f, name)
		return err == nil
	}) && vspec.AllEntries(folder.DefinitionLinkbases, func(name string, f serializables.DefinitionLinkbaseFile) bool {
		_, err := HydrateDefinitionLinkbase(&f, name)
		return err == nil
	}) && vspec.AllEntries(folder.CalculationLinkbases, func(name string, f serializables.CalculationLinkbaseFile) bool {
		_, err := HydrateCalculationLinkbase(&f, name)
		return err == nil
	}) && vspec.AllEntries(folder.LabelLinkbases, func(name string, f serializables.LabelLinkbaseFile) bool {
		_, err := HydrateLabelLinkbase(&f, name)
		return err == nil
	}) && vspec.AllEntries(folder.Instances, func(name string, f serializables.InstanceFile) bool {
		return name != ""
	})
}

func Requires_Hydrate(folder *serializables.Folder) bool { return Requires_HydrateDocument(folder) }

func Ensures_Hydrate__fails(folder *serializables.Folder, r *Hydratable, err error) bool {
	_, e := HydrateUnitTypeRegistry()
	_, e2 := HydrateDocument(folder)
	return (err == nil) == (SpecLoadable(folder) && e == nil && e2 == nil) && (r == nil) == (err != nil)
}
func Ensures_Hydrate__schemas(folder *serializables.Folder, r *Hydratable, err error) bool {
	return err != nil || r != nil && vspec.Eq(r.Schemas, SpecLoadedSchemas(folder.Schemas))
}
func Ensures_Hydrate__presentation(folder *serializables.Folder, r *Hydratable, err error) bool {
	return err != nil || r != nil && vspec.EqModOrder(r.PresentationLinkbases, SpecLoadedPresentation(folder.PresentationLinkbases))
}
func Ensures_Hydrate__definition(folder *serializables.Folder, r *Hydratable, err error) bool {
	return err != nil || r != nil && vspec.EqModOrder(r.DefinitionLinkbases, SpecLoadedDefinition(folder.DefinitionLinkbases))
}
func Ensures_Hydrate__calculation(folder *serializables.Folder, r *Hydratable, err error) bool {
	return err != nil || r != nil && vspec.EqModOrder(r.CalculationLinkbases, SpecLoadedCalculation(folder.CalculationLinkbases))
}
func Ensures_Hydrate__labels(folder *serializables.Folder, r *Hydratable, err error) bool {
	return err != nil || r != nil && vspec.EqModOrder(r.LabelLinkbases, SpecLoadedLabels(folder.LabelLinkbases))
}
func Ensures_Hydrate__instances(folder *serializables.Folder, r *Hydratable, err error) bool {
	return err != nil || r != nil && vspec.Eq(SpecViewInstances(r.Instances), SpecLoadedInstances(folder.Instances))
}

// contexts and facts also depend on the schemas of the loaded model
//
//vc:bounded
func Ensures_Hydrate__instance_content(folder *serializables.Folder, r *Hydratable, err error) bool {
	if err != nil {
		return true
	}
	if r == nil || len(r.Instances) != len(folder.Instances) {
		return false
	}
	for name, f := range folder.Instances {
		f := f
		i, ok := r.Instances[name]
		want, e := HydrateInstance(&f, name, r)
		if !ok || e != nil || want == nil || !vspec.Eq(i, *want) {
			return false
		}
	}
	return true
}
func Ensures_Hydrate__document(folder *serializables.Folder, r *Hydratable, err error) bool {
	d, _ := HydrateDocument(folder)
	return err != nil || r != nil && vspec.Eq(r.Folder, folder) && vspec.Eq(r.Document, d)
}

// GenLoadable is a discovered folder.
func GenLoadable(g *vspec.G) *serializables.Folder {
	h := GenHydrated(g)
	f := h.Folder
	if g.P(3) {
		globalCache.Delete(attr.UTR)
	}
	name := func(n string) string {
		if g.P(2) {
			return ""
		}
		return n
	}
	f.Instances = map[string]serializables.InstanceFile{}
	for _, n := range []string{"i.xml", "j.xml"} {
		if g.P(60) {
			f.Instances[name(n)] = *GenInstanceFile(g)
		}
	}
	if g.P(2) {
		f.Schemas[""] = serializables.SchemaFile{}
	}
	f.PresentationLinkbases = map[string]serializables.PresentationLinkbaseFile{}
	f.DefinitionLinkbases = map[string]serializables.DefinitionLinkbaseFile{}
	f.CalculationLinkbases = map[string]serializables.CalculationLinkbaseFile{}
	f.LabelLinkbases = map[string]serializables.LabelLinkbaseFile{}
	for _, n := range []string{"x.xml", "y.xml", "z.xml"} {
		if g.P(40) {
			var v serializables.PresentationLinkbaseFile
			g.Fill(&v)
			f.PresentationLinkbases[name(n)] = v
		}
		if g.P(40) {
			var v serializables.DefinitionLinkbaseFile
			g.Fill(&v)
			f.DefinitionLinkbases[name(n)] = v
		}
		if g.P(40) {
			var v serializables.CalculationLinkbaseFile
			g.Fill(&v)
			f.CalculationLinkbases[name(n)] = v
		}
		if g.P(40) {
			var v serializables.LabelLinkbaseFile
			g.Fill(&v)
			f.LabelLinkbases[name(n)] = v
		}
	}
	f.Document = Gen_HydrateDocument(g).Document
	if g.P(50) && f.Document != nil {
		f.Document.NonFractions, f.Document.NonNumerics = nil, nil
	}
	return f
}

func Gen_Hydrate(g *vspec.G) *serializables.Folder { return GenLoadable(g) }
