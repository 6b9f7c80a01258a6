//go:build verif

package hydratables

import (
	"encoding/xml"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
)

type specRoleType = struct {
	XMLName    xml.Name
	XMLAttrs   []xml.Attr `xml:",any,attr"`
	Definition []specText `xml:"definition"`
	UsedOn     []specText `xml:"usedOn"`
}

func SpecUsedOn(e specText) (struct{ CharData string }, bool) {
	return struct{ CharData string }{e.CharData}, e.XMLName.Space == attr.LINK
}

func SpecDefinition(ds []specText) string {
	if len(ds) == 0 {
		return ""
	}
	return ds[0].CharData
}

func SpecRoleType(e specRoleType) (RoleType, bool) {
	return RoleType{
		RoleURI:    SpecVal(e.XMLAttrs, "roleURI"),
		ID:         SpecVal(e.XMLAttrs, "id"),
		Definition: SpecDefinition(e.Definition),
		UsedOn:     vspec.FilterMap(e.UsedOn, SpecUsedOn),
	}, e.XMLName.Space == attr.LINK && SpecHas(e.XMLAttrs, "id") && SpecHas(e.XMLAttrs, "roleURI")
}

// SpecRoleTypes: the role types of the schema's first annotation.
func SpecRoleTypes(file *serializables.SchemaFile) []RoleType {
	if len(file.Annotation) == 0 || file.Annotation[0].XMLName.Space != attr.XSD {
		return nil
	}
	if len(file.Annotation[0].Appinfo) == 0 || file.Annotation[0].Appinfo[0].XMLName.Space != attr.XSD {
		return nil
	}
	return vspec.FilterMap(file.Annotation[0].Appinfo[0].RoleType, SpecRoleType)
}

// SpecValIn is the attribute's value if it lies in the namespace.
func SpecValIn(as []xml.Attr, name, space string) string {
	a := attr.SpecFirstAttr(as, name)
	if a == nil || a.Name.Space != space {
		return ""
	}
	return a.Value
}

// SpecTypedDomain: a reference into the same schema is completed.
func SpecTypedDomain(as []xml.Attr, fileName string) string {
	ref := SpecValIn(as, "typedDomainRef", attr.XBRLDT)
	if strings.IndexRune(ref, '#') == 0 {
		return fileName + ref
	}
	return ref
}

func SpecSubstitution(tl, as []xml.Attr) xml.Name {
	v := SpecVal(as, "substitutionGroup")
	if v == "" {
		return xml.Name{}
	}
	return attr.SpecQName(tl, v)
}

func SpecConcept(tl []xml.Attr, fileName string, e specText) (Concept, bool) {
	as := e.XMLAttrs
	return Concept{
		XMLName:           xml.Name{Space: SpecVal(tl, "targetNamespace"), Local: SpecVal(as, "name")},
		ID:                SpecVal(as, "id"),
		Type:              attr.SpecQName(tl, SpecVal(as, "type")),
		SubstitutionGroup: SpecSubstitution(tl, as),
		Nillable:          SpecBool(as, "nillable", false),
		PeriodType:        SpecValIn(as, "periodType", attr.XBRLI),
		Balance:           SpecValIn(as, "balance", attr.XBRLI),
		Abstract:          SpecBool(as, "abstract", false),
		TypedDomainHref:   SpecTypedDomain(as, fileName),
	}, e.XMLName.Space == attr.XSD && SpecHas(as, "id") && SpecHas(as, "name") && SpecHas(as, "type")
}

func SpecConcepts(file *serializables.SchemaFile, fileName string) []Concept {
	return vspec.FilterMap(file.Element, func(e specText) (Concept, bool) {
		return SpecConcept(file.XMLAttrs, fileName, e)
	})
}

func Requires_hydrateAnnotation(file *serializables.SchemaFile) bool { return file != nil }
func Ensures_hydrateAnnotation__role_types(file *serializables.SchemaFile, r Annotation) bool {
	return vspec.Eq(r.RoleTypes, SpecRoleTypes(file))
}

func Requires_hydrateConcepts(file *serializables.SchemaFile, fileName string) bool {
	return file != nil
}
func Ensures_hydrateConcepts__exact(file *serializables.SchemaFile, fileName string, r []Concept) bool {
	return vspec.Eq(r, SpecConcepts(file, fileName))
}

func Ensures_HydrateSchema__faithful(file *serializables.SchemaFile, fileName string, r *Schema, err error) bool {
	if fileName == "" || file == nil {
		return err != nil
	}
	return err == nil && r != nil && r.FileName == fileName &&
		vspec.Eq(r.RoleTypes, SpecRoleTypes(file)) && vspec.Eq(r.Element, SpecConcepts(file, fileName))
}
