//go:build verif

package hydratables

import (
	"encoding/xml"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/attr"
	"ecksbee.com/telefacts/pkg/serializables"
	"github.com/antchfx/xmlquery"
)

func specXpathAttr(as []xmlquery.Attr, name string) (string, bool) {
	a := attr.SpecFirstXpathAttr(as, name)
	if a == nil {
		return "", false
	}
	return a.Value, true
}

// SpecFactNames: the facts that have a name and a context, by name.
func SpecFactNames(np *attr.NameProvider, m map[string]xml.Name, ns []*xmlquery.Node) map[string]xml.Name {
	return vspec.Fold(m, ns, func(m map[string]xml.Name, n *xmlquery.Node) map[string]xml.Name {
		name, ok := specXpathAttr(n.Attr, "name")
		_, ok2 := specXpathAttr(n.Attr, "contextRef")
		if !ok || !ok2 {
			return m
		}
		x, err := np.ProvideXmlName(name)
		if err != nil {
			return m
		}
		return vspec.Put(m, name, *x)
	})
}

func SpecFactContexts(np *attr.NameProvider, m map[string]bool, ns []*xmlquery.Node) map[string]bool {
	return vspec.Fold(m, ns, func(m map[string]bool, n *xmlquery.Node) map[string]bool {
		name, ok := specXpathAttr(n.Attr, "name")
		ref, ok2 := specXpathAttr(n.Attr, "contextRef")
		if !ok || !ok2 {
			return m
		}
		if _, err := np.ProvideXmlName(name); err != nil {
			return m
		}
		return vspec.Put(m, ref, true)
	})
}

// SpecUnresolved: some fact's name has a prefix that is not declared.
func SpecUnresolved(np *attr.NameProvider, ns []*xmlquery.Node) bool {
	return vspec.Exists(ns, func(n *xmlquery.Node) bool {
		name, ok := specXpathAttr(n.Attr, "name")
		_, ok2 := specXpathAttr(n.Attr, "contextRef")
		if !ok || !ok2 {
			return false
		}
		_, err := np.ProvideXmlName(name)
		return err != nil
	})
}

func Requires_HydrateDocument(folder *serializables.Folder) bool {
	return folder != nil && (folder.Document == nil || folder.Document.Html != nil &&
		vspec.All(folder.Document.NonNumerics, func(n *xmlquery.Node) bool { return n != nil }) &&
		vspec.All(folder.Document.NonFractions, func(n *xmlquery.Node) bool { return n != nil }))
}

func Ensures_HydrateDocument__every_fact(folder *serializables.Folder, r *Document, err error) bool {
	if folder.Document == nil {
		return r == nil && err == nil
	}
	d := folder.Document
	np, e := attr.NewNameProvider(d.Html.Attr)
	if e != nil || SpecUnresolved(np, d.NonNumerics) || SpecUnresolved(np, d.NonFractions) {
		return r == nil && err != nil
	}
	return err == nil && r != nil &&
		vspec.Eq(r.NamespaceMap, SpecFactNames(np, SpecFactNames(np, map[string]xml.Name{}, d.NonNumerics), d.NonFractions)) &&
		vspec.Eq(r.ContextRefMap, SpecFactContexts(np, SpecFactContexts(np, map[string]bool{}, d.NonNumerics), d.NonFractions))
}

func genInlineFact(g *vspec.G) *xmlquery.Node {
	n := &xmlquery.Node{Type: xmlquery.ElementNode}
	add := func(k, v string) {
		n.Attr = append(n.Attr, xmlquery.Attr{Name: xml.Name{Local: k}, Value: v})
	}
	if g.P(30) {
		add(g.Pick("id", "format", "scale"), g.Pick("x", "a:p"))
	}
	if g.P(90) {
		px := g.Pick("a:", "b:", "a:", "b:", "", "zz:")
		if px == "zz:" && g.P(70) {
			px = "a:"
		}
		add("name", px+g.Pick(genLocals...))
	}
	if g.P(90) {
		add("contextRef", g.Pick("c1", "c2", "c3", ""))
	}
	if g.P(10) {
		add(g.Pick("name", "contextRef"), "a:q")
	}
	return n
}

func Gen_HydrateDocument(g *vspec.G) *serializables.Folder {
	if g.P(4) {
		return &serializables.Folder{}
	}
	html := &xmlquery.Node{Type: xmlquery.ElementNode, Data: "html"}
	for _, p := range []string{"a", "b", "c"} {
		if g.P(85) {
			html.Attr = append(html.Attr, xmlquery.Attr{Name: xml.Name{Space: "xmlns", Local: p}, Value: g.Pick(genSpaces...), NamespaceURI: "xmlns"})
		}
	}
	d := &serializables.Document{Html: html}
	for i := g.Len(); i > 0; i-- {
		d.NonNumerics = append(d.NonNumerics, genInlineFact(g))
	}
	for i := g.Len(); i > 0; i-- {
		d.NonFractions = append(d.NonFractions, genInlineFact(g))
	}
	return &serializables.Folder{Document: d}
}
