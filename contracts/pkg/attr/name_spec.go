//go:build verif

package attr

import (
	"encoding/xml"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"github.com/antchfx/xmlquery"
)

// SpecDeclared: the namespace each declared prefix stands for. Of two
// declarations of one prefix the later one counts.
func SpecDeclared(attrs []xmlquery.Attr) map[prefix]space {
	return vspec.Fold(map[prefix]space{}, attrs, func(m map[prefix]space, a xmlquery.Attr) map[prefix]space {
		if a.NamespaceURI != "xmlns" {
			return m
		}
		return vspec.Put(m, prefix(a.Name.Local), space(a.Value))
	})
}

func Ensures_processPrefixes__declared(attrs []xmlquery.Attr, origin map[prefix]space, target map[prefix]prefix) bool {
	return vspec.Eq(origin, SpecDeclared(attrs))
}

func Requires_toChar(i int) bool                { return i >= 0 }
func Ensures_toChar__some(i int, r string) bool { return len(r) > 0 }

func Ensures_NewNameProvider__declared(attrs []xmlquery.Attr, r *NameProvider, err error) bool {
	return err == nil && r != nil && vspec.Eq(r.originPrefixes, SpecDeclared(attrs))
}

// Every declared prefix has an output prefix; two of them have the same one
// exactly if they stand for the same namespace.
//
//vc:bounded
func Ensures_NewNameProvider__unambiguous(attrs []xmlquery.Attr, r *NameProvider, err error) bool {
	declared := SpecDeclared(attrs)
	for p, s := range declared {
		for q, t := range declared {
			a, b := r.ProvideName(string(s), "n"), r.ProvideName(string(t), "n")
			if (s == t) != (a == b) {
				return false
			}
			if r.ProvideConceptName(string(p)+":n") == r.ProvideConceptName(string(q)+":n") != (s == t) {
				return false
			}
		}
		a := r.ProvideName(string(s), "n")
		if a != "n" && !strings.HasSuffix(a, ":n") {
			return false
		}
		if strings.TrimPrefix(r.ProvideConceptName(string(p)+":n"), ":") != a {
			return false
		}
		if x, err := r.ProvideXmlName(string(p) + ":n"); err != nil || x.Space != string(s) || x.Local != "n" {
			return false
		}
	}
	return true
}

// The namespaces of the vocabulary keep their customary prefixes.
//
//vc:bounded
func Ensures_NewNameProvider__customary(attrs []xmlquery.Attr, r *NameProvider, err error) bool {
	want := map[string]string{XBRLI: "n", XBRLDI: "xbrldi:n", XLINK: "xlink:n", XSI: "xsi:n", ISO4217: "iso4217:n", LINK: "link:n"}
	for _, s := range SpecDeclared(attrs) {
		if w, ok := want[string(s)]; ok && r.ProvideName(string(s), "n") != w {
			return false
		}
	}
	return true
}

func Gen_NewNameProvider(g *vspec.G) []xmlquery.Attr { return genDeclarations(g) }

func genDeclarations(g *vspec.G) []xmlquery.Attr {
	n := g.Intn(7)
	if g.Intn(8) == 0 {
		n = 20 + g.Intn(60)
	}
	ps := []string{"a", "b", "link", "xlink", "xlink-a", "link-a", "link-b", "a-a", "xsi"}
	us := []string{"urn:1", "urn:2", "urn:3", XLINK, LINK, XBRLI, ISO4217, "urn:4"}
	if n > 10 {
		for i := 0; i < 26; i++ {
			ps = append(ps, "link-"+string(rune('a'+i)))
		}
		for i := 0; i < 60; i++ {
			us = append(us, "urn:"+string(rune('a'+i%26))+string(rune('a'+i/26)))
		}
	}
	if g.Intn(30) == 0 {
		// one prefix for many namespaces
		n, ps, us = 110, []string{g.Pick(ps...)}, nil
		for i := 0; i < n; i++ {
			us = append(us, "urn:"+string(rune('a'+i%26))+string(rune('a'+i/26)))
		}
	}
	var out []xmlquery.Attr
	for i := 0; i < n; i++ {
		p := g.Pick(ps...)
		a := xmlquery.Attr{Name: xml.Name{Space: "xmlns", Local: p}, Value: us[(i+g.Intn(2)*g.Intn(len(us)))%len(us)], NamespaceURI: "xmlns"}
		if g.Intn(6) == 0 {
			a.NamespaceURI = g.Pick("", "urn:1")
		}
		out = append(out, a)
	}
	return out
}

func Requires_NameProvider_ProvideXmlName(np *NameProvider, prefixed string) bool { return np != nil }
func Ensures_NameProvider_ProvideXmlName__declared(np *NameProvider, prefixed string, r *xml.Name, err error) bool {
	p, local, found := strings.Cut(prefixed, ":")
	if !found {
		return err == nil && r != nil && *r == xml.Name{Local: prefixed}
	}
	s, ok := np.originPrefixes[prefix(p)]
	if !ok {
		return r == nil && err != nil
	}
	return err == nil && r != nil && *r == xml.Name{Space: string(s), Local: local}
}

func genProvider(g *vspec.G) *NameProvider {
	np, _ := NewNameProvider(genDeclarations(g))
	return np
}

func Gen_NameProvider_ProvideXmlName(g *vspec.G) (*NameProvider, string) {
	return genProvider(g), g.Pick("a", "b", "link", "xlink-a", "zz", "") + g.Pick("", ":", ":x", ":x:y")
}

func Requires_NameProvider_ProvideConceptName(np *NameProvider, prefixed string) bool {
	if np == nil {
		return false
	}
	p, _, found := strings.Cut(prefixed, ":")
	if !found {
		return true
	}
	_, ok := np.originPrefixes[prefix(p)]
	_, ok2 := np.targetPrefixes[prefix(p)]
	return ok && ok2
}
func Ensures_NameProvider_ProvideConceptName__output(np *NameProvider, prefixed string, r string) bool {
	i := strings.Index(prefixed, ":")
	if i < 0 {
		return r == prefixed
	}
	return r == string(np.targetPrefixes[prefix(prefixed[:i])])+prefixed[i:]
}

func Gen_NameProvider_ProvideConceptName(g *vspec.G) (*NameProvider, string) {
	return Gen_NameProvider_ProvideXmlName(g)
}

func Requires_NameProvider_ProvideName(np *NameProvider, ns string, local string) bool {
	return np != nil
}
func Ensures_NameProvider_ProvideName__output(np *NameProvider, ns string, local string, r string) bool {
	return vspec.SomeOrder(np.originPrefixes, func(es []vspec.Entry[prefix, space]) bool {
		i := vspec.Find(es, func(e vspec.Entry[prefix, space]) bool { return e.Val == space(ns) })
		if i < 0 || np.targetPrefixes[es[i].Key] == "" {
			return r == local
		}
		return r == string(np.targetPrefixes[es[i].Key])+":"+local
	})
}

func Gen_NameProvider_ProvideName(g *vspec.G) (*NameProvider, string, string) {
	return genProvider(g), g.Pick("urn:1", "urn:2", "urn:9", XBRLI, LINK), g.Pick("x", "")
}
