//go:build verif

package attr

import (
	"encoding/xml"
	"net/url"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"github.com/antchfx/xmlquery"
)

// FirstAttr is the first attribute with the given local name.
func SpecFirstAttr(attrs []xml.Attr, name string) *xml.Attr {
	i := vspec.Find(attrs, func(a xml.Attr) bool { return a.Name.Local == name })
	if i < 0 {
		return nil
	}
	return &attrs[i]
}

func Ensures_FindAttr__first_match(attrs []xml.Attr, attr string, r *xml.Attr) bool {
	return vspec.Eq(r, SpecFirstAttr(attrs, attr))
}

// SpecFirstXpathAttr is the first attribute of a node with the given local name.
func SpecFirstXpathAttr(attrs []xmlquery.Attr, name string) *xmlquery.Attr {
	i := vspec.Find(attrs, func(a xmlquery.Attr) bool { return a.Name.Local == name })
	if i < 0 {
		return nil
	}
	return &attrs[i]
}

func Ensures_FindXpathAttr__first_match(attrs []xmlquery.Attr, attr string, r *xmlquery.Attr) bool {
	return vspec.Eq(r, SpecFirstXpathAttr(attrs, attr))
}

// SpecNs is the namespace the first declaration xmlns:prefix binds.
func SpecNs(attrs []xml.Attr, prefix string) string {
	i := vspec.Find(attrs, func(a xml.Attr) bool { return a.Name.Space == "xmlns" && a.Name.Local == prefix })
	if i < 0 {
		return ""
	}
	return attrs[i].Value
}

func Ensures_Ns__first_declaration(attrs []xml.Attr, prefix string, r string) bool {
	return r == SpecNs(attrs, prefix)
}

func SpecDefaultNs(attrs []xml.Attr) string {
	a := SpecFirstAttr(attrs, "xmlns")
	if a == nil {
		return ""
	}
	return a.Value
}

// SpecQName resolves a lexical QName: an unprefixed name and a name with an
// unbound prefix take the default namespace; a name without local part is
// empty.
func SpecQName(attrs []xml.Attr, name string) xml.Name {
	prefix, local, found := strings.Cut(name, ":")
	if !found {
		return xml.Name{Space: SpecDefaultNs(attrs), Local: name}
	}
	if local == "" {
		return xml.Name{}
	}
	space := SpecNs(attrs, prefix)
	if space == "" {
		space = SpecDefaultNs(attrs)
	}
	return xml.Name{Space: space, Local: local}
}

func Ensures_Xmlns__qname(attrs []xml.Attr, prefixedName string, r xml.Name) bool {
	return r == SpecQName(attrs, prefixedName)
}

// SpecAbsolute: the text parses as a request target and as a URL that has a
// scheme and a host.
func SpecAbsolute(s string) bool {
	if _, err := url.ParseRequestURI(s); err != nil {
		return false
	}
	u, err := url.Parse(s)
	return err == nil && u.Scheme != "" && u.Host != ""
}

func Ensures_IsValidUrl__absolute(toTest string, r bool) bool { return r == SpecAbsolute(toTest) }

func Gen_IsValidUrl(g *vspec.G) string {
	return g.Pick("", "http", "https", "file", "/", "http:", "a b") + g.Pick("", ":", "://", "//", "/") + g.Pick("", "a.com", "a", ":80", "%zz", "[", "a.com/x#y") + g.Pick("", "/p", "?q", "#f", " ")
}
