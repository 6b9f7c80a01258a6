//go:build verif

package serializables

import (
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"golang.org/x/net/html"
)

// An independent reading of the files of a filing.

type refNode struct {
	space, local string
	attrs        []xml.Attr
	kids         []*refNode
}

func (n *refNode) attr(space, local string) (string, bool) {
	for _, a := range n.attrs {
		if a.Name.Local == local && a.Name.Space == space {
			return a.Value, true
		}
	}
	return "", false
}

func (n *refNode) named(space, local string) []*refNode {
	var ret []*refNode
	for _, k := range n.kids {
		if k.space == space && k.local == local {
			ret = append(ret, k)
		}
	}
	return ret
}

// refParse reads the root element of a file; nil when it is missing, broken
// or another element.
func refParse(path, root string) *refNode {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	return refRead(f, root)
}

func refRead(r io.Reader, root string) *refNode {
	d := xml.NewDecoder(r)
	var stack []*refNode
	for {
		t, err := d.Token()
		if err != nil {
			return nil
		}
		switch u := t.(type) {
		case xml.StartElement:
			n := &refNode{space: u.Name.Space, local: u.Name.Local, attrs: u.Copy().Attr}
			if len(stack) > 0 {
				top := stack[len(stack)-1]
				top.kids = append(top.kids, n)
			}
			stack = append(stack, n)
		case xml.EndElement:
			if len(stack) == 1 {
				if stack[0].local != root {
					return nil
				}
				return stack[0]
			}
			stack = stack[:len(stack)-1]
		}
	}
}

const (
	refXsd   = "http://www.w3.org/2001/XMLSchema"
	refLink  = "http://www.xbrl.org/2003/linkbase"
	refXlink = "http://www.w3.org/1999/xlink"
	refIx    = "http://www.xbrl.org/2013/inlineXBRL"
	refXbrli = "http://www.xbrl.org/2003/instance"
)

func refRemote(s string) bool {
	u, err := url.Parse(s)
	return err == nil && u.Scheme != "" && u.Host != ""
}

type refFiling struct {
	dir        string
	entry      string
	instance   string                     // name of the instance file
	ok         bool                       // the entry files can be read
	schemas    map[string]bool            // local schemas that are referred to
	links      map[string]map[string]bool // category -> linkbases
	namespaces map[string]map[string]bool // namespace -> locations
	images     map[string]string
}

func refFolder(id string) *refFiling {
	dir := filepath.Join(WorkingDirectoryPath, "folders", id)
	f := &refFiling{dir: dir, schemas: map[string]bool{}, links: map[string]map[string]bool{}, namespaces: map[string]map[string]bool{}, images: map[string]string{}}
	b, err := os.ReadFile(filepath.Join(dir, "_"))
	if err != nil {
		return f
	}
	meta := map[string]string{}
	if json.Unmarshal(b, &meta) != nil {
		return f
	}
	f.entry = meta["Entry"]
	f.instance = f.entry
	if strings.HasSuffix(f.entry, "htm") || strings.HasSuffix(f.entry, "xhtml") {
		f.instance = f.entry + ".xml"
		if refParse(filepath.Join(dir, f.entry), "html") == nil {
			return f
		}
	}
	inst := refParse(filepath.Join(dir, f.instance), "xbrl")
	if inst == nil {
		return f
	}
	f.ok = true
	for _, r := range inst.named(refLink, "schemaRef") {
		href, _ := r.attr(refXlink, "href")
		f.schema(href, "")
	}
	list, _ := os.ReadDir(dir)
	for _, e := range list {
		if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err == nil {
			kind := ""
			if strings.HasPrefix(string(b), "\xff\xd8\xff") {
				kind = "image/jpeg"
			} else if strings.HasPrefix(string(b), "\x89PNG\r\n\x1a\n") {
				kind = "image/png"
			}
			if kind != "" {
				f.images[e.Name()] = "data:" + kind + ";base64," + base64.StdEncoding.EncodeToString(b)
			}
		}
	}
	return f
}

func (f *refFiling) namespace(ns, at string) {
	if f.namespaces[ns] == nil {
		f.namespaces[ns] = map[string]bool{}
	}
	f.namespaces[ns][at] = true
}

// schema follows a reference to a schema; an import states the namespace, for
// the other references it is the one the schema defines.
func (f *refFiling) schema(at, imported string) {
	if at == "" {
		return
	}
	if imported != "" {
		f.namespace(imported, at)
	}
	if refRemote(at) {
		return
	}
	n := refParse(filepath.Join(f.dir, at), "schema")
	if n == nil {
		return
	}
	if imported == "" {
		ns, _ := n.attr("", "targetNamespace")
		if ns == "" {
			return
		}
		f.namespace(ns, at)
	}
	if f.schemas[at] {
		return
	}
	f.schemas[at] = true
	for _, k := range n.named(refXsd, "import") {
		ns, _ := k.attr("", "namespace")
		loc, _ := k.attr("", "schemaLocation")
		if ns != "" {
			f.schema(loc, ns)
		}
	}
	for _, k := range n.named(refXsd, "include") {
		loc, _ := k.attr("", "schemaLocation")
		f.schema(loc, "")
	}
	for _, a := range n.named(refXsd, "annotation") {
		for _, b := range a.named(refXsd, "appinfo") {
			for _, r := range b.named(refLink, "linkbaseRef") {
				role, _ := r.attr(refXlink, "role")
				href, _ := r.attr(refXlink, "href")
				kind := strings.TrimSuffix(strings.TrimPrefix(role, "http://www.xbrl.org/2003/role/"), "LinkbaseRef")
				if href == "" || refRemote(href) || refParse(filepath.Join(f.dir, href), "linkbase") == nil {
					continue
				}
				if f.links[kind] == nil {
					f.links[kind] = map[string]bool{}
				}
				f.links[kind][href] = true
			}
		}
	}
}

// refSame: the map holds exactly the named files, each with its own content.
func refSame[T any](f *refFiling, names map[string]bool, m map[string]T) bool {
	if len(m) != len(names) {
		return false
	}
	for n := range names {
		v, ok := m[n]
		if !ok {
			return false
		}
		b, err := os.ReadFile(filepath.Join(f.dir, n))
		if err != nil {
			return false
		}
		var want T
		if xml.Unmarshal(b, &want) != nil || !reflect.DeepEqual(v, want) {
			return false
		}
	}
	return true
}

//vc:bounded
func Ensures_Discover__instance(id string, r *Folder, err error) bool {
	f := refFolder(id)
	if !f.ok {
		return err != nil
	}
	return err == nil && r != nil && r.EntryFileName == f.entry && r.Dir == f.dir &&
		refSame(f, map[string]bool{f.instance: true}, r.Instances) && (r.Document != nil) == (f.instance != f.entry)
}

//vc:bounded
func Ensures_Discover__schemas(id string, r *Folder, err error) bool {
	f := refFolder(id)
	return !f.ok || r != nil && refSame(f, f.schemas, r.Schemas)
}

//vc:bounded
func Ensures_Discover__linkbases(id string, r *Folder, err error) bool {
	f := refFolder(id)
	return !f.ok || r != nil && refSame(f, f.links["presentation"], r.PresentationLinkbases) && refSame(f, f.links["definition"], r.DefinitionLinkbases) &&
		refSame(f, f.links["calculation"], r.CalculationLinkbases) && refSame(f, f.links["label"], r.LabelLinkbases)
}

//vc:bounded
func Ensures_Discover__namespaces(id string, r *Folder, err error) bool {
	f := refFolder(id)
	if !f.ok {
		return true
	}
	if r == nil || len(r.Namespaces) != len(f.namespaces) {
		return false
	}
	for ns, at := range f.namespaces {
		if got, ok := r.Namespaces[ns]; !ok || !at[got] {
			return false
		}
	}
	return true
}

//vc:bounded
func Ensures_Discover__images(id string, r *Folder, err error) bool {
	f := refFolder(id)
	if !f.ok {
		return true
	}
	if r == nil || !reflect.DeepEqual(f.images, r.Images) {
		return false
	}
	if f.instance == f.entry {
		return true
	}
	src, e := os.ReadFile(filepath.Join(f.dir, f.entry))
	return e == nil && r.Document != nil && refImages(src, f.images, r.Document.Bytes)
}

// refImages: the two documents are the same but for the sources of the
// images, which are the data of the file that the source names.
func refImages(src []byte, images map[string]string, out []byte) bool {
	a, err := html.Parse(strings.NewReader(string(src)))
	b, err2 := html.Parse(strings.NewReader(string(out)))
	return err == nil && err2 == nil && refTreeSame(a, b, images)
}

func refTreeSame(a, b *html.Node, images map[string]string) bool {
	if a == nil || b == nil {
		return a == b
	}
	if a.Type != b.Type || a.Data != b.Data || a.Namespace != b.Namespace || len(a.Attr) != len(b.Attr) {
		return false
	}
	for i, x := range a.Attr {
		want := x.Val
		if a.Type == html.ElementNode && a.Data == "img" && x.Key == "src" {
			parts := strings.Split(x.Val, "/")
			if d, ok := images[parts[len(parts)-1]]; ok {
				want = d
			}
		}
		if b.Attr[i].Key != x.Key || b.Attr[i].Namespace != x.Namespace || b.Attr[i].Val != want {
			return false
		}
	}
	return refTreeSame(a.FirstChild, b.FirstChild, images) && refTreeSame(a.NextSibling, b.NextSibling, images)
}

//vc:bounded
func Ensures_TransformInlineImages__images(src []byte, images map[string]string, r []byte) bool {
	return refImages(src, images, r)
}
