//go:build verif

package serializables

import (
	"encoding/json"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"github.com/antchfx/xmlquery"
)

// refLocation is the place of a URL in the store, relative to it: scheme, host
// and path without empty and "." elements. Nothing when it has none.
func refLocation(s string) []string {
	u, err := url.Parse(s)
	if err != nil || u.Scheme == "" {
		return nil
	}
	host := u.Hostname()
	if host == "" || host == "." || host == ".." {
		return nil
	}
	ret := []string{"concepts", u.Scheme, host}
	for _, p := range strings.Split(u.Path, "/") {
		if p == ".." {
			return nil
		}
		if p != "" && p != "." {
			ret = append(ret, p)
		}
	}
	return ret
}

//vc:bounded
func Ensures_UrlToFilename__inside(urlStr string, r string, err error) bool {
	at := refLocation(urlStr)
	if at == nil {
		return err != nil && r == ""
	}
	return err == nil && r == strings.TrimSuffix(filepath.Clean(GlobalTaxonomySetPath), "/")+"/"+strings.Join(at, "/")
}

//vc:bounded
func Ensures_DiscoverGlobalFile__content(urlStr string, r []byte, err error) bool {
	at := refLocation(urlStr)
	if at == nil {
		return err != nil
	}
	want, e := os.ReadFile(GlobalTaxonomySetPath + "/" + strings.Join(at, "/"))
	if e != nil {
		return err != nil && len(r) == 0
	}
	return err == nil && string(r) == string(want)
}

func refMeta(id string) (Underscore, bool) {
	ret := struct{ Entry, Note *string }{}
	b, err := os.ReadFile(filepath.Join(WorkingDirectoryPath, "folders", id, "_"))
	if err != nil || json.Unmarshal(b, &ret) != nil || ret.Entry == nil || ret.Note == nil {
		return Underscore{}, false
	}
	return Underscore{Entry: *ret.Entry, Note: *ret.Note}, true
}

//vc:bounded
func Ensures_NewFolder__found(key string, underscore Underscore, r string, err error) bool {
	if err != nil {
		return true
	}
	meta, ok := refMeta(r)
	entry, e := GetEntryFileName(r)
	if !ok || meta != underscore || e != nil || entry != underscore.Entry {
		return false
	}
	after := genTree()
	if _, old := genBefore["folders/"+r+"/"]; old || len(after) != len(genBefore)+2 {
		return false
	}
	for k, v := range genBefore {
		if w, ok := after[k]; !ok || w != v {
			return false
		}
	}
	return true
}

//vc:bounded
func Ensures_NewFolder__refused(key string, underscore Underscore, r string, err error) bool {
	if _, ok := genBefore["folders/"]; !ok || WorkingDirectoryPath == "" {
		return err != nil
	}
	if key == "" || !genUsed[key] {
		return err == nil
	}
	after := genTree()
	if err == nil || len(after) != len(genBefore) {
		return false
	}
	for k, v := range genBefore {
		if w, ok := after[k]; !ok || w != v {
			return false
		}
	}
	return true
}

//vc:bounded
func Ensures_GetEntryFileName__entry(id string, r string, err error) bool {
	meta, ok := refMeta(id)
	if !ok {
		return err != nil
	}
	return err == nil && r == meta.Entry
}

// refInline is the list of the elements of one name, in document order.
func refInline(n *refNode, space, local string) []*refNode {
	var ret []*refNode
	for _, k := range n.kids {
		if k.space == space && k.local == local {
			ret = append(ret, k)
		}
		ret = append(ret, refInline(k, space, local)...)
	}
	return ret
}

func refNodes(want []*refNode, got []*xmlquery.Node) bool {
	if len(want) != len(got) {
		return false
	}
	for i, w := range want {
		if got[i] == nil || got[i].Data != w.local {
			return false
		}
		for _, name := range []string{"id", "name", "contextRef"} {
			v, ok := w.attr("", name)
			n := 0
			for _, a := range got[i].Attr {
				if a.Name.Local == name {
					n++
					if a.Value != v {
						return false
					}
				}
			}
			if (n == 1) != ok {
				return false
			}
		}
	}
	return true
}

//vc:bounded
func Ensures_DecodeIxbrlFile__facts(xmlData []byte, r *Document) bool {
	root := refRead(strings.NewReader(string(xmlData)), "html")
	if root == nil {
		return r == nil
	}
	return r != nil && r.Html != nil && string(r.Bytes) == string(xmlData) &&
		refNodes(refInline(root, refIx, "nonFraction"), r.NonFractions) && refNodes(refInline(root, refIx, "nonNumeric"), r.NonNumerics)
}
