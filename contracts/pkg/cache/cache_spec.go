//go:build verif

package cache

import (
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/hydratables"
	"ecksbee.com/telefacts/pkg/renderables"
	"ecksbee.com/telefacts/pkg/serializables"
	gocache "github.com/patrickmn/go-cache"
)

// RefLoad is the filing as loaded anew.
func RefLoad(id string) (*hydratables.Hydratable, error) {
	folder, err := serializables.Discover(id)
	if err != nil {
		return nil, err
	}
	h, err := hydratables.Hydrate(folder)
	if err != nil {
		return nil, err
	}
	if h == nil {
		return nil, errors.New("no filing")
	}
	return h, nil
}

func RefCatalog(id string) ([]byte, error) {
	h, err := RefLoad(id)
	if err != nil {
		return nil, err
	}
	return renderables.MarshalCatalog(h)
}

func RefRenderable(id, hash string) ([]byte, error) {
	h, err := RefLoad(id)
	if err != nil {
		return nil, err
	}
	if ext := filepath.Ext(hash); (ext == ".htm" || ext == ".xhtml") && h.Folder.EntryFileName == hash {
		return h.Folder.Document.Bytes, nil
	}
	return renderables.MarshalRenderable(hash, h)
}

func RefExpressable(id, name, contextref string) ([]byte, error) {
	h, err := RefLoad(id)
	if err != nil {
		return nil, err
	}
	return renderables.MarshalExpressable(name, contextref, h)
}

// RefSame: the same bytes, or the same JSON up to the order in which maps are
// listed.
func RefSame(a, b []byte) bool {
	if string(a) == string(b) {
		return true
	}
	var x, y any
	if json.Unmarshal(a, &x) != nil || json.Unmarshal(b, &y) != nil {
		return false
	}
	return refCanon(x) == refCanon(y)
}

func refCanon(v any) string {
	switch u := v.(type) {
	case []any:
		var es []string
		for _, e := range u {
			es = append(es, refCanon(e))
		}
		sort.Strings(es)
		return "[" + strings.Join(es, ",") + "]"
	case map[string]any:
		var es []string
		for k, e := range u {
			es = append(es, fmt.Sprintf("%q:%s", k, refCanon(e)))
		}
		sort.Strings(es)
		return "{" + strings.Join(es, ",") + "}"
	}
	return fmt.Sprintf("%#v", v)
}

func refAnswer(r []byte, err error, want []byte, wantErr error) bool {
	if wantErr != nil {
		return err != nil && len(r) == 0
	}
	return err == nil && RefSame(r, want)
}

//vc:bounded
func Ensures_MarshalCatalog__uncached(id string, r []byte, err error) bool {
	want, e := RefCatalog(id)
	return refAnswer(r, err, want, e)
}

//vc:bounded
func Ensures_MarshalRenderable__uncached(id string, hash string, r []byte, err error) bool {
	want, e := RefRenderable(id, hash)
	return refAnswer(r, err, want, e)
}

//vc:bounded
func Ensures_MarshalExpressable__uncached(id string, name string, contextref string, r []byte, err error) bool {
	want, e := RefExpressable(id, name, contextref)
	return refAnswer(r, err, want, e)
}

// GenSlugs are the identifiers of the networks of the site's filings.
func GenSlugs() []string {
	ret := []string{"e.htm", "i.xml", "nothing", "facts", "e.xhtml", "f.htm", "f.xhtml", "e.htm.xml", "f1", "f2", ""}
	for _, id := range []string{"f1", "f2", "f3"} {
		b, err := RefCatalog(id)
		if err != nil {
			continue
		}
		var c struct{ Networks map[string]map[string]string }
		if json.Unmarshal(b, &c) != nil {
			continue
		}
		for _, m := range c.Networks {
			for _, s := range m {
				ret = append(ret, s, s, s)
			}
		}
	}
	sort.Strings(ret)
	return ret
}

func GenName(g *vspec.G) string {
	return g.Pick("a:p", "a:q", "a:p", "a:q", "a:pc", "a:pc", "a:r", "zz:q", "p", "", "a")
}
func GenRef(g *vspec.G) string { return g.Pick("c1", "c2", "c1", "c2", "1", "1", "p:c1", "C1", "c3", "") }

// GenHistory is a site with a cache that has answered some requests.
func GenHistory(g *vspec.G) []string {
	serializables.GenSite(g)
	c := gocache.New(gocache.NoExpiration, gocache.NoExpiration)
	dry = g.P(10)
	appCache = c
	if dry {
		appCache = nil
	}
	hydratables.InjectCache(c)
	slugs := GenSlugs()
	genId = g.Pick(serializables.GenIds...)
	for n := g.Intn(6); n > 0; n-- {
		GenRequest(g, slugs)
	}
	return slugs
}

// most requests of a history name the same filing
var genId string

func GenId(g *vspec.G) string {
	if g.P(60) {
		return genId
	}
	return g.Pick(serializables.GenIds...)
}

// GenFact names a fact; some of the names and contexts are hard to tell apart
// once they are joined.
func GenFact(g *vspec.G) (string, string) {
	if g.P(40) {
		e := [][2]string{{"a:p", "c1"}, {"a:pc", "1"}, {"a:p:p", "c1"}, {"a:p", "p:c1"}, {"a:p", "C1"}}[g.Intn(5)]
		return e[0], e[1]
	}
	return GenName(g), GenRef(g)
}

func GenRequest(g *vspec.G, slugs []string) {
	base := runtime.NumGoroutine()
	id := GenId(g)
	switch g.Intn(3) {
	case 0:
		_, _ = MarshalCatalog(id)
	case 1:
		_, _ = MarshalRenderable(id, g.Pick(slugs...))
	default:
		name, ref := GenFact(g)
		_, _ = MarshalExpressable(id, name, ref)
	}
	for k := 0; k < 200 && runtime.NumGoroutine() > base; k++ {
		time.Sleep(20 * time.Microsecond)
	}
}

func Gen_MarshalCatalog(g *vspec.G) string {
	GenHistory(g)
	return GenId(g)
}

func Gen_MarshalRenderable(g *vspec.G) (string, string) {
	slugs := GenHistory(g)
	return GenId(g), g.Pick(slugs...)
}

func Gen_MarshalExpressable(g *vspec.G) (string, string, string) {
	GenHistory(g)
	name, ref := GenFact(g)
	return GenId(g), name, ref
}
