//go:build verif

package web

import (
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"ecksbee.com/telefacts/internal/vspec"
	"ecksbee.com/telefacts/pkg/cache"
	"github.com/gorilla/mux"
)

// The requests that the handler of a clause is asked.
type genReq struct {
	method, id, hash, query string
}

var genReqs []genReq

func genSite(g *vspec.G) {
	g.Tame()
	slugs := cache.GenHistory(g)
	genReqs = nil
	for n := 1 + g.Intn(5); n > 0; n-- {
		r := genReq{method: g.Pick("GET", "GET", "GET", "GET", "GET", "GET", "POST", "HEAD", "PUT", "DELETE", "get"), id: cache.GenId(g), hash: g.Pick(slugs...)}
		if g.P(6) {
			r.id = ""
		}
		if g.P(6) {
			r.hash = ""
		}
		name, ref := cache.GenFact(g)
		q := url.Values{}
		if !g.P(5) {
			q.Set("name", name)
		}
		if !g.P(5) {
			q.Set("contextref", ref)
		}
		r.query = q.Encode()
		switch {
		case g.P(10):
			r.query = "name=" + name + "&contextref=" + ref
		case g.P(10):
			r.query = g.Pick("name=%zz&contextref=c1", "name=a:p&contextref=%", "name=%25zz&contextref=c1", "name=a:p&contextref=%25", "name=a%253Ap&contextref=c1", ";")
		}
		genReqs = append(genReqs, r)
	}
}

func refServe(h http.HandlerFunc, q genReq) *httptest.ResponseRecorder {
	r := httptest.NewRequest("GET", "/folders/x", nil)
	r.Method = q.method
	r.URL.RawQuery = q.query
	r = mux.SetURLVars(r, map[string]string{"id": q.id, "hash": q.hash})
	w := httptest.NewRecorder()
	h(w, r)
	return w
}

// refAnswer: 200 with the computed bytes, or a server error.
func refAnswer(w *httptest.ResponseRecorder, want []byte, err error) bool {
	if err != nil {
		return w.Code == 500
	}
	return w.Code == 200 && cache.RefSame(w.Body.Bytes(), want)
}

func refRefused(w *httptest.ResponseRecorder, code int) bool {
	return w.Code == code && strings.HasPrefix(w.Body.String(), "Error: ")
}

//vc:bounded
func Ensures_Catalog__status(r func(http.ResponseWriter, *http.Request)) bool {
	for _, q := range genReqs {
		w := refServe(r, q)
		switch {
		case q.method != "GET":
			if !refRefused(w, 500) {
				return false
			}
		case q.id == "":
			if !refRefused(w, 400) {
				return false
			}
		default:
			want, err := cache.RefCatalog(q.id)
			if !refAnswer(w, want, err) {
				return false
			}
		}
	}
	return true
}

//vc:bounded
func Ensures_Renderable__status(r func(http.ResponseWriter, *http.Request)) bool {
	for _, q := range genReqs {
		w := refServe(r, q)
		switch {
		case q.method != "GET":
			if !refRefused(w, 500) {
				return false
			}
		case q.id == "" || q.hash == "":
			if !refRefused(w, 400) {
				return false
			}
		default:
			want, err := cache.RefRenderable(q.id, q.hash)
			if !refAnswer(w, want, err) {
				return false
			}
		}
	}
	return true
}

//vc:bounded
func Ensures_Expressable__status(r func(http.ResponseWriter, *http.Request)) bool {
	for _, q := range genReqs {
		w := refServe(r, q)
		vals, perr := url.ParseQuery(q.query)
		name, e1 := url.QueryUnescape(vals.Get("name"))
		ref, e2 := url.QueryUnescape(vals.Get("contextref"))
		switch {
		case q.method != "GET":
			if !refRefused(w, 500) {
				return false
			}
		case q.id == "":
			if !refRefused(w, 400) {
				return false
			}
		case perr != nil:
			if !refRefused(w, 500) {
				return false
			}
		case e1 != nil || e2 != nil:
			if !refRefused(w, 400) {
				return false
			}
		default:
			want, err := cache.RefExpressable(q.id, name, ref)
			if !refAnswer(w, want, err) {
				return false
			}
		}
	}
	return true
}

// the routes lead to those handlers
//
//vc:bounded
func Ensures_NewRouter__routes(r http.Handler) bool {
	for _, q := range genReqs {
		for _, path := range []string{"/folders/" + q.id, "/folders/" + q.id + "/facts", "/folders/" + q.id + "/" + q.hash} {
			if q.id == "" || q.hash == "" || q.hash == "facts" && !strings.HasSuffix(path, "/facts") {
				continue
			}
			req := httptest.NewRequest("GET", path, nil)
			req.Method = q.method
			req.URL.RawQuery = q.query
			w := httptest.NewRecorder()
			r.ServeHTTP(w, req)
			var want []byte
			var err error
			switch {
			case q.method != "GET":
				if w.Code < 400 {
					return false
				}
				continue
			case path == "/folders/"+q.id:
				want, err = cache.RefCatalog(q.id)
			case strings.HasSuffix(path, "/facts"):
				vals, perr := url.ParseQuery(q.query)
				name, e1 := url.QueryUnescape(vals.Get("name"))
				ref, e2 := url.QueryUnescape(vals.Get("contextref"))
				if perr != nil || e1 != nil || e2 != nil {
					if w.Code < 400 {
						return false
					}
					continue
				}
				want, err = cache.RefExpressable(q.id, name, ref)
			default:
				want, err = cache.RefRenderable(q.id, q.hash)
			}
			if !refAnswer(w, want, err) {
				return false
			}
		}
	}
	return true
}

func Gen_Catalog(g *vspec.G)     { genSite(g) }
func Gen_Renderable(g *vspec.G)  { genSite(g) }
func Gen_Expressable(g *vspec.G) { genSite(g) }
func Gen_NewRouter(g *vspec.G)   { genSite(g) }
