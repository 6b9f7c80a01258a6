//go:build verif

package vspec

import (
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// G generates random values.
type G struct {
	*rand.Rand
	Size  int
	Words []string // literals of the code under test
	pool  []string // a few strings shared by one input
	outer string   // the slice field being filled
	wild  bool     // picked strings come in variants as well
}

func NewG(seed int64, size int, words []string) *G {
	g := &G{Rand: rand.New(rand.NewSource(seed)), Size: size, Words: words}
	base := []string{"a", "b", "c", "d", "e"}
	g.wild = g.Intn(12) == 0
	n := 2 + g.Intn(3)
	g.pool = append(g.pool, base[:n]...)
	if len(words) > 0 {
		for i := g.Intn(3); i > 0; i-- {
			g.pool = append(g.pool, words[g.Intn(len(words))])
		}
	}
	return g
}

func (g *G) Pick(ss ...string) string {
	s := ss[g.Intn(len(ss))]
	if g.wild && g.P(8) {
		return g.variant(s)
	}
	return s
}

// Tame makes Pick return the given strings only.
func (g *G) Tame() { g.wild = false }

// variant differs from s in case or in surrounding blanks.
func (g *G) variant(s string) string {
	switch g.Intn(4) {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return strings.ToUpper(s)
	}
	if u := strings.ToLower(s); u != s {
		return u
	}
	return strings.ToUpper(s)
}

func (g *G) P(percent int) bool { return g.Intn(100) < percent }

// Str is a short string, mostly from a pool that is shared by one input.
func (g *G) Str() string {
	switch r := g.Intn(100); {
	case r < 8:
		return ""
	case r < 55:
		return g.pool[g.Intn(len(g.pool))]
	case r < 85 && len(g.Words) > 0:
		return g.Words[g.Intn(len(g.Words))]
	case r < 90:
		return g.Pick("1", "2", "-1", "0", "1.5", "true", "false", "INF", "x")
	case r < 94:
		return g.pool[g.Intn(len(g.pool))] + g.Pick(":", "#", "/", "-", " ", ".") + g.pool[g.Intn(len(g.pool))]
	case r < 96:
		return g.Pick(":", "#", "/") + g.pool[g.Intn(len(g.pool))]
	}
	return g.pool[g.Intn(len(g.pool))] + g.Pick("1", "2", "x")
}

// ID is a non-empty string from the shared pool.
func (g *G) ID() string { return g.pool[g.Intn(len(g.pool))] }

func (g *G) Len() int {
	n := g.Size
	if n > 4 {
		n = 4
	}
	switch g.Intn(6) {
	case 0:
		return 0
	case 1, 2:
		return 1
	}
	return g.Intn(n + 1)
}

const (
	nsXlink  = "http://www.w3.org/1999/xlink"
	nsLink   = "http://www.xbrl.org/2003/linkbase"
	nsXsd    = "http://www.w3.org/2001/XMLSchema"
	nsXbrli  = "http://www.xbrl.org/2003/instance"
	nsXbrldt = "http://xbrl.org/2005/xbrldt"
	nsXbrldi = "http://xbrl.org/2006/xbrldi"
	nsXsi    = "http://www.w3.org/2001/XMLSchema-instance"
)

// Space is a namespace name.
func (g *G) Space() string {
	var urls []string
	for _, w := range g.Words {
		if strings.HasPrefix(w, "http") {
			urls = append(urls, w)
		}
	}
	switch r := g.Intn(100); {
	case r < 45 && len(urls) > 0:
		return urls[g.Intn(len(urls))]
	case r < 30:
		return g.Pick(nsXlink, nsLink, nsXsd, nsXbrli, nsXbrldt, nsXbrldi, nsXsi)
	case r < 40:
		return "xmlns"
	case r < 60:
		return ""
	}
	return g.Str()
}

// AttrValue is a plausible value of a named attribute.
func (g *G) AttrValue(name string) string {
	if g.P(10) {
		return g.Str()
	}
	switch name {
	case "type":
		return g.Pick("arc", "locator", "extended", "resource", "simple", "a:b", "string")
	case "order", "weight", "priority":
		return g.Pick("1", "2", "3", "1.5", "-1", "-2", "0", "x", "1")
	case "closed", "usable", "abstract", "nillable", "nil":
		return g.Pick("true", "false", "1", "0", "bad", "")
	case "decimals", "precision":
		return g.Pick("INF", "0", "2", "-3", "x", "")
	case "lang":
		return g.Pick("en", "en-US", "es", "es-MX", "fr")
	case "href":
		return g.ID() + g.Pick(".xsd#", "#", "") + g.ID()
	case "periodType":
		return g.Pick("instant", "duration")
	case "balance":
		return g.Pick("debit", "credit")
	case "contextElement":
		return g.Pick("segment", "scenario")
	case "typedDomainRef":
		return g.Pick("#"+g.ID(), g.ID()+".xsd#"+g.ID())
	case "dimension":
		return g.Pick(g.ID()+":"+g.ID(), g.ID())
	}
	return g.ID()
}

func attrSpace(g *G, name string) string {
	if g.P(12) {
		return g.Space()
	}
	switch name {
	case "type", "from", "to", "arcrole", "label", "role", "href", "title", "show", "actuate":
		return nsXlink
	case "periodType", "balance":
		return nsXbrli
	case "typedDomainRef", "closed", "usable", "contextElement", "targetRole":
		return nsXbrldt
	case "nil":
		return nsXsi
	case "lang":
		return "http://www.w3.org/XML/1998/namespace"
	}
	return ""
}

var attrNames = []string{"type", "href", "role", "arcrole", "from", "to", "label", "order", "weight", "preferredLabel", "closed", "usable", "contextElement", "targetRole", "id", "name", "substitutionGroup", "abstract", "nillable", "periodType", "balance", "typedDomainRef", "roleURI", "lang", "contextRef", "unitRef", "decimals", "nil", "dimension", "scheme", "xmlns", "targetNamespace", "title"}

// wanted are the attribute names that the code under test mentions.
func (g *G) attrNames() []string {
	var out []string
	for _, n := range attrNames {
		for _, w := range g.Words {
			if w == n {
				out = append(out, n)
				break
			}
		}
	}
	if len(out) == 0 {
		out = attrNames[:8]
	}
	return out
}

// Attrs is an attribute list in which most attributes the code looks for are
// present and plausible.
func (g *G) Attrs() []xml.Attr {
	if g.P(8) {
		return nil
	}
	var out []xml.Attr
	drop := g.Pick("1", "8", "30")
	for _, n := range g.attrNames() {
		if g.P(atoi(drop)) {
			continue
		}
		out = append(out, xml.Attr{Name: xml.Name{Space: attrSpace(g, n), Local: n}, Value: g.AttrValue(n)})
	}
	// one value of the type attribute decides what the element is: make it usual
	kind := g.Pick("arc", "locator", "extended", "")
	if g.P(85) {
		switch {
		case g.outer == "Loc":
			kind = "locator"
		case strings.HasSuffix(g.outer, "Arc"):
			kind = "arc"
		case strings.HasSuffix(g.outer, "Link"):
			kind = "extended"
		}
	}
	for i := range out {
		if out[i].Name.Local == "type" && kind != "" {
			out[i].Value = kind
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		out = append(out, xml.Attr{Name: xml.Name{Space: "xmlns", Local: g.ID()}, Value: g.Str()})
	}
	if g.P(30) {
		out = append(out, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: g.Str()})
	}
	if g.P(15) && len(out) > 0 { // a duplicate local name
		a := out[g.Intn(len(out))]
		a.Value = g.AttrValue(a.Name.Local)
		a.Name.Space = g.Space()
		out = append(out, a)
	}
	if g.P(50) {
		g.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	return out
}

func atoi(s string) int {
	n := 0
	for _, c := range s {
		n = n*10 + int(c-'0')
	}
	return n
}

var attrsType = reflect.TypeOf([]xml.Attr{})
var errType = reflect.TypeOf((*error)(nil)).Elem()

// Fill sets *p to a random value.
func (g *G) Fill(p any) { g.fill(reflect.ValueOf(p).Elem(), 0, "") }

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

func (g *G) fill(v reflect.Value, depth int, name string) {
	v = settable(v)
	if v.Type() == attrsType {
		v.Set(reflect.ValueOf(g.Attrs()))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.P(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.Intn(7) - 1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Kind() == reflect.Uint8 {
			v.SetUint(uint64("abc<&\"' "[g.Intn(8)]))
		} else {
			v.SetUint(uint64(g.Intn(5)))
		}
	case reflect.Float32, reflect.Float64:
		fs := []float64{0, 1, -1, 2, 2.5, -3, 1, 2, 3}
		v.SetFloat(fs[g.Intn(len(fs))])
	case reflect.String:
		switch {
		case strings.HasSuffix(name, "Space"):
			v.SetString(g.Space())
			if g.P(50) {
				switch {
				case g.outer == "RoleRef" || strings.HasSuffix(g.outer, "Link") || strings.HasSuffix(g.outer, "Arc") || g.outer == "Loc" || g.outer == "RoleType" || g.outer == "UsedOn" || g.outer == "Definition":
					v.SetString(nsLink)
				}
			}
		case name == "Href":
			v.SetString(g.AttrValue("href"))
		case name == "Lang":
			v.SetString(g.AttrValue("lang"))
		default:
			v.SetString(g.Str())
		}
	case reflect.Slice:
		if depth > 12 {
			return
		}
		n := g.Len()
		if depth > 6 && n > 2 {
			n = 2
		}
		if n == 0 && g.P(50) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		old := g.outer
		g.outer = name
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), depth+1, name)
		}
		g.outer = old
		v.Set(s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1, name)
		}
	case reflect.Map:
		n := g.Len()
		m := reflect.MakeMap(v.Type())
		for i := 0; i < n; i++ {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(k, depth+1, name)
			g.fill(e, depth+1, name)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Pointer:
		if depth > 12 || g.P(10) && depth > 0 || g.P(4) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		g.fill(p.Elem(), depth+1, name)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if strings.HasPrefix(v.Field(i).Type().PkgPath(), "sync") {
				continue
			}
			g.fill(v.Field(i), depth+1, v.Type().Field(i).Name)
		}
	case reflect.Interface:
		if v.Type() == errType && g.P(40) {
			v.Set(reflect.ValueOf(errors.New("generated")))
		}
	}
}

// Copy is a deep copy; it also copies unexported fields.
func Copy(v reflect.Value) reflect.Value {
	return cp(v, map[unsafe.Pointer]reflect.Value{}, 0)
}

func cp(v reflect.Value, seen map[unsafe.Pointer]reflect.Value, d int) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	if d > 80 {
		return out
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		if q, ok := seen[v.UnsafePointer()]; ok && q.Type() == v.Type() {
			return q
		}
		p := reflect.New(v.Type().Elem())
		seen[v.UnsafePointer()] = p
		set(p.Elem(), cp(v.Elem(), seen, d+1))
		set(out, p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			set(out.Field(i), cp(v.Field(i), seen, d+1))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		s := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			set(s.Index(i), cp(v.Index(i), seen, d+1))
		}
		set(out, s)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			set(out.Index(i), cp(v.Index(i), seen, d+1))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		m := reflect.MakeMap(v.Type())
		it := v.MapRange()
		for it.Next() {
			m.SetMapIndex(readable(it.Key()), cp(it.Value(), seen, d+1))
		}
		set(out, m)
	case reflect.Interface:
		if v.IsNil() {
			return out
		}
		set(out, cp(v.Elem(), seen, d+1))
	default:
		set(out, v)
	}
	return out
}

func readable(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	set(n, v)
	return n
}

func set(dst, src reflect.Value) {
	dst = settable(dst)
	if src.CanInterface() {
		dst.Set(src)
		return
	}
	if src.CanAddr() {
		dst.Set(reflect.NewAt(src.Type(), unsafe.Pointer(src.UnsafeAddr())).Elem())
		return
	}
	switch src.Kind() {
	case reflect.Bool:
		dst.SetBool(src.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		dst.SetInt(src.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		dst.SetUint(src.Uint())
	case reflect.Float32, reflect.Float64:
		dst.SetFloat(src.Float())
	case reflect.String:
		dst.SetString(src.String())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Interface:
		// left zero
	}
}

// ---------------------------------------------------------------- running contracts

type Clause struct {
	Label string
	Fn    any
	Posts []int // parameters whose final value is passed
}

type Case struct {
	Name     string
	Fn       any
	Requires []any
	Ensures  []Clause
	Gen      any // func(*G) (params...)
	Mutable  []int
}

type Failure struct {
	Func   string   `json:"func"`
	Clause string   `json:"clause"`
	Seed   int64    `json:"seed"`
	Size   int      `json:"size"`
	Args   []string `json:"args"`
	Result []string `json:"result"`
	Note   string   `json:"note"`
}

type Stat struct {
	Func     string `json:"func"`
	Runs     int    `json:"runs"`
	Accepted int    `json:"accepted"`
	Distinct int    `json:"distinct"`
}

type Report struct {
	Stats    []Stat    `json:"stats"`
	Failures []Failure `json:"failures"`
	Sample   []string  `json:"sample"`
}

func (c *Case) args(g *G) []reflect.Value {
	ft := reflect.TypeOf(c.Fn)
	if c.Gen != nil {
		return reflect.ValueOf(c.Gen).Call([]reflect.Value{reflect.ValueOf(g)})
	}
	var out []reflect.Value
	for i := 0; i < ft.NumIn(); i++ {
		v := reflect.New(ft.In(i)).Elem()
		g.fill(v, 0, "")
		out = append(out, v)
	}
	return out
}

func callBool(f any, args []reflect.Value) (ok bool, note string) {
	defer func() {
		if r := recover(); r != nil {
			ok, note = false, fmt.Sprintf("the clause panicked: %v", r)
		}
	}()
	return reflect.ValueOf(f).Call(args)[0].Bool(), ""
}

// One runs the case on one generated input.
func (c *Case) One(seed int64, size int, words []string, key *string) (accepted bool, fail *Failure) {
	g := NewG(seed, size, words)
	args := c.args(g)
	pre := make([]reflect.Value, len(args))
	for i := range args {
		pre[i] = Copy(args[i])
	}
	for _, r := range c.Requires {
		if ok, _ := callBool(r, args); !ok {
			return false, nil
		}
	}
	// a clause must not change its arguments for the call
	call := make([]reflect.Value, len(args))
	for i := range args {
		call[i] = Copy(pre[i])
	}
	mk := func(clause, note string, res []reflect.Value) *Failure {
		f := &Failure{Func: c.Name, Clause: clause, Seed: seed, Size: size, Note: note}
		for _, a := range pre {
			f.Args = append(f.Args, Dump(a))
		}
		for _, r := range res {
			f.Result = append(f.Result, Dump(r))
		}
		return f
	}
	var res []reflect.Value
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v", r)
			}
		}()
		fv := reflect.ValueOf(c.Fn)
		if fv.Type().IsVariadic() {
			res = fv.CallSlice(call)
		} else {
			res = fv.Call(call)
		}
		done <- ""
	}()
	select {
	case p := <-done:
		if p != "" {
			return true, mk("no panic", p, nil)
		}
	case <-time.After(10 * time.Second):
		return true, mk("termination", "no result after 10 s", nil)
	}
	mut := map[int]bool{}
	for _, p := range c.Mutable {
		mut[p] = true
	}
	for i := range args {
		switch args[i].Kind() {
		case reflect.Pointer, reflect.Map, reflect.Slice:
			if !mut[i] && !DeepEq(pre[i], call[i], 0) {
				return true, mk(fmt.Sprintf("argument %d is left as it was", i), "after: "+Dump(call[i]), res)
			}
		}
	}
	for _, cl := range c.Ensures {
		var as []reflect.Value
		for i := range pre {
			as = append(as, Copy(pre[i]))
		}
		as = append(as, res...)
		for _, p := range cl.Posts {
			as = append(as, call[p])
		}
		if ok, note := callBool(cl.Fn, as); !ok {
			return true, mk(cl.Label, note, res)
		}
	}
	if key != nil {
		var b strings.Builder
		for _, r := range res {
			b.WriteString(Dump(r))
		}
		*key = b.String()
	}
	return true, nil
}

type Config struct {
	Funcs map[string]FuncCfg `json:"funcs"`
	Seed  int64              `json:"seed"`
	Out   string             `json:"out"`
}

type FuncCfg struct {
	Words []string `json:"words"`
	MS    int      `json:"ms"`
	Runs  int      `json:"runs"`
	// replay of one recorded input
	One      bool  `json:"one"`
	DumpOnly bool  `json:"dumponly"`
	Seed     int64 `json:"seed"`
	Size     int   `json:"size"`
	// postconditions to look at, all when empty
	Clauses []string `json:"clauses"`
}

// Main runs the selected cases and writes a report.
func Main(cases []*Case) {
	data, err := os.ReadFile(os.Getenv("VERIF_CONFIG"))
	if err != nil {
		return
	}
	var cfg Config
	if json.Unmarshal(data, &cfg) != nil {
		return
	}
	debug.SetMaxStack(256 << 20)
	// the input being run, so that a crash of the whole process can be attributed
	cur, _ := os.Create(cfg.Out + ".cur")
	var since atomic.Int64
	since.Store(time.Now().UnixNano())
	go func() {
		for {
			time.Sleep(time.Second)
			if time.Since(time.Unix(0, since.Load())) > 15*time.Second {
				fmt.Fprintln(os.Stderr, "panic: no result after 15 s")
				os.Exit(2)
			}
		}
	}()
	note := func(name string, seed int64, size int) {
		since.Store(time.Now().UnixNano())
		if cur != nil {
			_, _ = cur.WriteAt([]byte(fmt.Sprintf("%-100s %20d %5d\n", name, seed, size)), 0)
		}
	}
	rep := Report{}
	write := func() {
		out, _ := json.MarshalIndent(rep, "", " ")
		_ = os.WriteFile(cfg.Out, out, 0o644)
	}
	for _, c := range cases {
		fc, ok := cfg.Funcs[c.Name]
		if !ok {
			continue
		}
		if len(fc.Clauses) > 0 {
			var keep []Clause
			for _, e := range c.Ensures {
				if Contains(fc.Clauses, e.Label) {
					keep = append(keep, e)
				}
			}
			c.Ensures = keep
		}
		note(c.Name, fc.Seed, fc.Size)
		if fc.DumpOnly {
			g := NewG(fc.Seed, fc.Size, fc.Words)
			f := Failure{Func: c.Name, Seed: fc.Seed, Size: fc.Size}
			for _, a := range c.args(g) {
				f.Args = append(f.Args, Dump(a))
			}
			rep.Failures = append(rep.Failures, f)
			write()
			continue
		}
		if fc.One {
			_, f := c.One(fc.Seed, fc.Size, fc.Words, nil)
			if f != nil {
				rep.Failures = append(rep.Failures, *f)
			}
			rep.Stats = append(rep.Stats, Stat{Func: c.Name, Runs: 1, Accepted: 1})
			write()
			continue
		}
		st := Stat{Func: c.Name}
		end := time.Now().Add(time.Duration(fc.MS) * time.Millisecond)
		seen := map[string]bool{}
		var best *Failure
		misses := 0
		for i := int64(0); (fc.Runs == 0 || st.Runs < fc.Runs) && time.Now().Before(end); i++ {
			size := 1 + int(i%5)
			seed := cfg.Seed*1000003 + i
			st.Runs++
			note(c.Name, seed, size)
			var k string
			acc, f := c.One(seed, size, fc.Words, &k)
			if acc {
				st.Accepted++
			}
			if k != "" && len(seen) < 100000 && !seen[k] {
				seen[k] = true
				if len(rep.Sample) < 6 && len(k) < 400 {
					rep.Sample = append(rep.Sample, c.Name+" -> "+k)
				}
			}
			if f != nil {
				if best == nil || len(strings.Join(f.Args, "")) < len(strings.Join(best.Args, "")) {
					best = f
					misses = 0
				}
				if f.Clause == "termination" {
					break
				}
			}
			if best != nil {
				misses++
				if misses > 300 {
					break
				}
			}
		}
		st.Distinct = len(seen)
		rep.Stats = append(rep.Stats, st)
		if best != nil {
			rep.Failures = append(rep.Failures, *best)
		}
		write()
	}
	write()
}

// Dump prints a value in Go-like syntax.
func Dump(v reflect.Value) string {
	var b strings.Builder
	dump(&b, v, 0)
	return b.String()
}

func dump(b *strings.Builder, v reflect.Value, d int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if d > 14 || b.Len() > 20000 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		dump(b, v.Elem(), d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if e, ok := safeIface(v).(error); ok {
			fmt.Fprintf(b, "error(%q)", e.Error())
			return
		}
		dump(b, v.Elem(), d+1)
	case reflect.Struct:
		b.WriteByte('{')
		n := 0
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			if n > 0 {
				b.WriteString(", ")
			}
			n++
			b.WriteString(v.Type().Field(i).Name + ": ")
			dump(b, v.Field(i), d+1)
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(b, "%q", string(v.Bytes()))
			return
		}
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			dump(b, v.Index(i), d+1)
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			dump(&e, it.Key(), d+1)
			e.WriteString(": ")
			dump(&e, it.Value(), d+1)
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		b.WriteString("map{" + strings.Join(ks, ", ") + "}")
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v.Float())
	default:
		b.WriteString(v.Kind().String())
	}
}
