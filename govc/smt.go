package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Script construction ---------------------------------------------------

type Script struct {
	t       *TermTable
	b       bytes.Buffer
	defined map[int]string
}

func (t *TermTable) sortDecls(b *bytes.Buffer) {
	for _, s := range t.order {
		if s.Kind == KUnint || s.Kind == KSeq {
			fmt.Fprintf(b, "(declare-sort %s 0)\n", s.Name)
		}
	}
	done := map[string]bool{}
	var visit func(s *Sort)
	visit = func(s *Sort) {
		if s == nil || done[s.Name] {
			return
		}
		done[s.Name] = true
		switch s.Kind {
		case KStruct:
			for _, f := range s.Fields {
				visit(f.Sort)
			}
			fmt.Fprintf(b, "(declare-datatypes ((%s 0)) (((%s", s.Name, sym("mk:"+s.Name))
			for i, f := range s.Fields {
				fmt.Fprintf(b, " (%s %s)", sym(selName(s, i)), f.Sort.Name)
			}
			b.WriteString("))))\n")
		case KPtr, KOpt:
			visit(s.Elem)
			fmt.Fprintf(b, "(declare-datatypes ((%s 0)) (((%s) (%s (%s %s)))))\n", s.Name, sym("nil:"+s.Name), sym("some:"+s.Name), sym("val:"+s.Name), s.Elem.Name)
		case KMap:
			o := t.sorts["Opt_"+s.Elem.Name]
			visit(s.Key)
			visit(o)
			fmt.Fprintf(b, "(declare-datatypes ((%s 0)) (((%s (%s Bool) (%s (Array %s %s))))))\n", s.Name, sym("mkmap:"+s.Name), sym("mapnil:"+s.Name), sym("maparr:"+s.Name), s.Key.Name, o.Name)
		case KArr:
			visit(s.Key)
			visit(s.Elem)
		}
	}
	for _, s := range t.order {
		visit(s)
	}
}

func (t *TermTable) axioms(b *bytes.Buffer) {
	// strings
	var names []string
	for _, l := range t.strlits {
		fmt.Fprintf(b, "(declare-fun str!%d () Str) ; %q\n", l.ID, l.SVal)
		names = append(names, fmt.Sprintf("str!%d", l.ID))
	}
	if len(names) > 1 {
		fmt.Fprintf(b, "(assert (distinct %s))\n", strings.Join(names, " "))
	}
	var fl []string
	for _, k := range sortedKeys(t.fltlits) {
		fl = append(fl, sym(t.fltlits[k].Op))
	}
	if len(fl) > 1 {
		fmt.Fprintf(b, "(assert (distinct %s))\n", strings.Join(fl, " "))
	}
	has := func(n string) bool { _, ok := t.decls[n]; return ok }
	if has("strlen") {
		b.WriteString("(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))\n")
		for _, l := range t.strlits {
			fmt.Fprintf(b, "(assert (= (strlen str!%d) %d))\n", l.ID, len(l.SVal))
			if l.SVal == "" {
				fmt.Fprintf(b, "(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s str!%d)) :pattern ((strlen s)))))\n", l.ID)
			}
		}
		if has("strcat") {
			b.WriteString("(assert (forall ((a Str) (b Str)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))\n")
		}
		if has("substr") {
			b.WriteString("(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (strlen s))) (= (strlen (substr s i j)) (- j i))) :pattern ((substr s i j)))))\n")
			b.WriteString("(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (= i 0) (= j (strlen s))) (= (substr s i j) s)) :pattern ((substr s i j)))))\n")
		}
		for _, f := range []string{"strindex", "strlastindex"} {
			if has(f) {
				fmt.Fprintf(b, "(assert (forall ((s Str) (x Str)) (! (and (>= (%s s x) (- 1)) (=> (>= (%s s x) 0) (<= (+ (%s s x) (strlen x)) (strlen s)))) :pattern ((%s s x)))))\n", f, f, f, f)
			}
		}
		if has("strindex") && has("strlastindex") {
			b.WriteString("(assert (forall ((s Str) (x Str)) (! (= (>= (strindex s x) 0) (>= (strlastindex s x) 0)) :pattern ((strindex s x)) :pattern ((strlastindex s x)))))\n")
		}
	}
	if has("strcat") {
		for _, l := range t.strlits {
			if l.SVal == "" {
				fmt.Fprintf(b, "(assert (forall ((a Str) (b Str)) (! (and (=> (= a str!%d) (= (strcat a b) b)) (=> (= b str!%d) (= (strcat a b) a))) :pattern ((strcat a b)))))\n", l.ID, l.ID)
			}
		}
	}
	for _, p := range [][2]string{{"strlt", "Str"}, {"fltlt", "Flt"}} {
		if !has(p[0]) {
			continue
		}
		f, so := p[0], p[1]
		fmt.Fprintf(b, "(assert (forall ((a %s) (b %s)) (! (not (and (%s a b) (%s b a))) :pattern ((%s a b)))))\n", so, so, f, f, f)
		fmt.Fprintf(b, "(assert (forall ((a %s)) (! (not (%s a a)) :pattern ((%s a a)))))\n", so, f, f)
		if so == "Str" {
			fmt.Fprintf(b, "(assert (forall ((a %s) (b %s)) (! (or (%s a b) (%s b a) (= a b)) :pattern ((%s a b)))))\n", so, so, f, f, f)
		}
	}
	if has("bytes2str") && has("str2bytes") {
		b.WriteString("(assert (forall ((s Str)) (! (= (bytes2str (str2bytes s)) s) :pattern ((str2bytes s)))))\n")
	}
	for _, n := range sortedKeys(t.decls) {
		if strings.HasPrefix(n, "box:") && has("un"+n) {
			so := strings.TrimPrefix(n, "box:")
			fmt.Fprintf(b, "(assert (forall ((x %s)) (! (= (%s (%s x)) x) :pattern ((%s x)))))\n", so, sym("un"+n), sym(n), sym(n))
		}
		if strings.HasPrefix(n, "box:") {
			so := strings.TrimPrefix(n, "box:")
			t.declare("nil_any", nil, t.Any)
			fmt.Fprintf(b, "(assert (forall ((x %s)) (! (not (= (%s x) nil_any)) :pattern ((%s x)))))\n", so, sym(n), sym(n))
		}
	}
	for _, e := range sortedKeys(t.useSeq) {
		use := t.useSeq[e]
		if has("contains_" + e) {
			c, S, en := sym("contains_"+e), "Seq_"+e, t.sorts[e].Name
			if use["empty"] {
				fmt.Fprintf(b, "(assert (forall ((v %s)) (! (not (%s %s v)) :pattern ((%s %s v)))))\n", en, c, "empty_"+e, c, "empty_"+e)
			}
			if use["snoc"] {
				fmt.Fprintf(b, "(assert (forall ((s %s) (x %s) (v %s)) (! (= (%s (snoc_%s s x) v) (or (%s s v) (= x v))) :pattern ((%s (snoc_%s s x) v)))))\n", S, en, en, c, e, c, c, e)
			}
			if use["at"] && use["len"] {
				fmt.Fprintf(b, "(assert (forall ((s %s) (i Int)) (! (=> (and (<= 0 i) (< i (len_%s s))) (%s s (at_%s s i))) :pattern ((at_%s s i)))))\n", S, e, c, e, e)
			}
			if use["concat"] {
				fmt.Fprintf(b, "(assert (forall ((s %s) (r %s) (v %s)) (! (= (%s (concat_%s s r) v) (or (%s s v) (%s r v))) :pattern ((%s (concat_%s s r) v)))))\n", S, S, en, c, e, c, c, c, e)
			}
		}
		es := t.sorts[e]
		S := "Seq_" + e
		d := func(op string) string { return op + "_" + e }
		w := func(f string, a ...any) { fmt.Fprintf(b, "(assert "+f+")\n", a...) }
		if !use["len"] && !(use["at"] && use["snoc"]) {
			continue
		}
		t.declare(d("len"), []*Sort{t.sorts[S]}, t.Int)
		L := sym(d("len"))
		w("(forall ((s %s)) (! (>= (%s s) 0) :pattern ((%s s))))", S, L, L)
		if use["empty"] {
			w("(= (%s %s) 0)", L, d("empty"))
			w("(forall ((s %s)) (! (=> (= (%s s) 0) (= s %s)) :pattern ((%s s))))", S, L, d("empty"), L)
		}
		if use["snoc"] {
			w("(forall ((s %s) (x %s)) (! (= (%s (%s s x)) (+ 1 (%s s))) :pattern ((%s s x))))", S, es.Name, L, d("snoc"), L, d("snoc"))
			if use["at"] {
				w("(forall ((s %s) (x %s)) (! (= (%s (%s s x) (%s s)) x) :pattern ((%s s x))))", S, es.Name, d("at"), d("snoc"), L, d("snoc"))
				w("(forall ((s %s) (x %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s s))) (= (%s (%s s x) i) (%s s i))) :pattern ((%s (%s s x) i))))", S, es.Name, L, d("at"), d("snoc"), d("at"), d("at"), d("snoc"))
			}
		}
		if use["concat"] {
			c := d("concat")
			w("(forall ((a %s) (b %s)) (! (= (%s (%s a b)) (+ (%s a) (%s b))) :pattern ((%s a b))))", S, S, L, c, L, L, c)
			if use["empty"] {
				w("(forall ((a %s)) (! (= (%s a %s) a) :pattern ((%s a %s))))", S, c, d("empty"), c, d("empty"))
				w("(forall ((a %s)) (! (= (%s %s a) a) :pattern ((%s %s a))))", S, c, d("empty"), c, d("empty"))
			}
			if use["snoc"] {
				w("(forall ((a %s) (b %s) (x %s)) (! (= (%s a (%s b x)) (%s (%s a b) x)) :pattern ((%s a (%s b x)))))", S, S, es.Name, c, d("snoc"), d("snoc"), c, c, d("snoc"))
			}
			if use["snoc"] && use["empty"] {
				w("(forall ((a %s) (b %s) (x %s)) (! (= (%s (%s a x) b) (%[4]s a (%[4]s (%[5]s %[6]s x) b))) :pattern ((%[4]s (%[5]s a x) b))))", S, S, es.Name, c, d("snoc"), d("empty"))
			}
			w("(forall ((a %s) (b %s) (c %s)) (! (= (%s (%s a b) c) (%s a (%s b c))) :pattern ((%s (%s a b) c))))", S, S, S, c, c, c, c, c, c)
			if use["at"] {
				w("(forall ((a %s) (b %s) (i Int)) (! (=> (and (<= 0 i) (< i (+ (%s a) (%s b)))) (= (%s (%s a b) i) (ite (< i (%s a)) (%s a i) (%s b (- i (%s a)))))) :pattern ((%s (%s a b) i))))", S, S, L, L, d("at"), c, L, d("at"), d("at"), L, d("at"), c)
			}
		}
		if use["upd"] {
			u := d("upd")
			w("(forall ((s %s) (i Int) (x %s)) (! (= (%s (%s s i x)) (%s s)) :pattern ((%s s i x))))", S, es.Name, L, u, L, u)
			w("(forall ((s %s) (i Int) (x %s) (y %[2]s)) (! (= (%s (%[3]s s i x) i y) (%[3]s s i y)) :pattern ((%[3]s (%[3]s s i x) i y))))", S, es.Name, u)
			if use["at"] {
				w("(forall ((s %s) (i Int) (x %s)) (! (=> (and (<= 0 i) (< i (%s s))) (= (%s (%s s i x) i) x)) :pattern ((%s s i x))))", S, es.Name, L, d("at"), u, u)
				w("(forall ((s %s) (i Int) (x %s) (j Int)) (! (=> (not (= i j)) (= (%s (%s s i x) j) (%s s j))) :pattern ((%s (%s s i x) j))))", S, es.Name, d("at"), u, d("at"), d("at"), u)
			}
			if use["take"] {
				w("(forall ((s %s) (i Int) (x %s) (j Int)) (! (=> (and (<= 0 j) (<= j i)) (= (%s (%s s i x) j) (%s s j))) :pattern ((%s (%s s i x) j))))", S, es.Name, d("take"), u, d("take"), d("take"), u)
				w("(forall ((s %s) (i Int) (x %s) (j Int)) (! (=> (and (<= 0 i) (< i (%s s)) (= j (+ i 1))) (= (%s (%s s i x) j) (%s (%s s i) x))) :pattern ((%s (%s s i x) j))))", S, es.Name, d("len"), d("take"), u, d("snoc"), d("take"), d("take"), u)
			}
		}
		if use["take"] {
			tk := d("take")
			w("(forall ((s %s) (n Int)) (! (=> (and (<= 0 n) (<= n (%s s))) (= (%s (%s s n)) n)) :pattern ((%s s n))))", S, L, L, tk, tk)
			w("(forall ((s %s) (n Int)) (! (=> (= n (%s s)) (= (%s s n) s)) :pattern ((%s s n))))", S, L, tk, tk)
			if use["at"] {
				w("(forall ((s %s) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= n (%s s))) (= (%s (%s s n) i) (%s s i))) :pattern ((%s (%s s n) i))))", S, L, d("at"), tk, d("at"), d("at"), tk)
			}
		}
		if use["drop"] {
			dr := d("drop")
			w("(forall ((s %s) (n Int)) (! (=> (and (<= 0 n) (<= n (%s s))) (= (%s (%s s n)) (- (%s s) n))) :pattern ((%s s n))))", S, L, L, dr, L, dr)
			if use["at"] {
				w("(forall ((s %s) (n Int) (i Int)) (! (=> (and (<= 0 i) (<= 0 n) (< (+ i n) (%s s))) (= (%s (%s s n) i) (%s s (+ i n)))) :pattern ((%s (%s s n) i))))", S, L, d("at"), dr, d("at"), d("at"), dr)
			}
		}
		if use["mkseq"] {
			m := d("mkseq")
			w("(forall ((n Int) (x %s)) (! (=> (>= n 0) (= (%s (%s n x)) n)) :pattern ((%s n x))))", es.Name, L, m, m)
			if use["at"] {
				w("(forall ((n Int) (x %s) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (%s (%s n x) i) x)) :pattern ((%s (%s n x) i))))", es.Name, d("at"), m, d("at"), m)
			}
		}
	}
}

func (t *TermTable) NewScript() *Script {
	return &Script{t: t, defined: map[int]string{}}
}

// ref returns the text naming x, emitting definitions for compound subterms.
func (s *Script) ref(x *Term) string {
	if n, ok := s.defined[x.ID]; ok {
		return n
	}
	var text string
	if strings.HasPrefix(x.Op, "#raw:") {
		text = strings.TrimPrefix(x.Op, "#raw:")
		for i := len(x.Args) - 1; i >= 0; i-- {
			text = strings.ReplaceAll(text, fmt.Sprintf("$%d", i), s.ref(x.Args[i]))
		}
	} else if strings.HasPrefix(x.Op, "#forall:") {
		text = s.quantified(x, map[*Term]bool{})
	} else {
		h := s.t.head(x)
		if len(x.Args) == 0 {
			s.defined[x.ID] = h
			return h
		}
		var b strings.Builder
		b.WriteByte('(')
		b.WriteString(h)
		for _, a := range x.Args {
			b.WriteByte(' ')
			b.WriteString(s.ref(a))
		}
		b.WriteByte(')')
		text = b.String()
	}
	n := fmt.Sprintf("t!%d", x.ID)
	fmt.Fprintf(&s.b, "(define-fun %s () %s %s)\n", n, x.Sort.Name, text)
	s.defined[x.ID] = n
	return n
}

// quantified writes a "#forall:": the bound variables, the body, the pattern.
func (s *Script) quantified(x *Term, outer map[*Term]bool) string {
	n := len(x.Args) - 2
	bound := map[*Term]bool{}
	for v := range outer {
		bound[v] = true
	}
	vars := ""
	for _, v := range x.Args[:n] {
		bound[v] = true
		vars += fmt.Sprintf("(%s %s)", s.t.head(v), v.Sort.Name)
	}
	return fmt.Sprintf("(forall (%s) (! %s :pattern (%s)))", vars, s.inline(x.Args[n], bound), s.inline(x.Args[n+1], bound))
}

// inline writes x out as far as it depends on a bound variable.
func (s *Script) inline(x *Term, bound map[*Term]bool) string {
	if !contains(x, bound) {
		return s.ref(x)
	}
	if len(x.Args) == 0 {
		return s.t.head(x)
	}
	if strings.HasPrefix(x.Op, "#raw:") {
		text := strings.TrimPrefix(x.Op, "#raw:")
		for i := len(x.Args) - 1; i >= 0; i-- {
			text = strings.ReplaceAll(text, fmt.Sprintf("$%d", i), s.inline(x.Args[i], bound))
		}
		return text
	}
	if strings.HasPrefix(x.Op, "#forall:") {
		return s.quantified(x, bound)
	}
	var b strings.Builder
	b.WriteString("(" + s.t.head(x))
	for _, a := range x.Args {
		b.WriteString(" " + s.inline(a, bound))
	}
	return b.String() + ")"
}

func (s *Script) assert(x *Term) {
	if x == s.t.True {
		return
	}
	r := s.ref(x)
	fmt.Fprintf(&s.b, "(assert %s)\n", r)
}

// full script text with prelude
func (s *Script) text(opts string) string {
	var p bytes.Buffer
	p.WriteString(opts)
	s.t.sortDecls(&p)
	var ax bytes.Buffer
	s.t.axioms(&ax)
	for _, n := range s.t.dorder {
		p.WriteString(s.t.decls[n])
		p.WriteByte('\n')
	}
	p.Write(ax.Bytes())
	p.Write(s.b.Bytes())
	return p.String()
}

// Solvers ---------------------------------------------------------------

var dumpDir = os.Getenv("GOVC_DUMP")

type solverCfg struct {
	name string
	args []string
	opts func(ms int) string
}

// z3opts limits a query by the work done, about 2000 units in a millisecond,
// so that what is proved does not depend on how busy the machine is.
func z3opts(ms int) string {
	return fmt.Sprintf("(set-option :rlimit %d)\n(set-option :timeout %d)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n", 2000*ms, 4*ms)
}

var solvers = map[string]solverCfg{
	"z3-new": {"z3-new", []string{"-in"}, z3opts},
	"z3":     {"z3", []string{"-in"}, z3opts},
	"cvc5":   {"cvc5", []string{"--incremental", "--lang=smt2"}, func(ms int) string { return fmt.Sprintf("(set-option :tlimit-per %d)\n(set-logic ALL)\n", ms) }},
}

func runSolver(cfg solverCfg, text string, limit time.Duration) ([]string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, cfg.name, cfg.args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	var res []string
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		switch l {
		case "sat", "unsat", "unknown", "timeout":
			res = append(res, l)
		}
	}
	return res, out.String()
}
