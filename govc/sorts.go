package main

import (
	"fmt"
	"go/types"
	"strings"
)

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else if c == '.' {
			b.WriteByte('.')
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func shortQual(p *types.Package) string { return p.Name() }

type sorter struct {
	t     *TermTable
	memo  map[string]*Sort
	stack map[string]bool
	nanon int
}

func isModule(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

// structs of other packages that are modelled as plain records
func plainStruct(n *types.Named) bool {
	if isModule(n.Obj().Pkg()) {
		return !isNode(n)
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	var ok2 func(t types.Type, d int) bool
	ok2 = func(t types.Type, d int) bool {
		if d > 4 {
			return false
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if !f.Exported() || !ok2(f.Type(), d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	return ok2(st, 0)
}

func (x *Ex) sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	key := types.TypeString(t, nil)
	if s, ok := x.sortMemo[key]; ok {
		return s
	}
	if x.sortStack[key] {
		// recursive type that does not pass through a slice
		return x.t.Unint("U." + sanitize(types.TypeString(t, shortQual)))
	}
	x.sortStack[key] = true
	s := x.sortOf1(t)
	delete(x.sortStack, key)
	x.sortMemo[key] = s
	return s
}

func (x *Ex) sortOf1(t types.Type) *Sort {
	tt := x.t
	switch u := t.(type) {
	case *types.Named:
		if st, ok := u.Underlying().(*types.Struct); ok {
			if !plainStruct(u) {
				return tt.Unint("U." + sanitize(types.TypeString(u, shortQual)))
			}
			return x.structSort("S."+sanitize(types.TypeString(u, shortQual)), st)
		}
		if b, ok := u.Underlying().(*types.Basic); ok {
			return x.sortOf(b)
		}
		if _, ok := u.Underlying().(*types.Interface); ok {
			return tt.Any
		}
		return x.sortOf(u.Underlying())
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool
		case u.Info()&types.IsInteger != 0:
			return tt.Int
		case u.Info()&types.IsString != 0:
			return tt.Str
		case u.Info()&types.IsFloat != 0:
			return tt.Flt
		case u.Kind() == types.UntypedNil:
			return tt.Any
		case u.Kind() == types.UnsafePointer:
			return tt.Unint("U.unsafe")
		}
		return tt.Unint("U." + sanitize(u.Name()))
	case *types.Pointer:
		e := x.sortOf(u.Elem())
		return tt.PtrOf(e)
	case *types.Slice:
		return tt.SeqOf(x.elemSort(u.Elem()))
	case *types.Array:
		return tt.SeqOf(x.elemSort(u.Elem()))
	case *types.Map:
		return tt.MapOf(x.sortOf(u.Key()), x.elemSort(u.Elem()))
	case *types.Interface:
		return tt.Any
	case *types.Struct:
		x.nanon++
		return x.structSort(fmt.Sprintf("A%d", x.nanon), u)
	case *types.Signature:
		x.nanon++
		return tt.Unint(fmt.Sprintf("Fn%d", x.nanon))
	case *types.Chan:
		return tt.Unint("U.chan")
	case *types.TypeParam:
		x.unsupported(nil, "type parameter %s", u)
	}
	x.unsupported(nil, "type %s", t)
	return nil
}

// sequences and maps break recursion: their sort is uninterpreted in the
// element sort's declaration order, so a recursive element type is allowed
func (x *Ex) elemSort(t types.Type) *Sort { return x.sortOf(t) }

func (x *Ex) structSort(name string, st *types.Struct) *Sort {
	if s, ok := x.t.sorts[name]; ok {
		return s
	}
	s := &Sort{Name: name, Kind: KStruct}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		s.Fields = append(s.Fields, Field{f.Name(), x.sortOf(f.Type())})
	}
	if len(s.Fields) == 0 {
		s.Fields = append(s.Fields, Field{"_", x.t.Bool})
	}
	return x.t.addSort(s)
}

// zero value of a Go type
func (x *Ex) zero(t types.Type) *Term {
	tt := x.t
	s := x.sortOf(t)
	switch s.Kind {
	case KBool:
		return tt.False
	case KInt:
		return tt.IntLit(0)
	case KPtr:
		return tt.Nil(s)
	case KMap:
		return tt.MapNil(s)
	case KSeq:
		if at, ok := t.Underlying().(*types.Array); ok {
			return tt.MkSeq(tt.IntLit(at.Len()), x.zero(at.Elem()))
		}
		return tt.Empty(s.Elem)
	case KStruct:
		st := t.Underlying().(*types.Struct)
		var args []*Term
		for i := 0; i < st.NumFields(); i++ {
			args = append(args, x.zero(st.Field(i).Type()))
		}
		if len(args) == 0 {
			args = append(args, tt.False)
		}
		return tt.Struct(s, args...)
	}
	switch s {
	case tt.Str:
		return tt.StrLit("")
	case tt.Flt:
		return tt.FltLit("0")
	case tt.Any:
		return tt.Const("nil_any", tt.Any)
	}
	if isNode(t) {
		st := t.Underlying().(*types.Struct)
		var args []*Term
		for i := 0; i < st.NumFields(); i++ {
			args = append(args, x.zero(st.Field(i).Type()))
		}
		return x.mkNode(t, args)
	}
	return tt.Const("zero!"+s.Name, s)
}

// A struct type that contains itself has an uninterpreted sort with a
// constructor and its fields.

func isNode(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok || st.NumFields() > 12 {
		return false
	}
	self := false
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		for {
			switch u := ft.(type) {
			case *types.Pointer:
				ft = u.Elem()
				continue
			case *types.Slice:
				ft = u.Elem()
				continue
			case *types.Map:
				ft = u.Elem()
				continue
			}
			break
		}
		if types.Identical(ft, n) {
			self = true
			continue
		}
		if _, ok := ft.Underlying().(*types.Basic); !ok {
			return false
		}
	}
	return self
}

func (x *Ex) nodeField(v *Term, t types.Type, i int) *Term {
	if v.Op == "mk!"+v.Sort.Name {
		return v.Args[i]
	}
	f := t.Underlying().(*types.Struct).Field(i)
	if v.Op == "ite" && isNode(t) {
		return x.t.Ite(v.Args[0], x.nodeField(v.Args[1], t, i), x.nodeField(v.Args[2], t, i))
	}
	return x.t.App("fld!"+v.Sort.Name+"."+f.Name(), x.sortOf(f.Type()), v)
}

func (x *Ex) nodeFields(v *Term, t types.Type) []*Term {
	var fs []*Term
	for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
		fs = append(fs, x.nodeField(v, t, i))
	}
	return fs
}

func (x *Ex) mkNode(t types.Type, fs []*Term) *Term {
	st := t.Underlying().(*types.Struct)
	s := x.sortOf(t)
	v := x.t.App("mk!"+s.Name, s, fs...)
	if !x.nodeDone[s.Name] {
		x.nodeDone[s.Name] = true
		x.nodeTypes[s.Name] = t
		var vs []*Term
		for i := range fs {
			vs = append(vs, x.t.Const(fmt.Sprintf("mk#%d", i), fs[i].Sort))
		}
		p := x.t.App("mk!"+s.Name, s, vs...)
		body := x.t.True
		for i := range fs {
			body = x.t.And(body, x.t.Eq(x.t.App("fld!"+s.Name+"."+st.Field(i).Name(), fs[i].Sort, p), vs[i]))
		}
		x.fact(x.t.mk("#forall:", x.t.Bool, append(vs, body, p)...))
	}
	return v
}
