package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A harness keeps its values in registers of the root frame, so that joins
// and refinements treat them like any other live value.

func (m *Machine) slot(name string) ssa.Value {
	if v, ok := m.slots[name]; ok {
		return v
	}
	v := ssa.NewConst(constant.MakeString(name), types.Typ[types.String])
	m.slots[name] = v
	return v
}

func (m *Machine) hold(st *State, name string, v *Val) { st.setReg(m.slot(name), v) }

func (m *Machine) held(st *State, name string) *Val { return st.frames[0].regs[m.slot(name)] }

// as gives allocations made inside f their own identity.
func (m *Machine) as(tag string, f func()) {
	c := uint64(0)
	if len(m.ctx) > 0 {
		c = m.ctx[len(m.ctx)-1]
	}
	m.ctx = append(m.ctx, uint64(hashID("tag", c, tag)))
	defer func() { m.ctx = m.ctx[:len(m.ctx)-1] }()
	f()
}

// inputObj allocates a caller-owned object.
func (m *Machine) inputObj(st *State, name string, v *Val, t types.Type) *Val {
	id := hashID("input", name)
	st.put(id, &Obj{ID: id, T: t, V: v, Site: "input " + name, Own: "input"})
	return &Val{K: KPtr, Refs: []Ref{{Obj: id}}, T: types.NewPointer(t)}
}

// ctorOf finds the constructor New<T> of a type.
func (p *Program) ctorOf(t *types.Named) *ssa.Function {
	sp := p.Prog.Package(t.Obj().Pkg())
	if sp == nil {
		return nil
	}
	f := sp.Func("New" + t.Obj().Name())
	if f == nil {
		f = sp.Func("New" + strings.TrimSuffix(t.Obj().Name(), "Impl"))
	}
	if f == nil || f.Signature.Results().Len() < 1 || f.Signature.Results().Len() > 2 {
		return nil
	}
	if f.Signature.Results().Len() == 2 && errResult(f.Signature) != 1 {
		return nil
	}
	if pt, ok := f.Signature.Results().At(0).Type().(*types.Pointer); !ok || !types.Identical(pt.Elem(), t) {
		return nil
	}
	return f
}

// implOf picks a concrete type for an interface-typed argument; hint is the
// attribute the argument is for.
func (p *Program) implOf(t types.Type, hint string) *types.Named {
	it, ok := t.Underlying().(*types.Interface)
	if !ok || it.NumMethods() == 0 {
		return nil
	}
	score := func(n string) int {
		n, hint := strings.ToLower(n), strings.ToLower(hint)
		switch {
		case n == "sipuriimpl" || n == "addressimpl":
			return 1
		case hint == "":
		case n == hint:
			return 3
		case strings.HasSuffix(hint, n):
			return 2
		}
		return 0
	}
	for _, short := range []string{"sip/address", "core", "sip/header", "sip/message"} {
		var best *types.Named
		for _, n := range p.typesIn(short) {
			if types.Implements(types.NewPointer(n), it) && p.ctorOf(n) != nil {
				if best == nil || score(n.Obj().Name()) > score(best.Obj().Name()) {
					best = n
				}
			}
		}
		if best != nil {
			return best
		}
	}
	return nil
}

// newObj builds a fresh object of a type in every state its constructor ends
// in; arguments of the constructor are arbitrary.
func (p *Program) newObj(m *Machine, st *State, t *types.Named, tag string) []Result {
	c := p.ctorOf(t)
	if c == nil {
		return []Result{{st, m.inputObj(st, tag, m.zeroVal(t), t)}}
	}
	var args []*Val
	for i := 0; i < c.Signature.Params().Len(); i++ {
		st2, v := p.argFor(m, st, c.Signature.Params().At(i).Type(), fmt.Sprint(tag, ".arg", i))
		st = st2
		args = append(args, v)
	}
	var rs []Result
	m.as(tag, func() { rs = m.do(st, c, args...) })
	var out []Result
	for _, r := range rs {
		if c.Signature.Results().Len() == 2 {
			if !succeeded(c.Signature, r.ret) {
				continue
			}
			r.ret = pick(r.ret, 2, 0)
		}
		if !r.ret.definitelyNil() {
			out = append(out, r)
		}
	}
	return out
}

// argFor makes an arbitrary argument of a type. Strings are non-empty.
func (p *Program) argFor(m *Machine, st *State, t types.Type, tag string) (*State, *Val) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			if rs := p.newObj(m, st, n, tag); len(rs) > 0 {
				return rs[0].st, rs[0].ret
			}
		}
		if isListType(u.Elem()) {
			id := hashID("input", tag)
			el := &Val{K: KIface, Alts: []Alt{{types.Typ[types.String], m.strLen(m.newNum(st, 1, maxLen))}}}
			st.put(id, &Obj{ID: id, T: u.Elem(), V: &Val{K: KList, N: cnum(1), El: []*Val{el}}, Site: "input " + tag, Own: "input"})
			return st, &Val{K: KPtr, Refs: []Ref{{Obj: id}}, T: t}
		}
		if isTimePtr(t) {
			return st, m.inputObj(st, tag, &Val{K: KOpaque, T: u.Elem(), At: []Atom{{Op: "sym", Sym: m.rawSym()}}}, u.Elem())
		}
		return st, m.inputObj(st, tag, m.topVal(st, u.Elem()), u.Elem())
	case *types.Interface:
		_, hint, _ := strings.Cut(tag, ":")
		if u.NumMethods() == 0 {
			return st, &Val{K: KIface, Alts: []Alt{{types.Typ[types.String], m.strLen(m.newNum(st, 1, maxLen))}}}
		}
		if n := p.implOf(t, hint); n != nil {
			if rs := p.newObj(m, st, n, tag); len(rs) > 0 {
				return rs[0].st, &Val{K: KIface, Alts: []Alt{{types.NewPointer(n), rs[0].ret}}}
			}
		}
	case *types.Slice:
		id := hashID("input", tag)
		n := m.newLen(st)
		arr := &Val{K: KArr, Smash: m.topVal(st, u.Elem())}
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			arr.At = []Atom{{Op: "sym", Sym: m.rawSym()}}
		}
		st.put(id, &Obj{ID: id, V: arr, Site: "input " + tag, Own: "input"})
		return st, &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: n, Off: cnum(0), At: arr.At, T: t}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return st, m.strLen(m.newNum(st, 1, maxLen))
		}
		if v := m.topVal(st, t); m.natural && v.K == KNum {
			st.cons.add(cnum(0), v.N)
			return st, v
		}
	}
	return st, m.topVal(st, t)
}

// same reports whether two values are certainly the same.
func same(st *State, a, b *Val) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.K == KIface && b.K == KPtr && len(a.Alts) == 1 && !a.Nil && !a.Unk {
		return same(st, a.Alts[0].V, b)
	}
	if b.K == KIface && a.K == KPtr {
		return same(st, b, a)
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KNum:
		if a.N == b.N {
			return true
		}
		l1, h1 := st.cons.bounds(a.N)
		l2, h2 := st.cons.bounds(b.N)
		if l1 == h1 && l2 == h2 && l1 == l2 {
			return true
		}
		return st.cons.leq(a.N, b.N) && st.cons.leq(b.N, a.N)
	case KBool:
		return a.B == b.B && a.B != 2
	case KStr:
		x, y := atomsString(a.At), atomsString(b.At)
		if x == y {
			return true
		}
		l1, h1 := st.cons.bounds(a.N)
		l2, h2 := st.cons.bounds(b.N)
		return l1 == 0 && h1 == 0 && l2 == 0 && h2 == 0
	case KFloat:
		if a.S != 0 || b.S != 0 {
			return a.S == b.S
		}
		return st.float(a) == st.float(b)
	case KPtr, KMap, KSlice, KFunc:
		if a.definitelyNil() && b.definitelyNil() {
			return true
		}
		if a.Unk || b.Unk || a.Nil || b.Nil || len(a.Refs) != 1 || len(b.Refs) != 1 || a.Refs[0] != b.Refs[0] {
			return false
		}
		if a.K == KSlice {
			return same(st, &Val{K: KNum, N: a.N}, &Val{K: KNum, N: b.N}) && same(st, &Val{K: KNum, N: a.Off}, &Val{K: KNum, N: b.Off})
		}
		return true
	case KIface:
		if a.definitelyNil() && b.definitelyNil() {
			return true
		}
		return !a.Nil && !b.Nil && !a.Unk && !b.Unk && len(a.Alts) == 1 && len(b.Alts) == 1 && types.Identical(a.Alts[0].T, b.Alts[0].T) && same(st, a.Alts[0].V, b.Alts[0].V)
	case KTuple:
		for i := range a.El {
			if !same(st, a.El[i], b.El[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// equalDeep reports whether two values certainly have the same contents,
// following pointers.
func equalDeep(st *State, a, b *Val) bool {
	return deepEq(st, a, b, 0)
}

func deepEq(st *State, a, b *Val, depth int) bool {
	if same(st, a, b) {
		return true
	}
	if a == nil || b == nil || a.K != b.K || depth > 40 {
		return false
	}
	list := func(x, y []*Val) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !deepEq(st, x[i], y[i], depth+1) {
				return false
			}
		}
		return true
	}
	switch a.K {
	case KPtr, KMap, KSlice:
		if a.K == KSlice && (a.Nil || b.Nil) { // nil and empty are as good
			x, y := *a, *b
			x.Nil, y.Nil = false, false
			return deepEq(st, &x, &y, depth+1)
		}
		if a.Nil || b.Nil || a.Unk || b.Unk || len(a.Refs) != 1 || len(b.Refs) != 1 {
			return false
		}
		x, y := st.heap[a.Refs[0].Obj], st.heap[b.Refs[0].Obj]
		if x == nil || y == nil || a.Refs[0].Path != b.Refs[0].Path || a.Refs[0].Path != "" || x.Sum != y.Sum {
			return false
		}
		if a.K == KSlice {
			if !same(st, &Val{K: KNum, N: a.N}, &Val{K: KNum, N: b.N}) || a.Off != cnum(0) || b.Off != cnum(0) {
				return false
			}
			at := len(a.At) > 0 && atomsString(a.At) == atomsString(x.V.At) && atomsString(b.At) == atomsString(y.V.At)
			if at && atomsString(a.At) == atomsString(b.At) {
				return true
			}
			if x.V.K != KArr || y.V.K != KArr || x.V.Smash != nil || y.V.Smash != nil {
				return false
			}
			return list(x.V.El, y.V.El)
		}
		return deepEq(st, x.V, y.V, depth+1)
	case KIface:
		return !a.Nil && !b.Nil && !a.Unk && !b.Unk && len(a.Alts) == 1 && len(b.Alts) == 1 && types.Identical(a.Alts[0].T, b.Alts[0].T) && deepEq(st, a.Alts[0].V, b.Alts[0].V, depth+1)
	case KStruct, KTuple:
		return list(a.El, b.El)
	case KArr:
		return a.Smash == nil && b.Smash == nil && list(a.El, b.El)
	case KList:
		return exactList(a) && exactList(b) && list(a.El, b.El)
	case KMapObj:
		if len(a.Keys) != len(b.Keys) || a.Smash != nil || b.Smash != nil {
			return false
		}
		for k, x := range a.Keys {
			y, ok := b.Keys[k]
			if !ok || x.Maybe || y.Maybe || !deepEq(st, x.V, y.V, depth+1) {
				return false
			}
		}
		return true
	}
	return false
}

// freeze copies what a value refers to, down to its leaves, into one value
// that later writes do not reach.
func freeze(st *State, v *Val) *Val { return freezeAt(st, v, map[ObjID]bool{}) }

func freezeAt(st *State, v *Val, seen map[ObjID]bool) *Val {
	if v == nil {
		return litVal("none")
	}
	sub := func(vs []*Val) []*Val {
		var out []*Val
		for _, x := range vs {
			out = append(out, freezeAt(st, x, seen))
		}
		return out
	}
	switch v.K {
	case KPtr, KMap, KSlice:
		if v.definitelyNil() {
			return litVal("nil")
		}
		if v.Nil || v.Unk || len(v.Refs) != 1 {
			return v
		}
		r := v.Refs[0]
		o := st.heap[r.Obj]
		id := litVal(fmt.Sprint(r.Obj, r.Path))
		if o == nil || seen[r.Obj] || len(v.At) > 0 {
			return &Val{K: KTuple, El: []*Val{id, {K: KNum, N: v.N}, {K: KNum, N: v.Off}, {K: KStr, At: v.At}}}
		}
		seen[r.Obj] = true
		x := freezeAt(st, o.V, seen)
		delete(seen, r.Obj)
		return &Val{K: KTuple, El: []*Val{id, {K: KNum, N: v.N}, {K: KNum, N: v.Off}, x}}
	case KIface:
		if v.definitelyNil() {
			return litVal("nil")
		}
		if v.Nil || v.Unk || len(v.Alts) != 1 {
			return v
		}
		return &Val{K: KTuple, El: []*Val{litVal(v.Alts[0].T.String()), freezeAt(st, v.Alts[0].V, seen)}}
	case KStruct, KTuple:
		return &Val{K: KTuple, El: sub(v.El)}
	case KArr:
		if v.Smash != nil {
			return v
		}
		return &Val{K: KTuple, El: sub(v.El)}
	case KList:
		if !exactList(v) {
			return v
		}
		return &Val{K: KTuple, El: append(sub(v.El), litVal("list"))}
	case KMapObj:
		if v.Smash != nil {
			return v
		}
		var ks []string
		for k := range v.Keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		out := &Val{K: KTuple}
		for _, k := range ks {
			out.El = append(out.El, litVal(k), freezeAt(st, v.Keys[k].V, seen))
		}
		return out
	}
	return v
}

// frozenSame compares frozen values; what is not known exactly counts as
// the same.
func frozenSame(st *State, a, b *Val) bool {
	if same(st, a, b) {
		return true
	}
	if a.K == KTuple && b.K == KTuple {
		if len(a.El) != len(b.El) {
			return false
		}
		for i := range a.El {
			if !frozenSame(st, a.El[i], b.El[i]) {
				return false
			}
		}
		return true
	}
	switch a.K {
	case KNum, KBool, KStr, KFloat:
		return false
	}
	return a.K != KTuple && b.K != KTuple
}

// Accessor is a setter with the getter that reads it back.
type Accessor struct {
	Attr     string
	Set, Get *ssa.Function
}

// publicMethods lists the exported methods of *T in name order.
func (p *Program) publicMethods(t *types.Named) []*ssa.Function {
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(t))
	var out []*ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if !token.IsExported(ms.At(i).Obj().Name()) {
			continue
		}
		if f := p.Prog.MethodValue(ms.At(i)); f != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func (p *Program) accessors(t *types.Named) []Accessor {
	by := map[string]*ssa.Function{}
	fs := p.publicMethods(t)
	for _, f := range fs {
		by[f.Name()] = f
	}
	var out []Accessor
	for _, f := range fs {
		if !strings.HasPrefix(f.Name(), "Set") || f.Signature.Params().Len() != 1 {
			continue
		}
		x := strings.TrimPrefix(f.Name(), "Set")
		pt := f.Signature.Params().At(0).Type()
		for _, g := range []string{"Get" + x, "Is" + x, "Has" + x} {
			gf := by[g]
			if gf == nil || gf.Signature.Params().Len() != 0 || gf.Signature.Results().Len() == 0 {
				continue
			}
			rt := gf.Signature.Results().At(0).Type()
			if types.Identical(rt, pt) || types.AssignableTo(pt, rt) || types.AssignableTo(rt, pt) {
				out = append(out, Accessor{x, f, gf})
				break
			}
		}
	}
	return out
}

// isHeaderList reports whether t is a list of headers.
func isHeaderList(t *types.Named) bool {
	s, ok := t.Underlying().(*types.Struct)
	return ok && s.NumFields() > 0 && s.Field(0).Embedded() && s.Field(0).Name() == "SIPHeaderList"
}

// fillList puts two elements into a list.
func (p *Program) fillList(m *Machine, st *State, t *types.Named) *State {
	pt := types.NewPointer(t)
	push := func(name string, args ...*Val) {
		f := p.method(pt, name)
		if f == nil {
			return
		}
		var rs []Result
		m.as("fill"+fmt.Sprint(m.rawSym()), func() { rs = m.do(st, f, append([]*Val{m.held(st, "obj")}, args...)...) })
		if len(rs) > 0 {
			st = rs[0].st
		}
	}
	if t.Obj().Name() == "NameValueList" {
		for i := 0; i < 2; i++ {
			push("AddNameAndValue", m.strLen(m.newNum(st, 1, maxLen)), &Val{K: KIface, Alts: []Alt{{types.Typ[types.String], m.strLen(m.newNum(st, 1, maxLen))}}})
		}
	}
	if !isHeaderList(t) {
		return st
	}
	en := p.elementOf(t)
	if en == nil {
		return st
	}
	for i := 0; i < 2; i++ {
		obj := m.held(st, "obj")
		rs := p.newObj(m, st, en, fmt.Sprint("element", i))
		if len(rs) == 0 {
			return st
		}
		st = rs[0].st
		m.hold(st, "obj", rs[0].ret)
		m.hold(st, "list", obj)
		m.as(fmt.Sprint("element", i), func() { st = p.populate(m, st, p.accessors(en)) })
		el := m.held(st, "obj")
		m.hold(st, "obj", m.held(st, "list"))
		push("PushBack", &Val{K: KIface, Alts: []Alt{{types.NewPointer(en), el}}})
	}
	return st
}

// eachState calls f with an object of type t in the slot "obj": fresh from
// its constructor, with only its components set, and with everything set.
func (p *Program) eachState(m *Machine, st *State, t *types.Named, modes string, f func(mode string, base *State)) {
	as := p.accessors(t)
	var parts []Accessor
	for _, a := range as {
		if setRank(a) < 2 {
			parts = append(parts, a)
		}
	}
	for _, mode := range strings.Fields(modes) {
		for _, r := range p.newObj(m, st.clone(), t, "obj") {
			base := r.st
			m.hold(base, "obj", r.ret)
			switch mode {
			case "components":
				base = p.populate(m, base, parts)
			case "populated":
				base = p.fillList(m, p.fill(m, base, "obj", as, 3), t)
			case "partly":
				p.afterEach(m, base, t, as, func(s *State) { f(mode, s) })
				continue
			}
			f(mode, base)
		}
	}
}

// afterEach calls f with the object after each single method that may change
// it: the setters of components, and every other method that takes nothing
// but basic values and is no reader.
func (p *Program) afterEach(m *Machine, base *State, t *types.Named, as []Accessor, f func(s *State)) {
	reader := map[*ssa.Function]bool{}
	for _, g := range p.readers(t) {
		reader[g] = true
	}
	var fs []*ssa.Function
	for _, a := range as {
		if setRank(a) == 1 {
			fs = append(fs, a.Set)
		}
	}
	for _, g := range p.plainMethods(t) {
		if g.Name() == "SetHeaderName" && strings.HasSuffix(t.Obj().Name(), "List") {
			continue // lists are not renamed
		}
		if !reader[g] && !unsafeMethods[g.Name()] && !needsHeaders[g.Name()] {
			fs = append(fs, g)
		}
	}
	for _, g := range fs {
		s := base.clone()
		args := []*Val{m.held(s, "obj")}
		for i := 0; i < g.Signature.Params().Len(); i++ {
			pt := g.Signature.Params().At(i).Type()
			if b, ok := pt.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				args = append(args, m.freshString(s))
				continue
			}
			st2, v := p.argFor(m, s, pt, fmt.Sprint("partly", g.Name(), i))
			s = st2
			args = append(args, v)
		}
		var rs []Result
		m.as("partly"+g.Name(), func() { rs = m.do(s, g, args...) })
		for _, r := range rs {
			f(r.st)
		}
	}
}

// elementOf is the type of the headers in a list of headers.
func (p *Program) elementOf(t *types.Named) *types.Named {
	n := strings.TrimSuffix(strings.TrimSuffix(t.Obj().Name(), "List"), "Header")
	tn, ok := t.Obj().Pkg().Scope().Lookup(n).(*types.TypeName)
	if !ok {
		return nil
	}
	en, ok := tn.Type().(*types.Named)
	if !ok {
		return nil
	}
	if _, ok := en.Underlying().(*types.Struct); !ok {
		return nil
	}
	return en
}
