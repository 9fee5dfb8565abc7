package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Machine is one abstract interpreter run.
type Machine struct {
	p       *Program
	nextSym Sym
	fninfo  map[*ssa.Function]*FnInfo
	globals map[*ssa.Global]ObjID
	stack   []ssa.CallInstruction
	fnStack []*ssa.Function
	ctx     []uint64
	retReg  *ssa.Parameter
	verify  int // 0: inside a non-final loop iteration

	steps    int
	maxSteps int
	began    time.Time
	aborted  string

	sites  map[string]*Site
	loopsV map[string]*LoopVerdict

	content    bool           // track string contents
	natural    bool           // arbitrary integer arguments are not negative
	contents   map[string]Sym // names of texts made from others
	derived    map[Sym]bool
	peel       int // trips of a loop analysed one by one (at least one)
	apart      int // keep up to this many states apart at joins
	listMax    int // elements of a list tracked individually
	overrides  map[string]Model
	ifaceTop   func(m *Machine, st *State, t types.Type, why string) *Val
	events     []Event
	indexes    map[string]Num
	quo        map[Sym]quotient
	fixing     int // inside a fixpoint, where a name stands for several values
	onStore    func(st *State, in ssa.Instruction, r Ref, old, new *Val)
	onCall     func(st *State, in ssa.CallInstruction, fn *ssa.Function, args []*Val)
	errTrack   func(fn *ssa.Function) bool
	errExempt  func(in ssa.CallInstruction) bool
	errRewind  func(in ssa.CallInstruction) bool
	swallow    map[string]*Site
	overrideFn func(fn *ssa.Function) Model
	founds     map[Sym]found
	scan       bool // texts have a known shape
	hard       bool // distances that grow in a loop are given up
	classes    map[Sym]*textClass
	layouts    map[string]*layout
	numLens    map[string]Num
	inLoop     int
	thr        []int64
	thrFor     int
	bounds     []Sym
	symRead    map[int]bool
	noBlanks   bool // unknown non-empty strings have a visible character
	forceSum   func(fn *ssa.Function) bool
	unmod      map[string]int
	entry      string
	visited    map[*ssa.Function]bool
	memo       *memoTable
	contracts  []Ob
	slots      map[string]ssa.Value
}

type Event struct {
	Kind, Where, What string
}

// Site is one potentially failing operation.
type Site struct {
	Key   string // kind @ function # ordinal-independent description
	Kind  string
	Fn    string
	Pos   string
	Desc  string
	Ok    int
	Bad   int
	Trace string
}

// LoopVerdict records whether a loop was shown to terminate.
type LoopVerdict struct {
	Key   string
	Fn    string
	Pos   string
	Ok    int
	Bad   int
	Why   string
	Trace string
}

type Model func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result

type Result struct {
	st  *State
	ret *Val
}

func newMachine(p *Program) *Machine {
	m := &Machine{p: p, fninfo: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]ObjID{},
		sites: map[string]*Site{}, loopsV: map[string]*LoopVerdict{}, overrides: map[string]Model{},
		retReg: &ssa.Parameter{}, maxSteps: 4_000_000, verify: 1, unmod: map[string]int{}, visited: map[*ssa.Function]bool{}, swallow: map[string]*Site{}, symRead: map[int]bool{}, slots: map[string]ssa.Value{}}
	return m
}

func (m *Machine) rawSym() Sym { m.nextSym++; return m.nextSym }

func (m *Machine) newNum(st *State, lo, hi int64) Num {
	s := m.rawSym()
	st.cons.own()
	st.cons.m[s] = &symInfo{lo: lo, hi: hi}
	return Num{s, 0}
}

const maxLen = int64(1) << 48

func (m *Machine) newLen(st *State) Num { return m.newNum(st, 0, maxLen) }

func hashID(parts ...interface{}) ObjID {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	v := h.Sum64() &^ 1
	return ObjID(v | 1<<63)
}

// ---------------------------------------------------------- value making

func intBounds(t types.Type) (int64, int64) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return -inf, inf
	}
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, 1<<32 - 1
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, inf
	}
	return -inf, inf
}

func (m *Machine) strUnknown(st *State) *Val { return m.strLen(m.newLen(st)) }

func (m *Machine) strLen(n Num) *Val {
	if n.S == 0 && n.K == 0 {
		return litVal("")
	}
	return &Val{K: KStr, N: n, At: []Atom{{Op: "sym", Sym: m.rawSym()}}}
}

func (m *Machine) strTagged(st *State, tag string) *Val {
	return &Val{K: KStr, N: m.newLen(st), At: []Atom{{Op: "sym", Sym: m.rawSym(), Tag: tag}}}
}

// topVal is an arbitrary value of type t.
func (m *Machine) topVal(st *State, t types.Type) *Val {
	if isListType(t) {
		return &Val{K: KList, N: m.newLen(st), Smash: &Val{K: KIface, Nil: true, Unk: true}, Off: m.newNum(st, -inf, inf)}
	}
	if isBufferType(t) {
		return &Val{K: KBuf, N: m.newLen(st), At: []Atom{{Op: "sym", Sym: m.rawSym()}}}
	}
	if external(t) {
		switch t.Underlying().(type) {
		case *types.Struct:
			return &Val{K: KOpaque, T: t}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return m.strUnknown(st)
		case u.Info()&types.IsBoolean != 0:
			return &Val{K: KBool, B: 2}
		case u.Info()&types.IsInteger != 0:
			lo, hi := intBounds(t)
			return &Val{K: KNum, N: m.newNum(st, lo, hi)}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return &Val{K: KFloat, S: m.rawSym()}
		case u.Kind() == types.UnsafePointer:
			return &Val{K: KPtr, Unk: true, Nil: true, T: t}
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
	case *types.Pointer:
		return &Val{K: KPtr, Unk: true, Nil: true, T: t}
	case *types.Interface:
		return &Val{K: KIface, Unk: true, Nil: true, T: t}
	case *types.Slice:
		return &Val{K: KSlice, Unk: true, Nil: true, N: m.newLen(st), Off: cnum(0), T: t}
	case *types.Map:
		return &Val{K: KMap, Unk: true, Nil: true, T: t}
	case *types.Signature, *types.Chan:
		return &Val{K: KFunc, Unk: true, Nil: true, T: t}
	case *types.Struct:
		v := &Val{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.El = append(v.El, m.topVal(st, u.Field(i).Type()))
		}
		return v
	case *types.Array:
		return &Val{K: KArr, T: t, Smash: m.topVal(st, u.Elem())}
	case *types.Tuple:
		v := &Val{K: KTuple}
		for i := 0; i < u.Len(); i++ {
			v.El = append(v.El, m.topVal(st, u.At(i).Type()))
		}
		return v
	}
	return &Val{K: KOpaque, T: t}
}

func (m *Machine) zeroVal(t types.Type) *Val {
	if isListType(t) {
		return &Val{K: KList, N: cnum(0)}
	}
	if isBufferType(t) {
		return &Val{K: KBuf, N: cnum(0)}
	}
	if external(t) {
		switch t.Underlying().(type) {
		case *types.Struct:
			return &Val{K: KOpaque, T: t}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return litVal("")
		case u.Info()&types.IsBoolean != 0:
			return boolVal(false)
		case u.Info()&types.IsInteger != 0:
			return &Val{K: KNum, N: cnum(0)}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return &Val{K: KFloat, S: 0}
		}
		return nilPtr
	case *types.Pointer:
		return nilPtr
	case *types.Interface:
		return nilIface
	case *types.Slice:
		return &Val{K: KSlice, Nil: true, N: cnum(0)}
	case *types.Map:
		return &Val{K: KMap, Nil: true}
	case *types.Signature, *types.Chan:
		return &Val{K: KFunc, Nil: true}
	case *types.Struct:
		v := &Val{K: KStruct, T: t}
		for i := 0; i < u.NumFields(); i++ {
			v.El = append(v.El, m.zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		v := &Val{K: KArr, T: t}
		if u.Len() <= 32 {
			for i := int64(0); i < u.Len(); i++ {
				v.El = append(v.El, m.zeroVal(u.Elem()))
			}
		} else {
			v.Smash = m.zeroVal(u.Elem())
		}
		return v
	}
	return &Val{K: KOpaque, T: t}
}

// instantiate makes a fresh copy of a value taken from a summary location:
// equal shape, but its unknown integers and strings are new unknowns.
func (m *Machine) instantiate(st *State, v *Val) *Val {
	if v == nil {
		return nil
	}
	n := *v
	n.Prov = nil
	fresh := func(x Num) Num {
		if x.S == 0 {
			return x
		}
		lo, hi := st.cons.bounds(x)
		return m.newNum(st, lo, hi)
	}
	switch v.K {
	case KNum:
		n.N = fresh(v.N)
	case KStr, KBuf:
		if _, ok := isLit(v); ok {
			return v
		}
		n.N = fresh(v.N)
		n.At = []Atom{{Op: "sym", Sym: m.rawSym()}}
	case KFloat:
		n.S, n.At = m.rawSym(), nil
	case KSlice:
		n.N = fresh(v.N)
		n.Off = fresh(v.Off)
	case KList, KMapObj:
		n.N = fresh(v.N)
		if n.Off.S != 0 {
			n.Off = fresh(v.Off)
		}
	case KTuple, KStruct, KArr:
		n.El = make([]*Val, len(v.El))
		for i := range v.El {
			n.El[i] = m.instantiate(st, v.El[i])
		}
	case KIface:
		n.Alts = make([]Alt, len(v.Alts))
		for i := range v.Alts {
			n.Alts[i] = Alt{v.Alts[i].T, m.instantiate(st, v.Alts[i].V)}
		}
	}
	return &n
}

// ---------------------------------------------------------- heap access

func (m *Machine) cell(st *State, r Ref) *Val {
	o := st.heap[r.Obj]
	if o == nil {
		return nil
	}
	v := o.V
	for i := 0; i < len(r.Path); i++ {
		if v == nil {
			return nil
		}
		ix := r.Path[i]
		switch v.K {
		case KStruct:
			if int(ix) >= len(v.El) {
				return nil
			}
			v = v.El[ix]
		case KArr:
			if ix != 0xff && int(ix) < len(v.El) {
				v = v.El[ix]
			} else {
				return nil // handled by loadRef
			}
		default:
			return nil
		}
	}
	return v
}

func setPath(v *Val, path string, nv *Val) *Val {
	if path == "" {
		return nv
	}
	if v == nil || (v.K != KStruct && v.K != KArr) {
		return v
	}
	n := *v
	n.Prov = nil
	if n.K == KArr {
		n.At = nil
	}
	ix := int(path[0])
	if ix < len(v.El) {
		n.El = append([]*Val(nil), v.El...)
		n.El[ix] = setPath(v.El[ix], path[1:], nv)
	} else {
		n.Smash = nv
	}
	return &n
}

func (st *State) setObjVal(id ObjID, v *Val) {
	o := *st.heap[id]
	o.V = v
	st.put(id, &o)
}

// alloc creates an object for site id; an earlier object of the same site that
// is still reachable becomes a summary object.
func (m *Machine) alloc(st *State, id ObjID, t types.Type, v *Val, site string) ObjID {
	if old, ok := st.heap[id]; ok {
		if m.reachable(st, id) {
			sum := id ^ 1<<62
			if so, ok := st.heap[sum]; ok {
				// merge old into the summary
				a := st.clone()
				b := st.clone()
				b.put(sum, &Obj{ID: sum, T: so.T, V: old.V, Sum: true, Site: so.Site, Own: so.Own})
				a.put(sum, so)
				jn := m.joinStates(a, b, false)
				*st = *jn
			} else {
				st.put(sum, &Obj{ID: sum, T: old.T, V: old.V, Sum: true, Site: old.Site, Own: old.Own})
			}
			m.redirect(st, id, sum)
		}
		st.del(id)
	}
	st.put(id, &Obj{ID: id, T: t, V: v, Site: site})
	return id
}

// mapVals rewrites every value of the state with f (identity-preserving when f
// returns its argument).
func (st *State) mapVals(f func(*Val) *Val) {
	for i, fr := range st.frames {
		var nr map[ssa.Value]*Val
		for k, v := range fr.regs {
			if n := f(v); n != v {
				if nr == nil {
					nr = make(map[ssa.Value]*Val, len(fr.regs))
					for a, b := range fr.regs {
						nr[a] = b
					}
				}
				nr[k] = n
			}
		}
		if nr != nil {
			nf := *fr
			nf.regs = nr
			st.frames[i] = &nf
			if i == len(st.frames)-1 {
				st.topOwned = true
			}
		}
	}
	for id, o := range st.heap {
		if n := f(o.V); n != o.V {
			c := *o
			c.V = n
			st.put(id, &c)
		}
	}
}

// rewrite applies f to v and its components bottom-up.
func rewrite(v *Val, f func(*Val) *Val) *Val {
	if v == nil {
		return nil
	}
	cp := (*Val)(nil)
	mut := func() *Val {
		if cp == nil {
			c := *v
			cp = &c
		}
		return cp
	}
	for i, e := range v.El {
		if n := rewrite(e, f); n != e {
			if cp == nil || &cp.El[0] == &v.El[0] {
				mut().El = append([]*Val(nil), v.El...)
			}
			cp.El[i] = n
		}
	}
	if v.Smash != nil {
		if n := rewrite(v.Smash, f); n != v.Smash {
			mut().Smash = n
		}
	}
	altsCopied := false
	for i, a := range v.Alts {
		if n := rewrite(a.V, f); n != a.V {
			if !altsCopied {
				mut().Alts = append([]Alt(nil), v.Alts...)
				altsCopied = true
			}
			cp.Alts[i] = Alt{a.T, n}
		}
	}
	keysCopied := false
	for k, e := range v.Keys {
		if n := rewrite(e.V, f); n != e.V {
			if !keysCopied {
				nk := make(map[string]MapEnt, len(v.Keys))
				for a, b := range v.Keys {
					nk[a] = b
				}
				mut().Keys = nk
				keysCopied = true
			}
			cp.Keys[k] = MapEnt{n, e.Maybe, e.Key}
		}
	}
	if cp != nil {
		return f(cp)
	}
	return f(v)
}

func (m *Machine) redirect(st *State, from, to ObjID) {
	st.mapVals(func(v *Val) *Val {
		return rewrite(v, func(x *Val) *Val {
			hit := false
			for _, r := range x.Refs {
				if r.Obj == from {
					hit = true
				}
			}
			if !hit {
				return x
			}
			n := *x
			n.Refs = append([]Ref(nil), x.Refs...)
			for i := range n.Refs {
				if n.Refs[i].Obj == from {
					n.Refs[i].Obj = to
				}
			}
			n.Refs = sortRefs(n.Refs)
			return &n
		})
	})
}

// replaceIdent replaces the unknown value old by the refined value new wherever
// that very value occurs.
func (m *Machine) replaceIdent(st *State, old, new *Val) {
	if old == new {
		return
	}
	st.mapVals(func(v *Val) *Val {
		if v == old {
			return new
		}
		if v == nil || (len(v.El) == 0 && v.Smash == nil && len(v.Alts) == 0 && len(v.Keys) == 0) {
			return v
		}
		return rewrite(v, func(x *Val) *Val {
			if x == old {
				return new
			}
			return x
		})
	})
}

func (v *Val) eachRef(f func(Ref)) {
	if v == nil {
		return
	}
	for _, r := range v.Refs {
		f(r)
	}
	for _, e := range v.El {
		e.eachRef(f)
	}
	v.Smash.eachRef(f)
	for _, a := range v.Alts {
		a.V.eachRef(f)
	}
	for _, k := range v.Keys {
		k.V.eachRef(f)
	}
}

func (st *State) reach(roots []*Val) map[ObjID]bool {
	seen := map[ObjID]bool{}
	var work []ObjID
	add := func(r Ref) {
		if !seen[r.Obj] {
			seen[r.Obj] = true
			work = append(work, r.Obj)
		}
	}
	for _, v := range roots {
		v.eachRef(add)
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		if o := st.heap[id]; o != nil {
			o.V.eachRef(add)
		}
	}
	return seen
}

func (m *Machine) roots(st *State) []*Val {
	var r []*Val
	for _, f := range st.frames {
		for _, v := range f.regs {
			r = append(r, v)
		}
		for _, d := range f.defers {
			r = append(r, d.args...)
			r = append(r, d.recv)
		}
	}
	for _, id := range m.globals {
		if o := st.heap[id]; o != nil {
			r = append(r, o.V)
		}
	}
	for _, o := range st.heap {
		if o.Own != "" {
			r = append(r, o.V)
		}
	}
	return r
}

func (m *Machine) reachable(st *State, id ObjID) bool {
	return st.reach(m.roots(st))[id]
}

// gc drops unreachable objects and unmentioned symbols.
func (m *Machine) gc(st *State) {
	live := st.reach(m.roots(st))
	for id, o := range st.heap {
		if o.Own != "" {
			live[id] = true
		}
	}
	for _, id := range m.globals {
		live[id] = true
	}
	for id := range st.heap {
		if !live[id] {
			st.del(id)
		}
	}
	used := map[Sym]bool{}
	f := func(s Sym) { used[s] = true }
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			v.eachSym(f)
		}
		for _, d := range fr.defers {
			for _, v := range d.args {
				v.eachSym(f)
			}
			d.recv.eachSym(f)
		}
	}
	for _, o := range st.heap {
		o.V.eachSym(f)
	}
	for _, g := range st.got {
		g.v.eachSym(f)
	}
	for k, b := range st.cons.rd {
		if (used[k.str] || m.derived[k.str]) && (k.idx == 0 || used[k.idx]) {
			used[b] = true
		}
	}
	for k := range st.cons.rd {
		if !((used[k.str] || m.derived[k.str]) && (k.idx == 0 || used[k.idx])) {
			st.cons.own()
			delete(st.cons.rd, k)
		}
	}
	for k, v := range st.cons.vn {
		if used[k.a] && used[k.b] {
			used[v.S] = true
		} else {
			st.cons.own()
			delete(st.cons.vn, k)
		}
	}
	var dead []Sym
	for s := range st.cons.m {
		if !used[s] {
			dead = append(dead, s)
		}
	}
	for _, s := range dead {
		st.cons.drop(s)
	}
}

// ------------------------------------------------------------- reporting

func (m *Machine) trace() string {
	var parts []string
	for i := len(m.stack) - 1; i >= 0 && len(parts) < 12; i-- {
		c := m.stack[i]
		if c == nil {
			continue
		}
		p := posOf(m.p.Prog.Fset, c)
		parts = append(parts, fmt.Sprintf("%s (%s)", fnName(c.Parent()), shortPos(p.String())))
	}
	return strings.Join(parts, " <- ")
}

func shortPos(s string) string {
	return strings.TrimPrefix(strings.TrimPrefix(s, repoDir()), "/")
}

func fnName(f *ssa.Function) string {
	s := f.String()
	return strings.ReplaceAll(s, modPath+"/", "")
}

func (m *Machine) check(in ssa.Instruction, kind, desc string, ok bool) {
	if m.verify == 0 {
		return
	}
	fn := in.Parent()
	key := kind + "@" + fnName(fn) + ":" + desc
	id := fmt.Sprintf("%s#%d", key, m.info(fn).instrID[in])
	s := m.sites[id]
	if s == nil {
		s = &Site{Key: key, Kind: kind, Fn: fnName(fn), Desc: desc, Pos: shortPos(posOf(m.p.Prog.Fset, in).String())}
		m.sites[id] = s
	}
	if ok {
		s.Ok++
	} else {
		s.Bad++
		if s.Trace == "" {
			s.Trace = m.trace()
		}
	}
}

func (m *Machine) sortedSites() []*Site {
	var r []*Site
	for _, s := range m.sites {
		r = append(r, s)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Key != r[j].Key {
			return r[i].Key < r[j].Key
		}
		return r[i].Pos < r[j].Pos
	})
	return r
}
