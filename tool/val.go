package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Sym names an unknown integer (or the unknown content of a string).
// Sym 0 is the constant zero.
type Sym int32

// Num is the abstract integer  s + k.
type Num struct {
	S Sym
	K int64
}

func cnum(k int64) Num { return Num{0, k} }

type Kind uint8

const (
	KBad    Kind = iota
	KNum         // integers
	KBool        // B: 0 false, 1 true, 2 unknown
	KStr         // strings: N length, At content
	KFloat       // floats / complex: S identity
	KPtr         // pointers
	KIface       // interfaces
	KSlice       // slices
	KMap         // map references (Refs to a map object)
	KFunc        // function values
	KTuple       // tuples
	KStruct      // structs (El)
	KArr         // arrays / slice backing stores (El + Smash)
	KList        // container/list.List contents: N length, Smash element
	KMapObj      // map contents
	KOpaque      // anything else (external structs, ...)
	KBuf         // bytes.Buffer contents: N length, At content
)

// Atom is one piece of a string's content.
type Atom struct {
	Lit string // literal when Op == ""
	Op  string // "sym": content named by Sym; otherwise an uninterpreted operation
	Sym Sym
	Num Num
	Tag string // for uninterpreted operations: printable argument
	Sub []Atom
}

// Ref is a location: an object and a path inside it.
type Ref struct {
	Obj  ObjID
	Path string // one byte per step: field index, array index, 0xff = smashed element
}

type ObjID uint64

type Alt struct {
	T types.Type
	V *Val
}

type Val struct {
	K     Kind
	N     Num
	B     uint8
	S     Sym // KFloat identity
	At    []Atom
	Refs  []Ref
	Nil   bool // may be nil
	Unk   bool // may be something not tracked
	Alts  []Alt
	El    []*Val
	Smash *Val
	Off   Num // KSlice
	Keys  map[string]MapEnt
	Fn    *ssa.Function
	T     types.Type // static type where useful (KOpaque, Unk)
	Prov  *Prov      // bit/field provenance, optional
	Site  string     // of an error: where it was made
}

// MapEnt is one entry of an abstract map with a known key.
type MapEnt struct {
	V     *Val
	Maybe bool
	Key   []Atom // the key, unless it is a literal
}

// Prov tags a value with where it came from; carried by moves, dropped by joins.
type Prov struct {
	Desc string
	Bits []Bit
	Text []Atom // the text a character was read from, and where
	Pos  Num
}

type Bit struct {
	Src string // "" with One=false: constant 0; One=true: constant 1
	One bool
	Idx int
}

// Obj is an abstract heap object.
type Obj struct {
	ID   ObjID
	T    types.Type
	V    *Val
	Sum  bool   // stands for several concrete objects
	Site string // printable allocation site
	Own  string // ownership tag ("" = allocated during the analysed call)
	RO   bool
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]*Val
	defers []*deferred
	parent int
}

type deferred struct {
	call *ssa.Defer
	args []*Val
	recv *Val
}

// State is one abstract program state.
type State struct {
	frames []*Frame
	heap   map[ObjID]*Obj
	cons   *Cons
	notes  []string

	fl map[Sym]fint      // what is known about floats; replaced, never written
	eq map[string]bool   // texts known to be equal or different; replaced, never written
	is map[string]string // texts known to be a literal; replaced, never written

	got map[lookedUp]*looked // what was found in maps under unknown keys; replaced, never written

	read int // which part of a text of known shape was read last

	err string // an error raised since the running function started, not yet passed on

	heapShared bool // heap map shared with another state
	topOwned   bool // top frame private to this state
}

// lookedUp is a key in a map that has not changed since.
type lookedUp struct {
	m   *Val
	key string
}

type looked struct {
	v  *Val
	ok bool
}

func (s *State) remember(m *Val, key string, v *Val, ok bool) {
	if key == "" || v != nil && v.K != KNum && v.K != KBool {
		return
	}
	n := make(map[lookedUp]*looked, len(s.got)+1)
	for k, x := range s.got {
		n[k] = x
	}
	n[lookedUp{m, key}] = &looked{v, ok}
	s.got = n
}

// clone makes a copy-on-write copy.
func (s *State) clone() *State {
	s.heapShared, s.topOwned = true, false
	return &State{frames: append([]*Frame(nil), s.frames...), heap: s.heap, heapShared: true, cons: s.cons.clone(), notes: s.notes, err: s.err, fl: s.fl, eq: s.eq, is: s.is, got: s.got, read: s.read}
}

// ownTop makes the top frame private to this state.
func (s *State) ownTop() {
	if s.topOwned {
		return
	}
	top := *s.frames[len(s.frames)-1]
	regs := make(map[ssa.Value]*Val, len(top.regs)+4)
	for k, v := range top.regs {
		regs[k] = v
	}
	top.regs = regs
	s.frames[len(s.frames)-1] = &top
	s.topOwned = true
}

func (s *State) ownHeap() {
	if !s.heapShared {
		return
	}
	n := make(map[ObjID]*Obj, len(s.heap)+4)
	for k, v := range s.heap {
		n[k] = v
	}
	s.heap = n
	s.heapShared = false
}

func (s *State) put(id ObjID, o *Obj) { s.ownHeap(); s.heap[id] = o }

func (s *State) del(id ObjID) { s.ownHeap(); delete(s.heap, id) }

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) setReg(v ssa.Value, x *Val) { s.ownTop(); s.top().regs[v] = x }

// ---------------------------------------------------------------- helpers

func boolVal(b bool) *Val {
	if b {
		return &Val{K: KBool, B: 1}
	}
	return &Val{K: KBool, B: 0}
}

var nilPtr = &Val{K: KPtr, Nil: true}
var nilIface = &Val{K: KIface, Nil: true}

func litVal(s string) *Val {
	v := &Val{K: KStr, N: cnum(int64(len(s)))}
	if s != "" {
		v.At = []Atom{{Lit: s}}
	}
	return v
}

func isLit(v *Val) (string, bool) {
	if v.K != KStr {
		return "", false
	}
	if v.N.S == 0 && v.N.K == 0 {
		return "", true
	}
	if len(v.At) == 1 && v.At[0].Op == "" {
		return v.At[0].Lit, true
	}
	return "", false
}

func (v *Val) definitelyNil() bool {
	switch v.K {
	case KPtr, KSlice, KMap, KFunc:
		return v.Nil && len(v.Refs) == 0 && !v.Unk && v.Fn == nil
	case KIface:
		return v.Nil && len(v.Alts) == 0 && !v.Unk
	}
	return false
}

func (v *Val) mayNil() bool { return v.Nil }

func sortRefs(r []Ref) []Ref {
	sort.Slice(r, func(i, j int) bool {
		if r[i].Obj != r[j].Obj {
			return r[i].Obj < r[j].Obj
		}
		return r[i].Path < r[j].Path
	})
	out := r[:0]
	for i, x := range r {
		if i == 0 || x != r[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func atomsString(at []Atom) string {
	var b strings.Builder
	for i, a := range at {
		if i > 0 {
			b.WriteString(" ")
		}
		switch {
		case a.Op == "":
			fmt.Fprintf(&b, "%q", a.Lit)
		case a.Op == "sym":
			if a.Tag != "" {
				fmt.Fprintf(&b, "<%s>", a.Tag)
			} else {
				fmt.Fprintf(&b, "<s%d>", a.Sym)
			}
		default:
			fmt.Fprintf(&b, "%s(%s", a.Op, a.Tag)
			if a.Num.S != 0 || a.Num.K != 0 {
				fmt.Fprintf(&b, "n%d+%d", a.Num.S, a.Num.K)
			}
			if len(a.Sub) > 0 {
				b.WriteString(atomsString(a.Sub))
			}
			b.WriteString(")")
		}
	}
	return b.String()
}

func (v *Val) String() string {
	if v == nil {
		return "<nil>"
	}
	num := func(n Num) string {
		if n.S == 0 {
			return fmt.Sprint(n.K)
		}
		return fmt.Sprintf("n%d%+d", n.S, n.K)
	}
	nl := ""
	if v.Nil {
		nl = "?"
	}
	if v.Unk {
		nl += "~"
	}
	switch v.K {
	case KNum:
		return num(v.N)
	case KBool:
		return [...]string{"false", "true", "bool"}[v.B]
	case KStr:
		return "str[" + num(v.N) + "]{" + atomsString(v.At) + "}"
	case KBuf:
		return "buf[" + num(v.N) + "]{" + atomsString(v.At) + "}"
	case KFloat:
		return fmt.Sprintf("f%d%s", v.S, floatTag(v))
	case KPtr, KMap:
		s := "&" + nl
		for _, r := range v.Refs {
			s += fmt.Sprintf("o%x%x,", uint64(r.Obj)&0xffff, r.Path)
		}
		return s
	case KIface:
		s := "if" + nl
		for _, a := range v.Alts {
			s += "{" + types.TypeString(a.T, shortQual) + ":" + a.V.String() + "}"
		}
		return s
	case KSlice:
		s := "sl" + nl + "[" + num(v.N) + "]"
		for _, r := range v.Refs {
			s += fmt.Sprintf("o%x%x,", uint64(r.Obj)&0xffff, r.Path)
		}
		return s
	case KTuple, KStruct, KArr:
		s := "("
		for _, e := range v.El {
			s += e.String() + "; "
		}
		if v.Smash != nil {
			s += "*" + v.Smash.String()
		}
		return s + ")"
	case KList:
		return "list[" + num(v.N) + "]" + v.Smash.String()
	case KMapObj:
		return fmt.Sprintf("map(%d keys,%v)", len(v.Keys), v.Smash)
	}
	return fmt.Sprintf("k%d", v.K)
}

func shortQual(p *types.Package) string { return p.Name() }

var tstrs sync.Map

func tstr(t types.Type) string {
	if s, ok := tstrs.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, shortQual)
	tstrs.Store(t, s)
	return s
}

// ------------------------------------------------------- type predicates

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

func isListType(t types.Type) bool    { return isNamed(t, "container/list", "List") }
func isElementType(t types.Type) bool { return isNamed(t, "container/list", "Element") }
func isBufferType(t types.Type) bool {
	return isNamed(t, "bytes", "Buffer") || isNamed(t, "strings", "Builder")
}

func external(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return !strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
}

func (v *Val) definitelyNonNil() bool {
	switch v.K {
	case KPtr, KSlice, KMap, KFunc, KIface:
		return !v.Nil
	}
	return true
}
