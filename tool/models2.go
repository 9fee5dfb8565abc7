package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Library functions the repository does not call today but equivalent code
// might.

// strSlice is a fresh slice of strings; a nil content means unknown strings.
func (m *Machine) strSlice(st *State, call ssa.CallInstruction, parts []*Val, n Num) *Val {
	id := m.siteID(call)
	t := types.NewSlice(types.Typ[types.String])
	arr := &Val{K: KArr, T: t, El: parts}
	if parts == nil {
		arr.Smash = m.strUnknown(st)
	}
	m.alloc(st, id, t, arr, fnName(call.Parent())+":strings")
	return &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: n, Off: cnum(0), T: t}
}

// found remembers that a search ended at position r.
type found struct{ str, sep string }

func (m *Machine) noteFound(r Num, x *Val, sep *Val) {
	s, ok := isLit(sep)
	if !m.content || !ok || len(x.At) == 0 {
		return
	}
	if m.founds == nil {
		m.founds = map[Sym]found{}
	}
	m.founds[r.S] = found{atomsString(x.At), s}
}

// foundAt names the position of a search; the same search in the same text
// has the same answer.
func (m *Machine) foundAt(st *State, fn string, args []*Val) Num {
	if !m.content || m.fixing > 0 || args[0].K != KStr || len(args[0].At) == 0 {
		return m.newNum(st, 0, maxLen)
	}
	k := fn + "|" + atomsString(args[0].At) + "|" + args[1].String()
	if r, ok := m.indexes[k]; ok {
		st.cons.add(cnum(0), r)
		st.cons.add(r, cnum(maxLen))
		return r
	}
	r := m.newNum(st, 0, maxLen)
	if m.indexes == nil {
		m.indexes = map[string]Num{}
	}
	m.indexes[k] = r
	return r
}

// around gives the content of x before and after a position found in it.
func (m *Machine) around(x *Val, lo, hi Num) []Atom {
	if lo.S == 0 && lo.K == 0 && hi.K == 0 {
		if f, ok := m.founds[hi.S]; ok && f.str == atomsString(x.At) {
			return []Atom{{Op: "before", Tag: f.sep, Num: hi, Sub: x.At}}
		}
	}
	if hi == x.N {
		if f, ok := m.founds[lo.S]; ok && f.str == atomsString(x.At) && lo.K == int64(len(f.sep)) {
			return []Atom{{Op: "after", Tag: f.sep, Num: Num{S: lo.S}, Sub: x.At}}
		}
	}
	return nil
}

// rejoin undoes a split: before + separator + after.
func rejoin(at []Atom) []Atom {
	for i := 0; i+2 < len(at); i++ {
		a, s, b := at[i], at[i+1], at[i+2]
		if a.Op == "before" && b.Op == "after" && s.Op == "" && s.Lit == a.Tag && a.Tag == b.Tag && a.Num == b.Num && atomsString(a.Sub) == atomsString(b.Sub) {
			out := append([]Atom(nil), at[:i]...)
			out = append(out, a.Sub...)
			return append(out, at[i+3:]...)
		}
	}
	return at
}

func (m *Machine) cut(st *State, x, sep *Val) (before, after *Val, ok bool) {
	r := m.newNum(st, 0, maxLen)
	if !st.cons.add(cnum(0), m.lenAdd(st, r, sep.N)) {
		return nil, nil, false
	}
	end := m.lenAdd(st, r, sep.N)
	if !st.cons.add(end, x.N) {
		return nil, nil, false
	}
	m.noteFound(r, x, sep)
	return m.substr(st, x, cnum(0), r), m.substr(st, x, end, x.N), true
}

func constBool(f func(m *Machine, st *State, args []*Val) *Val) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		return ret1(st, f(m, st, args))
	}
}

func unknownBool(m *Machine, st *State, args []*Val) *Val { return &Val{K: KBool, B: 2} }

func init() {
	more := map[string]Model{
		"strings.Cut": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			a, ok1 := isLit(args[0])
			b, ok2 := isLit(args[1])
			if ok1 && ok2 {
				x, y, ok := strings.Cut(a, b)
				return ret1(st, tuple(litVal(x), litVal(y), boolVal(ok)))
			}
			s2 := st.clone()
			out := []Result{{s2, tuple(args[0], litVal(""), boolVal(false))}}
			if x, y, ok := m.cut(st, args[0], args[1]); ok {
				out = append(out, Result{st, tuple(x, y, boolVal(true))})
			}
			return out
		},
		"strings.SplitN": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			lo, hi := st.cons.bounds(args[2].N)
			if lo != 2 || hi != 2 {
				n := m.newLen(st)
				if lo > 0 {
					st.cons.add(cnum(1), n)
					st.cons.add(n, args[2].N)
				}
				return ret1(st, m.strSlice(st, call, nil, n))
			}
			s2 := st.clone()
			out := []Result{{s2, m.strSlice(s2, call, []*Val{args[0]}, cnum(1))}}
			if x, y, ok := m.cut(st, args[0], args[1]); ok {
				out = append(out, Result{st, m.strSlice(st, call, []*Val{x, y}, cnum(2))})
			}
			return out
		},
		"strings.Split": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			n := m.newNum(st, 0, maxLen)
			if lo, _ := st.cons.bounds(args[1].N); lo > 0 {
				st.cons.add(cnum(1), n)
			}
			return ret1(st, m.strSlice(st, call, nil, n))
		},
		"strings.Fields": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strSlice(st, call, nil, m.newLen(st)))
		},
		"strings.Join": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			x := args[0]
			if lo, hi := st.cons.bounds(x.N); lo == hi && lo == 0 {
				return ret1(st, litVal(""))
			} else if lo == hi && len(x.Refs) == 1 && !x.Nil && !x.Unk {
				if o := st.heap[x.Refs[0].Obj]; o != nil && o.V.K == KArr && x.Refs[0].Path == "" && o.V.Smash == nil && int64(len(o.V.El)) >= lo && x.Off == cnum(0) {
					out := o.V.El[0]
					for _, e := range o.V.El[1:lo] {
						out = m.concat(st, m.concat(st, out, args[1]), e)
					}
					return ret1(st, out)
				}
			}
			return ret1(st, m.strUnknown(st))
		},
		"strings.Repeat": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strUnknown(st))
		},
		"strings.Replace": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strUnknown(st))
		},
		"strings.ReplaceAll": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strUnknown(st))
		},
		"strings.Compare": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KNum, N: m.newNum(st, -1, 1)})
		},
		"strings.Count": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			n := m.newLen(st)
			st.cons.add(n, Num{args[0].N.S, args[0].N.K + 1})
			return ret1(st, &Val{K: KNum, N: n})
		},
		"strings.IndexRune":    indexModel(nil, false),
		"strings.IndexAny":     indexModel(nil, false),
		"strings.LastIndexAny": indexModel(nil, false),
		"strings.ContainsRune": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			in, not, ok := m.among(st, args[0], args[1])
			if !ok {
				return ret1(st, &Val{K: KBool, B: 2})
			}
			var out []Result
			if in != nil {
				out = append(out, Result{in, boolVal(true)})
			}
			if not != nil {
				out = append(out, Result{not, boolVal(false)})
			}
			return out
		},
		"strings.ContainsAny": constBool(unknownBool),
		"strings.Clone":       func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result { return ret1(st, args[0]) },
		"strconv.Quote": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strLen(m.newNum(st, 2, maxLen)))
		},
		"strconv.FormatBool": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			if args[0].B == 2 {
				return ret1(st, m.strLen(m.newNum(st, 4, 5)))
			}
			return ret1(st, litVal(map[uint8]string{0: "false", 1: "true"}[args[0].B]))
		},
		"bytes.Equal":             constBool(unknownBool),
		"reflect.DeepEqual":       constBool(unknownBool),
		"(*sync.RWMutex).Lock":    lockModel("lock"),
		"(*sync.RWMutex).Unlock":  lockModel("unlock"),
		"(*sync.RWMutex).RLock":   lockModel("lock"),
		"(*sync.RWMutex).RUnlock": lockModel("unlock"),
		"(*strings.Builder).Grow": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result { return ret1(st, nil) },
		"(*bytes.Buffer).Grow":    func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result { return ret1(st, nil) },
		"unicode/utf8.RuneLen":    nil,
		"fmt.Sprint": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strUnknown(st))
		},
		"(*bytes.Buffer).Bytes": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				id := m.siteID(call)
				t := types.NewSlice(types.Typ[types.Uint8])
				m.alloc(s, id, t, &Val{K: KArr, Smash: &Val{K: KNum, N: m.newNum(s, 0, 255)}, At: b.At, T: t}, fnName(call.Parent())+":Bytes")
				return nil, &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: b.N, Off: cnum(0), At: b.At, T: t}
			})
		},
		"bytes.NewBufferString": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			id := m.siteID(call)
			t := call.Value().Type().Underlying().(*types.Pointer).Elem()
			m.alloc(st, id, t, &Val{K: KBuf, N: args[0].N, At: args[0].At}, fnName(call.Parent())+":Buffer")
			return ret1(st, &Val{K: KPtr, Refs: []Ref{{Obj: id}}})
		},
		"bytes.NewBuffer": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			id := m.siteID(call)
			t := call.Value().Type().Underlying().(*types.Pointer).Elem()
			at := m.bytesContent(st, args[0])
			if at == nil && args[0].N != cnum(0) {
				at = []Atom{{Op: "sym", Sym: m.rawSym()}}
			}
			m.alloc(st, id, t, &Val{K: KBuf, N: args[0].N, At: at}, fnName(call.Parent())+":Buffer")
			return ret1(st, &Val{K: KPtr, Refs: []Ref{{Obj: id}}})
		},
		"fmt.Fprintf": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return m.fprint(st, call, args[0], m.sprintf(st, args[1:]))
		},
		"fmt.Fprint": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return m.fprint(st, call, args[0], m.strUnknown(st))
		},
		"io.WriteString": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return m.fprint(st, call, args[0], args[1])
		},
		"(*container/list.Element).Prev": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			e := args[0]
			m.check(call, "nil", describe(call.Common().Args[0])+".Prev()", !e.Nil)
			if e.definitelyNil() {
				return nil
			}
			if len(e.Refs) == 1 && !e.Unk && !e.Nil {
				if l := m.listAt(st, e.Refs[0]); l != nil && e.Off == l.Off {
					if lo, hi := st.cons.bounds(e.N); lo == hi && lo > 0 {
						return ret1(st, m.elemAt(st, e.Refs[0], l, cnum(lo-1)))
					} else if lo == hi && lo == 0 {
						return ret1(st, nilElem)
					}
				}
			}
			v := &Val{K: KPtr, T: m.p.elemType, N: m.newLen(st), Off: m.newNum(st, -inf, inf), Unk: true, Smash: &Val{K: KIface, Unk: true, Nil: true}}
			return []Result{{st.clone(), nilElem}, {st, v}}
		},
	}
	for k, f := range more {
		if f != nil && models[k] == nil {
			models[k] = f
		}
	}
	for _, n := range []string{"String", "Len", "WriteString", "Reset", "Write", "WriteByte", "WriteRune"} {
		models["(*strings.Builder)."+n] = models["(*bytes.Buffer)."+n]
	}
}

// fprint appends to a buffer behind an io.Writer.
func (m *Machine) fprint(st *State, call ssa.CallInstruction, w, s *Val) []Result {
	res := tuple(&Val{K: KNum, N: s.N}, nilIface)
	if w.K != KIface || len(w.Alts) != 1 || w.Unk || w.Nil || w.Alts[0].V.K != KPtr {
		m.unmod["Fprintf to an unknown writer"]++
		return ret1(st, tuple(&Val{K: KNum, N: m.newLen(st)}, &Val{K: KIface, Unk: true, Nil: true, T: errType}))
	}
	pt, ok := w.Alts[0].T.(*types.Pointer)
	if !ok || !isBufferType(pt.Elem()) {
		return ret1(st, tuple(&Val{K: KNum, N: m.newLen(st)}, &Val{K: KIface, Unk: true, Nil: true, T: errType}))
	}
	return bufOp(m, st, call, w.Alts[0].V, func(s2 *State, b *Val) (*Val, *Val) {
		c := m.concat(s2, &Val{K: KStr, N: b.N, At: b.At}, s)
		return &Val{K: KBuf, N: c.N, At: c.At}, res
	})
}
