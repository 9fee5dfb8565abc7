package main

import (
	"errors"
	"fmt"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var models map[string]Model

var debugErrs = os.Getenv("VERIF_ERRS") != ""

func ret1(st *State, v *Val) []Result { return []Result{{st, v}} }

func tuple(vs ...*Val) *Val { return &Val{K: KTuple, El: vs} }

var errType = types.Universe.Lookup("error").Type()

func errVal() *Val { return &Val{K: KIface, Unk: true, T: errType} }

func okErr(m *Machine, st *State, okv func(*State) *Val, badv func(*State) *Val) []Result {
	s2 := st.clone()
	return []Result{{st, tuple(okv(st), nilIface)}, {s2, tuple(badv(s2), errVal())}}
}

// listOp applies f to each list target of a *list.List receiver.
func listOp(m *Machine, st *State, call ssa.CallInstruction, recv *Val, f func(s *State, r Ref, l *Val) []Result) []Result {
	var out []Result
	for _, t := range m.targets(st, call, recv, "list receiver") {
		if t.unk {
			l := &Val{K: KList, N: m.newLen(t.st), Smash: &Val{K: KIface, Nil: true, Unk: true}, Off: m.newNum(t.st, -inf, inf)}
			out = append(out, f(t.st, Ref{}, l)...)
			continue
		}
		l := m.listAt(t.st, t.ref)
		if l == nil {
			m.abort("list operation on something that is not a list")
		}
		out = append(out, f(t.st, t.ref, l)...)
	}
	return out
}

func (m *Machine) setList(s *State, call ssa.CallInstruction, r Ref, l *Val) {
	if r.Obj != 0 {
		m.storeRef(s, call, r, l)
	}
}

// foldList gives up on knowing the individual elements.
func (m *Machine) foldList(s *State, l *Val) *Val {
	n := *l
	for _, e := range l.El {
		n.Smash = m.joinVals(s, copyVal(n.Smash), copyVal(e))
	}
	n.El = nil
	return &n
}

func exactList(l *Val) bool { return l.N.S == 0 && int64(len(l.El)) == l.N.K }

func (m *Machine) elemAt(s *State, r Ref, l *Val, pos Num) *Val {
	e := &Val{K: KPtr, T: m.p.elemType, N: pos, Off: l.Off}
	if r.Obj != 0 {
		e.Refs = []Ref{r}
	} else {
		e.Unk = true
	}
	if exactList(l) {
		if lo, hi := s.cons.bounds(pos); lo == hi && lo >= 0 && lo < l.N.K {
			e.Smash = l.El[lo]
			return e
		}
	}
	sm := l.Smash
	for _, x := range l.El {
		sm = m.joinVals(s, copyVal(sm), copyVal(x))
	}
	e.Smash = m.instantiate(s, sm)
	return e
}

func (m *Machine) pushBack(s *State, call ssa.CallInstruction, r Ref, l, v *Val, front bool) *Val {
	n := *l
	if exactList(l) && l.N.K < int64(max(m.listMax, 6)) {
		if front {
			n.El = append([]*Val{v}, l.El...)
		} else {
			n.El = append(append([]*Val(nil), l.El...), v)
		}
	} else {
		n = *m.foldList(s, l)
		n.Smash = m.joinVals(s, copyVal(n.Smash), copyVal(v))
	}
	n.N = m.numAdd(s, l.N, cnum(1), types.Typ[types.Int])
	if n.N.S != 0 {
		s.cons.add(cnum(1), n.N)
	}
	if front && !m.shiftElems(s, r, l, 0, 1) {
		n.Off = m.newNum(s, -inf, inf)
	}
	m.setList(s, call, r, &n)
	if front {
		return m.elemAt(s, r, &n, cnum(0))
	}
	return m.elemAt(s, r, &n, l.N)
}

func (m *Machine) nonEmpty(s *State, l *Val) bool { return s.cons.add(cnum(1), l.N) }

func (m *Machine) empty(s *State, l *Val) bool { return s.cons.add(l.N, cnum(0)) }

var nilElem = &Val{K: KPtr, Nil: true}

func init() {
	lst := "(*container/list.List)."
	models = map[string]Model{
		"container/list.New": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			id := m.siteID(call)
			m.alloc(st, id, m.p.listType, &Val{K: KList, N: cnum(0)}, fnName(call.Parent())+":list.New")
			return ret1(st, &Val{K: KPtr, Refs: []Ref{{Obj: id}}})
		},
		lst + "Len": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				return ret1(s, &Val{K: KNum, N: l.N})
			})
		},
		lst + "Init": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				m.setList(s, call, r, &Val{K: KList, N: cnum(0), Off: m.newNum(s, -inf, inf)})
				return ret1(s, args[0])
			})
		},
		lst + "Front": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				var out []Result
				s2 := s.clone()
				if m.empty(s2, l) {
					out = append(out, Result{s2, nilElem})
				}
				if m.nonEmpty(s, l) {
					out = append(out, Result{s, m.elemAt(s, r, l, cnum(0))})
				}
				return out
			})
		},
		lst + "Back": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				var out []Result
				s2 := s.clone()
				if m.empty(s2, l) {
					out = append(out, Result{s2, nilElem})
				}
				if m.nonEmpty(s, l) {
					out = append(out, Result{s, m.elemAt(s, r, l, Num{l.N.S, l.N.K - 1})})
				}
				return out
			})
		},
		"(*container/list.Element).Next": elemNext,
		lst + "PushBack": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				return ret1(s, m.pushBack(s, call, r, l, args[1], false))
			})
		},
		lst + "PushFront": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				return ret1(s, m.pushBack(s, call, r, l, args[1], true))
			})
		},
		lst + "InsertBefore": listInsert,
		lst + "InsertAfter":  listInsert,
		lst + "PushBackList": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				var out []Result
				for _, t := range m.targets(s, call, args[1], "list argument") {
					if t.unk {
						n := m.foldList(t.st, l)
						n.N = m.newLen(t.st)
						n.Smash = &Val{K: KIface, Unk: true, Nil: true}
						m.setList(t.st, call, r, n)
						out = append(out, Result{t.st, nil})
						continue
					}
					o := m.listAt(t.st, t.ref)
					n := *l
					if exactList(l) && exactList(o) && l.N.K+o.N.K <= int64(max(m.listMax, 6)) {
						n.El = append(append([]*Val(nil), l.El...), o.El...)
					} else {
						n = *m.foldList(t.st, l)
						f := m.foldList(t.st, o)
						n.Smash = m.joinVals(t.st, copyVal(n.Smash), copyVal(f.Smash))
					}
					n.N = m.lenAdd(t.st, l.N, o.N)
					m.setList(t.st, call, r, &n)
					out = append(out, Result{t.st, nil})
				}
				return out
			})
		},
		lst + "Remove": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			m.check(call, "nil", "list.Remove("+describe(call.Common().Args[1])+")", !args[1].Nil)
			if args[1].definitelyNil() {
				return nil
			}
			return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
				e := args[1]
				n := *l
				lo, hi := s.cons.bounds(e.N)
				if exactList(l) && lo == hi && e.Off == l.Off && lo >= 0 && lo < l.N.K && len(e.Refs) == 1 && e.Refs[0] == r {
					n.El = append(append([]*Val(nil), l.El[:lo]...), l.El[lo+1:]...)
					n.N = cnum(l.N.K - 1)
					v := e.Smash
					if m.shiftElems(s, r, l, lo, -1) {
						m.setList(s, call, r, &n)
						if v == nil {
							v = &Val{K: KIface, Unk: true, Nil: true}
						}
						return ret1(s, v)
					}
				} else {
					n = *m.foldList(s, l)
					if len(e.Refs) == 1 && e.Refs[0] == r && e.Off == l.Off {
						n.N = m.numAdd(s, l.N, cnum(-1), types.Typ[types.Int])
						s.cons.add(cnum(0), n.N)
					} else {
						n.N = m.newLen(s)
						s.cons.add(n.N, l.N)
					}
				}
				n.Off = m.newNum(s, -inf, inf)
				m.setList(s, call, r, &n)
				v := e.Smash
				if v == nil {
					v = &Val{K: KIface, Unk: true, Nil: true}
				}
				return ret1(s, v)
			})
		},

		"errors.New": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			if debugErrs && m.fixing == 0 {
				fmt.Fprintln(os.Stderr, "ERROR", posOf(m.p.Prog.Fset, call), m.trace())
			}
			e := errVal()
			if m.scan {
				e.Site = m.trace()
			}
			return ret1(st, e)
		},
		"fmt.Errorf": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			e := errVal()
			if m.scan {
				e.Site = m.trace()
			}
			return ret1(st, e)
		},
		"fmt.Printf": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, tuple(&Val{K: KNum, N: m.newLen(st)}, nilIface))
		},
		"fmt.Println": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, tuple(&Val{K: KNum, N: m.newLen(st)}, nilIface))
		},
		"fmt.Sprintf": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.sprintf(st, args))
		},
		"strconv.Itoa": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.itoa(st, args[0].N, "dec"))
		},
		"strconv.FormatUint": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.fmtInt(st, args[0].N, args[1].N))
		},
		"strconv.FormatInt": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.fmtInt(st, args[0].N, args[1].N))
		},
		"strconv.FormatFloat": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			if k, ok := knownFloat(args[0]); ok && m.scan {
				f, p, b := constOr(st, args[1], -1), constOr(st, args[2], -2), constOr(st, args[3], -1)
				if f > 0 && p > -2 && (b == 32 || b == 64) {
					return ret1(st, litVal(strconv.FormatFloat(k, byte(f), int(p), int(b))))
				}
			}
			v := m.strLen(m.newNum(st, 1, 400))
			tag := floatTag(args[0])
			if lo, hi := st.cons.bounds(args[2].N); lo == hi && lo == -1 {
				tag += "exact" // the shortest text that reads back as the same number
			}
			v.At = []Atom{{Op: "float", Sym: args[0].S, Tag: tag}}
			return ret1(st, v)
		},
		"strconv.Atoi": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return m.parseInt(st, args[0], 10, -inf, inf)
		},
		"strconv.ParseInt": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			lo, hi := -inf, inf
			if b := args[2].N; b.S == 0 && b.K > 0 && b.K < 62 {
				lo, hi = -(int64(1) << uint(b.K-1)), int64(1)<<uint(b.K-1)-1
			}
			return m.parseInt(st, args[0], constOr(st, args[1], -1), lo, hi)
		},
		"strconv.ParseUint": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			hi := inf
			if b := args[2].N; b.S == 0 && b.K > 0 && b.K < 61 {
				hi = int64(1)<<uint(b.K) - 1
			}
			return m.parseInt(st, args[0], constOr(st, args[1], -1), 0, hi)
		},
		"strconv.ParseFloat": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			if at := args[0].At; len(at) == 1 && at[0].Op == "float" && at[0].Tag == "exact" && at[0].Sym != 0 {
				return ret1(st, tuple(&Val{K: KFloat, S: at[0].Sym}, nilIface))
			}
			if t, ok := isLit(m.mergeCuts(st, args[0], true)); ok {
				q, err := strconv.ParseFloat(t, int(constOr(st, args[1], 64)))
				if err == nil && !math.IsInf(q, 0) && !math.IsNaN(q) {
					return ret1(st, tuple(floatVal(q), nilIface))
				}
				if err != nil {
					return ret1(st, tuple(&Val{K: KFloat, S: m.rawSym()}, errVal()))
				}
			}
			f := func(s *State) *Val { return &Val{K: KFloat, S: m.rawSym()} }
			r := okErr(m, st, f, f)
			if !r[0].st.cons.add(cnum(1), args[0].N) {
				r = r[1:]
			}
			return r
		},
		"strings.ToLower":       caseModel(strings.ToLower, "lower"),
		"strings.ToUpper":       caseModel(strings.ToUpper, "upper"),
		"strings.TrimSpace":     trimModel(strings.TrimSpace),
		"strings.Trim":          trimSetModel(strings.Trim, true, true),
		"strings.TrimRight":     trimSetModel(strings.TrimRight, false, true),
		"strings.TrimLeft":      trimSetModel(strings.TrimLeft, true, false),
		"strings.TrimSuffix":    trimEndModel(strings.TrimSuffix, (*Machine).endsWith, false),
		"strings.TrimPrefix":    trimEndModel(strings.TrimPrefix, (*Machine).startsWith, true),
		"strings.Contains":      boolStrModel(strings.Contains, (*Machine).holds),
		"strings.HasPrefix":     boolStrModel(strings.HasPrefix, (*Machine).startsWith),
		"strings.HasSuffix":     boolStrModel(strings.HasSuffix, (*Machine).endsWith),
		"strings.Index":         indexModel(strings.Index, false),
		"strings.LastIndex":     indexModel(strings.LastIndex, true),
		"strings.IndexByte":     indexModel(nil, false),
		"strings.LastIndexByte": indexModel(nil, true),
		"strings.EqualFold": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			a, ok1 := isLit(args[0])
			b, ok2 := isLit(args[1])
			if ok1 && ok2 {
				return ret1(st, boolVal(strings.EqualFold(a, b)))
			}
			if m.content && len(args[0].At) > 0 && len(args[1].At) > 0 {
				a, b := foldAtoms(args[0].At), foldAtoms(args[1].At)
				var out []Result
				for _, v := range []bool{true, false} {
					if s := st.clone(); s.setEq(a, b, v) {
						out = append(out, Result{s, boolVal(v)})
					}
				}
				return out
			}
			return ret1(st, &Val{K: KBool, B: 2})
		},

		"(*bytes.Buffer).String": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				v := &Val{K: KStr, N: b.N, At: b.At}
				if b.N.S == 0 && b.N.K == 0 {
					v = litVal("")
				}
				return nil, m.mergeCuts(s, v, true)
			})
		},
		"(*bytes.Buffer).Len": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				return nil, &Val{K: KNum, N: b.N}
			})
		},
		"(*bytes.Buffer).WriteString": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				c := m.concat(s, &Val{K: KStr, N: b.N, At: b.At}, args[1])
				return &Val{K: KBuf, N: c.N, At: c.At}, tuple(&Val{K: KNum, N: args[1].N}, nilIface)
			})
		},
		"(*bytes.Buffer).Reset": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				return &Val{K: KBuf, N: cnum(0)}, nil
			})
		},
		"(*bytes.Buffer).Write": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				x := &Val{K: KStr, N: args[1].N, At: m.bytesContent(s, args[1])}
				if len(x.At) == 0 {
					x.At = []Atom{{Op: "sym", Sym: m.rawSym()}}
				}
				c := m.concat(s, &Val{K: KStr, N: b.N, At: b.At}, x)
				return &Val{K: KBuf, N: c.N, At: c.At}, tuple(&Val{K: KNum, N: args[1].N}, nilIface)
			})
		},
		"(*bytes.Buffer).WriteByte": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				var x *Val
				if v := m.oneChar(args[1]); v != nil {
					x = v
				} else if lo, hi := s.cons.bounds(args[1].N); lo == hi {
					x = litVal(string([]byte{byte(lo)}))
				} else {
					x = &Val{K: KStr, N: cnum(1), At: []Atom{{Op: "sym", Sym: m.rawSym()}}}
				}
				c := m.mergeCuts(s, m.concat(s, &Val{K: KStr, N: b.N, At: b.At}, x), false)
				return &Val{K: KBuf, N: c.N, At: c.At}, nilIface
			})
		},
		"(*bytes.Buffer).WriteRune": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return bufOp(m, st, call, args[0], func(s *State, b *Val) (*Val, *Val) {
				var x *Val
				if lo, hi := s.cons.bounds(args[1].N); lo == hi {
					x = litVal(string(rune(lo)))
				} else {
					x = m.strLen(m.newNum(s, 1, 4))
				}
				c := m.concat(s, &Val{K: KStr, N: b.N, At: b.At}, x)
				return &Val{K: KBuf, N: c.N, At: c.At}, tuple(&Val{K: KNum, N: x.N}, nilIface)
			})
		},

		"(*sync.Mutex).Lock":   lockModel("lock"),
		"(*sync.Mutex).Unlock": lockModel("unlock"),

		"net.ParseIP": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			s2 := st.clone()
			t := call.Common().Signature().Results().At(0).Type()
			v := m.ipVal(st, call, t)
			return []Result{{st, v}, {s2, &Val{K: KSlice, Nil: true, N: cnum(0), T: t}}}
		},
		"(net.IP).String": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strLen(m.newNum(st, 1, 64)))
		},
		"(net.IP).Equal": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KBool, B: 2})
		},
		"time.Now": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KOpaque})
		},
		"time.Sleep": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result { return ret1(st, nil) },
		"time.Parse": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			f := func(s *State) *Val { return &Val{K: KOpaque} }
			return okErr(m, st, f, f)
		},
		"(time.Time).Format": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			v := m.strLen(m.newNum(st, 0, 200))
			if f, ok := isLit(args[1]); ok && len(args[0].At) > 0 {
				v.At = []Atom{{Op: "time:" + f, Sub: args[0].At}}
			}
			return ret1(st, v)
		},
		"(time.Time).UTC": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			v := &Val{K: KOpaque, T: args[0].T}
			if at := args[0].At; len(at) == 1 && at[0].Op == "utc" {
				v.At = at
			} else if len(at) > 0 {
				v.At = []Atom{{Op: "utc", Sub: at}}
			}
			return ret1(st, v)
		},
		"(time.Time).Location": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KPtr, Unk: true})
		},
		"(*time.Location).String": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, m.strUnknown(st))
		},
		"(time.Time).Second": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KNum, N: m.newNum(st, 0, 59)})
		},
		"(time.Time).UnixNano": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KNum, N: m.newNum(st, -inf, inf)})
		},
		"os.Getpid": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KNum, N: m.newNum(st, 0, 1<<31-1)})
		},
		"os.OpenFile": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return okErr(m, st, func(s *State) *Val { return &Val{K: KPtr, Unk: true} }, func(s *State) *Val { return nilPtr })
		},
		"(*os.File).Close": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, &Val{K: KIface, Unk: true, Nil: true, T: errType})
		},
		"(*os.File).WriteString": func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
			return ret1(st, tuple(&Val{K: KNum, N: m.newLen(st)}, &Val{K: KIface, Unk: true, Nil: true, T: errType}))
		},
	}
}

func floatTag(v *Val) string {
	if len(v.At) > 0 {
		return v.At[0].Lit
	}
	return ""
}

func lockModel(name string) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		return ret1(st, nil)
	}
}

func (m *Machine) ipVal(st *State, call ssa.CallInstruction, t types.Type) *Val {
	id := m.siteID(call)
	m.alloc(st, id, t, &Val{K: KArr, Smash: &Val{K: KNum, N: m.newNum(st, 0, 255)}, T: t}, "net.ParseIP")
	return &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: cnum(16), Off: cnum(0), T: t}
}

func (m *Machine) itoa(st *State, n Num, tag string) *Val {
	lo, hi := st.cons.bounds(n)
	if lo == hi {
		return litVal(strconv.FormatInt(lo, 10))
	}
	h := int64(21)
	if lo >= 0 {
		h = 20
		if hi < inf {
			h = int64(len(strconv.FormatInt(hi, 10)))
		}
	}
	return &Val{K: KStr, N: m.newNum(st, 1, h), At: []Atom{{Op: "num", Num: n, Tag: tag}}}
}

func (m *Machine) fmtInt(st *State, n, base Num) *Val {
	if base.S != 0 {
		return m.strLen(m.newNum(st, 1, 65))
	}
	if base.K == 10 {
		return m.itoa(st, n, "dec")
	}
	lo, hi := st.cons.bounds(n)
	if lo == hi {
		return litVal(strconv.FormatInt(lo, int(base.K)))
	}
	h := int64(65)
	if lo >= 0 && hi < inf {
		h = int64(len(strconv.FormatInt(hi, int(base.K))))
	} else if lo >= 0 && base.K == 16 {
		h = 16
	}
	l := int64(1)
	if lo > 0 && base.K >= 2 {
		l = int64(len(strconv.FormatInt(lo, int(base.K))))
	}
	return &Val{K: KStr, N: m.newNum(st, l, h), At: []Atom{{Op: "num", Num: n, Tag: fmt.Sprintf("base%d", base.K)}}}
}

func constOr(st *State, v *Val, d int64) int64 {
	if lo, hi := st.cons.bounds(v.N); lo == hi {
		return lo
	}
	return d
}

func (m *Machine) parseInt(st *State, s *Val, base, lo, hi int64) []Result {
	if l, ok := isLit(s); ok && (base == 0 || base >= 2 && base <= 36) {
		v, err := strconv.ParseInt(l, int(base), 64)
		if errors.Is(err, strconv.ErrSyntax) {
			return ret1(st, tuple(&Val{K: KNum, N: cnum(0)}, errVal()))
		}
		if err != nil || v < lo || v > hi {
			return ret1(st, tuple(&Val{K: KNum, N: m.newNum(st, lo, hi)}, errVal()))
		}
		return ret1(st, tuple(&Val{K: KNum, N: cnum(v)}, nilIface))
	}
	at := s.At
	if len(at) > 1 && at[0].Op == "rep" && at[0].Tag == "0" {
		at = at[1:]
	}
	if len(at) == 1 && at[0].Op == "num" && (at[0].Tag == fmt.Sprintf("base%d", base) || base == 10 && at[0].Tag == "dec") {
		l, h := st.cons.bounds(at[0].Num)
		if (len(s.At) == 1 || l >= 0) && l >= lo && h <= hi {
			return ret1(st, tuple(&Val{K: KNum, N: at[0].Num}, nilIface))
		}
	}
	s2 := st.clone()
	var out []Result
	if st.cons.add(cnum(1), s.N) {
		v := &Val{K: KNum, N: m.newNum(st, lo, hi)}
		if m.content && len(s.At) > 0 {
			v.Prov = &Prov{Desc: "atoi(" + atomsString(s.At) + ")"}
		}
		out = append(out, Result{st, tuple(v, nilIface)})
	}
	out = append(out, Result{s2, tuple(&Val{K: KNum, N: m.newNum(s2, lo, hi)}, errVal())})
	return out
}

// foldAtoms is the content of a text in lower case.
func foldAtoms(at []Atom) []Atom {
	var out []Atom
	for _, a := range at {
		switch {
		case a.Op == "":
			out = append(out, Atom{Lit: strings.ToLower(a.Lit)})
		case a.Op == "lower", a.Op == "num" && a.Tag == "dec":
			out = append(out, a)
		case a.Op == "upper":
			out = append(out, Atom{Op: "lower", Sub: a.Sub})
		default:
			out = append(out, Atom{Op: "lower", Sub: []Atom{a}})
		}
	}
	return out
}

func caseModel(f func(string) string, op string) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		x := args[0]
		if s, ok := isLit(x); ok {
			return ret1(st, litVal(f(s)))
		}
		at := make([]Atom, 0, len(x.At))
		for _, a := range x.At {
			switch {
			case a.Op == "":
				at = append(at, Atom{Lit: f(a.Lit)})
			case a.Op == "num" && a.Tag == "dec":
				at = append(at, a)
			case a.Op == op:
				at = append(at, a)
			default:
				at = append(at, Atom{Op: op, Sub: []Atom{a}})
			}
		}
		if !m.content {
			at = []Atom{{Op: "sym", Sym: m.rawSym()}}
		}
		// a case mapping keeps strings non-empty but may change the byte length
		lo, hi := st.cons.bounds(x.N)
		n := x.N
		if lo <= 0 || hi > 0 {
			r := m.newNum(st, min(lo, 1), maxLen)
			if lo <= 0 {
				st.cons.setLo(r.S, 0)
			}
			n = r
		}
		return ret1(st, &Val{K: KStr, N: n, At: at})
	}
}

// visible: there is a character in the text that is never trimmed away.
func visible(at []Atom) bool {
	for _, a := range at {
		if a.Op == "" && strings.IndexFunc(a.Lit, func(r rune) bool { return r > ' ' && r < 127 }) >= 0 {
			return true
		}
	}
	return false
}

func trimModel(f func(string) string) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		x := args[0]
		if s, ok := isLit(x); ok && f != nil {
			return ret1(st, litVal(f(s)))
		}
		if v := m.trimmed(st, x, blanks, true, true); v != nil && f != nil {
			return ret1(st, v)
		}
		n := m.newLen(st)
		st.cons.add(n, x.N)
		if m.noBlanks && len(x.At) > 0 && (len(x.At) == 1 && x.At[0].Op == "sym" || visible(x.At)) {
			if lo, _ := st.cons.bounds(x.N); lo > 0 {
				st.cons.add(cnum(1), n)
			}
		}
		v := m.strLen(n)
		if m.content && len(x.At) == 1 && x.At[0].Op == "trim" {
			v.At = x.At
		} else if m.content {
			v.At = []Atom{{Op: "trim", Sub: x.At}}
		}
		return ret1(st, v)
	}
}

func trimSetModel(f func(a, b string) string, left, right bool) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		a, ok1 := isLit(args[0])
		b, ok2 := isLit(args[1])
		if ok1 && ok2 {
			return ret1(st, litVal(f(a, b)))
		}
		if ok2 {
			if v := m.trimmed(st, args[0], b, left, right); v != nil {
				return ret1(st, v)
			}
		}
		return trimModel(nil)(m, st, call, args)
	}
}

func trimEndModel(f func(a, b string) string, has func(m *Machine, st *State, at []Atom, b string) int, front bool) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		a, ok1 := isLit(args[0])
		b, ok2 := isLit(args[1])
		if ok1 && ok2 {
			return ret1(st, litVal(f(a, b)))
		}
		if ok2 && m.content {
			x := args[0]
			switch has(m, st, settle(x.At), b) {
			case 0:
				return ret1(st, x)
			case 1:
				n := int64(len(b))
				if front {
					return ret1(st, m.substr(st, x, cnum(n), x.N))
				}
				return ret1(st, m.substr(st, x, cnum(0), Num{x.N.S, x.N.K - n}))
			}
		}
		return trimModel(nil)(m, st, call, args)
	}
}

// containsIn decides whether a text contains a given one from its known parts.
func containsIn(at []Atom, b string) int {
	for _, a := range at {
		if a.Op == "" && strings.Contains(a.Lit, b) {
			return 1
		}
	}
	return 2
}

// prefixIn decides whether a text begins with a given one from its known parts.
func prefixIn(at []Atom, b string) int {
	if len(at) == 0 || at[0].Op != "" {
		return 2
	}
	if l := at[0].Lit; len(l) >= len(b) {
		if strings.HasPrefix(l, b) {
			return 1
		}
		return 0
	} else if !strings.HasPrefix(b, l) {
		return 0
	}
	return 2
}

// boolStrModel is a question about two texts; part decides it from the known
// parts of the first: no, yes, or 2.
func boolStrModel(f func(a, b string) bool, part func(m *Machine, st *State, at []Atom, b string) int) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		a, ok1 := isLit(args[0])
		b, ok2 := isLit(args[1])
		if ok1 && ok2 {
			return ret1(st, boolVal(f(a, b)))
		}
		if ok2 && b == "" {
			return ret1(st, boolVal(true))
		}
		if ok2 && part != nil && m.content {
			if x := part(m, st, settle(args[0].At), b); x < 2 {
				return ret1(st, boolVal(x == 1))
			}
		}
		s2 := st.clone()
		var out []Result
		// true implies the haystack is at least as long
		if st.cons.add(args[1].N, args[0].N) {
			out = append(out, Result{st, boolVal(true)})
		}
		out = append(out, Result{s2, boolVal(false)})
		return out
	}
}

func indexModel(f func(a, b string) int, last bool) Model {
	return func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		a, ok1 := isLit(args[0])
		if f != nil {
			b, ok2 := isLit(args[1])
			if ok1 && ok2 {
				return ret1(st, &Val{K: KNum, N: cnum(int64(f(a, b)))})
			}
		}
		if in, not, ok := m.among(st, args[0], args[1]); ok && !last {
			var out []Result
			if in != nil {
				lo, hi := in.cons.bounds(args[1].N)
				n := cnum(int64(strings.IndexByte(a, byte(lo))))
				if lo != hi {
					n = m.newNum(in, 0, int64(len(a)-1))
				}
				out = append(out, Result{in, &Val{K: KNum, N: n}})
			}
			if not != nil {
				out = append(out, Result{not, &Val{K: KNum, N: cnum(-1)}})
			}
			return out
		}
		if m.scan {
			b, ok := isLit(args[1])
			if lo, hi := st.cons.bounds(args[1].N); args[1].K == KNum && lo == hi && lo > 0 && lo < 128 {
				b, ok = string(rune(lo)), true
			}
			if ok {
				if n, ok := m.searched(st, args[0], b, last); ok {
					return ret1(st, &Val{K: KNum, N: n})
				}
			}
		}
		s2 := st.clone()
		var out []Result
		out = append(out, Result{s2, &Val{K: KNum, N: cnum(-1)}})
		r := m.foundAt(st, fmt.Sprintf("%p", f), args)
		sep := int64(1)
		if f != nil {
			sep, _ = st.cons.bounds(args[1].N)
		}
		// r + len(sep) <= len(s)
		if f != nil {
			m.noteFound(r, args[0], args[1])
		} else if b := args[1]; b.K == KNum && b.N.S == 0 && b.N.K > 0 && b.N.K < 128 {
			m.noteFound(r, args[0], litVal(string(rune(b.N.K))))
		}
		if st.cons.add(Num{r.S, sep}, args[0].N) {
			out = append(out, Result{st, &Val{K: KNum, N: r}})
		}
		return out
	}
}

// among splits the states by whether a character is one of a literal text's.
func (m *Machine) among(st *State, text, ch *Val) (in, not *State, ok bool) {
	a, lit := isLit(text)
	if !lit || ch.K != KNum {
		return nil, nil, false
	}
	var set, rest byteSet
	for i := 0; i < len(a); i++ {
		if a[i] >= 128 {
			return nil, nil, false
		}
		set.put(int64(a[i]))
	}
	lo, hi := st.cons.bounds(ch.N)
	if lo < 0 || hi > 255 || ch.N.K != 0 && ch.N.S != 0 {
		return nil, nil, false
	}
	if lo == hi {
		if set.has(lo) {
			return st, nil, true
		}
		return nil, st, true
	}
	for c := int64(0); c < 256; c++ {
		if !set.has(c) {
			rest.put(c)
		}
	}
	in, not = st.clone(), st
	if !in.cons.limit(ch.N.S, &set) {
		in = nil
	}
	if !not.cons.limit(ch.N.S, &rest) {
		not = nil
	}
	return in, not, true
}

func bufOp(m *Machine, st *State, call ssa.CallInstruction, recv *Val, f func(s *State, b *Val) (*Val, *Val)) []Result {
	var out []Result
	for _, t := range m.targets(st, call, recv, "buffer receiver") {
		if t.unk {
			b := &Val{K: KBuf, N: m.newLen(t.st), At: []Atom{{Op: "sym", Sym: m.rawSym()}}}
			_, r := f(t.st, b)
			out = append(out, Result{t.st, r})
			continue
		}
		cs, exact := m.cells(t.st, t.ref)
		if len(cs) == 0 || cs[0].K != KBuf {
			m.abort("buffer operation on something that is not a buffer")
		}
		b := cs[0]
		if !exact {
			b = m.instantiate(t.st, b)
		}
		m.clampLen(t.st, b.N)
		n, r := f(t.st, b)
		if n != nil {
			m.storeRef(t.st, call, t.ref, n)
		}
		out = append(out, Result{t.st, r})
	}
	return out
}

// shiftElems adjusts the live positions in a list after one element was
// removed (by -1) or inserted (by 1) at position k; a removed element gets
// position -1. It reports false when a position is not known.
func (m *Machine) shiftElems(s *State, r Ref, l *Val, k, by int64) bool {
	if m.memo != nil || r.Obj == 0 {
		return false
	}
	if o := s.heap[r.Obj]; o == nil || o.Sum {
		return false
	}
	ok := true
	touch := func(x *Val) *Val {
		if x.K != KPtr || !(isElemPtr(x) || x.T == elemField) || len(x.Refs) == 0 || x.Off != l.Off {
			return x
		}
		hit := false
		for _, y := range x.Refs {
			hit = hit || y == r
		}
		if !hit {
			return x
		}
		lo, hi := s.cons.bounds(x.N)
		if len(x.Refs) != 1 || lo != hi {
			ok = false
			return x
		}
		n := *x
		switch {
		case lo < k || lo < 0:
			return x
		case by < 0 && lo == k:
			n.N = cnum(-1)
		default:
			n.N = cnum(lo + by)
		}
		return &n
	}
	t := s.clone()
	t.mapVals(func(v *Val) *Val { return rewrite(v, touch) })
	if !ok {
		return false
	}
	s.mapVals(func(v *Val) *Val { return rewrite(v, touch) })
	return true
}

func elemNext(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
	e := args[0]
	m.check(call, "nil", describe(call.Common().Args[0])+".Next()", !e.Nil)
	if e.definitelyNil() {
		return nil
	}
	if e.Nil {
		n := *e
		n.Nil = false
		m.replaceIdent(st, e, &n)
		e = &n
	}
	var out []Result
	s2 := st.clone()
	fresh := func(s *State) *Val {
		return &Val{K: KPtr, T: m.p.elemType, N: m.newLen(s), Off: m.newNum(s, -inf, inf), Unk: true, Smash: &Val{K: KIface, Unk: true, Nil: true}}
	}
	if e.Unk || len(e.Refs) != 1 {
		v := fresh(st)
		if len(e.Refs) > 0 {
			// one of several tracked lists
			v.Unk = e.Unk
			var sm *Val
			for _, r := range e.Refs {
				if l := m.listAt(st, r); l != nil {
					sm = m.joinVals(st, copyVal(sm), copyVal(m.foldList(st, l).Smash))
				}
			}
			v.Refs = e.Refs
			if !e.Unk {
				v.Smash = m.instantiate(st, sm)
			}
		}
		return []Result{{s2, nilElem}, {st, v}}
	}
	r := e.Refs[0]
	l := m.listAt(st, r)
	if l == nil {
		return []Result{{s2, nilElem}, {st, fresh(st)}}
	}
	o := st.heap[r.Obj]
	if lo, hi := st.cons.bounds(e.N); lo == hi && lo == -1 && e.Off == l.Off {
		return []Result{{s2, nilElem}} // removed from its list
	} else if lo < 0 && e.Off == l.Off {
		out = append(out, Result{st.clone(), nilElem})
	}
	if o == nil || o.Sum || e.Off != l.Off {
		// a stale or summarised position: anywhere in the list, or off its end
		v := m.elemAt(st, r, m.foldList(st, l), m.newLen(st))
		v.Off = m.newNum(st, -inf, inf)
		out = append(out, Result{s2, nilElem})
		if l.N.S == 0 && l.N.K == 0 && (o == nil || !o.Sum) {
			return out
		}
		return append(out, Result{st, v})
	}
	pos := m.numAdd(st, e.N, cnum(1), types.Typ[types.Int])
	if s2.cons.add(l.N, pos) {
		out = append(out, Result{s2, nilElem})
	}
	if st.cons.add(Num{pos.S, pos.K + 1}, l.N) {
		out = append(out, Result{st, m.elemAt(st, r, l, pos)})
	}
	return out
}

func listInsert(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
	m.check(call, "nil", "list insert mark", !args[2].Nil)
	if args[2].definitelyNil() {
		return nil
	}
	return listOp(m, st, call, args[0], func(s *State, r Ref, l *Val) []Result {
		e := args[2]
		lo, hi := s.cons.bounds(e.N)
		if exactList(l) && l.N.K < int64(max(m.listMax, 6)) && lo == hi && e.Off == l.Off && lo >= 0 && lo < l.N.K && len(e.Refs) == 1 && e.Refs[0] == r {
			if calleeName(call) == "InsertAfter" {
				lo++
			}
			n := *l
			n.El = append(append(append([]*Val(nil), l.El[:lo]...), args[1]), l.El[lo:]...)
			n.N = cnum(l.N.K + 1)
			if !m.shiftElems(s, r, l, lo, 1) {
				n.Off = m.newNum(s, -inf, inf)
			}
			m.setList(s, call, r, &n)
			return ret1(s, m.elemAt(s, r, &n, cnum(lo)))
		}
		n := *m.foldList(s, l)
		n.Smash = m.joinVals(s, copyVal(n.Smash), copyVal(args[1]))
		n.N = m.numAdd(s, l.N, cnum(1), types.Typ[types.Int])
		n.Off = m.newNum(s, -inf, inf)
		m.setList(s, call, r, &n)
		return ret1(s, m.elemAt(s, r, &n, m.newLen(s)))
	})
}

// sprintf models the %s, %d, %v, %x and %q-free formats over known arguments.
func (m *Machine) sprintf(st *State, args []*Val) *Val {
	f, ok := isLit(args[0])
	if !ok || !m.content {
		return m.strUnknown(st)
	}
	var vs []*Val
	if len(args) > 1 && !args[1].definitelyNil() {
		x := args[1]
		if len(x.Refs) != 1 || x.Nil || x.Unk || x.N.S != 0 {
			return m.strUnknown(st)
		}
		o := st.heap[x.Refs[0].Obj]
		if o == nil || o.V.K != KArr || o.V.Smash != nil || int64(len(o.V.El)) < x.N.K {
			return m.strUnknown(st)
		}
		vs = o.V.El[:x.N.K]
	}
	out := litVal("")
	for f != "" {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			out = m.concat(st, out, litVal(f))
			break
		}
		if i > 0 {
			out = m.concat(st, out, litVal(f[:i]))
		}
		f = f[i+1:]
		j := strings.IndexAny(f, "%sdvxcq")
		if j < 0 {
			return m.strUnknown(st)
		}
		flags, verb := f[:j], f[j]
		f = f[j+1:]
		if verb == '%' {
			out = m.concat(st, out, litVal("%"))
			continue
		}
		if len(vs) == 0 {
			return m.strUnknown(st)
		}
		v := vs[0]
		vs = vs[1:]
		if v.K != KIface || len(v.Alts) != 1 || v.Nil || v.Unk {
			return m.strUnknown(st)
		}
		v = v.Alts[0].V
		switch {
		case v.K == KStr && flags == "" && (verb == 's' || verb == 'v'):
		case v.K == KNum && flags == "" && (verb == 'd' || verb == 'v'):
			v = m.itoa(st, v.N, "dec")
		case v.K == KNum && verb == 'x' && (flags == "" || flags[0] == '0'):
			w := flags
			v = m.fmtInt(st, v.N, cnum(16))
			if w != "" {
				z := m.newNum(st, 0, 64)
				v = m.concat(st, &Val{K: KStr, N: z, At: []Atom{{Op: "rep", Tag: "0", Num: z}}}, v)
			}
		case v.K == KBool && v.B != 2 && flags == "" && (verb == 'v'):
			v = litVal(strconv.FormatBool(v.B == 1))
		default:
			return m.strUnknown(st)
		}
		out = m.concat(st, out, v)
	}
	return out
}

func init() {
	for _, n := range []string{"String", "Len", "WriteString", "WriteByte", "WriteRune", "Reset", "Write"} {
		if b := models["(*bytes.Buffer)."+n]; b != nil {
			models["(*strings.Builder)."+n] = b
		}
	}
	models["(*strings.Builder).Grow"] = func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result { return ret1(st, nil) }
	models["(*bytes.Buffer).Grow"] = models["(*strings.Builder).Grow"]
	models["fmt.Sprint"] = func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		return ret1(st, m.strUnknown(st))
	}
	models["strconv.FormatBool"] = func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		if args[0].B != 2 {
			return ret1(st, litVal(strconv.FormatBool(args[0].B == 1)))
		}
		s2 := st.clone()
		m.replaceIdent(st, args[0], boolVal(true))
		m.replaceIdent(s2, args[0], boolVal(false))
		return []Result{{st, litVal("true")}, {s2, litVal("false")}}
	}
	models["strings.Join"] = func(m *Machine, st *State, call ssa.CallInstruction, args []*Val) []Result {
		x := args[0]
		if m.content && len(x.Refs) == 1 && !x.Nil && !x.Unk && x.N.S == 0 {
			if o := st.heap[x.Refs[0].Obj]; o != nil && o.V.K == KArr && o.V.Smash == nil && int64(len(o.V.El)) >= x.N.K && x.Off == cnum(0) {
				out := litVal("")
				for i, e := range o.V.El[:x.N.K] {
					if i > 0 {
						out = m.concat(st, out, args[1])
					}
					out = m.concat(st, out, e)
				}
				return ret1(st, out)
			}
		}
		return ret1(st, m.strUnknown(st))
	}
}
