package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Named parameters behave like a map, and RemoveX undoes SetX.

// keyed are the methods of a type that work on entries found by name.
type keyed struct {
	kind                        string
	set, get, has, remove, list *ssa.Function
}

func stringArgs(f *ssa.Function, n int) bool {
	if f == nil || f.Signature.Params().Len() != n {
		return false
	}
	for i := 0; i < n; i++ {
		t := f.Signature.Params().At(i).Type().Underlying()
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			continue
		}
		if it, ok := t.(*types.Interface); ok && i > 0 && it.NumMethods() == 0 {
			continue
		}
		return false
	}
	return true
}

func (p *Program) keyedOf(t *types.Named) []keyed {
	pt := types.NewPointer(t)
	pick := func(n int, names ...string) *ssa.Function {
		for _, x := range names {
			if f := p.method(pt, x); stringArgs(f, n) {
				return f
			}
		}
		return nil
	}
	var out []keyed
	for _, k := range []keyed{
		{"parameter", pick(2, "SetParameter"), pick(1, "GetParameter"), pick(1, "HasParameter", "HasParm"), pick(1, "RemoveParameter"), pick(0, "GetParameterNames")},
		{"entry", pick(2, "SetNameAndValue"), pick(1, "GetParameter"), pick(1, "HasNameValue"), pick(1, "Delete"), pick(0, "GetNames")},
		{"header", pick(2, "SetHeader"), pick(1, "GetHeader"), nil, pick(1, "RemoveHeader"), pick(0, "GetHeaderNames")},
	} {
		if k.set != nil && k.get != nil {
			out = append(out, k)
		}
	}
	return out
}

func (m *Machine) text(st *State, f *ssa.Function, i int, s *Val) *Val {
	if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Interface); ok {
		return &Val{K: KIface, Alts: []Alt{{types.Typ[types.String], s}}}
	}
	return s
}

// each runs f on every state and collects the results.
func (m *Machine) each(ss []*State, tag string, f func(s *State) []Result) []Result {
	var out []Result
	for _, s := range ss {
		m.as(tag, func() { out = append(out, f(s.clone())...) })
	}
	return out
}

func statesOf(rs []Result) []*State {
	var out []*State
	for _, r := range rs {
		out = append(out, r.st)
	}
	return out
}

func paramsEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "named entries of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks = true
		modes := "fresh populated"
		if typeName(t) == "core.NameValueList" {
			modes = "fresh" // two entries of arbitrary names may have the same name
		}
		p.eachState(m, st, t, modes, func(mode string, base *State) {
			for _, k := range p.keyedOf(t) {
				k := k
				obj := func(s *State) *Val { return m.held(s, "obj") }
				// set stores value slot val under name slot name, on the paths that accept it
				set := func(ss []*State, tag, name, val string) []*State {
					var ok []*State
					for _, r := range m.each(ss, tag, func(s *State) []Result {
						return m.do(s, k.set, obj(s), m.held(s, name), m.text(s, k.set, 1, m.held(s, val)))
					}) {
						if succeeded(k.set.Signature, r.ret) {
							ok = append(ok, r.st)
						}
					}
					return ok
				}
				get := func(ss []*State, tag, name string) []Result {
					return m.each(ss, tag, func(s *State) []Result { return m.do(s, k.get, obj(s), m.held(s, name)) })
				}
				add := func(rule, why string) {
					*out = append(*out, rangeRes{rule, typeName(t) + "." + k.set.Name() + " (" + mode + ")", why})
				}
				s0 := base.clone()
				m.hold(s0, "a", litVal("vfa"))
				m.hold(s0, "b", litVal("vfb"))
				m.hold(s0, "any", m.strLen(m.newNum(s0, 1, maxLen)))
				m.hold(s0, "c", litVal("vfc"))
				for _, v := range []string{"v1", "v2", "v3", "v4", "v5"} {
					m.hold(s0, v, m.strLen(m.newNum(s0, 1, maxLen)))
				}
				reads := func(rule string, rs []Result, want string) {
					why := ""
					if len(rs) == 0 {
						why = "no path reaches this point"
					}
					for _, r := range rs {
						got, w := firstResult(k.get.Signature, r.ret), litVal("")
						if want != "" {
							w = m.held(r.st, want)
						}
						if !same(r.st, got, w) {
							why = fmt.Sprintf("%s returns %s, expected %s", k.get.Name(), got, w)
						}
					}
					add(rule, why)
				}
				// any name reads back
				if mode == "fresh" && typeName(t) != "address.SipURIImpl" { // which takes only numbers for its ttl
					reads("stored", get(set([]*State{s0}, "s", "any", "v1"), "g", "any"), "v1")
				}
				count := func(rule string, ss []*State, name string, want int) {
					if k.list == nil {
						return
					}
					why := ""
					for _, r := range m.each(ss, "names", func(s *State) []Result { return m.do(s, k.list, obj(s)) }) {
						l := firstResult(k.list.Signature, r.ret)
						if l == nil || l.K != KPtr || len(l.Refs) != 1 || r.st.heap[l.Refs[0].Obj] == nil {
							return
						}
						lv := r.st.heap[l.Refs[0].Obj].V
						if lv == nil || !exactList(lv) {
							if want > 0 {
								return // a view of the entries themselves
							}
							continue
						}
						n := 0
						for _, e := range lv.El {
							if same(r.st, pointee(e), m.held(r.st, name)) {
								n++
							}
						}
						if len(lv.El) > 0 && pointee(lv.El[0]).K != KStr {
							return
						}
						if n != want {
							why = fmt.Sprintf("%s lists the name %d times, expected %d", k.list.Name(), n, want)
						}
					}
					add(rule, why)
				}
				asks := func(rule string, ss []*State, name string, want bool) {
					if k.has == nil {
						return
					}
					why := ""
					for _, r := range m.each(ss, "has", func(s *State) []Result { return m.do(s, k.has, obj(s), m.held(s, name)) }) {
						if v := firstResult(k.has.Signature, r.ret); !same(r.st, v, boolVal(want)) {
							why = fmt.Sprintf("%s returns %s, expected %v", k.has.Name(), v, want)
						}
					}
					add(rule, why)
				}
				asks("absent", []*State{s0}, "a", false)
				reads("absent", get([]*State{s0}, "g", "a"), "")
				// every short history of sets and removals over three names
				for _, h := range []string{"a", "ab", "aa", "baa", "aba", "aab", "abc", "abcb", "ab-a", "ab-b", "abc-a", "abc-b", "abc-c", "aba-a", "aba-b", "baa-a", "abcb-b", "ab-ab-b", "ab-aa", "a-a", "a-aa", "abc-bb", "abc-a-b-c"} {
					ss := []*State{s0}
					last := map[string]string{}
					nth := 0
					skip := false
					for i := 0; i < len(h); i++ {
						if h[i] == '-' {
							i++
							if skip = k.remove == nil; skip {
								break
							}
							nm := string(h[i])
							ss = statesOf(m.each(ss, fmt.Sprint("rm", i), func(s *State) []Result { return m.do(s, k.remove, obj(s), m.held(s, nm)) }))
							delete(last, nm)
							continue
						}
						nth++
						v := fmt.Sprint("v", nth)
						ss = set(ss, fmt.Sprint("s", i), string(h[i]), v)
						last[string(h[i])] = v
					}
					if skip {
						continue
					}
					for _, nm := range []string{"a", "b", "c"} {
						v, there := last[nm]
						rule := map[bool]string{true: "found", false: "gone"}[there] + " after " + h
						reads(rule, get(ss, "g", nm), v)
						asks(rule, ss, nm, there)
						n := 0
						if there {
							n = 1
						}
						count(rule, ss, nm, n)
					}
				}
			}
		})
	}}
}

// removers pairs RemoveX with SetX.
type remover struct {
	Attr                  string
	remove, set, get, has *ssa.Function
}

func (p *Program) removers(t *types.Named) []remover {
	by := map[string]*ssa.Function{}
	for _, f := range p.publicMethods(t) {
		by[f.Name()] = f
	}
	var out []remover
	for _, f := range p.publicMethods(t) {
		if !strings.HasPrefix(f.Name(), "Remove") || f.Signature.Params().Len() != 0 {
			continue
		}
		x := strings.TrimPrefix(f.Name(), "Remove")
		r := remover{Attr: x, remove: f}
		for _, alt := range []string{x, x + "Param"} {
			if s := by["Set"+alt]; s != nil && s.Signature.Params().Len() == 1 && r.set == nil {
				r.set = s
				r.Attr = alt
			}
			if g := by["Get"+alt]; g != nil && g.Signature.Params().Len() == 0 && r.get == nil {
				r.get = g
			}
		}
		if h := by["Has"+x]; h != nil && h.Signature.Params().Len() == 0 {
			r.has = h
		}
		if r.set != nil && (r.get != nil || r.has != nil) && x != "Parameters" {
			out = append(out, r)
		}
	}
	return out
}

func removeEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "removals from " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks = true
		p.eachState(m, st, t, "fresh populated", func(mode string, base *State) {
			for _, rm := range p.removers(t) {
				rm := rm
				name := typeName(t) + "." + rm.remove.Name() + " (" + mode + ")"
				obj := func(s *State) *Val { return m.held(s, "obj") }
				call := func(ss []*State, tag string, f *ssa.Function, args func(s *State) []*Val) []Result {
					return m.each(ss, tag, func(s *State) []Result {
						var a []*Val
						if args != nil {
							a = args(s)
						}
						return m.do(s, f, append([]*Val{obj(s)}, a...)...)
					})
				}
				var sets []*State
				s, args := p.setArgs(m, base.clone(), rm.set, "arg")
				for _, a := range args {
					a := a
					// -1 means no port, no delay
					if a.K == KNum && !s.cons.add(cnum(0), a.N) || a.K == KFloat && !s.setFloat(a, fint{lo: 0, hi: math.Inf(1)}) {
						continue
					}
					for _, r := range call([]*State{s}, "set", rm.set, func(*State) []*Val { return []*Val{a} }) {
						if succeeded(rm.set.Signature, r.ret) {
							sets = append(sets, r.st)
						}
					}
				}
				why := ""
				if rm.has != nil {
					for _, r := range call(sets, "has", rm.has, nil) {
						if v := firstResult(rm.has.Signature, r.ret); !same(r.st, v, boolVal(true)) {
							why = fmt.Sprintf("%s returns %s after %s", rm.has.Name(), v, rm.set.Name())
						}
					}
					*out = append(*out, rangeRes{"present", name, why})
				}
				gone := statesOf(call(sets, "remove", rm.remove, nil))
				why = ""
				if rm.has != nil {
					for _, r := range call(gone, "has2", rm.has, nil) {
						if v := firstResult(rm.has.Signature, r.ret); !same(r.st, v, boolVal(false)) {
							why = fmt.Sprintf("%s returns %s", rm.has.Name(), v)
						}
					}
					*out = append(*out, rangeRes{"removed", name, why})
				}
				why = ""
				if rm.get != nil && mode == "fresh" {
					// the getter answers what it answered before anything was set
					for _, r := range call([]*State{base}, "get0", rm.get, nil) {
						m.hold(r.st, "pre", firstResult(rm.get.Signature, r.ret))
						s, args := p.setArgs(m, r.st, rm.set, "arg")
						a := args[len(args)-1]
						var ok []*State
						for _, r2 := range call([]*State{s}, "set3", rm.set, func(*State) []*Val { return []*Val{a} }) {
							if succeeded(rm.set.Signature, r2.ret) {
								ok = append(ok, r2.st)
							}
						}
						for _, r3 := range call(statesOf(call(ok, "remove3", rm.remove, nil)), "get3", rm.get, nil) {
							if v := firstResult(rm.get.Signature, r3.ret); !equalDeep(r3.st, v, m.held(r3.st, "pre")) {
								why = fmt.Sprintf("%s returns %s, and %s when it was never set", rm.get.Name(), v, m.held(r3.st, "pre"))
							}
						}
					}
					*out = append(*out, rangeRes{"default", name, why})
				}
				if mode != "populated" {
					for _, g := range p.readers(t) {
						if g == rm.get || g == rm.has || g.Signature.Params().Len() != 0 || g.Signature.Results().Len() != 1 || g.Name() == "HashCode" || g.Name() == "GetHeaderValue" || g.Name() == "GetValue" {
							continue // the last two cut the printed text apart
						}
						if _, ok := g.Signature.Results().At(0).Type().Underlying().(*types.Basic); !ok {
							continue
						}
						why, n := "", 0
						if len(sets) > 0 {
							// what the object answers that never had the attribute
							for _, r := range call([]*State{base}, "getF", g, nil) {
								m.hold(r.st, "pre", freeze(r.st, firstResult(g.Signature, r.ret)))
								a := args[0]
								for _, r2 := range call([]*State{r.st}, "setF", rm.set, func(*State) []*Val { return []*Val{a} }) {
									if !succeeded(rm.set.Signature, r2.ret) {
										continue
									}
									for _, r3 := range call(statesOf(call([]*State{r2.st}, "removeF", rm.remove, nil)), "getF2", g, nil) {
										n++
										if got := freeze(r3.st, firstResult(g.Signature, r3.ret)); !frozenSame(r3.st, got, m.held(r3.st, "pre")) {
											why = fmt.Sprintf("%s differs from what it returns when %s was never set: %s", g.Name(), rm.Attr, frozenDiff(r3.st, m.held(r3.st, "pre"), got))
										}
									}
								}
							}
						}
						if n > 0 {
							*out = append(*out, rangeRes{"restored", name + " / " + g.Name(), why})
						}
					}
					continue
				}
				for _, g := range p.getters(t) {
					if g == rm.get || g == rm.has || g.Name() == "HasParameters" || mayOverlap(t, rm.Attr, g.Name()) {
						continue
					}
					var pre []*State
					ok := true
					for _, s := range sets {
						ss, o := p.readTwice(m, s, g)
						pre, ok = append(pre, ss...), ok && o
					}
					if !ok {
						continue
					}
					why := ""
					for _, r := range call(statesOf(call(pre, "remove2", rm.remove, nil)), "get2", g, nil) {
						if got := firstResult(g.Signature, r.ret); !same(r.st, got, m.held(r.st, "pre")) {
							why = fmt.Sprintf("%s returned %s before and %s after", g.Name(), m.held(r.st, "pre"), got)
						} else if !inside(t, rm.Attr, g.Name()) && !frozenSame(r.st, freeze(r.st, got), m.held(r.st, "deep")) {
							why = fmt.Sprintf("what %s refers to has changed: %s", g.Name(), frozenDiff(r.st, m.held(r.st, "deep"), freeze(r.st, got)))
						}
					}
					*out = append(*out, rangeRes{"frame", name + " / " + g.Name(), why})
				}
			}
		})
	}}
}

func collect(r *Report, ts []*types.Named, entry func(t *types.Named, out *[]rangeRes) Entry) map[string]int {
	var es []Entry
	var outs []*[]rangeRes
	for _, t := range ts {
		o := &[]rangeRes{}
		outs = append(outs, o)
		es = append(es, entry(t, o))
	}
	rs := runEntries(r.p, es)
	r.engine(rs)
	n := map[string]int{}
	for i, o := range outs {
		for _, x := range *o {
			n[x.Rule]++
			n[""]++
			r.expect(x.Why == "", x.Rule, x.Name, es[i].Name, x.Why)
		}
	}
	return n
}

func init() {
	levels["P31"], levels["P32"] = "proof", "proof"
	register(&Property{ID: "P31",
		Rule: "For every type with named parameters, entries or headers, with arbitrary values: the lookup after a set returns the value set; setting again replaces; other names keep their values; the name is listed once; after a removal the lookup finds nothing, the name is not listed, and the others are still there.",
		Run: func(r *Report) {
			var ts []*types.Named
			for _, t := range r.p.messageTypes() {
				if len(r.p.keyedOf(t)) > 0 {
					ts = append(ts, t)
				}
			}
			n := collect(r, ts, func(t *types.Named, out *[]rangeRes) Entry { return paramsEntry(r.p, t, out) })
			r.atLeast("types with named entries", len(ts), 20)
			r.atLeast("map laws checked", n[""], 200)
		}})
	register(&Property{ID: "P32",
		Rule: "For every RemoveX() with a matching SetX(v): HasX() is true after SetX was accepted and false after RemoveX; GetX returns after SetX and RemoveX what it returned on the fresh object; every other getter returns the same before and after RemoveX, except views of the same data.",
		Run: func(r *Report) {
			var ts []*types.Named
			for _, t := range r.p.messageTypes() {
				if len(r.p.removers(t)) > 0 {
					ts = append(ts, t)
				}
			}
			n := collect(r, ts, func(t *types.Named, out *[]rangeRes) Entry { return removeEntry(r.p, t, out) })
			r.atLeast("types with a removable attribute", len(ts), 10)
			r.atLeast("laws checked", n[""], 100)
		}})
}
