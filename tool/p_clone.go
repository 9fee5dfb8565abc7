package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Clones are equal and independent.

// ownClone is the Clone method a type declares itself.
func (p *Program) ownClone(t *types.Named) *ssa.Function {
	for i := 0; i < t.NumMethods(); i++ {
		f := t.Method(i)
		sig := f.Type().(*types.Signature)
		if f.Name() == "Clone" && sig.Params().Len() == 0 && sig.Results().Len() == 1 {
			return p.Prog.FuncValue(f)
		}
	}
	return nil
}

// pointee unwraps an interface holding one pointer.
func pointee(v *Val) *Val {
	if v.K == KIface && len(v.Alts) == 1 && !v.Nil && !v.Unk {
		return v.Alts[0].V
	}
	return v
}

func cloneEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "Clone of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks = true
		f := p.ownClone(t)
		p.eachState(m, st, t, "fresh partly components populated", func(mode string, base *State) {
			eq := rangeRes{Rule: "equal", Name: typeName(t) + ".Clone (" + mode + ")"}
			ap := rangeRes{Rule: "apart", Name: typeName(t) + ".Clone (" + mode + ")"}
			var rs []Result
			s := base.clone()
			m.as("clone", func() { rs = m.do(s, f, m.held(s, "obj")) })
			if len(rs) == 0 {
				eq.Why = "never returns"
			}
			for _, r := range rs {
				c, o := pointee(firstResult(f.Signature, r.ret)), m.held(r.st, "obj")
				if c.definitelyNil() && len(rs) > 1 {
					continue // a constructor that can fail was used
				}
				if c.Nil && len(c.Refs) == 1 {
					x := *c
					x.Nil = false
					c = &x
				}
				if !equalDeep(r.st, c, o) {
					eq.Why = "the clone differs from the original: " + differs(r.st, c, o, 0)
				}
				mine := r.st.reach([]*Val{o})
				for id := range r.st.reach([]*Val{c}) {
					if mine[id] && !m.isGlobal(id) {
						ap.Why = "the clone shares the object allocated at " + r.st.heap[id].Site + " with the original"
					}
				}
			}
			*out = append(*out, eq, ap)
		})
	}}
}

func (m *Machine) isGlobal(id ObjID) bool {
	for _, g := range m.globals {
		if g == id {
			return true
		}
	}
	return false
}

// differs points at the first difference.
func differs(st *State, a, b *Val, depth int) string {
	a, b = pointee(a), pointee(b)
	if a == nil || b == nil || depth > 8 {
		return fmt.Sprint(a, " / ", b)
	}
	if a.K == b.K && len(a.Refs) == 1 && len(b.Refs) == 1 && !a.Nil && !b.Nil {
		x, y := st.heap[a.Refs[0].Obj], st.heap[b.Refs[0].Obj]
		if x != nil && y != nil && (x.Sum || y.Sum) {
			return "several objects"
		}
		if x != nil && y != nil && x.V.K == KList {
			return differs(st, x.V, y.V, depth+1)
		}
		if x != nil && y != nil && x.V.K == y.V.K && len(x.V.El) == len(y.V.El) {
			for i := range x.V.El {
				if !deepEq(st, x.V.El[i], y.V.El[i], depth) {
					n := fmt.Sprint(i)
					if s, ok := x.T.Underlying().(*types.Struct); ok && i < s.NumFields() {
						n = s.Field(i).Name()
					}
					return n + ": " + differs(st, x.V.El[i], y.V.El[i], depth+1)
				}
			}
		}
	}
	if (a.K == KStruct && b.K == KStruct || a.K == KList && b.K == KList) && len(a.El) == len(b.El) {
		for i := range a.El {
			if !deepEq(st, a.El[i], b.El[i], depth) {
				return fmt.Sprint(i) + ": " + differs(st, a.El[i], b.El[i], depth+1)
			}
		}
	}
	return fmt.Sprint(a, " / ", b)
}

func init() {
	levels["P09"] = "proof"
	register(&Property{ID: "P09",
		Rule: "For every type that declares its own Clone, on a fresh, a partly and a completely filled-in object: the abstract object graph of the clone equals that of the original, and no mutable object is reachable from both.",
		Run: func(r *Report) {
			var es []Entry
			var outs []*[]rangeRes
			for _, t := range r.p.dataTypes() {
				if r.p.ownClone(t) == nil {
					continue
				}
				o := &[]rangeRes{}
				outs = append(outs, o)
				es = append(es, cloneEntry(r.p, t, o))
			}
			rs := runEntries(r.p, es)
			r.engine(rs)
			for i, o := range outs {
				for _, x := range *o {
					r.expect(x.Why == "", x.Rule, x.Name, es[i].Name, x.Why)
				}
			}
			r.atLeast("types that declare Clone", len(es), 15)
		}})
}
