package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reading an object does not change it.

// readers are the methods that only read, judging by their names.
func (p *Program) readers(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.publicMethods(t) {
		n := f.Name()
		for _, pre := range []string{"Get", "Is", "Has", "Obtain", "String", "Encode", "Equals", "Debug", "LT", "GT", "ELT", "EGT"} {
			if strings.HasPrefix(n, pre) || n == "Clone" {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// fillsIn lists the readers that are documented to fill something in.
func fillsIn(t *types.Named, f *ssa.Function, mode string) bool {
	switch t.Obj().Name() {
	case "SipURIImpl":
		return f.Name() == "GetTelephoneSubscriber" // creates the subscriber on demand
	case "Host":
		return f.Name() == "GetInetAddress" || f.Name() == "GetIpAddress" // keeps the resolved address
	case "RandomRand48":
		return true // a generator advances
	case "SIPRequest": // printing completes an incomplete request line
		return mode != "populated" && (f.Name() == "String" || f.Name() == "GetMessageAsEncodedStrings")
	}
	return false
}

type pureRes struct {
	Name, Pos, Why string
}

func pureEntry(p *Program, t *types.Named, out *[]pureRes) Entry {
	return Entry{Name: "readers of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		p.eachState(m, st, t, "fresh partly components populated", func(mode string, base *State) {
			for _, f := range p.readers(t) {
				if (mode == "fresh" || mode == "partly") && needsHeaders[f.Name()] || f.Name() == "HashCode" || fillsIn(t, f, mode) {
					continue
				}
				s := base.clone()
				args := []*Val{m.held(s, "obj")}
				for i := 0; i < f.Signature.Params().Len(); i++ {
					st2, v := p.argFor(m, s, f.Signature.Params().At(i).Type(), fmt.Sprint("arg", i))
					s = st2
					args = append(args, v)
				}
				res := pureRes{Name: typeName(t) + "." + f.Name(), Pos: p.where(t, f.Name())}
				before := map[ObjID]bool{}
				for id := range s.heap {
					before[id] = true
				}
				m.onStore = func(st *State, in ssa.Instruction, r Ref, old, new *Val) {
					if r.Obj != 0 && !before[r.Obj] || old != nil && new != nil && same(st, old, new) {
						return
					}
					what := "something that is not tracked"
					if o := st.heap[r.Obj]; o != nil {
						what = o.Site
					}
					res.Why = fmt.Sprintf("%s writes to %s (%s -> %s), called on the %s object", shortPos(p.Prog.Fset.Position(in.Pos()).String()), what, old, new, mode)
				}
				m.as(f.Name(), func() { m.do(s, f, args...) })
				m.onStore = nil
				*out = append(*out, res)
			}
		})
	}}
}

func init() {
	levels["P17"] = "proof"
	register(&Property{ID: "P17",
		Rule: "Every reading method is interpreted on a fresh and on a filled-in object with arbitrary arguments; no store, list, buffer or map operation it reaches may change an object that existed before the call.",
		Run: func(r *Report) {
			var es []Entry
			var outs []*[]pureRes
			for _, t := range r.p.dataTypes() {
				o := &[]pureRes{}
				outs = append(outs, o)
				es = append(es, pureEntry(r.p, t, o))
			}
			rs := runEntries(r.p, es)
			r.engine(rs)
			n := 0
			for _, o := range outs {
				for _, x := range *o {
					n++
					r.expect(x.Why == "", "writes", x.Name, x.Pos, x.Why)
				}
			}
			r.atLeast("reading methods interpreted", n, 2000)
		}})
}
