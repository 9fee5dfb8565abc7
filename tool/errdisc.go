package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var errorType = types.Universe.Lookup("error").Type()

// droppedErrors lists the calls in package short whose error result is never
// looked at.
func (p *Program) droppedErrors(short string) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, fn := range p.fnsIn(short) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				res := c.Common().Signature().Results()
				ix := -1
				for i := 0; i < res.Len(); i++ {
					if types.Identical(res.At(i).Type(), errorType) {
						ix = i
					}
				}
				if ix < 0 {
					continue
				}
				v, ok := in.(ssa.Value)
				if !ok {
					out = append(out, c)
					continue
				}
				used := false
				if res.Len() == 1 {
					used = hasUse(v)
				} else {
					for _, r := range *v.Referrers() {
						if e, ok := r.(*ssa.Extract); ok && e.Index == ix && hasUse(e) {
							used = true
						} else if _, ok := r.(*ssa.Return); ok {
							used = true
						}
					}
				}
				if !used {
					out = append(out, c)
				}
			}
		}
	}
	return out
}

func hasUse(v ssa.Value) bool {
	if v.Referrers() == nil {
		return true
	}
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

// fnsIn lists the source functions of a package.
func (p *Program) fnsIn(short string) []*ssa.Function {
	sp := p.pkg(short)
	var out []*ssa.Function
	if sp == nil {
		return nil
	}
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		switch o := sc.Lookup(n).(type) {
		case *types.Func:
			if f := sp.Func(n); f != nil && len(f.Blocks) > 0 {
				out = append(out, f)
			}
		case *types.TypeName:
			nt, ok := o.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				if f := p.Prog.FuncValue(nt.Method(i)); f != nil && len(f.Blocks) > 0 {
					out = append(out, f)
				}
			}
		}
	}
	return out
}
