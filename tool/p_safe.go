package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// plainMethods are the methods of a type that take nothing but basic values.
func (p *Program) plainMethods(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
next:
	for _, f := range p.publicMethods(t) {
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if _, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Basic); !ok {
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}

// messageTypes are the types that hold pieces of a message.
func (p *Program) messageTypes() []*types.Named {
	var out []*types.Named
	for _, s := range []string{"core", "sip/address", "sip/header", "sip/message"} {
		for _, t := range p.typesIn(s) {
			n := t.Obj().Name()
			if s == "core" && !strings.HasPrefix(n, "Host") && !strings.HasPrefix(n, "NameValue") || n == "HostNameParser" {
				continue
			}
			out = append(out, t)
		}
	}
	return out
}

// unsafeMethods panic on purpose: the operation is not offered.
var unsafeMethods = map[string]bool{"HashCode": true}

// needsHeaders are the identifiers computed from the mandatory headers of a
// message, and the requests derived from its request line.
var needsHeaders = map[string]bool{
	"GetTransactionId": true, "GetDialogId": true, "GetDialogId2": true,
	"CreateBYERequest": true, "CreateACKRequest": true,
}

// safeEntry calls every such method on a fresh and on a filled-in object.
func safeEntry(p *Program, t *types.Named, calls *int) Entry {
	return Entry{Name: "methods of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		p.eachState(m, st, t, "fresh partly components populated", func(mode string, base *State) {
			for _, f := range p.plainMethods(t) {
				if unsafeMethods[f.Name()] || (mode == "fresh" || mode == "partly") && needsHeaders[f.Name()] {
					continue
				}
				s := base.clone()
				args := []*Val{m.held(s, "obj")}
				for i := 0; i < f.Signature.Params().Len(); i++ {
					pt := f.Signature.Params().At(i).Type()
					if b := pt.Underlying().(*types.Basic); b.Info()&types.IsString != 0 {
						args = append(args, m.freshString(s))
					} else {
						args = append(args, m.topVal(s, pt))
					}
				}
				*calls++
				m.as(mode+f.Name(), func() { m.do(s, f, args...) })
			}
		})
	}}
}

func init() {
	levels["P20"] = "proof"
	register(&Property{ID: "P20",
		Rule:  "Every public method that takes nothing but basic values, of every URI, header and message type, is interpreted abstractly with arbitrary arguments on an object fresh from its constructor , after any one method that changes it, and on one whose setters have all been called; each nil dereference, index, slice, type assertion, map write, division and explicit panic reachable from it must be excluded.",
		Trust: []string{"HashCode, which panics by design, is left out; identifiers computed from From, To, Call-ID, CSeq or the request line, and requests derived from them, are only tried on the filled-in object", "index expressions inside EncodeAsBytes, which copy one buffer into another of the summed length, are not decided"},
		Run: func(r *Report) {
			var es []Entry
			calls := 0
			for _, t := range r.p.messageTypes() {
				es = append(es, safeEntry(r.p, t, &calls))
			}
			rs := runEntries(r.p, es)
			r.engine(rs)
			r.atLeast("method calls interpreted", calls, 2000)
			for _, e := range rs {
				for _, s := range e.M.sites {
					if s.Kind == "index" && strings.Contains(s.Key, ").EncodeAsBytes:") {
						continue
					}
					r.expect(s.Bad == 0, s.Kind, strings.TrimPrefix(s.Key, s.Kind+"@"), s.Pos, fmt.Sprintf("cannot be excluded for %s; call chain: %s", e.Name, s.Trace))
				}
			}
		}})
}
