package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func parserEntries(r *Report) []Entry {
	var es []Entry
	ps := r.p.headerParsers()
	for _, n := range ps {
		es = append(es, parserEntry(r.p, n))
	}
	r.atLeast("line parsers (types with a New<T>(string) constructor and a Parse method)", len(ps), 50)
	return es
}

// otherEntries: the remaining public ways of parsing text.
func otherEntries(p *Program) []Entry {
	es := []Entry{messageEntry(p)}
	sp := p.pkg("sip/parser")
	// methods of StringMsgParser taking one string
	ctor := sp.Func("NewStringMsgParser")
	if ctor == nil {
		return es
	}
	t := ctor.Signature.Results().At(0).Type()
	ms := p.Prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		f := p.Prog.MethodValue(ms.At(i))
		if f == nil || !strings.HasPrefix(f.Name(), "Par") || f.Name() == "ParseSIPMessage" || f.Name() == "ParseMessage" {
			continue
		}
		sig := f.Signature
		if sig.Params().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), types.Typ[types.String]) {
			continue
		}
		es = append(es, Entry{Name: "StringMsgParser." + f.Name(), Memo: true, Run: func(m *Machine, st *State) {
			p.trackErrors(m)
			p.contractParsers(m)
			for _, r := range m.do(st, ctor) {
				m.do(r.st, f, r.ret, m.freshString(r.st))
			}
		}})
	}
	// exported functions of the core package that read text
	for _, n := range []string{"AddressParser.Address", "AddressParser.NameAddr"} {
		tn, mn, _ := strings.Cut(n, ".")
		c := sp.Func("New" + tn)
		if c == nil {
			continue
		}
		mf := p.method(c.Signature.Results().At(0).Type(), mn)
		if mf == nil {
			continue
		}
		es = append(es, Entry{Name: n, Memo: true, Run: func(m *Machine, st *State) {
			p.trackErrors(m)
			for _, r := range m.do(st, c, m.freshString(st)) {
				m.do(r.st, mf, r.ret)
			}
		}})
	}
	return es
}

func allParseRuns(r *Report) []EntryResult {
	es := append(otherEntries(r.p), parserEntries(r)...)
	rs := runEntries(r.p, es)
	r.engine(rs)
	return rs
}

func siteObs(r *Report, rs []EntryResult, keep func(s *Site) bool) int {
	n := 0
	for _, e := range rs {
		for _, s := range e.M.sites {
			if !keep(s) {
				continue
			}
			n++
			r.expect(s.Bad == 0, s.Kind, strings.TrimPrefix(s.Key, s.Kind+"@"), s.Pos, fmt.Sprintf("cannot be excluded when %s is given arbitrary text; call chain: %s", e.Name, s.Trace))
		}
	}
	return n
}

func init() {
	levels["P01"], levels["P02"], levels["P03"] = "proof", "proof", "proof"
	register(&Property{ID: "P01",
		Rule: "Abstract interpretation (intervals, difference bounds, nilness, dynamic types, byte sets) of every parser entry point on an arbitrary string: each nil dereference, index, slice, type assertion, map write, division, allocation size and explicit panic reachable from it must be excluded.",
		Trust: []string{
			"inside the whole-message entry a header line's parser is replaced by its contract (error, or a non-nil header of the types its package converts to Header); the contract is the per-parser runs of this same check",
			"no string, slice or buffer is longer than 2^48 bytes",
			"attaching parsed headers to the message object is outside this property",
		},
		Run: func(r *Report) {
			rs := allParseRuns(r)
			siteObs(r, rs, func(s *Site) bool { return true })
			r.atLeast("potentially panicking operations", len(r.obs), 1400)
			for _, e := range rs {
				p := e.M.contracts
				for _, c := range p {
					r.add(c)
				}
			}
		}})
	register(&Property{ID: "P02",
		Rule:  "For every loop reached from a parser entry point on an arbitrary string, the abstract states at its back edges must all make progress in a lexicographic measure over scanner positions, lengths and counters that is bounded by a loop-invariant limit; recursion is rejected.",
		Trust: []string{"no string is longer than 2^48 bytes"},
		Run: func(r *Report) {
			rs := allParseRuns(r)
			n := map[string]bool{}
			for _, e := range rs {
				for _, l := range e.M.loopsV {
					n[l.Key] = true
					r.expect(l.Bad == 0, "loop", l.Key, l.Pos, fmt.Sprintf("%s when %s is given arbitrary text; call chain: %s", l.Why, e.Name, l.Trace))
				}
			}
			r.atLeast("loops", len(n), 80)
		}})
	register(&Property{ID: "P03",
		Rule: "Path-sensitive typestate over the same abstract runs: once a call inside a scanner or parser function has reported an error (token mismatch, sub-parser, setter or conversion failure), that function must not return success. Looking ahead past the end of input, rewinding to a saved position, taking the rest of the line verbatim, and asking the application's listener are the only recoveries.",
		Run: func(r *Report) {
			rs := allParseRuns(r)
			for _, e := range rs {
				for _, s := range e.M.swallow {
					r.expect(s.Bad == 0, "swallowed", strings.TrimPrefix(s.Key, "swallowed@"), s.Pos, fmt.Sprintf("%s (in %s; %s)", s.Desc, e.Name, s.Trace))
				}
			}
			r.atLeast("functions that report errors", len(r.obs), 100)
			n := 0
			for _, short := range []string{"sip/parser"} {
				for _, c := range r.p.droppedErrors(short) {
					if nm := calleeName(c); nm == "LookAheadK" || nm == "LookAhead" {
						continue
					}
					if f := c.Common().StaticCallee(); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "bytes" {
						continue // bytes.Buffer never fails
					}
					n++
				}
			}
			r.stat("error results never looked at", n)
		}})
	_ = ssa.Function{}
}
