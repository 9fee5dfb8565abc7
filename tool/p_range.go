package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Setters that can refuse a value.

// refusing lists the exported one-argument setters that return an error.
func (p *Program) refusing(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.publicMethods(t) {
		if strings.HasPrefix(f.Name(), "Set") && f.Signature.Params().Len() == 1 && errResult(f.Signature) == f.Signature.Results().Len()-1 && errResult(f.Signature) >= 0 {
			out = append(out, f)
		}
	}
	return out
}

// wildArg is an argument without any promise.
func (p *Program) wildArg(m *Machine, st *State, t types.Type, tag string) (*State, []*Val) {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		st, v := p.argFor(m, st, t, tag)
		if _, ok := u.(*types.Pointer); ok {
			return st, []*Val{nilPtr, v}
		}
		return st, []*Val{nilIface, v}
	}
	return st, []*Val{m.topVal(st, t)}
}

// accepts lists the values a setter takes: every other value is refused.
type accepts struct {
	lo, hi   int64   // numbers
	flo, fhi float64 // floats
	also     float64 // one more float, unless 0
	text     int     // 1: any text but the empty one; 2: refuses the empty one and possibly others
}

func from(lo int64) accepts       { return accepts{lo: lo, hi: inf} }
func between(a, b int64) accepts  { return accepts{lo: a, hi: b} }
func floats(a, b float64) accepts { return accepts{flo: a, fhi: b} }

var someText, strictText = accepts{text: 1}, accepts{text: 2}

// acceptTable: "Type.Setter", or "*.Setter" for every type that has one.
var acceptTable = map[string]accepts{
	"ContentLength.SetContentLength":        from(0),
	"CSeq.SetSequenceNumber":                from(0),
	"CSeq.SetMethod":                        someText,
	"Expires.SetExpires":                    from(0),
	"MinExpires.SetExpires":                 from(0),
	"Contact.SetExpires":                    from(0),
	"SubscriptionState.SetExpires":          from(1),
	"SubscriptionState.SetRetryAfter":       from(1),
	"SubscriptionState.SetState":            someText,
	"SubscriptionState.SetReasonCode":       someText,
	"RetryAfter.SetRetryAfter":              from(0),
	"RetryAfter.SetDuration":                from(0),
	"RetryAfter.SetComment":                 someText,
	"MaxForwards.SetMaxForwards":            between(0, 255),
	"MimeVersion.SetMajorVersion":           from(0),
	"MimeVersion.SetMinorVersion":           from(0),
	"*.SetNonceCount":                       between(0, 4294967295),
	"RAck.SetCSeqNumber":                    from(1),
	"RAck.SetRSeqNumber":                    from(1),
	"RSeq.SetSequenceNumber":                from(1),
	"Reason.SetCause":                       from(0),
	"Warning.SetCode":                       between(300, 399),
	"Warning.SetAgent":                      someText,
	"Warning.SetText":                       someText,
	"Via.SetTTL":                            between(-1, 255),
	"Via.SetBranch":                         someText,
	"Via.SetMAddr":                          someText,
	"Via.SetProtocol":                       someText,
	"Via.SetReceived":                       someText,
	"SipURIImpl.SetTTLParam":                from(1),
	"SipURIImpl.SetMAddrParam":              someText,
	"SipURIImpl.SetTransportParam":          strictText,
	"*.SetQValue":                           floats(0, 1),
	"TimeStamp.SetDelay":                    {fhi: math.Inf(1), also: -1},
	"TimeStamp.SetTimeStamp":                floats(0, math.Inf(1)),
	"*.SetEncoding":                         someText,
	"*.SetOptionTag":                        someText,
	"Allow.SetMethod":                       someText,
	"*.SetEventType":                        someText,
	"*.SetEventId":                          someText,
	"*.SetAlgorithm":                        strictText,
	"*.SetDomain":                           strictText,
	"*.SetNonce":                            strictText,
	"*.SetOpaque":                           strictText,
	"*.SetRealm":                            strictText,
	"*.SetTag":                              strictText,
	"*.SetCallId":                           strictText,
	"*.SetCallID":                           strictText,
	"CallInfo.SetPurpose":                   someText,
	"ErrorInfo.SetErrorMessage":             someText,
	"ContentDisposition.SetDispositionType": someText,
	"ContentDisposition.SetHandling":        someText,
	"ContentType.SetContentType":            someText,
	"ContentType.SetContentSubType":         someText,
	"Organization.SetOrganization":          someText,
	"Priority.SetPriority":                  someText,
	"Subject.SetSubject":                    someText,
}

func acceptedBy(f *ssa.Function, t *types.Named) (accepts, bool) {
	if a, ok := acceptTable[t.Obj().Name()+"."+f.Name()]; ok {
		return a, true
	}
	a, ok := acceptTable["*."+f.Name()]
	return a, ok
}

// judge compares one outcome with the table.
func (a accepts) judge(st *State, x *Val, errv *Val) string {
	mayOK, mayErr := !errv.definitelyNonNil(), !errv.definitelyNil()
	switch x.K {
	case KNum:
		lo, hi := st.cons.bounds(x.N)
		if mayOK && !(a.lo <= lo && hi <= a.hi) {
			return fmt.Sprintf("may accept a value in %s; only %s are allowed", span(lo, hi), span(a.lo, a.hi))
		}
		if mayErr && !(hi < a.lo || a.hi < lo) {
			return fmt.Sprintf("may refuse a value in %s; all of %s are allowed", span(lo, hi), span(a.lo, a.hi))
		}
	case KFloat:
		f, g := st.float(x), fint{lo: a.flo, hi: a.fhi}
		if mayOK && !f.within(g) && !(a.also != 0 && f.lo == a.also && f.hi == a.also) {
			return fmt.Sprintf("may accept a number in %v..%v; only %v..%v are allowed", f.lo, f.hi, a.flo, a.fhi)
		}
		if mayErr && !meet(f, g).empty() {
			return fmt.Sprintf("may refuse a number in %v..%v; all of %v..%v are allowed", f.lo, f.hi, a.flo, a.fhi)
		}
	case KStr:
		lo, hi := st.cons.bounds(x.N)
		if mayOK && lo < 1 {
			return "may accept an empty text"
		}
		if mayErr && a.text == 1 && hi > 0 {
			return "may refuse a text that is not empty"
		}
	}
	return ""
}

func span(lo, hi int64) string {
	s := func(x int64) string {
		if x <= -inf {
			return "-inf"
		}
		if x >= inf {
			return "inf"
		}
		return fmt.Sprint(x)
	}
	return s(lo) + ".." + s(hi)
}

type rangeRes struct {
	Rule, Name, Why string
}

func rangeEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "refusals of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks = true
		gs := p.getters(t)
		p.eachState(m, st, t, "fresh populated", func(mode string, base *State) {
			for _, f := range p.refusing(t) {
				a, inTable := acceptedBy(f, t)
				why := ""
				outcomes := 0
				try := func(s *State, arg *Val, judge func(st *State, arg, e *Val)) {
					m.hold(s, "arg", arg)
					var rs []Result
					m.as("set", func() { rs = m.do(s, f, m.held(s, "obj"), m.held(s, "arg")) })
					for _, r2 := range rs {
						outcomes++
						judge(r2.st, m.held(r2.st, "arg"), errOf(f.Signature, r2.ret))
					}
				}
				s, args := p.wildArg(m, base.clone(), f.Signature.Params().At(0).Type(), "arg:"+strings.TrimPrefix(f.Name(), "Set"))
				if inTable {
					for _, arg := range args {
						try(s.clone(), arg, func(st *State, x, e *Val) {
							if w := a.judge(st, x, e); w != "" {
								why = w
							}
						})
					}
					*out = append(*out, rangeRes{"accepts", typeName(t) + "." + f.Name() + " (" + mode + ")", why})
				}
				for _, g := range gs {
					pre, ok := p.readTwice(m, base, g)
					if !ok {
						continue
					}
					why := ""
					n := 0
					for _, s0 := range pre {
						s, args := p.wildArg(m, s0.clone(), f.Signature.Params().At(0).Type(), "arg:"+strings.TrimPrefix(f.Name(), "Set"))
						for _, arg := range args {
							try(s.clone(), arg, func(st *State, x, e *Val) {
								if !e.definitelyNonNil() {
									return
								}
								n++
								m.as("get2", func() {
									for _, r3 := range m.do(st, g, m.held(st, "obj")) {
										if got := firstResult(g.Signature, r3.ret); !same(r3.st, got, m.held(r3.st, "pre")) {
											why = fmt.Sprintf("%s returned %s before and %s after the refused call", g.Name(), m.held(r3.st, "pre"), got)
										} else if !frozenSame(r3.st, freeze(r3.st, got), m.held(r3.st, "deep")) {
											why = fmt.Sprintf("what %s refers to was changed by the refused call: %s", g.Name(), frozenDiff(r3.st, m.held(r3.st, "deep"), freeze(r3.st, got)))
										}
									}
								})
							})
						}
					}
					if n > 0 {
						*out = append(*out, rangeRes{"unchanged", typeName(t) + "." + f.Name() + " / " + g.Name() + " (" + mode + ")", why})
					}
				}
			}
		})
	}}
}

func init() {
	levels["P11"] = "proof"
	register(&Property{ID: "P11",
		Rule:  "accepts: for every setter in the acceptance table, called with an arbitrary value, the numeric, float or length bounds inferred for the argument on each path that returns success lie inside the accepted range, and on each path that returns an error outside it. unchanged: on every path of any one-argument setter that ends in an error, each getter returns the abstract value it returned before the call.",
		Trust: []string{"NaN is not considered", "interface-typed arguments are represented by nil and one implementation of the interface"},
		Run: func(r *Report) {
			var es []Entry
			var outs []*[]rangeRes
			seen := map[string]bool{}
			for _, t := range r.p.messageTypes() {
				if len(r.p.refusing(t)) == 0 {
					continue
				}
				o := &[]rangeRes{}
				outs = append(outs, o)
				es = append(es, rangeEntry(r.p, t, o))
				for _, f := range r.p.refusing(t) {
					if _, ok := acceptTable[t.Obj().Name()+"."+f.Name()]; ok {
						seen[t.Obj().Name()+"."+f.Name()] = true
					} else if _, ok := acceptTable["*."+f.Name()]; ok {
						seen["*."+f.Name()] = true
					}
				}
			}
			rs := runEntries(r.p, es)
			r.engine(rs)
			n := map[string]int{}
			for i, o := range outs {
				for _, x := range *o {
					n[x.Rule]++
					r.expect(x.Why == "", x.Rule, x.Name, es[i].Name, x.Why)
				}
			}
			var missing []string
			for k := range acceptTable {
				if !seen[k] {
					missing = append(missing, k)
				}
			}
			sort.Strings(missing)
			for _, k := range missing {
				r.bad("accepts", k, "", "there is no such setter that can refuse its argument")
			}
			r.atLeast("setters with an acceptance range", n["accepts"], 120)
			r.atLeast("getters compared across refusals", n["unchanged"], 500)
		}})
}
