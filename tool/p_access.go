package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Reading back what was set, and leaving everything else alone.

func errOf(f *types.Signature, ret *Val) *Val {
	if ix := errResult(f); ix >= 0 {
		return pick(ret, f.Results().Len(), ix)
	}
	return nil
}

func succeeded(f *types.Signature, ret *Val) bool {
	e := errOf(f, ret)
	return e == nil || !e.definitelyNonNil()
}

func firstResult(f *types.Signature, ret *Val) *Val {
	if f.Results().Len() == 0 {
		return nil
	}
	return pick(ret, f.Results().Len(), 0)
}

// precise prepares a machine to follow contents exactly.
func precise(m *Machine) {
	m.content = true
	m.peel = 30
	m.apart = 40
	m.listMax = 40
	m.overrideFn = hexModel
}

// hexModel stands for message.ToHexString: two characters for every byte.
func hexModel(fn *ssa.Function) Model {
	if fn.Name() != "ToHexString" || fn.Pkg == nil || fn.Pkg.Pkg.Path() != modPath+"/sip/message" {
		return nil
	}
	return func(m *Machine, st *State, in ssa.CallInstruction, args []*Val) []Result {
		at := m.bytesContent(st, args[0])
		if at == nil {
			at = []Atom{{Op: "sym", Sym: m.rawSym()}}
		}
		n := m.newLen(st)
		st.cons.add(args[0].N, n)
		return ret1(st, &Val{K: KStr, N: n, At: []Atom{{Op: "hex", Sub: at}}})
	}
}

func typeName(t *types.Named) string {
	return strings.TrimPrefix(strings.TrimPrefix(t.Obj().Pkg().Path(), modPath+"/"), "sip/") + "." + t.Obj().Name()
}

// dataTypes are the types of messages and RTP packets.
func (p *Program) dataTypes() []*types.Named {
	return append(p.messageTypes(), p.typesIn("rtp")...)
}

// getters lists the read-only looking methods without parameters.
func (p *Program) getters(t *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.publicMethods(t) {
		if f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
			continue
		}
		n := f.Name()
		for _, pre := range []string{"Get", "Is", "Has", "Obtain"} {
			if strings.HasPrefix(n, pre) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

// strip removes normalising operations from the content of a string.
func strip(at []Atom, ops string) []Atom {
	var out []Atom
	for _, a := range at {
		if a.Op != "" && strings.Contains(ops, a.Op) {
			out = append(out, strip(a.Sub, ops)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

// setArgs are the arguments a setter is tried with.
func (p *Program) setArgs(m *Machine, st *State, f *ssa.Function, tag string) (*State, []*Val) {
	if vs, ok := enumerated[recvName(f)+"."+strings.TrimPrefix(f.Name(), "Set")]; ok {
		var out []*Val
		for _, v := range vs {
			switch v := v.(type) {
			case int:
				out = append(out, &Val{K: KNum, N: cnum(int64(v))})
			case string:
				out = append(out, litVal(v))
			}
		}
		return st, out
	}
	st, arg := p.argFor(m, st, f.Signature.Params().At(0).Type(), tag+":"+strings.TrimPrefix(f.Name(), "Set"))
	if arg.K == KBool && arg.B == 2 {
		return st, []*Val{boolVal(false), boolVal(true)}
	}
	return st, []*Val{arg}
}

// setRank orders setters: the name, then whole components, then the rest.
func setRank(a Accessor) int {
	if a.Attr == "HeaderName" {
		return 0
	}
	if _, ok := a.Set.Signature.Params().At(0).Type().Underlying().(*types.Basic); !ok {
		return 1
	}
	return 2
}

// populate applies every setter once, following one successful outcome each.
func (p *Program) populate(m *Machine, st *State, as []Accessor) *State {
	return p.fill(m, st, "obj", as, 0)
}

// fill applies the setters to the object in a slot; with depth above zero the
// components it is given are filled in as well.
func (p *Program) fill(m *Machine, st *State, slot string, as []Accessor, depth int) *State {
	tag := strings.TrimPrefix(slot, "obj")
	done := map[string]bool{}
	for pass := 0; pass < 6; pass++ {
		for _, a := range as {
			if done[a.Attr] || setRank(a) > pass/2 || a.Attr == "HeaderName" && (slot != "obj" || strings.HasSuffix(recvName(a.Set), "List")) {
				continue
			}
			s := st.clone()
			s, args := p.setArgs(m, s, a.Set, "pop"+tag)
			arg := args[len(args)-1]
			if t := p.component(arg, a.Set.Signature.Params().At(0).Type()); t != nil && depth > 0 {
				sub := slot + "." + a.Attr
				m.hold(s, sub, arg)
				s = p.fill(m, s, sub, p.accessors(t), depth-1)
				arg = m.held(s, sub)
			}
			var rs []Result
			m.as("pop"+tag+a.Attr, func() { rs = m.do(s, a.Set, pointee(m.held(s, slot)), arg) })
			for _, r := range rs {
				if succeeded(a.Set.Signature, r.ret) {
					st = r.st
					done[a.Attr] = true
					break
				}
			}
		}
	}
	return st
}

// component is the data type a value points at.
func (p *Program) component(v *Val, t types.Type) *types.Named {
	switch {
	case v.K == KIface && len(v.Alts) == 1 && !v.Nil && !v.Unk:
		t = v.Alts[0].T
	case v.K != KPtr || v.Nil || len(v.Refs) != 1:
		return nil
	}
	if pt, ok := t.(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
			return n
		}
	}
	return nil
}

type accRes struct {
	Attr, Other, Mode, Why string
	N                      int
}

// accessRun collects the disagreements for one type.
func accessEntry(p *Program, t *types.Named, out *[]accRes) Entry {
	return Entry{Name: "accessors of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks = true
		as := p.accessors(t)
		gs := p.getters(t)
		p.eachState(m, st, t, "fresh populated", func(mode string, base *State) {
			for _, a := range as {
				res := accRes{Attr: a.Attr, Mode: mode}
				s, args := p.setArgs(m, base.clone(), a.Set, "arg")
				for _, arg := range args {
					s := s.clone()
					m.hold(s, "arg", arg)
					var rs []Result
					m.as("set", func() { rs = m.do(s, a.Set, m.held(s, "obj"), m.held(s, "arg")) })
					for _, r2 := range rs {
						if !succeeded(a.Set.Signature, r2.ret) {
							continue
						}
						for _, r3 := range m.do(r2.st, a.Get, m.held(r2.st, "obj")) {
							res.N++
							got := firstResult(a.Get.Signature, r3.ret)
							want := m.held(r3.st, "arg")
							if ops := normalised[t.Obj().Name()+"."+a.Attr]; ops != "" && got.K == KStr && want.K == KStr && atomsString(strip(got.At, ops)) == atomsString(want.At) {
								continue
							}
							if !equalDeep(r3.st, got, want) {
								res.Why = fmt.Sprintf("set %s, got %s", want, got)
							}
						}
					}
				}
				*out = append(*out, res)
			}
			if mode != "populated" || len(as) == 0 {
				return
			}
			for _, g := range gs {
				// the getter must at least agree with itself
				pre, ok := p.readTwice(m, base, g)
				if !ok {
					continue
				}
				for _, a := range as {
					if a.Get == g {
						continue
					}
					res := accRes{Attr: a.Attr, Other: g.Name(), Mode: "frame"}
					for _, s0 := range pre {
						s, args := p.setArgs(m, s0.clone(), a.Set, "arg")
						for _, arg := range args {
							s := s.clone()
							var rs []Result
							m.as("set", func() { rs = m.do(s, a.Set, m.held(s, "obj"), arg) })
							for _, r2 := range rs {
								var gr []Result
								m.as("get2", func() { gr = m.do(r2.st, g, m.held(r2.st, "obj")) })
								for _, r3 := range gr {
									res.N++
									got := firstResult(g.Signature, r3.ret)
									if !same(r3.st, got, m.held(r3.st, "pre")) {
										res.Why = fmt.Sprintf("before %s, after %s", m.held(r3.st, "pre"), got)
									} else if !inside(t, a.Attr, g.Name()) && !frozenSame(r3.st, freeze(r3.st, got), m.held(r3.st, "deep")) {
										res.Why = "what it refers to has changed: " + frozenDiff(r3.st, m.held(r3.st, "deep"), freeze(r3.st, got))
									}
								}
							}
						}
					}
					*out = append(*out, res)
				}
			}
		})
	}}
}

// containers are getters that hand out the object other attributes live in.
var containers = map[string]string{
	"*":                   "GetAuthority GetHostPort GetMediaRange GetParameters GetUriParms GetUserInfo GetContactParms GetViaParms GetHeaderNames GetRequestLine GetStatusLine",
	"Via.Port":            "GetSentBy",
	"Via.Protocol":        "GetSentProtocol",
	"Via.ProtocolVersion": "GetSentProtocol",
	"*.FromTag":           "GetFrom",
	"*.ToTag":             "GetTo",
	"*.MessageContent":    "GetContentLength",
	"SIPRequest.Method":   "GetCSeq",
}

// inside reports whether the attribute is part of what the getter hands out.
func inside(t *types.Named, attr, getter string) bool {
	for _, k := range []string{"*", t.Obj().Name() + "." + attr, "*." + attr} {
		for _, g := range strings.Fields(containers[k]) {
			if g == getter {
				return true
			}
		}
	}
	return false
}

func frozenDiff(st *State, a, b *Val) string {
	if a.K == KTuple && b.K == KTuple && len(a.El) == len(b.El) {
		for i := range a.El {
			if !frozenSame(st, a.El[i], b.El[i]) {
				return frozenDiff(st, a.El[i], b.El[i])
			}
		}
	}
	return fmt.Sprint(a, " / ", b)
}

// readTwice reads a getter and keeps its answer in the slot "pre".
func (p *Program) readTwice(m *Machine, base *State, g *ssa.Function) ([]*State, bool) {
	var out []*State
	s := base.clone()
	var rs []Result
	m.as("get0", func() { rs = m.do(s, g, m.held(s, "obj")) })
	for _, r := range rs {
		v := firstResult(g.Signature, r.ret)
		if v == nil {
			return nil, false
		}
		m.hold(r.st, "pre", v)
		m.hold(r.st, "deep", freeze(r.st, v))
		keep := r.st.clone()
		var r2 []Result
		m.as("get1", func() { r2 = m.do(r.st, g, m.held(r.st, "obj")) })
		for _, x := range r2 {
			if !same(x.st, firstResult(g.Signature, x.ret), m.held(x.st, "pre")) {
				return nil, false
			}
		}
		out = append(out, keep)
	}
	return out, len(out) > 0
}

// normalised lists attributes that are stored trimmed or in lower case.
var normalised = map[string]string{
	"Host.Address":                 "trim",
	"Host.HostName":                "trim lower",
	"SipURIImpl.TransportParam":    "lower",
	"AcceptLanguage.LanguageRange": "trim",
}

// enumerated lists attributes that accept only a few values.
var enumerated = map[string][]interface{}{
	"UserInfo.UserType": {0, 1},
	"SipURIImpl.Scheme": {"sip", "sips"},
}

// recvName is the name of the type a method belongs to.
func recvName(f *ssa.Function) string {
	t := f.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func accessRuns(p *Program, filter string) ([]*types.Named, [][]accRes, []EntryResult) {
	var es []Entry
	var ts []*types.Named
	var outs []*[]accRes
	for _, t := range p.dataTypes() {
		if filter != "" && t.Obj().Name() != filter {
			continue
		}
		if len(p.accessors(t)) == 0 {
			continue
		}
		o := &[]accRes{}
		ts = append(ts, t)
		outs = append(outs, o)
		es = append(es, accessEntry(p, t, o))
	}
	rs := runEntries(p, es)
	var res [][]accRes
	for _, o := range outs {
		sort.SliceStable(*o, func(i, j int) bool {
			a, b := (*o)[i], (*o)[j]
			return a.Mode+a.Attr+a.Other < b.Mode+b.Attr+b.Other
		})
		res = append(res, *o)
	}
	return ts, res, rs
}

func debugAccess(p *Program, filter string) {
	if filter == "all" {
		filter = ""
	}
	ts, outs, rs := accessRuns(p, filter)
	n := 0
	for i := range ts {
		fmt.Printf("%s %.1fs %d %s\n", rs[i].Name, rs[i].Dur.Seconds(), len(outs[i]), rs[i].Abort)
		for _, a := range outs[i] {
			n++
			if a.Why != "" || a.N == 0 || os.Getenv("ALL") != "" {
				fmt.Println("   ", a.Mode, a.Attr, a.Other, a.N, a.Why)
			}
		}
	}
	fmt.Println(n)
}

// overlaps lists, per type and attribute, the getters that are defined in
// terms of the same piece of data, so that setting the attribute may change
// what they return. "*" stands for any type or any getter.
var overlaps = map[string]string{
	"*.HeaderName":                       "GetName",
	"*.Parameters":                       "*",
	"*.Address":                          "GetDisplayName GetHostPort GetUserAtHostPort",
	"Host.Address":                       "GetHostName GetIpAddress",
	"Host.HostName":                      "GetAddress GetIpAddress IsHostName IsIPAddress",
	"AddressImpl.AddressType":            "IsWildcard",
	"Authority.HostPort":                 "GetPort",
	"Authority.UserInfo":                 "GetPassword GetUser",
	"SipURIImpl.Authority":               "GetHost GetHostPort GetPort GetUser GetUserAtHost GetUserAtHostPort GetUserPassword",
	"*.HostPort":                         "GetPort GetHost GetUserAtHost GetUserAtHostPort",
	"SipURIImpl.Port":                    "GetUserAtHostPort",
	"SipURIImpl.Method":                  "GetMethodParam",
	"SipURIImpl.MethodParam":             "GetMethod",
	"*.Qheaders":                         "GetHeaderNames",
	"SipURIImpl.Scheme":                  "IsSecure",
	"SipURIImpl.Secure":                  "GetScheme",
	"SipURIImpl.UriParms":                "GetMAddrParam GetMethod GetMethodParam GetTTLParam GetTransportParam GetUserParam GetUserType HasTransport IsUserTelephoneSubscriber",
	"SipURIImpl.User":                    "GetUserAtHost GetUserPassword",
	"SipURIImpl.UserParam":               "GetUserType IsUserTelephoneSubscriber",
	"UserInfo.User":                      "GetUserType",
	"Accept.MediaRange":                  "GetContentSubType GetContentType",
	"AcceptLanguage.AcceptLanguage":      "GetLanguageRange",
	"AcceptLanguage.LanguageRange":       "GetAcceptLanguage",
	"AuthenticationInfo.CNonce":          "GetAuthenticationInfo",
	"AuthenticationInfo.NextNonce":       "GetAuthenticationInfo",
	"AuthenticationInfo.NonceCount":      "GetAuthenticationInfo",
	"AuthenticationInfo.Qop":             "GetAuthenticationInfo",
	"AuthenticationInfo.Response":        "GetAuthenticationInfo",
	"CallID.CallId":                      "GetCallIdentifer",
	"Contact.WildCardFlag":               "GetAddress",
	"ContentDisposition.DispositionType": "GetContentDisposition",
	"ContentDisposition.Handling":        "GetContentDisposition",
	"ContentLanguage.ContentLanguage":    "GetLanguageTag",
	"ContentLanguage.LanguageTag":        "GetContentLanguage",
	"ContentType.ContentSubType":         "GetMediaSubType",
	"ContentType.ContentType":            "GetMediaType",
	"ContentType.MediaRange":             "GetContentSubType GetContentType GetMediaSubType GetMediaType",
	"Extension.Name":                     "GetHeaderName",
	"Extension.Value":                    "GetHeaderValue",
	"MaxForwards.MaxForwards":            "HasReachedZero",
	"Via.SentBy":                         "GetPort GetHost",
	"Via.SentProtocol":                   "GetProtocol GetProtocolVersion GetTransport",
	"TimeStamp.Delay":                    "HasDelay",
	"*.CSeq":                             "GetCSeqNumber",
	"*.CallId":                           "GetCallIdentifier",
	"*.From":                             "GetFromTag HasFromTag",
	"*.To":                               "GetToTag HasToTag",
	"*.MessageContent":                   "GetContent",
	"SIPRequest.Method":                  "GetFirstLine",
	"SIPRequest.SIPVersion":              "GetFirstLine",
	"SIPRequest.RequestURI":              "GetFirstLine",
	"SIPRequest.RequestLine":             "GetFirstLine GetMethod GetRequestURI GetSIPVersion",
	"SIPResponse.ReasonPhrase":           "GetFirstLine",
	"SIPResponse.SIPVersion":             "GetFirstLine",
	"SIPResponse.StatusCode":             "GetFirstLine IsFinalResponse",
	"SIPResponse.StatusLine":             "GetFirstLine GetReasonPhrase GetSIPVersion GetStatusCode IsFinalResponse",
}

func mayOverlap(t *types.Named, attr, getter string) bool {
	for _, k := range []string{t.Obj().Name() + "." + attr, "*." + attr} {
		for _, g := range strings.Fields(overlaps[k]) {
			if g == "*" || g == getter {
				return true
			}
		}
	}
	return false
}

// notReadBack lists attributes whose getter returns a different
// representation of what was set.
func notReadBack(t *types.Named, attr, mode string) bool {
	n := t.Obj().Name()
	switch attr {
	case "URI": // kept as quoted text and parsed again when it is read
		return strings.Contains(n, "Authenti") || strings.Contains(n, "Authoriz") || strings.Contains(n, "Authenticate")
	case "FromTag", "ToTag": // needs a From or To header
		return mode == "fresh"
	case "MAddr": // an IPv6 reference gets its brackets
		return n == "Via"
	}
	return false
}

func init() {
	levels["P10"] = "proof"
	register(&Property{ID: "P10",
		Rule:  "readback: for every type of the URI, header, message and RTP packages that has both SetX(v) and GetX/IsX(), from a freshly constructed and from a filled-in object, the abstract value GetX returns after a SetX that did not report an error equals the argument (an arbitrary value of its type). frame: on the filled-in object every other getter returns the same abstract value before and after SetX, except the getters that the overlap table declares to be views of the same data.",
		Trust: []string{"interface-typed arguments are represented by one implementation of the interface", "the table of getters that are views of the same piece of data (overlaps in tool/p_access.go)"},
		Run: func(r *Report) {
			ts, outs, rs := accessRuns(r.p, "")
			r.engine(rs)
			nr, nf := 0, 0
			for i, t := range ts {
				for _, a := range outs[i] {
					if a.Mode == "frame" {
						if mayOverlap(t, a.Attr, a.Other) {
							continue
						}
						nf++
						r.expect(a.Why == "", "frame", typeName(t)+".Set"+a.Attr+" / "+a.Other, r.p.where(t, "Set"+a.Attr), a.Why)
						continue
					}
					if notReadBack(t, a.Attr, a.Mode) {
						continue
					}
					nr++
					why := a.Why
					if a.N == 0 {
						why = "no path on which the setter accepts a value returns from the getter"
					}
					r.expect(why == "", "readback", typeName(t)+"."+a.Attr+" ("+a.Mode+")", r.p.where(t, "Set"+a.Attr), why)
				}
			}
			r.atLeast("attributes read back", nr, 200)
			r.atLeast("getters compared across setters", nf, 1000)
		}})
}

// where is the source position of a method.
func (p *Program) where(t *types.Named, name string) string {
	if f := p.method(types.NewPointer(t), name); f != nil && f.Pos().IsValid() {
		return shortPos(p.Prog.Fset.Position(f.Pos()).String())
	}
	return ""
}
