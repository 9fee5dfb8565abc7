package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What is written for an object is what the grammar gives for the values that
// were set.
//
// A form is a text with the pieces
//
//	{Attr}        the value given to SetAttr (a component stands for its own text)
//	{Attr:ops}    the same, changed: upper, lower; get: as GetAttr returns it
//	{Attr?text}   the text if the flag is true, nothing if it is false
//	{Attr()}      name=value, given to SetAttr(name, value)
//	{Attr!}       nothing; SetAttr() is called
//	{Attr(name)}  the same with that name
//	{~Call a b}   nothing; Call("a", "b") is called
//	{Attr=value}  nothing; SetAttr(value) is called
//	[ ... ]       a part that is there when its values were set
//	¦             a comma, unless nothing was written since the last space
//	$             the end of the line
var forms = []struct{ Type, Form string }{
	{"core.HostPort", "{Host}[:{Port}]"},
	{"core.NameValue", "{Name}={Value}"},
	{"address.UserInfo", "{User}[:{Password}]"},
	{"address.Authority", "[{User}[:{Password}]@]{Host}[:{Port}]"},
	{"address.SipURIImpl", "{Scheme}:[{User}[:{UserPassword}]@]{Host}[:{Port}][;transport={TransportParam:lower}][;method={MethodParam}][;ttl={TTLParam}][;maddr={MAddrParam}][;user={UserParam}][;lr{LrParam!}][;{Parameter()};{Parameter(vfy)}][?{Header()}]"},
	{"address.TelURLImpl", "tel:{Global?+}{PhoneNumber}[;isub={IsdnSubAddress}][;postdial={PostDial}][;{Parameter()};{Parameter(vfy)}]"},
	{"address.SipURIImpl", "{Scheme}:{Host}{~SetHeader vfz 1}{~ClearQheaders}?{Header()}&{Header(vfy)}"},
	{"address.SipURIImpl", "{Scheme}:{Host}{~SetHeader vfz 1}{~RemoveHeaders}?{Header()}&{Header(vfy)}"},
	{"address.SipURIImpl", "{Scheme}:{Host}{~SetHeader vfz 1}?{Header()}{~RemoveHeader vfz}&{Header(vfy)}"},
	{"address.SipURIImpl", "{Scheme}:{Host}{~SetParameter vfz 1};{Parameter()}{~RemoveParameter vfz};{Parameter(vfy)}[?{Header()}&{Header(vfy)}]"},
	{"address.SipURIImpl", "{Scheme}:{Host}{~SetParameter vfz 1}{~ClearUriParms}[;{Parameter()}][;{Parameter(vfy)}]"},
	{"address.AddressImpl", "[\"{DisplayName}\" ]<{URI}>"},
	{"address.AddressImpl", "{AddressType=1}{URI}"},
	{"header.MediaRange", "{Type}/{Subtype}"},
	{"header.Protocol", "{ProtocolName:upper}/{ProtocolVersion}/{Transport:upper}"},
	{"header.CallIdentifier", "{LocalId}[@{Host}]"},
	{"header.RequestLine", "{Method} {Uri} {SipVersion}$"},
	{"header.RequestLine", "{Method} {Uri} SIP/2.0$"},
	{"header.StatusLine", "{SipVersion} {StatusCode} {ReasonPhrase}$"},
	{"header.StatusLine", "SIP/2.0 {StatusCode} {ReasonPhrase}$"},
	{"header.Accept", "Accept: {ContentType}/{ContentSubType}[;q={QValue}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.AcceptEncoding", "Accept-Encoding: {Encoding}[;q={QValue}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.AcceptLanguage", "Accept-Language: {LanguageRange:get}[;q={QValue}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.AlertInfo", "Alert-Info: <{AlertInfo}>[;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Allow", "Allow: {Method}$"},
	{"header.AllowEvents", "Allow-Events: {EventType}$"},
	{"header.AuthenticationInfo", "Authentication-Info: [¦cnonce=\"{CNonce}\"][¦nextnonce=\"{NextNonce}\"][¦nc={NonceCount:nc}][¦qop={Qop:loose}][¦rspauth=\"{Response}\"]$"},
	{"header.Authorization", "Authorization: {Scheme} " + authForm},
	{"header.ProxyAuthorization", "Proxy-Authorization: {Scheme} " + authForm},
	{"header.WWWAuthenticate", "WWW-Authenticate: {Scheme} " + authForm},
	{"header.ProxyAuthenticate", "Proxy-Authenticate: {Scheme} " + authForm},
	{"header.Authorization", "Authorization: Digest [¦username=\"{Username}\"]$"},
	{"header.ProxyAuthorization", "Proxy-Authorization: Digest [¦username=\"{Username}\"]$"},
	{"header.WWWAuthenticate", "WWW-Authenticate: Digest [¦realm=\"{Realm}\"]$"},
	{"header.ProxyAuthenticate", "Proxy-Authenticate: Digest [¦realm=\"{Realm}\"]$"},
	{"header.CSeq", "CSeq: {SequenceNumber} {Method:upper}$"},
	{"header.CallID", "Call-ID: {CallId}$"},
	{"header.CallID", "Call-ID: {CallIdentifier}$"},
	{"header.CallInfo", "Call-Info: <{Info}>[;purpose={Purpose}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Contact", "Contact: {Address}[;expires={Expires}][;q={QValue}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.ContentDisposition", "Content-Disposition: {DispositionType}[;handling={Handling}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.ContentEncoding", "Content-Encoding: {Encoding}$"},
	{"header.ContentLanguage", "Content-Language: {LanguageTag}$"},
	{"header.ContentLength", "Content-Length: {ContentLength}$"},
	{"header.ContentType", "Content-Type: {ContentType}/{ContentSubType}[;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Date", "Date: {Date}$"},
	{"header.ErrorInfo", "Error-Info: <{ErrorInfo}>[;message=\"{ErrorMessage}\"][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Event", "Event: {EventType}[;id={EventId}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Expires", "Expires: {Expires}$"},
	{"header.Extension", "{Name}: {Value}$"},
	{"header.From", "From: {Address}[;tag={Tag}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.InReplyTo", "In-Reply-To: {CallId}$"},
	{"header.MaxForwards", "Max-Forwards: {MaxForwards}$"},
	{"header.MimeVersion", "MIME-Version: {MajorVersion}.{MinorVersion}$"},
	{"header.MinExpires", "Min-Expires: {Expires}$"},
	{"header.Organization", "Organization: {Organization}$"},
	{"header.Priority", "Priority: {Priority}$"},
	{"header.ProxyRequire", "Proxy-Require: {OptionTag}$"},
	{"header.RAck", "RAck: {RSeqNumber} {CSeqNumber} {Method}$"},
	{"header.RSeq", "RSeq: {SequenceNumber}$"},
	{"header.Reason", "Reason: {Protocol}[;cause={Cause}][;text=\"{Text}\"][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.RecordRoute", "Record-Route: {Address}[;{Parameter()};{Parameter(vfy)}]$"},
	{"header.ReferTo", "Refer-To: {Address}[;{Parameter()};{Parameter(vfy)}]$"},
	{"header.ReplyTo", "Reply-To: {Address}[;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Require", "Require: {OptionTag}$"},
	{"header.RetryAfter", "Retry-After: {RetryAfter}[ ({Comment})][;duration={Duration}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Route", "Route: {Address}[;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Server", "Server: {Product}$"},
	{"header.Subject", "Subject: {Subject}$"},
	{"header.SubscriptionState", "Subscription-State: {State}[;reason={ReasonCode}][;retry-after={RetryAfter}][;expires={Expires}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Supported", "Supported: {OptionTag}$"},
	{"header.TimeStamp", "Timestamp: {TimeStamp}[ {Delay}]$"},
	{"header.To", "To: {Address}[;tag={Tag}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Unsupported", "Unsupported: {OptionTag}$"},
	{"header.UserAgent", "User-Agent: {Product}$"},
	{"header.Via", "Via: {SentProtocol} {SentBy}[;branch={Branch}][;received={Received}][;ttl={TTL}][;maddr={MAddr:get}][;{Parameter()};{Parameter(vfy)}]$"},
	{"header.Via", "Via: {SentProtocol} {Host}[:{Port}][ ({Comment})]$"},
	{"header.Via", "Via: {Protocol:upper}/{ProtocolVersion}/UDP {Host}$"},
	{"header.Via", "Via: {SentProtocol} {SentBy};branch={Branch} ({Comment})$"},
	{"header.Warning", "Warning: {Code} {Agent} \"{Text}\"$"},
}

const authForm = "[¦username=\"{Username}\"][¦realm=\"{Realm}\"][¦nonce=\"{Nonce}\"][¦uri=\"{URI}\"][¦response=\"{Response}\"][¦algorithm={Algorithm:loose}][¦cnonce=\"{CNonce}\"][¦opaque=\"{Opaque}\"][¦qop={Qop:loose}][¦nc={NonceCount:nc}][¦domain=\"{Domain}\"][¦stale={Stale}]$"

// piece is one part of a form.
type piece struct {
	Lit       string
	Attr, Mod string
	Flag      string // {Attr?Flag}
	Const     string // {Attr=Const}
	Opt       []*piece
	Index     int // of an optional part
	Comma     bool
	Two       string   // {Attr(Two)}
	Call      []string // {~Attr Call...}
}

func parseForm(s string) (out []*piece, opts int) {
	up := map[int]int{}
	var seq func(i int, parent int) ([]*piece, int)
	seq = func(i, parent int) ([]*piece, int) {
		var ps []*piece
		lit := ""
		flush := func() {
			if lit != "" {
				ps = append(ps, &piece{Lit: lit})
				lit = ""
			}
		}
		for i < len(s) {
			switch {
			case s[i] == '[':
				flush()
				n := opts
				opts++
				up[n] = parent
				sub, j := seq(i+1, n)
				ps = append(ps, &piece{Opt: sub, Index: n})
				i = j
			case s[i] == ']':
				flush()
				return ps, i + 1
			case s[i] == '{':
				flush()
				j := i + strings.IndexByte(s[i:], '}')
				a := &piece{Attr: s[i+1 : j]}
				if n, ok := strings.CutPrefix(a.Attr, "~"); ok {
					ws := strings.Fields(n)
					a.Attr, a.Call = ws[0], append([]string{}, ws[1:]...)
				} else if n, f, ok := strings.Cut(a.Attr, "?"); ok {
					a.Attr, a.Flag = n, f
				} else if n, f, ok := strings.Cut(a.Attr, ":"); ok {
					a.Attr, a.Mod = n, f
				} else if n, f, ok := strings.Cut(a.Attr, "="); ok {
					a.Attr, a.Const = n, f
				} else if n, arg, ok := strings.Cut(a.Attr, "("); ok {
					a.Attr, a.Two = n, strings.TrimSuffix(arg, ")")
					if a.Two == "" {
						a.Two = "vfx"
					}
				} else if n, ok := strings.CutSuffix(a.Attr, "!"); ok {
					a.Attr, a.Const = n, "!"
				}
				ps = append(ps, a)
				i = j + 1
			case strings.HasPrefix(s[i:], "¦"):
				flush()
				ps = append(ps, &piece{Comma: true})
				i += len("¦")
			case s[i] == '$':
				lit += "\r\n"
				i++
			default:
				lit += s[i : i+1]
				i++
			}
		}
		flush()
		return ps, i
	}
	out, _ = seq(0, -1)
	return out, opts
}

// parents of the optional parts of a form.
func parents(ps []*piece, up int, out map[int]int) map[int]int {
	for _, x := range ps {
		if x.Opt != nil {
			out[x.Index] = up
			parents(x.Opt, x.Index, out)
		}
	}
	return out
}

// choices are the sets of optional parts a form is tried with: none, each
// one, each two, all but one and all, with the parts they are inside of.
func choices(ps []*piece, n int) []map[int]bool {
	up := parents(ps, -1, map[int]int{})
	seen := map[string]bool{}
	var out []map[int]bool
	add := func(is ...int) {
		c := map[int]bool{}
		for _, i := range is {
			for ; i >= 0; i = up[i] {
				c[i] = true
			}
		}
		if k := fmt.Sprint(c); !seen[k] {
			seen[k] = true
			out = append(out, c)
		}
	}
	add()
	if n <= 5 {
		for b := 1; b < 1<<n; b++ {
			var is []int
			for i := 0; i < n; i++ {
				if b>>i&1 == 1 {
					is = append(is, i)
				}
			}
			add(is...)
		}
		return out
	}
	var all []int
	for i := 0; i < n; i++ {
		add(i)
		all = append(all, i)
		for j := 0; j < i; j++ {
			add(j, i)
		}
	}
	add(all...)
	for i := 0; i < n; i++ {
		var is []int
		for j := 0; j < n; j++ {
			if j != i && up[j] != i {
				is = append(is, j)
			}
		}
		add(is...)
	}
	return out
}

// writing follows one object through the steps of a form.
type writing struct {
	p     *Program
	m     *Machine
	t     *types.Named
	ss    []*State
	n     int // texts held so far
	parts []part
	why   string
}

// part of the expected text: a literal or a slot.
type part struct {
	lit, slot, mod string
	comma          bool
}

func (w *writing) lit(s string) { w.parts = append(w.parts, part{lit: s}) }

func (w *writing) fail(f string, a ...interface{}) {
	if w.why == "" {
		w.why = fmt.Sprintf(f, a...)
	}
}

func (w *writing) walk(ps []*piece, on map[int]bool) {
	for _, x := range ps {
		switch {
		case x.Lit != "":
			w.lit(x.Lit)
		case x.Comma:
			w.parts = append(w.parts, part{comma: true})
		case x.Opt != nil:
			if on[x.Index] {
				w.walk(x.Opt, on)
			}
		default:
			w.set(x)
		}
	}
}

func (w *writing) method(name string) *ssa.Function {
	return w.p.method(types.NewPointer(w.t), name)
}

// set gives the object an arbitrary value.
func (w *writing) set(x *piece) {
	m := w.m
	f := w.method("Set" + x.Attr)
	if x.Call != nil {
		f = w.method(x.Attr)
	}
	if f == nil && x.Attr == "Host" && w.t.Obj().Name() == "CallIdentifier" {
		f = w.method("SetHost")
	}
	if f == nil {
		w.fail("there is no method Set%s", x.Attr)
		return
	}
	w.n++
	slot := fmt.Sprint("w", w.n)
	var next []*State
	for i, s := range w.ss {
		s := s.clone()
		var argss [][]*Val
		tag := fmt.Sprint(slot, "-", i)
		switch {
		case x.Const == "!":
			argss = [][]*Val{nil}
		case x.Const != "":
			argss = [][]*Val{{numOrText(x.Const)}}
		case x.Call != nil:
			var as []*Val
			for _, a := range x.Call {
				as = append(as, litVal(a))
			}
			argss = [][]*Val{as}
		case x.Two != "":
			v := m.freshString(s)
			argss = [][]*Val{{litVal(x.Two), v}}
			m.hold(s, slot, &Val{K: KStr, N: m.newNum(s, 5, maxLen), At: append([]Atom{{Lit: x.Two + "="}}, v.At...)})
		default:
			s2, as := w.args(s, f, tag, x.Attr)
			s = s2
			for _, a := range as {
				argss = append(argss, []*Val{a})
			}
		}
		for j, args := range argss {
			ss := []*State{s.clone()}
			if x.Const == "" && x.Two == "" && x.Call == nil {
				ss = w.textOf(ss[0], args[0], slot, x, fmt.Sprint(tag, "-", j))
				args = nil
			}
			for _, s := range ss {
				a := args
				if a == nil && x.Const != "!" && x.Call == nil {
					a = []*Val{m.held(s, "warg")}
				}
				var rs []Result
				m.as(tag, func() { rs = m.do(s, f, append([]*Val{m.held(s, "obj")}, a...)...) })
				for _, r := range rs {
					if !succeeded(f.Signature, r.ret) {
						continue
					}
					next = append(next, w.after(r.st, x, slot)...)
				}
			}
		}
	}
	w.ss = next
	if len(next) == 0 {
		w.fail("%s accepts no value", f.Name())
	}
	if x.Const == "" && x.Call == nil {
		w.parts = append(w.parts, part{slot: slot, mod: x.Mod})
	}
}

func numOrText(s string) *Val {
	if len(s) == 1 && s[0] >= '0' && s[0] <= '9' {
		return &Val{K: KNum, N: cnum(int64(s[0] - '0'))}
	}
	return litVal(s)
}

// args are the arbitrary values a setter is tried with.
func (w *writing) args(s *State, f *ssa.Function, tag, attr string) (*State, []*Val) {
	pt := f.Signature.Params().At(0).Type()
	m := w.m
	if l, ok := pt.Underlying().(*types.Pointer); ok && isListType(l.Elem()) {
		id := hashID("input", tag)
		v := &Val{K: KList, N: cnum(3)}
		for i := 0; i < 3; i++ {
			v.El = append(v.El, &Val{K: KIface, Alts: []Alt{{types.Typ[types.String], m.freshString(s)}}})
		}
		s.put(id, &Obj{ID: id, T: l.Elem(), V: v, Site: "input " + tag, Own: "input"})
		return s, []*Val{{K: KPtr, Refs: []Ref{{Obj: id}}, T: pt}}
	}
	if attr == "NonceCount" { // one argument for every number of digits
		var out []*Val
		for d := 0; d < 8; d++ {
			lo := int64(1) << (4 * d)
			if d == 0 {
				lo = 0
			}
			out = append(out, &Val{K: KNum, N: m.newNum(s, lo, 1<<(4*d+4)-1)})
		}
		return s, out
	}
	s, as := w.p.setArgs(m, s, f, tag)
	var out []*Val
	for _, a := range as {
		if a.K == KNum && !s.cons.add(cnum(0), a.N) {
			continue
		}
		if a.K == KFloat && !s.setFloat(a, fint{lo: 0, hi: 1e9}) {
			continue
		}
		out = append(out, a)
	}
	return s, out
}

func isTimePtr(t types.Type) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

// textOf keeps the argument in "warg" and the text that stands for it in slot.
func (w *writing) textOf(s *State, a *Val, slot string, x *piece, tag string) []*State {
	m, p := w.m, w.p
	m.hold(s, "warg", a)
	if x := pointee(a); x.K == KStr {
		a = x
	}
	text := func(at []Atom) { m.hold(s, slot, &Val{K: KStr, N: m.newNum(s, 0, maxLen), At: at}) }
	switch a.K {
	case KStr:
		at := a.At
		for _, op := range []string{"upper", "lower"} {
			if x.Mod == op {
				f := strings.ToUpper
				if op == "lower" {
					f = strings.ToLower
				}
				at = caseModel(f, op)(m, s, nil, []*Val{a})[0].ret.At
			}
		}
		text(at)
	case KNum:
		if x.Mod == "nc" {
			lo, _ := s.cons.bounds(a.N)
			text([]Atom{{Lit: "00000000"[:8-len(fmt.Sprintf("%x", lo))]}, {Op: "num", Num: a.N, Tag: "base16"}})
		} else {
			m.hold(s, slot, m.itoa(s, a.N, "dec"))
		}
	case KFloat:
		text([]Atom{{Op: "float", Sym: a.S, Tag: floatTag(a) + "exact"}})
	case KBool:
		t := map[uint8]string{0: "false", 1: "true"}[a.B]
		if x.Flag != "" {
			t = map[uint8]string{0: "", 1: x.Flag}[a.B]
		}
		text([]Atom{{Lit: t}})
	case KPtr, KIface:
		if len(a.Refs) == 1 {
			if o := s.heap[a.Refs[0].Obj]; o != nil && o.V != nil {
				switch o.V.K {
				case KOpaque:
					text([]Atom{{Op: "time:Mon, 02 Jan 2006 15:04:05 GMT", Sub: []Atom{{Op: "utc", Sub: o.V.At}}}})
					return []*State{s}
				case KList:
					var at []Atom
					for i, e := range o.V.El {
						if i > 0 {
							at = append(at, Atom{Lit: "/"}) // as the parser splits them
						}
						at = append(at, pointee(e).At...)
					}
					text(at)
					return []*State{s}
				}
			}
		}
		ct := p.component(a, w.method("Set"+x.Attr).Signature.Params().At(0).Type())
		if ct == nil {
			w.fail("the value of Set%s is not understood", x.Attr)
			return nil
		}
		m.hold(s, "wobj.c", a)
		var out []*State
		m.as(tag, func() { s = p.fill(m, s, "wobj.c", p.accessors(ct), 2) })
		f := p.method(types.NewPointer(ct), "String")
		if f == nil {
			w.fail("%s has no String", typeName(ct))
			return nil
		}
		for _, r := range m.do(s, f, pointee(m.held(s, "wobj.c"))) {
			m.hold(r.st, "warg", m.held(r.st, "wobj.c"))
			m.hold(r.st, slot, r.ret)
			out = append(out, r.st)
		}
		return out
	default:
		w.fail("the value of Set%s is not understood", x.Attr)
		return nil
	}
	return []*State{s}
}

// after replaces the expected text where the object's own getter decides.
func (w *writing) after(s *State, x *piece, slot string) []*State {
	m := w.m
	switch x.Mod {
	case "get":
		g := w.method("Get" + x.Attr)
		var out []*State
		for _, r := range m.do(s, g, m.held(s, "obj")) {
			v := firstResult(g.Signature, r.ret)
			if pointee(v).K != KStr {
				w.fail("Get%s returns no text", x.Attr)
			}
			m.hold(r.st, slot, v)
			out = append(out, r.st)
		}
		return out
	}
	return []*State{s}
}

// expected is the text for one state.
func (w *writing) expected(s *State) []Atom {
	var at []Atom
	lit := func(t string) {
		if t == "" {
			return
		}
		if n := len(at); n > 0 && at[n-1].Op == "" {
			at[n-1].Lit += t
		} else {
			at = append(at, Atom{Lit: t})
		}
	}
	for _, x := range w.parts {
		switch {
		case x.comma:
			if n := len(at); n > 0 && (at[n-1].Op != "" || !strings.HasSuffix(at[n-1].Lit, " ")) {
				lit(",")
			}
		case x.slot != "":
			v := w.m.held(s, x.slot)
			loose := x.mod == "loose"
			if loose {
				lit("\"")
			}
			for _, a := range pointee(v).At {
				if a.Op == "" {
					lit(a.Lit)
				} else {
					at = append(at, a)
				}
			}
			if loose {
				lit("\"")
			}
		default:
			lit(x.lit)
		}
	}
	return at
}

// settle joins neighbouring literals.
func settle(at []Atom) []Atom {
	var out []Atom
	for i := 0; i < len(at); i++ {
		a := at[i]
		if a.Op == "" && len(out) > 0 && out[len(out)-1].Op == "" {
			out[len(out)-1].Lit += a.Lit
			continue
		}
		if a.Op != "" || a.Lit != "" {
			out = append(out, a)
		}
	}
	return out
}

func formEntry(p *Program, t *types.Named, form string, out *[]rangeRes) Entry {
	return Entry{Name: "text of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		ps, n := parseForm(form)
		for _, on := range choices(ps, n) {
			var bases []*State
			for _, r := range p.newObj(m, st.clone(), t, "obj") {
				m.hold(r.st, "obj", r.ret)
				bases = append(bases, r.st)
			}
			if len(bases) > 1 && p.ctorOf(t).Signature.Params().Len() > 0 {
				// the constructor's arguments are replaced by the setters
				bases = bases[:1]
			}
			w := &writing{p: p, m: m, t: t, ss: bases}
			w.walk(ps, on)
			name := typeName(t) + " as " + chosen(ps, on)
			for _, g := range []string{"String", "Encode", "EncodeBody"} {
				f := w.method(g)
				if f == nil || f.Signature.Params().Len() != 0 || g == "EncodeBody" && !strings.Contains(form, ": ") {
					continue
				}
				k := 0
				for _, s := range w.ss {
					for _, r := range m.do(s.clone(), f, m.held(s, "obj")) {
						k++
						if firstResult(f.Signature, r.ret) == nil {
							w.fail("%s() returns nothing", g)
							continue
						}
						got, want := settle(firstResult(f.Signature, r.ret).At), settle(w.expected(r.st))
						if g == "EncodeBody" {
							want = body(want)
						}
						if x, y := atomsString(got), atomsString(want); x != y && !sameText(r.st, got, want) {
							w.fail("%s() returns %s instead of %s", g, x, y)
						}
					}
				}
				if k == 0 {
					w.fail("%s() never returns", g)
				}
			}
			*out = append(*out, rangeRes{"text", name, w.why})
		}
	}}
}

// listEntry compares the text of a list of headers with those of its elements.
func listEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "text of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		en := p.elementOf(t)
		for n := 1; n <= 3; n++ {
			s := st.clone()
			why := ""
			for i := 0; i < n; i++ {
				tag := fmt.Sprint("e", i)
				rs := p.newObj(m, s, en, tag)
				if len(rs) == 0 {
					why = "no " + typeName(en) + " is ever made"
					break
				}
				s = rs[0].st
				m.hold(s, tag, rs[0].ret)
				m.as(tag, func() { s = p.fill(m, s, tag, p.accessors(en), 2) })
			}
			rs := p.newObj(m, s, t, "obj")
			if why == "" && len(rs) == 0 {
				why = "no list is ever made"
			}
			if why == "" {
				s = rs[0].st
				m.hold(s, "obj", rs[0].ret)
				push := p.method(types.NewPointer(t), "PushBack")
				for i := 0; i < n; i++ {
					e := m.held(s, fmt.Sprint("e", i))
					rs := m.do(s, push, m.held(s, "obj"), &Val{K: KIface, Alts: []Alt{{types.NewPointer(en), e}}})
					if len(rs) != 1 {
						why = "PushBack does not return once"
						break
					}
					s = rs[0].st
				}
			}
			if why == "" {
				why = p.listText(m, s, t, en, n)
			}
			*out = append(*out, rangeRes{"list", fmt.Sprintf("%s of %d", typeName(t), n), why})
		}
	}}
}

func (p *Program) listText(m *Machine, s *State, t, en *types.Named, n int) string {
	type text struct {
		st           *State
		line, bodies []Atom
	}
	all := []text{{st: s}}
	for i := 0; i < n; i++ {
		var next []text
		for _, x := range all {
			e := m.held(x.st, fmt.Sprint("e", i))
			for _, full := range m.do(x.st.clone(), p.method(types.NewPointer(en), "String"), e) {
				for _, short := range m.do(full.st, p.method(types.NewPointer(en), "EncodeBody"), e) {
					line := append([]Atom(nil), x.line...)
					bodies := append([]Atom(nil), x.bodies...)
					if i > 0 {
						bodies = append(bodies, Atom{Lit: ","})
					}
					bodies = append(bodies, short.ret.At...)
					switch {
					case p.linewise(t):
						line = append(line, full.ret.At...)
					case i == 0:
						line = withoutEnd(full.ret.At)
					default:
						line = append(append(line, Atom{Lit: ","}), short.ret.At...)
					}
					next = append(next, text{short.st, line, bodies})
				}
			}
		}
		all = next
	}
	if len(all) == 0 {
		return "the elements are never written"
	}
	for _, x := range all {
		want := map[string][]Atom{"String": x.line, "EncodeBody": x.bodies}
		if p.linewise(t) {
			delete(want, "EncodeBody")
		} else {
			want["String"] = append(x.line, Atom{Lit: "\r\n"})
		}
		for g, w := range want {
			rs := m.do(x.st.clone(), p.method(types.NewPointer(t), g), m.held(x.st, "obj"))
			if len(rs) == 0 {
				return g + "() never returns"
			}
			for _, r := range rs {
				got, w := settle(r.ret.At), settle(w)
				if atomsString(got) != atomsString(w) && !sameText(r.st, got, w) {
					return g + "() returns " + atomsString(got) + " instead of " + atomsString(w)
				}
			}
		}
	}
	return ""
}

// linewise says whether every element of a list needs a line of its own.
func (p *Program) linewise(t *types.Named) bool {
	switch strings.TrimSuffix(t.Obj().Name(), "List") {
	case "WWWAuthenticate", "ProxyAuthenticate", "Authorization", "ProxyAuthorization", "ExtensionHeader":
		return true
	}
	return false
}

// withoutEnd drops the end of the line.
func withoutEnd(at []Atom) []Atom {
	out := append([]Atom(nil), settle(at)...)
	if n := len(out); n > 0 && out[n-1].Op == "" {
		out[n-1].Lit = strings.TrimSuffix(out[n-1].Lit, "\r\n")
	}
	return out
}

// sameText compares texts whose numbers may be equal without being the same.
func sameText(st *State, a, b []Atom) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Op == "num" && x.Op == y.Op && x.Tag == y.Tag && same(st, &Val{K: KNum, N: x.Num}, &Val{K: KNum, N: y.Num}) {
			continue
		}
		if atomsString([]Atom{x}) != atomsString([]Atom{y}) {
			return false
		}
	}
	return true
}

// body is the text without the header name and the end of the line.
func body(at []Atom) []Atom {
	out := append([]Atom(nil), at...)
	for i := range out {
		if out[i].Op == "" {
			if _, rest, ok := strings.Cut(out[i].Lit, ": "); ok {
				out[i].Lit = rest
				out = out[i:]
				break
			}
		}
	}
	if n := len(out); n > 0 {
		out[n-1].Lit = strings.TrimSuffix(out[n-1].Lit, "\r\n")
	}
	return settle(out)
}

// chosen prints the form with the parts that were tried.
func chosen(ps []*piece, on map[int]bool) string {
	var b strings.Builder
	for _, x := range ps {
		switch {
		case x.Lit != "":
			b.WriteString(strings.ReplaceAll(x.Lit, "\r\n", ""))
		case x.Comma:
			b.WriteString(",")
		case x.Opt != nil:
			if on[x.Index] {
				b.WriteString(chosen(x.Opt, on))
			}
		case x.Call != nil:
			b.WriteString("<" + x.Attr + " done>")
		case x.Two != "":
			b.WriteString("name=value")
		case x.Const == "":
			b.WriteString("<" + x.Attr + ">")
		}
	}
	return b.String()
}

func init() {
	levels["P07"] = "proof"
	register(&Property{ID: "P07",
		Rule:  "text: for every type in the table of forms and every choice of its optional parts (all choices up to five parts, otherwise none, each one, each two, all but one and all), the object is built by its setters from arbitrary values and the abstract text of String, Encode and EncodeBody is compared, piece by piece, with the form. list: the text of every list of one to three filled-in headers is compared with those of its elements.",
		Trust: []string{"the table of forms (tool/p_encode.go) is taken from the grammars of RFC 3261, 3262, 3265, 3326, 3515 and 2806"},
		Run: func(r *Report) {
			by := map[string]*types.Named{}
			for _, t := range r.p.dataTypes() {
				by[typeName(t)] = t
			}
			var es []Entry
			var outs []*[]rangeRes
			for _, f := range forms {
				t := by[f.Type]
				if t == nil {
					r.bad("coverage", f.Type, "", "the type is gone")
					continue
				}
				o := &[]rangeRes{}
				outs = append(outs, o)
				es = append(es, formEntry(r.p, t, f.Form, o))
			}
			lists := 0
			for _, t := range r.p.dataTypes() {
				if isHeaderList(t) && r.p.elementOf(t) != nil {
					o := &[]rangeRes{}
					outs = append(outs, o)
					es = append(es, listEntry(r.p, t, o))
					lists++
				}
			}
			r.atLeast("lists of headers", lists, 20)
			rs := runEntries(r.p, es)
			r.engine(rs)
			n := 0
			for i, o := range outs {
				for _, x := range *o {
					n++
					r.expect(x.Why == "", x.Rule, x.Name, es[i].Name, x.Why)
				}
			}
			r.atLeast("texts compared", n, 300)
		}})
}
