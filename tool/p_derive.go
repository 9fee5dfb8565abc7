package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// Messages that are made from others.

// source builds a request with two Via, From, To, Call-ID, CSeq, Max-Forwards
// and one more header of an arbitrary type, a body, and a request line.
func (c *script) source(kind string, t *types.Named, list string, depth int) {
	c.make("msg", kind, -1)
	c.mandatory("msg")
	if n := t.Obj().Name(); !isMandatory(n) {
		c.make("h", typeName(t), depth)
		if n == "Extension" {
			c.call("", "h", "SetName", lit("X-Vf"))
		}
		c.call("t.h", "h", "String")
		if list == "" {
			c.call("", "msg", "AttachHeader", "h")
		} else {
			c.make("h.in", list, -1)
			if n == "Extension" {
				c.call("", "h.in", "SetHeaderName", lit("X-Vf"))
			}
			c.call("", "h.in", "PushBack", "h")
			c.call("", "msg", "AttachHeader", "h.in")
		}
	}
	c.text("body")
	c.call("", "msg", "SetMessageContent", "body")
	if kind == "message.SIPRequest" {
		c.uri("uri")
		c.call("t.uri", "uri", "String")
		c.make("line", "header.RequestLine", -1)
		c.text("method")
		c.call("", "line", "SetMethod", "method")
		c.call("", "line", "SetUri", "uri")
		c.call("", "msg", "SetRequestLine", "line")
	} else {
		c.make("line", "header.StatusLine", 0)
		c.call("", "msg", "SetStatusLine", "line")
	}
	c.call("t.line", "line", "String")
	c.call("number", "cseq", "GetSequenceNumber")
	c.call("before", "msg", "String")
	// two Via are one line
	c.call("t.vias", "via1", "String")
	for _, s := range c.ss {
		at := append(withoutEnd(c.m.held(s, "t.vias").At), c.piece(s, line(lit(","), "b.via2", lit("\r\n")))...)
		c.m.hold(s, "t.vias", &Val{K: KStr, N: c.m.newNum(s, 0, maxLen), At: settle(at)})
	}
}

func isMandatory(n string) bool {
	switch n {
	case "Via", "From", "To", "CallID", "CSeq", "MaxForwards", "ContentLength":
		return true
	}
	return false
}

// derive checks one way of making a message: the call, and the lines the
// result must have besides those of the extra header.
type derive struct {
	Name, Kind string
	Prepare    func(c *script)
	Args       []interface{}
	Lines      func(c *script) []interface{}
	Copies     func(n string) bool // is a header of this type copied
	After      func(c *script)
}

func via12() []interface{} { return line("t.via1", "t.via2") }

func derivations() []derive {
	cl0 := lit("Content-Length: 0\r\n")
	cseq := func(method interface{}) interface{} {
		return line(lit("CSeq: "), "number", lit(" "), method, lit("\r\n"))
	}
	in := func(names string) func(string) bool {
		return func(n string) bool {
			for _, x := range strings.Fields(names) {
				if x == n {
					return true
				}
			}
			return false
		}
	}
	not := func(f func(string) bool) func(string) bool { return func(n string) bool { return !f(n) } }
	reply := func(c *script) []interface{} {
		return line(line(lit("SIP/2.0 "), "code", lit(" "), "phrase", lit("\r\n")), "t.via1", "t.via2", "t.from", "t.to", "t.callid", "t.cseq", "t.maxforwards", cl0)
	}
	respTo := func(c *script) { c.address("answer", "header.To"); c.call("t.answer", "answer", "String") }
	newLine := func(c *script) {
		c.uri("newuri")
		c.make("newline", "header.RequestLine", -1)
		c.text("newmethod")
		c.call("", "newline", "SetMethod", "newmethod")
		c.call("", "newline", "SetUri", "newuri")
		c.call("t.newline", "newline", "String")
	}
	// in a dialog: the topmost Via without its branch, From and To without tags
	inDialog := func(first interface{}, method interface{}, swap bool) []interface{} {
		from, to := "from", "to"
		if swap {
			from, to = "to", "from"
		}
		return line(first, "t.via1-",
			line(lit("From: "), "t."+from+".a", lit(";vfx="), from+".par", lit("\r\n")),
			line(lit("To: "), "t."+to+".a", lit(";vfx="), to+".par", lit("\r\n")),
			"t.callid", "t.maxforwards", cseqUpper(method), cl0)
	}
	request := func(method string) interface{} { return line(lit(method+" "), "t.uri", lit(" SIP/2.0\r\n")) }
	none := in("")
	onlyRequest := in("ErrorInfo ProxyAuthenticate Server Unsupported RetryAfter Warning WWWAuthenticate ContentType RecordRoute")
	out := []derive{
		{Name: "CreateResponse2", Kind: "message.SIPRequest", Args: line("code", "phrase"),
			Prepare: func(c *script) { c.num("code", 100, 699); c.text("phrase") },
			Lines:   reply, Copies: in("RecordRoute TimeStamp")},
		{Name: "CreateCancelRequest", Kind: "message.SIPRequest",
			Lines: func(c *script) []interface{} {
				return line(request("CANCEL"), "t.via1", "t.via2", "t.from", "t.to", "t.callid", "t.maxforwards", cseq(lit("CANCEL")), cl0)
			}, Copies: not(in("Require ProxyRequire ContentType"))},
	}
	for _, answer := range []bool{false, true} {
		d := derive{Name: "CreateAckRequest", Kind: "message.SIPRequest", Prepare: respTo, Args: line(nil),
			Lines: func(c *script) []interface{} {
				return line(request("ACK"), "t.via1", "t.from", "t.to", "t.callid", "t.maxforwards", cseq(lit("ACK")), cl0)
			}, Copies: not(in("Route ProxyAuthorization ContentType"))}
		if answer {
			d.Args = line("answer")
			d.Lines = func(c *script) []interface{} {
				return line(request("ACK"), "t.via1", "t.from", "t.answer", "t.callid", "t.maxforwards", cseq(lit("ACK")), cl0)
			}
		}
		out = append(out, d)
	}
	for _, swap := range []bool{false, true} {
		swap := swap
		out = append(out, derive{Name: "CreateSIPRequest", Kind: "message.SIPRequest", Prepare: newLine, Args: line("newline", swap),
			Lines: func(c *script) []interface{} { return inDialog("t.newline", "newmethod", swap) }, Copies: none},
			derive{Name: "CreateBYERequest", Kind: "message.SIPRequest", Args: line(swap),
				Lines: func(c *script) []interface{} { return inDialog(request("BYE"), lit("BYE"), swap) }, Copies: none})
	}
	out = append(out, derive{Name: "CreateACKRequest", Kind: "message.SIPRequest",
		Lines: func(c *script) []interface{} { return inDialog(request("ACK"), lit("ACK"), false) }, Copies: none})
	for _, method := range []string{"", "ACK", "CANCEL", "BYE"} {
		method := method
		out = append(out, derive{Name: "CreateRequest", Kind: "message.SIPResponse", Args: line("newuri", "newvia", "newcseq"),
			Prepare: func(c *script) {
				c.uri("newuri")
				c.call("t.newuri", "newuri", "String")
				c.via("newvia")
				c.call("t.newvia-", "newvia", "String")
				c.text("newbranch")
				if method == "" {
					c.call("", "newvia", "SetBranch", "newbranch")
					c.call("t.newvia", "newvia", "String")
				}
				c.make("newcseq", "header.CSeq", 0)
				if method != "" {
					c.call("", "newcseq", "SetMethod", lit(method))
				} else {
					c.put("plain", types.Typ[types.String], func(*State) *Val { return litVal("INVITE") })
					c.call("", "newcseq", "SetMethod", "plain")
				}
				c.call("t.newcseq", "newcseq", "String")
				c.call("newmethod", "newcseq", "GetMethod")
			},
			Lines: func(c *script) []interface{} {
				via := interface{}("t.newvia")
				if method != "" { // BYE: whatever the caller's Via says
					via = "t.newvia-"
				}
				if method == "ACK" || method == "CANCEL" {
					for _, s := range c.ss {
						at := append(withoutEnd(c.m.held(s, "t.newvia-").At), c.piece(s, line(lit(";branch="), "via1.branch", lit("\r\n")))...)
						c.m.hold(s, "t.branched", &Val{K: KStr, N: c.m.newNum(s, 0, maxLen), At: settle(at)})
					}
					via = "t.branched"
				}
				return line(line("newmethod", lit(" "), "t.newuri", lit(" SIP/2.0\r\n")), via, "t.newcseq", "t.from", "t.to", "t.callid", "t.maxforwards")
			}, Copies: not(onlyRequest)})
	}
	return out
}

// cseqUpper: the CSeq keeps methods in capitals.
func cseqUpper(method interface{}) interface{} {
	return line(lit("CSeq: "), "number", lit(" "), upperOf{method}, lit("\r\n"))
}

// upperOf is a text in capitals.
type upperOf struct{ x interface{} }

func deriveEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "messages made from one with " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		for i, list := range append(attachments(p, t), attachments(p, t)...) {
			depth, what := 1, "filled in"
			if i >= len(attachments(p, t)) {
				depth, what = -1, "plain"
			}
			base := map[string]*script{}
			for _, kind := range []string{"message.SIPRequest", "message.SIPResponse"} {
				base[kind] = p.script(m, st)
				base[kind].source(kind, t, list, depth)
			}
			for _, d := range derivations() {
				c := base[d.Kind].fork()
				if d.Prepare != nil {
					d.Prepare(c)
				}
				c.call("new", "msg", d.Name, d.Args...)
				want := d.Lines(c)
				if d.Kind == "message.SIPResponse" { // the Content-Length is left to the caller
					c.call("cl", "new", "GetContentLength")
					c.call("t.cl", "cl", "String")
					want = append(want, "t.cl")
				}
				if n := t.Obj().Name(); !isMandatory(n) && d.Copies(n) {
					want = append(want, "t.h")
				}
				c.lines("new", want...)
				// the original is what it was
				e := c.fork()
				e.call("after", "msg", "String")
				e.textIs("the original", "after", "before")
				c.fail2(e)
				var args []string
				for _, a := range d.Args {
					args = append(args, fmt.Sprint(a))
				}
				*out = append(*out, rangeRes{"derived", fmt.Sprintf("%s(%s) of a message with %s %s, %s", d.Name, strings.Join(args, ", "), typeName(t), list, what), c.why})
			}
		}
	}}
}

// kindEntry checks which headers belong in requests or responses only: a list
// is like its members, and no header is left without a home.
func kindEntry(p *Program, out *[]rangeRes) Entry {
	return Entry{Name: "headers of requests and responses", Opt: precise, Run: func(m *Machine, st *State) {
		for _, t := range p.headerTypes() {
			c := p.script(m, st)
			c.make("msg", "message.SIPRequest", -1)
			c.make("h", typeName(t), -1)
			c.call("req", "msg", "IsRequestHeader", "h")
			c.call("resp", "msg", "IsResponseHeader", "h")
			c.each(func(s *State) string {
				if m.held(s, "req").B != 0 && m.held(s, "resp").B != 0 {
					return "it belongs in requests only and in responses only"
				}
				return ""
			})
			for _, l := range attachments(p, t) {
				if l == "" {
					continue
				}
				c.make("l", l, -1)
				c.call("", "l", "PushBack", "h")
				c.call("lreq", "msg", "IsRequestHeader", "l")
				c.call("lresp", "msg", "IsResponseHeader", "l")
				c.same("IsRequestHeader of the list", "lreq", "req")
				c.same("IsResponseHeader of the list", "lresp", "resp")
			}
			*out = append(*out, rangeRes{"kind", typeName(t), c.why})
		}
	}}
}

// idEntry checks the identifiers of dialogs and transactions.
func idEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "identifiers of " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		base := p.script(m, st)
		base.make("msg", typeName(t), -1)
		base.mandatory("msg")
		base.call("cid", "callid", "GetCallId")
		base.call("number", "cseq", "GetSequenceNumber")
		base.call("method", "cseq", "GetMethod")
		base.call("by", "via1", "GetSentBy")
		base.text("answer")
		for b := 0; b < 4; b++ {
			c := base.fork()
			if b&1 != 0 {
				c.call("", "from", "RemoveTag")
			}
			if b&2 != 0 {
				c.call("", "to", "RemoveTag")
			}
			c.call("u.from", "from", "GetUserAtHostPort")
			c.call("u.to", "to", "GetUserAtHostPort")
			peer := func(h string, tag interface{}) []interface{} {
				out := line(lit(":"), "u."+h)
				if tag != nil {
					out = append(out, lit(":"), tag)
				}
				return out
			}
			tag := func(h string, bit int) interface{} {
				if b&bit != 0 {
					return nil
				}
				return h + ".tag"
			}
			for _, server := range []bool{false, true} {
				for _, given := range []string{"", "none", "answer"} {
					d := c.fork()
					from, to := peer("from", tag("from", 1)), peer("to", tag("to", 2))
					switch given {
					case "":
						d.call("got", "msg", "GetDialogId", server)
					case "none":
						to = peer("to", nil)
						d.call("got", "msg", "GetDialogId2", server, lit(""))
					case "answer":
						to = peer("to", "answer")
						d.call("got", "msg", "GetDialogId2", server, "answer")
					}
					if server {
						from, to = to, from
					}
					d.lower("want", append(append(line("cid"), from...), to...)...)
					d.textIs("the dialog identifier", "got", "want")
					*out = append(*out, rangeRes{"dialog", fmt.Sprintf("%s, From with tag %v, To with tag %v, server %v, tag given: %q", typeName(t), b&1 == 0, b&2 == 0, server, given), d.why})
				}
			}
			// transactions: the branch, if it is a new one
			for _, cookie := range []string{"z9hG4bK", "Z9HG4BK", "z9hg4bk"} {
				cookie := cookie
				d := c.fork()
				d.put("branch", types.Typ[types.String], func(s *State) *Val {
					x := m.freshString(s)
					return &Val{K: KStr, N: m.newNum(s, 7, maxLen), At: append([]Atom{{Lit: cookie}}, x.At...)}
				})
				d.call("", "via1", "SetBranch", "branch")
				d.accepted()
				d.call("got", "msg", "GetTransactionId")
				d.lower("want", "branch")
				d.textIs("the transaction identifier", "got", "want")
				*out = append(*out, rangeRes{"transaction", fmt.Sprintf("%s with a branch %s..., From with tag %v, To with tag %v", typeName(t), cookie, b&1 == 0, b&2 == 0), d.why})
			}
			// otherwise From, To, Call-ID, CSeq and the topmost Via
			for _, branch := range []string{"old", ""} {
				for _, port := range []bool{false, true} {
					d := c.fork()
					if branch == "" {
						d.call("", "via1", "RemoveParameter", lit("branch"))
					} else {
						d.call("", "via1", "SetBranch", lit("old"))
					}
					if !port {
						d.call("", "via1", "RemovePort")
					} else {
						d.num("port", 1, 65535)
						d.call("", "via1", "SetPort", "port")
					}
					d.call("by", "via1", "GetSentBy")
					d.call("t.by", "by", "String")
					from := line("u.from", lit(":"))
					if b&1 == 0 {
						from = append(from, "from.tag", lit(":"))
					}
					parts := append(from, "u.to", lit(":"), "cid", lit(":"), "number", lit(":"), "method", lit(":"), "t.by")
					if !port {
						parts = append(parts, lit(":5060"))
					}
					d.call("got", "msg", "GetTransactionId")
					d.lower("want", parts...)
					d.each(func(s *State) string {
						got := settle(m.held(s, "got").At)
						want := settle(m.held(s, "want").At)
						// the identifier is the end of the text in hexadecimal
						if !endOfHex(got, want) {
							return fmt.Sprintf("the transaction identifier is %s and not made of %s", atomsString(got), atomsString(want))
						}
						if _, hi := s.cons.bounds(m.held(s, "got").N); hi > 32 {
							return "the transaction identifier is longer than 32 characters"
						}
						return ""
					})
					*out = append(*out, rangeRes{"transaction", fmt.Sprintf("%s with branch %q, From with tag %v, To with tag %v, port %v", typeName(t), branch, b&1 == 0, b&2 == 0, port), d.why})
				}
			}
		}
	}}
}

// endOfHex: got is all, or the end, of want in hexadecimal.
func endOfHex(got, want []Atom) bool {
	if len(got) != 1 {
		return false
	}
	a := got[0]
	if a.Op == "tail" && a.Tag != "32" {
		return false
	}
	for a.Op != "hex" && len(a.Sub) == 1 {
		a = a.Sub[0]
	}
	return a.Op == "hex" && atomsString(settle(a.Sub)) == atomsString(want)
}

// phrases are the reason phrases of the status codes of RFC 3261 and 3265.
var phrases = map[int64]string{
	100: "Trying", 180: "Ringing", 181: "Call is being forwarded", 182: "Queued", 183: "Session progress",
	200: "OK", 202: "Accepted",
	300: "Multiple choices", 301: "Moved permanently", 302: "Moved Temporarily", 305: "Use proxy", 380: "Alternative service",
	400: "Bad request", 401: "Unauthorized", 402: "Payment required", 403: "Forbidden", 404: "Not found", 405: "Method not allowed",
	406: "Not acceptable", 407: "Proxy Authentication required", 408: "Request timeout", 410: "Gone", 413: "Request entity too large",
	414: "Request-URI too long", 415: "Unsupported media type", 416: "Unsupported URI Scheme", 420: "Bad extension", 421: "Extension Required",
	423: "Interval too brief", 480: "Temporarily Unavailable", 481: "Call/Transaction does not exist", 482: "Loop detected", 483: "Too many hops",
	484: "Address incomplete", 485: "Ambiguous", 486: "Busy here", 487: "Request Terminated", 488: "Not Acceptable here", 489: "Bad Event",
	491: "Request Pending", 493: "Undecipherable",
	500: "Server Internal Error", 501: "Not implemented", 502: "Bad gateway", 503: "Service unavailable", 504: "Server time-out",
	505: "Version not supported", 513: "Message Too Large",
	600: "Busy everywhere", 603: "Decline", 604: "Does not exist anywhere", 606: "Not acceptable",
}

// wording lists other wordings for the same.
var wording = map[string]string{
	"request-uri too large": "request-uri too long", "call leg/transaction does not exist": "call/transaction does not exist",
	"gateway timeout": "server time-out", "server timeout": "server time-out", "sip version not supported": "version not supported", "session not acceptable": "not acceptable",
}

// statusEntry checks what a status code means.
func statusEntry(p *Program, out *[]rangeRes) Entry {
	return Entry{Name: "status codes", Opt: precise, Run: func(m *Machine, st *State) {
		m.apart = 200
		base := p.script(m, st)
		base.make("msg", "message.SIPResponse", -1)
		base.num("code", -1000, 10000)
		c := base.fork()
		c.call("got", "msg", "GetReasonPhraseFromInt", "code")
		seen := map[int64]string{}
		for _, s := range c.ss {
			lo, hi := s.cons.bounds(m.held(s, "code").N)
			g, ok := isLit(m.held(s, "got"))
			if !ok {
				c.fail("the phrase for %d..%d is unknown", lo, hi)
			} else if lo == hi {
				seen[lo] = g
			} else if g != "" {
				c.fail("%d..%d all get the phrase %q", lo, hi, g)
			}
		}
		*out = append(*out, rangeRes{"phrase", "every code is decided", c.why})
		var codes []int64
		for k := range seen {
			codes = append(codes, k)
		}
		for k := range phrases {
			if _, ok := seen[k]; !ok {
				codes = append(codes, k)
			}
		}
		sort.Slice(codes, func(i, j int) bool { return codes[i] < codes[j] })
		for _, k := range codes {
			why := ""
			g := strings.ToLower(seen[k])
			if w, ok := wording[g]; ok {
				g = w
			}
			if phrases[k] != "" && g != strings.ToLower(phrases[k]) {
				why = fmt.Sprintf("the reason phrase is %q instead of %q", seen[k], phrases[k])
			}
			*out = append(*out, rangeRes{"phrase", fmt.Sprint("status ", k), why})
		}
		// final responses are those from 200 to 699
		for _, f := range []string{"IsFinalResponseFromInt", "IsFinalResponse"} {
			for _, r := range []struct {
				lo, hi int64
				final  bool
			}{{-1000, 199, false}, {200, 699, true}, {700, 10000, false}} {
				d := base.fork()
				d.num("code", r.lo, r.hi)
				if f == "IsFinalResponse" {
					d.call("", "msg", "SetStatusCode", "code")
					d.call("got", "msg", f)
				} else {
					d.call("got", "msg", f, "code")
				}
				d.is(f, "got", r.final)
				*out = append(*out, rangeRes{"final", fmt.Sprintf("%s of %d..%d", f, r.lo, r.hi), d.why})
			}
		}
		// a response to a request gets the phrase of its code
		for _, k := range codes {
			if k < 100 || k > 699 {
				continue
			}
			e := p.script(m, st)
			e.make("req", "message.SIPRequest", -1)
			e.num("code", k, k)
			e.call("new", "req", "CreateResponse", "code")
			e.readsIs("new", "GetStatusCode", int(k))
			e.readsIs("new", "GetReasonPhrase", seen[k])
			*out = append(*out, rangeRes{"phrase", fmt.Sprint("CreateResponse with ", k), e.why})
		}
	}}
}

// checkEntry: a message is complete or not.
func checkEntry(p *Program, out *[]rangeRes) Entry {
	return Entry{Name: "mandatory headers", Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		for _, kind := range []string{"message.SIPRequest", "message.SIPResponse"} {
			base := p.script(m, st)
			base.make("msg", kind, -1)
			base.mandatory("msg")
			add := func(what string, c *script, fails bool) {
				c.call("got", "msg", "CheckHeaders")
				c.each(func(s *State) string {
					e := m.held(s, "got")
					if fails == e.definitelyNil() || e.Nil && !e.definitelyNil() {
						return fmt.Sprintf("CheckHeaders returns %v", e)
					}
					return ""
				})
				*out = append(*out, rangeRes{"complete", kind + " " + what, c.why})
			}
			add("complete, without start line", base.fork(), false)
			for _, n := range []string{"CSeq", "To", "From", "Via", "Max-Forwards", "Call-ID"} {
				if n == "Call-ID" || n == "Max-Forwards" && kind == "message.SIPResponse" {
					continue
				}
				c := base.fork()
				c.call("", "msg", "RemoveHeader", lit(n))
				add("without "+n, c, true)
			}
			if kind == "message.SIPResponse" {
				continue
			}
			for _, v := range []struct {
				method, cseq string
				fails        bool
			}{{"INVITE", "INVITE", false}, {"INVITE", "ACK", true}, {"invite", "INVITE", false}, {"BYE", "INVITE", true}, {"", "INVITE", false}} {
				c := base.fork()
				c.make("line", "header.RequestLine", -1)
				c.call("", "line", "SetMethod", lit(v.method))
				c.call("", "cseq", "SetMethod", lit(v.cseq))
				c.call("", "msg", "SetRequestLine", "line")
				add(fmt.Sprintf("with method %q and CSeq method %q", v.method, v.cseq), c, v.fails)
			}
			// arbitrary methods are accepted exactly if they are the same
			c := base.fork()
			c.make("line", "header.RequestLine", -1)
			c.text("m1")
			c.text("m2")
			c.call("", "line", "SetMethod", "m1")
			c.call("", "cseq", "SetMethod", "m2")
			c.call("", "msg", "SetRequestLine", "line")
			c.call("m2", "cseq", "GetMethod")
			c.call("got", "msg", "CheckHeaders")
			c.each(func(s *State) string {
				a, b := foldAtoms(m.held(s, "m1").At), foldAtoms(m.held(s, "m2").At)
				e := m.held(s, "got")
				if e.definitelyNil() && s.clone().setEq(a, b, false) {
					return "methods that differ are accepted"
				}
				if !e.definitelyNil() && (e.Nil || s.clone().setEq(a, b, true)) {
					return "methods that do not differ are refused"
				}
				return ""
			})
			*out = append(*out, rangeRes{"complete", kind + " with arbitrary methods", c.why})
		}
	}}
}

func init() {
	for _, id := range []string{"P12", "P14", "P15", "P22", "P33"} {
		levels[id] = "proof"
	}
	one := func(r *Report, e func(p *Program, out *[]rangeRes) Entry) int {
		var rs []rangeRes
		x := e(r.p, &rs)
		r.engine(runEntries(r.p, []Entry{x}))
		for _, y := range rs {
			r.expect(y.Why == "", y.Rule, y.Name, x.Name, y.Why)
		}
		return len(rs)
	}
	ids := func(r *Report, rule string) {
		n := 0
		var es []Entry
		var outs []*[]rangeRes
		for _, t := range []string{"message.SIPRequest", "message.SIPResponse"} {
			o := &[]rangeRes{}
			outs = append(outs, o)
			es = append(es, idEntry(r.p, r.p.named(t), o))
		}
		rs := runEntries(r.p, es)
		r.engine(rs)
		for i, o := range outs {
			for _, x := range *o {
				if x.Rule == rule {
					n++
					r.expect(x.Why == "", x.Rule, x.Name, es[i].Name, x.Why)
				}
			}
		}
		r.atLeast("identifiers", n, 40)
	}
	register(&Property{ID: "P12",
		Rule: "For every type of header in a message that also has two Via, From, To, Call-ID, CSeq, Max-Forwards and a body, all with arbitrary values: the lines of each message made from it (responses, CANCEL, ACK, BYE and other requests) are exactly the expected ones, and the text of the original is the same before and after. kind: a list of headers is a request or response header exactly if its members are, and none is both.",
		Run: func(r *Report) {
			ts := r.p.headerTypes()
			n := collect(r, ts, func(t *types.Named, out *[]rangeRes) Entry { return deriveEntry(r.p, t, out) })
			r.atLeast("headers", one(r, kindEntry), 40)
			r.atLeast("messages made", n["derived"], 500)
		}})
	register(&Property{ID: "P14",
		Rule: "The text returned by GetDialogId and GetDialogId2 of requests and responses, as client and as server, with and without tags, is compared with Call-ID, local and remote address and tag of arbitrary headers in lower case.",
		Run:  func(r *Report) { ids(r, "dialog") }})
	register(&Property{ID: "P15",
		Rule: "The text returned by GetTransactionId of requests and responses is compared with the branch in lower case, or with the hexadecimal form of From, tag, To, Call-ID, CSeq and topmost Via.",
		Run:  func(r *Report) { ids(r, "transaction") }})
	register(&Property{ID: "P22",
		Rule: "phrase: the partition of all status codes by the reason phrase is compared with a table, and responses created for each code carry it. final: IsFinalResponse on each side of 200 and 699.",
		Run: func(r *Report) {
			r.atLeast("facts", one(r, statusEntry), 100)
		}})
	register(&Property{ID: "P33",
		Rule: "The result of CheckHeaders on requests and responses with arbitrary headers, with each mandatory header missing and with matching and other methods.",
		Run: func(r *Report) {
			r.atLeast("facts", one(r, checkEntry), 14)
		}})
}
