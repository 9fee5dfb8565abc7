package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// headerTypes are the headers a message can have, without the lists.
func (p *Program) headerTypes() []*types.Named {
	var hdr *types.Interface
	for _, pk := range p.Prog.AllPackages() {
		if pk.Pkg.Path() == modPath+"/sip/header" {
			hdr = pk.Type("Header").Type().Underlying().(*types.Interface)
		}
	}
	var out []*types.Named
	for _, t := range p.typesIn("sip/header") {
		n := t.Obj().Name()
		if isHeaderList(t) || strings.HasPrefix(n, "SIPHeader") || p.ctorOf(t) == nil || !types.Implements(types.NewPointer(t), hdr) {
			continue
		}
		switch n {
		case "ContentLength": // see P18
			continue
		}
		if !writesName(p, t) {
			continue
		}
		out = append(out, t)
	}
	return out
}

// writesName: start lines and address parts have no header form.
func writesName(p *Program, t *types.Named) bool {
	for _, f := range forms {
		if f.Type == typeName(t) && strings.Contains(f.Form, ": ") {
			return true
		}
	}
	return false
}

// wrapped headers are kept in a list even if there is one only.
var wrapped = map[string]bool{"Via": true, "Contact": true, "Route": true, "RecordRoute": true, "ErrorInfo": true}

// direct are the getters for particular headers.
var direct = map[string]string{
	"From": "GetFrom", "To": "GetTo", "CSeq": "GetCSeq", "CallID": "GetCallId", "MaxForwards": "GetMaxForwards",
	"Authorization": "GetAuthorization", "MinExpires": "GetMinExpires", "Organization": "GetOrganizationHeader",
	"Priority": "GetPriorityHeader", "ProxyAuthorization": "GetProxyAuthorizationHeader",
	"ContentType": "GetContentTypeHeader", "Expires": "GetExpires", "ContentDisposition": "GetContentDisposition",
	"Via": "GetTopmostVia",
}

// lists are the getters for lists of headers.
var lists = map[string]string{
	"Via": "GetViaHeaders", "Contact": "GetContactHeaders", "Route": "GetRouteHeaders", "RecordRoute": "GetRecordRouteHeaders", "ErrorInfo": "GetErrorInfoHeaders",
}

// histories of the headers h1 and h2 in a message, with what is left of them
// if the header is a single one and if it is kept in a list.
var headerHistories = []struct{ Steps, Single, List string }{
	{"SetHeader(h1)", "h1", "h1"},
	{"AttachHeader(h1)", "h1", "h1"},
	{"AddHeader(h1)", "h1", "h1"},
	{"SetHeader(h1) SetHeader(h2)", "h2", "h2"},
	{"AttachHeader(h1) SetHeader(h2)", "h2", "h2"},
	{"AddHeader(h1) SetHeader(h2)", "h2", "h2"},
	{"SetHeader(h1) AttachHeader(h2)", "h1", "h1 h2"},
	{"AttachHeader(h1) AttachHeader(h2)", "h1", "h1 h2"},
	{"AddHeader(h1) AddHeader(h2)", "h1", "add"},
	{"AttachHeader(h1) AttachHeader(h2) AttachHeader(h3)", "h1", "h1 h2 h3"},
	{"AttachHeader2(h1,false) AttachHeader2(h2,true)", "h2", "h2"},
	{"AttachHeader3(h1,false,false) AttachHeader3(h2,false,true)", "h1", "h2 h1"},
	{"AttachHeader3(h1,false,false) AttachHeader3(h2,true,true)", "h2", "h2"},
	{"SetHeader(h1) RemoveHeader(name)", "", ""},
	{"SetHeader(h1) RemoveHeader(none)", "h1", "h1"},
	{"SetHeader(h1) RemoveHeader2(none,true)", "h1", "h1"},
	{"AttachHeader(h1) AttachHeader(h2) RemoveHeader(NAME)", "", ""},
	{"SetHeader(h1) RemoveHeader2(name,true)", "", ""},
	{"SetHeader(h1) RemoveHeader2(NAME,false)", "", ""},
	{"AttachHeader(h1) AttachHeader(h2) RemoveHeader2(name,true)", "", "h2"},
	{"AttachHeader(h1) AttachHeader(h2) RemoveHeader2(name,false)", "", "h1"},
	{"AttachHeader(h1) AttachHeader(h2) RemoveHeader2(name,true) RemoveHeader2(NAME,true)", "", ""},
	{"AttachHeader(h1) AttachHeader(h2) RemoveHeader2(name,false) RemoveHeader2(name,false)", "", ""},
	{"AttachHeader(h1) AttachHeader(h2) RemoveHeader2(name,false) AttachHeader(h3)", "h3", "h1 h3"},
	{"AttachHeader(h1) AttachHeader(h2) AttachHeader(h3) RemoveHeader2(name,true)", "", "h2 h3"},
	{"AttachHeader(h1) AttachHeader(h2) AttachHeader(h3) RemoveHeader2(name,false)", "", "h1 h2"},
	{"AttachHeader(h1) AttachHeader(h2) AttachHeader(h3) RemoveHeader2(name,false) RemoveHeader2(name,true)", "", "h2"},
	{"AttachHeader(h1) AttachHeader(h2) AttachHeader(h3) RemoveHeader(name)", "", ""},
	{"SetHeader(h1) RemoveHeader(name) SetHeader(h2)", "h2", "h2"},
	{"SetHeader(h1) RemoveHeader(NAME) AttachHeader(h2)", "h2", "h2"},
	{"AttachHeader(h1) AttachHeader(h2) SetHeader(h3)", "h3", "h3"},
	{"RemoveHeader(name) RemoveHeader2(name,true)", "", ""},
}

// attachments are the ways a header gets into a message: by itself, or in a
// list of its own.
func attachments(p *Program, t *types.Named) []string {
	out := []string{""}
	for _, l := range p.typesIn("sip/header") {
		if isHeaderList(l) && p.elementOf(l) == t {
			out = append(out, typeName(l))
		}
	}
	return out
}

func headersEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "headers of a message: " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		n := t.Obj().Name()
		for _, list := range attachments(p, t) {
			base := p.script(m, st)
			base.make("msg", "message.SIPRequest", -1)
			other := "header.Subject"
			if n == "Subject" {
				other = "header.Organization"
			}
			base.make("o", other, 0)
			base.call("", "msg", "SetHeader", "o")
			for _, h := range []string{"h1", "h2", "h3"} {
				base.make(h, typeName(t), 1)
				if n == "Extension" {
					base.call("", h, "SetName", lit("X-Vf"))
				}
				if list != "" {
					base.make(h+".in", list, -1)
					if n == "Extension" {
						base.call("", h+".in", "SetHeaderName", lit("X-Vf"))
					}
					base.call("", h+".in", "PushBack", h)
				}
				base.call("text."+h, h, "String")
			}
			base.call("text.o", "o", "String")
			base.call("name", "h1", "GetName")
			base.call("other", "o", "GetName")
			base.put("none", types.Typ[types.String], func(s *State) *Val { return litVal("X-None") })
			base.put("NAME", types.Typ[types.String], func(s *State) *Val {
				l, _ := isLit(m.held(s, "name"))
				return litVal(strings.ToUpper(l))
			})
			if base.why != "" {
				*out = append(*out, rangeRes{"headers", typeName(t), base.why})
				continue
			}
			for _, h := range headerHistories {
				c := base.fork()
				inList := list != "" || wrapped[n]
				for _, step := range strings.Fields(h.Steps) {
					f, rest, _ := strings.Cut(strings.TrimSuffix(step, ")"), "(")
					var args []interface{}
					for _, a := range strings.Split(rest, ",") {
						switch {
						case a == "true", a == "false":
							args = append(args, a == "true")
						case a[0] == 'h' && list != "":
							args = append(args, a+".in")
						default:
							args = append(args, a)
						}
					}
					c.call("", "msg", f, args...)
				}
				want := h.Single
				if inList {
					want = h.List
				}
				if want == "add" {
					want = "h1 h2"
					if n == "Via" && list == "" {
						want = "h2 h1" // a Via is added on top
					}
				}
				c.holds(strings.Fields(want), n, inList)
				what := typeName(t)
				if list != "" {
					what += " in a list"
				}
				*out = append(*out, rangeRes{"headers", what + ": " + h.Steps, c.why})
			}
		}
	}}
}

// holds checks that the message in slot msg has exactly the headers in the
// given slots, and the header o.
func (c *script) holds(want []string, n string, inList bool) {
	if len(c.ss) == 0 {
		c.fail("the history never ends")
	}
	first := func(f string, args ...interface{}) {
		d := c.fork()
		d.call("got", "msg", f, args...)
		if len(want) == 0 {
			d.is(f, "got", nil)
		} else {
			d.same(f, "got", want[0])
		}
		c.fail2(d)
	}
	all := func(f string, args ...interface{}) {
		d := c.fork()
		d.call("got", "msg", f, args...)
		d.each(func(s *State) string {
			es, ok := elements(s, c.m.held(s, "got"))
			if !ok {
				return f + " returns something unknown"
			}
			if len(es) != len(want) {
				return fmt.Sprintf("%s returns %d headers instead of %d", f, len(es), len(want))
			}
			for i := range es {
				if !same(s, es[i], c.m.held(s, want[i])) {
					return fmt.Sprintf("%s returns another header at %d", f, i)
				}
			}
			return ""
		})
		c.fail2(d)
	}
	for _, x := range []string{"name", "NAME"} {
		first("GetHeader", x)
		all("GetHeaders", x)
		all("GetHeaderList", x)
		d := c.fork()
		d.call("got", "msg", "HasHeader", x)
		d.is("HasHeader", "got", len(want) > 0)
		c.fail2(d)
	}
	if g := direct[n]; g != "" && (!inList || n == "Via") {
		first(g)
	}
	if g := lists[n]; g != "" && inList {
		all(g)
	}
	// the lines of the message
	d := c.fork()
	d.call("lines", "msg", "GetMessageAsEncodedStrings")
	d.call("length", "msg", "GetContentLength")
	d.each(func(s *State) string {
		es, ok := elements(s, c.m.held(s, "lines"))
		if !ok {
			return "GetMessageAsEncodedStrings returns something unknown"
		}
		var got, exp []string
		for _, e := range es {
			t := atomsString(settle(pointee(e).At))
			if !strings.HasPrefix(t, "\"Content-Length: ") {
				got = append(got, t)
			}
		}
		for _, w := range append([]string{"o"}, want...) {
			exp = append(exp, atomsString(settle(c.m.held(s, "text."+w).At)))
		}
		sort.Strings(got)
		sort.Strings(exp)
		if strings.Join(got, " ") != strings.Join(exp, " ") {
			return fmt.Sprintf("the lines of the message are %v instead of %v", got, exp)
		}
		if len(got) != len(es)-1 {
			return "there is not exactly one Content-Length"
		}
		return ""
	})
	c.fail2(d)
	e := c.fork()
	e.call("got", "msg", "GetHeader", "other")
	e.same("the other header", "got", "o")
	c.fail2(e)
}

func init() {
	levels["P16"] = "proof"
	register(&Property{ID: "P16",
		Rule: "For every header type, by itself and in a list of its own: after each of 28 histories of SetHeader, AttachHeader, AddHeader, RemoveHeader and RemoveHeader2 with arbitrary headers, GetHeader, GetHeaders, GetHeaderList, HasHeader, the direct getters and the lines of the message all show the same headers, namely those the history leaves.",
		Run: func(r *Report) {
			ts := r.p.headerTypes()
			n := collect(r, ts, func(t *types.Named, out *[]rangeRes) Entry { return headersEntry(r.p, t, out) })
			r.atLeast("header types", len(ts), 45)
			r.atLeast("histories", n["headers"], 1000)
		}})
}
