package main

import (
	"fmt"
	"go/types"
	"strings"
)

// mandatory puts headers every message has into slots and attaches them:
// via1, via2, from, to, callid, cseq, maxforwards. Their texts are in the
// slots t.via1 and so on.
func (c *script) mandatory(msg string) {
	c.address("from", "header.From")
	c.address("to", "header.To")
	for _, v := range []string{"via1", "via2"} {
		c.via(v)
		c.call("t."+v+"-", v, "String") // without the branch
		c.call("b."+v+"-", v, "EncodeBody")
		c.text(v + ".branch")
		c.call("", v, "SetBranch", v+".branch")
		c.accepted()
	}
	c.make("callid", "header.CallID", 0)
	c.make("cseq", "header.CSeq", 0)
	c.make("maxforwards", "header.MaxForwards", 0)
	for _, h := range []string{"via1", "via2", "from", "to", "callid", "cseq", "maxforwards"} {
		c.call("t."+h, h, "String")
		if msg != "" {
			c.call("", msg, "AttachHeader", h)
		}
	}
	c.call("b.via2", "via2", "EncodeBody")
}

// via makes a Via with a host and everything but a branch.
func (c *script) via(slot string) {
	c.make(slot, "header.Via", 0)
	c.host(slot)
	c.call("", slot, "RemoveParameter", lit("branch"))
}

// host gives a host to something.
func (c *script) host(slot string) {
	c.make(slot+".host", "core.Host", -1)
	c.put(slot+".name", types.Typ[types.String], func(s *State) *Val {
		x := c.m.freshString(s)
		return &Val{K: KStr, N: c.m.newNum(s, 1, maxLen), At: append([]Atom{{Lit: "h"}}, x.At...)}
	})
	c.call("", slot+".host", "SetHostName", slot+".name")
	c.first()
	c.call("", slot, "SetHost", slot+".host")
}

// uri makes a SIP URI with a host.
func (c *script) uri(slot string) {
	c.make(slot, "address.SipURIImpl", 0)
	c.host(slot)
}

// address makes a From or To with a tag and another parameter.
func (c *script) address(slot, typ string) {
	c.make(slot, typ, -1)
	c.make(slot+".a", "address.AddressImpl", 1)
	c.call("", slot, "SetAddress", slot+".a")
	c.call("t."+slot+".a", slot+".a", "String")
	c.text(slot + ".tag")
	c.call("", slot, "SetTag", slot+".tag")
	c.accepted()
	c.text(slot + ".par")
	c.call("", slot, "SetParameter", lit("vfx"), slot+".par")
	c.accepted()
}

// bodyEntry checks the body of a message and its length.
func bodyEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "body of a " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		base := p.script(m, st)
		base.make("msg", typeName(t), -1)
		for _, x := range []string{"old", "body", "type", "sub"} {
			base.text(x)
		}
		bytes := func(slot string) {
			base.put(slot, types.NewSlice(types.Typ[types.Byte]), func(s *State) *Val {
				_, v := p.argFor(m, s, types.NewSlice(types.Typ[types.Byte]), slot)
				return v
			})
		}
		bytes("oldbytes")
		bytes("bytes")
		base.make("ct", "header.ContentType", 0)
		base.make("len", "header.ContentLength", 0)
		base.call("lenv", "len", "GetContentLength")
		before := []string{"", "SetMessageContent(old)", "SetMessageContentFromByte(oldbytes)", "SetMessageContentFromString(type,sub,old)",
			"SetMessageContent3(type,sub,oldbytes)", "SetMessageContent(old) RemoveContent()", "RemoveHeader(name)",
			"SetMessageContent(old) RemoveHeader(name)", "SetHeader(len)", "AttachHeader(len)", "SetContentLength(len)"}
		after := []struct{ Call, Text, Type string }{
			{"SetMessageContent(body)", "body", ""},
			{"SetMessageContent(empty)", "", ""},
			{"SetMessageContentFromByte(bytes)", "bytes", ""},
			{"SetMessageContentFromString(type,sub,body)", "body", "type"},
			{"SetMessageContent3(type,sub,bytes)", "bytes", "type"},
			{"SetContent(body,ct)", "body", "ct"},
			{"SetContent(bytes,ct)", "bytes", "ct"},
			{"RemoveContent()", "", ""},
			{"SetMessageContent(body) RemoveContent()", "", ""},
			{"SetMessageContentFromByte(bytes) RemoveContent()", "", ""},
			{"SetMessageContent(body) SetMessageContentFromByte(bytes)", "bytes", ""},
			{"SetMessageContentFromByte(bytes) SetMessageContent(body)", "body", ""},
			{"SetContent(bytes,ct) SetContent(body,ct)", "body", "ct"},
		}
		base.put("name", types.Typ[types.String], func(*State) *Val { return litVal("content-length") })
		base.put("empty", types.Typ[types.String], func(*State) *Val { return litVal("") })
		for _, b := range before {
			for _, a := range after {
				c := base.fork()
				for _, step := range strings.Fields(b + " " + a.Call) {
					f, rest, _ := strings.Cut(strings.TrimSuffix(step, ")"), "(")
					var args []interface{}
					for _, x := range strings.Split(rest, ",") {
						if x != "" {
							args = append(args, x)
						}
					}
					c.call("", "msg", f, args...)
				}
				// the body is there
				want := line()
				if a.Text != "" {
					want = line(a.Text)
				}
				for _, g := range []string{"GetContent", "GetMessageContent"} {
					d := c.fork()
					d.call("got", "msg", g)
					d.textIs(g, "got", want...)
					c.fail2(d)
				}
				d := c.fork()
				d.call("has", "msg", "HasContent")
				if a.Text != "bytes" {
					d.is("HasContent", "has", a.Text != "")
				}
				// its length is
				d.call("clh", "msg", "GetContentLength")
				d.call("cl", "clh", "GetContentLength")
				d.each(func(s *State) string {
					n := cnum(0)
					if a.Text != "" {
						n = m.held(s, a.Text).N
					}
					if !same(s, m.held(s, "cl"), &Val{K: KNum, N: n}) {
						return fmt.Sprintf("the Content-Length is %v", m.held(s, "cl"))
					}
					return ""
				})
				switch a.Type {
				case "ct":
					d.call("got", "msg", "GetContentTypeHeader")
					d.same("GetContentTypeHeader", "got", "ct")
				case "type":
					d.call("cth", "msg", "GetContentTypeHeader")
					d.reads("cth", "GetContentType", "type")
					d.reads("cth", "GetContentSubType", "sub")
				}
				// and the message ends with both
				d.call("clt", "clh", "String")
				d.call("msgt", "msg", "String")
				d.each(func(s *State) string {
					got := settle(m.held(s, "msgt").At)
					end := d.texts(s, append(line("clt", lit("\r\n")), want...)...)
					if !endsWith(got, end) {
						return fmt.Sprintf("the message %s does not end with %s", atomsString(got), atomsString(end))
					}
					if n := strings.Count(atomsString(got), "Content-Length"); n != 1 {
						return fmt.Sprintf("Content-Length is written %d times", n)
					}
					return ""
				})
				c.fail2(d)
				if len(c.ss) == 0 {
					c.fail("the history never ends")
				}
				*out = append(*out, rangeRes{"body", strings.TrimSpace(typeName(t) + ": " + b + " " + a.Call), c.why})
			}
		}
	}}
}

// endsWith compares the end of a text.
func endsWith(got, end []Atom) bool {
	if len(end) == 0 {
		return true
	}
	if len(got) < len(end) {
		return false
	}
	tail := append([]Atom(nil), got[len(got)-len(end):]...)
	if tail[0].Op == "" && end[0].Op == "" && strings.HasSuffix(tail[0].Lit, end[0].Lit) {
		tail[0].Lit = end[0].Lit
	}
	return atomsString(tail) == atomsString(end)
}

// messageTextEntry compares the text of a message with its parts.
func messageTextEntry(p *Program, t *types.Named, out *[]rangeRes) Entry {
	return Entry{Name: "text of a message with " + typeName(t), Opt: precise, Run: func(m *Machine, st *State) {
		m.noBlanks, m.natural = true, true
		for _, kind := range []string{"message.SIPRequest", "message.SIPResponse"} {
			if n := t.Obj().Name(); n == "Subject" || n == "Organization" {
				continue
			}
			for _, order := range []string{"o1 h o2", "h o1 o2", "o1 o2 h", "h"} {
				base := p.script(m, st)
				base.make("msg", kind, -1)
				base.make("h", typeName(t), 1)
				if t.Obj().Name() == "Extension" {
					base.call("", "h", "SetName", lit("X-Vf"))
				}
				base.make("o1", "header.Subject", 0)
				base.make("o2", "header.Organization", 0)
				var parts []interface{}
				for _, h := range strings.Fields(order) {
					base.call("t."+h, h, "String")
					base.call("", "msg", "SetHeader", h)
					parts = append(parts, "t."+h)
				}
				base.text("body")
				base.put("bytes", types.NewSlice(types.Typ[types.Byte]), func(s *State) *Val {
					_, v := p.argFor(m, s, types.NewSlice(types.Typ[types.Byte]), "bytes")
					return v
				})
				base.put("empty", types.Typ[types.String], func(*State) *Val { return litVal("") })
				for _, first := range []string{"", "line", "default"} {
					for _, body := range []string{"", "body", "bytes"} {
						c := base.fork()
						if first != "" {
							if kind == "message.SIPRequest" {
								c.make("line", "header.RequestLine", 1)
								if first == "default" {
									if t.Obj().Name() != "CSeq" {
										continue
									}
									c.call("", "line", "SetMethod", "empty")
								}
								c.call("", "msg", "SetRequestLine", "line")
							} else {
								if first == "default" {
									continue
								}
								c.make("line", "header.StatusLine", 0)
								c.call("", "msg", "SetStatusLine", "line")
							}
							c.call("t.line", "line", "String")
							if first == "default" { // the method is that of the CSeq
								c.call("method", "h", "GetMethod")
								d := c.fork()
								d.call("", "line", "SetMethod", "method")
								d.call("t.line", "line", "String")
								for i, s := range c.ss {
									m.hold(s, "t.line", m.held(d.ss[min(i, len(d.ss)-1)], "t.line"))
								}
							}
						} else {
							c.put("t.line", types.Typ[types.String], func(*State) *Val { return litVal("") })
						}
						switch body {
						case "body":
							c.call("", "msg", "SetMessageContent", "body")
						case "bytes":
							c.call("", "msg", "SetMessageContentFromByte", "bytes")
						}
						c.call("cl", "msg", "GetContentLength")
						c.call("t.cl", "cl", "String")
						want := append(append(line("t.line"), parts...), "t.cl", lit("\r\n"))
						if body != "" {
							want = append(want, body)
						}
						lines := append(line("t.cl"), parts...)
						if first != "" {
							lines = append(lines, "t.line")
							if first == "line" {
								c.reads("msg", "GetFirstLine", "t.line")
							}
						} else {
							c.readsIs("msg", "GetFirstLine", "")
						}
						c.lines("msg", lines...)
						if first != "" { // the start line comes first
							d := c.fork()
							d.call("lines", "msg", "GetMessageAsEncodedStrings")
							d.each(func(s *State) string {
								es, _ := elements(s, m.held(s, "lines"))
								if len(es) == 0 || atomsString(settle(pointee(es[0]).At)) != atomsString(d.texts(s, "t.line")) {
									return "the start line does not come first"
								}
								return ""
							})
							c.fail2(d)
						}
						c.call("got", "msg", "String")
						c.textIs("String()", "got", want...)
						if len(c.ss) == 0 {
							c.fail("the history never ends")
						}
						*out = append(*out, rangeRes{"text", fmt.Sprintf("%s with %s (%s), start line %q, body %q", kind, typeName(t), order, first, body), c.why})
					}
				}
			}
		}
	}}
}

func init() {
	levels["P18"], levels["P08"] = "proof", "proof"
	register(&Property{ID: "P18",
		Rule: "For requests and responses, after 11 histories that leave any body, length or no Content-Length at all, and each of 13 ways to set or remove the body with arbitrary texts and bytes: the getters return the body, Content-Length holds its number of bytes, the Content-Type is the one given, and the text of the message ends with the one Content-Length line, an empty line and the body.",
		Run: func(r *Report) {
			ts := []*types.Named{r.p.named("message.SIPRequest"), r.p.named("message.SIPResponse")}
			n := collect(r, ts, func(t *types.Named, out *[]rangeRes) Entry { return bodyEntry(r.p, t, out) })
			r.atLeast("histories", n["body"], 250)
		}})
	register(&Property{ID: "P08",
		Rule: "For requests and responses with and without start line, with each type of header between, before and after two others and alone, and without a body, with a text and with bytes: the text of the message is the start line, the texts of the headers in the order in which they were set, the Content-Length line, an empty line and the body.",
		Run: func(r *Report) {
			ts := r.p.headerTypes()
			n := collect(r, ts, func(t *types.Named, out *[]rangeRes) Entry { return messageTextEntry(r.p, t, out) })
			r.atLeast("messages", n["text"], 500)
		}})
}
