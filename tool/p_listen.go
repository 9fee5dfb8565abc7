package main

import (
	"fmt"
	"go/types"
)

// What happens to a line that cannot be parsed: without a listener the message
// is refused with the error of that line; with one, the listener is told once,
// with the error, the message and the text of the line, and its answer decides.

type told struct {
	err, msg interface{}
	line     []bvec
}

// badLines are lines that fail; answer: what the listener does.
type badLines struct {
	x      msgShape
	fails  map[int]string // 0: the start line
	answer string         // "", "ignore", "refuse", "refuse second"
}

func (b badLines) text() string {
	s := b.x.text()
	for i := 0; i <= len(b.x.heads); i++ {
		if w := b.fails[i]; w != "" {
			s += fmt.Sprintf("; line %d fails (%s)", i+1, w)
		}
	}
	switch b.answer {
	case "":
		return s + "; no listener"
	case "ignore":
		return s + "; a listener that ignores it"
	case "refuse":
		return s + "; a listener that refuses it"
	}
	return s + "; a listener that refuses the second"
}

func cellOf(v interface{}) interface{} {
	if i, ok := v.(biface); ok {
		v = i.v
	}
	if p, ok := v.(bptr); ok {
		return p.c
	}
	return nil
}

func listenCases() []scase {
	var cs []scase
	var all []badLines
	heads := [][]int{{3}, {2, 1}, {4}, {5}}
	for _, st := range []bool{false, true} {
		for n := 0; n <= 3; n++ {
			for _, cl := range []int{0, 3} {
				x := msgShape{status: st, heads: heads[:n], fold: " ", eol: "\r\n", body: cl, cl: cl}
				for _, a := range []string{"", "ignore", "refuse", "refuse second"} {
					for i := 0; i <= n; i++ {
						for _, w := range []string{"create", "parse"} {
							if i == 0 && w == "create" {
								continue
							}
							if a != "refuse second" {
								all = append(all, badLines{x, map[int]string{i: w}, a})
							}
							for j := 0; j < i; j++ {
								all = append(all, badLines{x, map[int]string{i: w, j: "parse"}, a})
							}
						}
					}
				}
			}
		}
	}
	const con = "(*parser.StringMsgParser).ParseMessage"
	for _, b := range all {
		b := b
		cs = append(cs, scase{con + ": a line that fails", b.text(), func(m *shape, bad func(string, ...interface{})) {
			s := &splitter{cl: b.x.cl, fails: b.fails}
			m.model = s.model
			l := m.layMessage(b.x)
			o := m.make("sip/parser", "NewStringMsgParser")
			var said []told
			var answers []interface{}
			if b.answer != "" {
				stub := &bstub{call: func(name string, args []interface{}) interface{} {
					if name != "HandleException" || len(args) != 4 {
						m.stop("the listener has other methods")
					}
					said = append(said, told{cellOf(args[0]), cellOf(args[1]), m.readBytes(args[2])})
					if b.answer == "refuse" || b.answer == "refuse second" && len(said) == 2 {
						e := s.failure(m)
						s.errs = s.errs[:len(s.errs)-1]
						answers = append(answers, cellOf(e))
						return e
					}
					return biface{}
				}}
				m.on(o, "SetParseExceptionListener", biface{types.NewPointer(m.p.fullType("sip/parser", "StringMsgParser")), stub})
			}
			r, _ := m.on(o, "ParseSIPMessageFromByte", m.bytes(l.data)).(btuple)
			if len(r) != 2 {
				m.stop("the parser has other results")
			}
			// the lines that fail, in their order
			var want []int
			for i := 0; i <= len(b.x.heads); i++ {
				if b.fails[i] != "" {
					want = append(want, i)
				}
			}
			stopAt := -1 // the failure that ends the parse
			switch b.answer {
			case "", "refuse":
				stopAt = 0
			case "refuse second":
				stopAt = 1
			}
			if b.answer != "" {
				n := len(want)
				if stopAt >= 0 {
					n = stopAt + 1
				}
				if len(said) != n {
					bad("the listener is told of %d lines instead of %d", len(said), n)
					return
				}
				for i, t := range said {
					if i < len(s.errs) && t.err != s.errs[i] {
						bad("the listener is not told the error of the line")
					}
					parts := [][]bvec{l.start}
					if k := want[i]; k > 0 {
						parts = l.parts[k-1]
					}
					if _, ok := m.joins(t.line, parts); !ok {
						bad("the listener is not told the text of the line")
					}
					if stopAt < 0 && t.msg != cellOf(r[0]) {
						bad("the listener is given another message")
					}
				}
			}
			if stopAt >= 0 {
				if isNilShape(r[1]) {
					bad("the message is not refused")
					return
				}
				expect := s.errs[len(s.errs)-1]
				if b.answer != "" {
					expect = answers[0]
				}
				if cellOf(r[1]) != expect {
					bad("the error is another")
				}
				if !isNilShape(r[0]) {
					bad("a message is returned with the error")
				}
				return
			}
			if !isNilShape(r[1]) || isNilShape(r[0]) {
				bad("the message is refused")
				return
			}
			// what parsed is there
			if len(s.lines) != len(b.x.heads) {
				bad("%d header lines are parsed instead of %d", len(s.lines), len(b.x.heads))
			}
			if len(s.heads) != len(s.made) {
				bad("%d of %d headers are attached to the message", len(s.heads), len(s.made))
				return
			}
			for i := range s.heads {
				if cellOf(s.heads[i]) != cellOf(s.made[i]) {
					bad("header %d is not attached in its turn", i+1)
				}
			}
			if b.x.cl > 0 {
				if len(s.body) != b.x.cl {
					bad("the body has %d bytes instead of %d", len(s.body), b.x.cl)
					return
				}
				for i := range s.body {
					if !m.is(s.body[i], l.body[i]) {
						bad("byte %d of the body is not that of the message", i)
						return
					}
				}
			}
		}})
	}
	// the method of the CSeq
	for _, st := range []bool{false, true} {
		for n := 1; n <= 3; n++ {
			for at := 1; at <= n; at++ {
				for _, lens := range [][2]int{{3, 3}, {3, 2}, {1, 4}, {1, 1}} {
					for _, same := range []bool{false, true} {
						for _, listener := range []bool{false, true} {
							if same && lens[0] != lens[1] {
								continue
							}
							st, n, at, lens, same, listener := st, n, at, lens, same, listener
							x := msgShape{status: st, heads: heads[:n], fold: " ", eol: "\r\n", cl: -1}
							sh := fmt.Sprintf("%s; line %d is a CSeq, methods of %v bytes (equal: %v), a listener: %v", x.text(), at+1, lens, same, listener)
							cs = append(cs, scase{con + ": the method of the CSeq", sh, func(m *shape, bad func(string, ...interface{})) {
								s := &splitter{cl: -1, cseq: map[int]bool{at: true}}
								s.methods[0] = m.part(lens[0], endSet)
								if same {
									s.methods[1] = s.methods[0]
								} else {
									s.methods[1] = m.part(lens[1], endSet)
								}
								m.model = s.model
								l := m.layMessage(x)
								o := m.make("sip/parser", "NewStringMsgParser")
								if listener {
									stub := &bstub{call: func(string, []interface{}) interface{} { return biface{} }}
									m.on(o, "SetParseExceptionListener", biface{types.NewPointer(m.p.fullType("sip/parser", "StringMsgParser")), stub})
								}
								r, _ := m.on(o, "ParseSIPMessageFromByte", m.bytes(l.data)).(btuple)
								if len(r) != 2 {
									m.stop("the parser has other results")
								}
								equal := m.equal(s.methods[0], s.methods[1])
								switch refused := !isNilShape(r[1]); {
								case st && refused:
									bad("a response is refused")
								case !st && equal && refused:
									bad("a request whose CSeq has its method is refused")
								case !st && !equal && !refused:
									bad("a request whose CSeq has another method is accepted")
								}
							}})
						}
					}
				}
			}
		}
	}
	return cs
}

func init() {
	levels["P34"] = "other"
	register(&Property{ID: "P34",
		Rule:  "The message parser is interpreted as for P06, with stand-ins for the parsers of single lines that fail for chosen lines (one or two, at every place, when the parser is made or when it parses) and a stand-in for the listener that ignores or refuses what it is told. The error, the listener's arguments, the headers attached and the body are compared with the statement. For a CSeq at every place, the methods of the start line and of the CSeq are arbitrary.",
		Trust: []string{"messages of up to three header lines with one or two that fail stand for all", "the parsers of single lines and the message object are replaced by stand-ins; P03 and P05 are about the former"},
		Run: func(r *Report) {
			r.shapeCases("lines that fail", listenCases())
		}})
}
