package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How the message parser splits a message into its lines and its body, by the
// shape interpreter. The parsers of the lines and the message object are
// replaced by stand-ins that record what they are given.

// splitter records what the message parser does.
type splitter struct {
	start   []bvec // the line given to the parser of the start line
	status  bool   // it was the parser of status lines
	lines   [][]bvec
	heads   []interface{} // the headers attached
	made    []interface{} // the headers made
	body    []bvec
	hasBody bool
	raw     interface{} // the body as it was given
	keeps   bool        // the message keeps the very bytes it was given
	cl      int         // the Content-Length (-1: none)
	fails   map[int]string
	errs    []interface{} // the errors made
	cseq    map[int]bool  // the lines that are a CSeq
	methods [2]bstr       // of the request line and of the CSeq
}

// failure is a new error.
func (s *splitter) failure(m *shape) biface {
	e := bptr{&bcell{bopaque{"error"}}}
	s.errs = append(s.errs, e.c)
	return biface{types.NewPointer(m.p.fullType("sip/parser", "StringMsgParser")), e}
}

func recvPkg(fn *ssa.Function) (string, string) {
	r := fn.Signature.Recv()
	var t types.Type
	if r != nil {
		t = r.Type()
	} else if len(fn.Params) > 0 && fn.Pkg == nil {
		t = fn.Params[0].Type()
	} else {
		return "", ""
	}
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", ""
	}
	return strings.TrimPrefix(n.Obj().Pkg().Path(), modPath+"/"), n.Obj().Name()
}

func (m *shape) zeroResults(fn *ssa.Function) interface{} {
	rs := fn.Signature.Results()
	var out btuple
	for i := 0; i < rs.Len(); i++ {
		out = append(out, m.zero(rs.At(i).Type()))
	}
	switch len(out) {
	case 0:
		return nil
	case 1:
		return out[0]
	}
	return out
}

func (s *splitter) model(m *shape, fn *ssa.Function, args []interface{}) (interface{}, bool) {
	if fn.Signature.Recv() == nil && fn.Pkg != nil {
		switch strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/") {
		case "sip/parser":
			switch fn.Name() {
			case "CreateParser":
				s.lines = append(s.lines, m.readBytes(args[0]))
				if s.fails[len(s.lines)] == "create" {
					return btuple{biface{}, s.failure(m)}, true
				}
				t := types.NewPointer(m.p.fullType("sip/parser", "SubjectParser"))
				return btuple{biface{t, bptr{&bcell{bopaque{"parser"}}}}, biface{}}, true
			case "NewRequestLineParser", "NewStatusLineParser":
				if s.start != nil {
					m.stop("two start lines")
				}
				s.start = m.readBytes(args[0])
				s.status = fn.Name() == "NewStatusLineParser"
				return bptr{&bcell{bopaque{"parser"}}}, true
			}
		case "sip/message":
			if strings.HasPrefix(fn.Name(), "NewSIP") {
				t := fn.Signature.Results().At(0).Type()
				if p, ok := t.(*types.Pointer); ok {
					return bptr{&bcell{m.zero(p.Elem())}}, true
				}
			}
		}
		return nil, false
	}
	pkg, typ := recvPkg(fn)
	switch {
	case pkg == "sip/parser" && fn.Name() == "Parse":
		switch typ {
		case "RequestLineParser", "StatusLineParser":
			t := fn.Signature.Results().At(0).Type().(*types.Pointer)
			if s.fails[0] != "" {
				return btuple{m.zero(t), s.failure(m)}, true
			}
			return btuple{bptr{&bcell{m.zero(t.Elem())}}, biface{}}, true
		case "SubjectParser":
			if s.fails[len(s.lines)] == "parse" {
				return btuple{biface{}, s.failure(m)}, true
			}
			if s.cseq[len(s.lines)] {
				h := bptr{&bcell{bopaque{"header"}}}
				s.made = append(s.made, h)
				return btuple{biface{types.NewPointer(m.p.fullType("sip/header", "CSeq")), h}, biface{}}, true
			}
			h := bptr{&bcell{bopaque{"header"}}}
			s.made = append(s.made, h)
			return btuple{biface{types.NewPointer(m.p.fullType("sip/header", "Subject")), h}, biface{}}, true
		}
	case pkg == "sip/message":
		n := fn.Name()
		switch {
		case n == "GetMethod" && s.methods[0] != nil:
			return s.methods[0], true
		case n == "GetContentLength":
			if s.cl < 0 {
				return biface{}, true
			}
			return biface{types.NewPointer(m.p.fullType("sip/header", "ContentLength")), bptr{&bcell{bopaque{"header"}}}}, true
		case strings.HasPrefix(n, "AttachHeader") || n == "AddHeader" || n == "AddLast":
			if h, ok := args[1].(biface); ok {
				s.heads = append(s.heads, h.v)
			}
		case strings.HasPrefix(n, "SetMessageContent"):
			for _, a := range args[1:] {
				switch a.(type) {
				case bslice, bstr:
					s.body, s.hasBody, s.raw = m.readBytes(a), true, a
					s.keeps = keepsParam(fn, 0)
				}
			}
		}
		return m.zeroResults(fn), true
	case pkg == "sip/header" && typ == "CSeq" && fn.Name() == "GetMethod" && s.methods[1] != nil:
		return s.methods[1], true
	case pkg == "sip/header" && fn.Name() == "GetContentLength":
		return cvec(uint64(int64(s.cl)), 64), true
	}
	return nil, false
}

// msgShape is the shape of a message.
type msgShape struct {
	lead    string
	status  bool
	heads   [][]int // lengths of the parts of each header line
	fold    string  // what starts a continuation
	eol     string
	body    int
	trail   int
	cl      int
	wantErr bool
}

func (x msgShape) text() string {
	s := fmt.Sprintf("%q before, ", x.lead)
	if x.status {
		s += "a response"
	} else {
		s += "a request"
	}
	s += fmt.Sprintf(", header lines of %v bytes, continuations starting with %q, line ends %q, Content-Length %d, %d bytes of body, %d more", x.heads, x.fold, x.eol, x.cl, x.body, x.trail)
	return s
}

var endSet, innerSet, startSet, anySet, noCRSet byteSet

func init() {
	for c := int64(0); c < 256; c++ {
		anySet.put(c)
		if c != '\r' {
			noCRSet.put(c)
			if c != '\n' {
				innerSet.put(c)
			}
		}
		if c > 32 && c < 127 {
			endSet.put(c)
			if c != 'S' {
				startSet.put(c)
			}
		}
	}
}

// part is a piece of a line: it neither starts nor ends with a blank.
func (m *shape) part(n int, first byteSet) []bvec {
	var out []bvec
	for i := 0; i < n; i++ {
		switch i {
		case 0:
			out = append(out, m.char(first))
		case n - 1:
			out = append(out, m.char(endSet))
		default:
			out = append(out, m.char(innerSet))
		}
	}
	return out
}

type msgLaid struct {
	start []bvec
	parts [][][]bvec
	body  []bvec
	data  []bvec
}

func (m *shape) layMessage(x msgShape) *msgLaid {
	l := &msgLaid{}
	var d []bvec
	d = append(d, m.lit(x.lead)...)
	if x.status {
		l.start = append([]bvec(m.lit("SIP/2.0 ")), m.part(3, endSet)...)
	} else {
		l.start = m.part(4, startSet)
	}
	d = append(append(d, l.start...), m.lit(x.eol)...)
	for _, h := range x.heads {
		var ps [][]bvec
		for i, n := range h {
			p := m.part(n, endSet)
			ps = append(ps, p)
			if i > 0 {
				d = append(append(d, m.lit(x.eol)...), m.lit(x.fold)...)
			}
			d = append(d, p...)
		}
		d = append(d, m.lit(x.eol)...)
		l.parts = append(l.parts, ps)
	}
	d = append(d, m.lit(x.eol)...)
	set := anySet
	if x.eol == "\n" {
		set = noCRSet
	}
	for i := 0; i < x.body; i++ {
		c := m.char(set)
		l.body = append(l.body, c)
		d = append(d, c)
	}
	for i := 0; i < x.trail; i++ {
		d = append(d, m.char(set))
	}
	l.data = d
	return l
}

// keepsParam: the method, or one that it hands them to, stores one of its
// arguments as it is.
func keepsParam(fn *ssa.Function, deep int) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if p, ok := in.Val.(*ssa.Parameter); ok && p != fn.Params[0] {
					if _, local := in.Addr.(*ssa.Alloc); !local {
						return true
					}
				}
			case *ssa.Call:
				callee := in.Call.StaticCallee()
				for _, a := range in.Call.Args {
					if p, ok := a.(*ssa.Parameter); ok && p != fn.Params[0] && callee != nil && deep < 4 && keepsParam(callee, deep+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func isBlankBits(b bvec) bool {
	k, ok := b.konst()
	return ok && (k == ' ' || k == '\t')
}

// joins: line is the parts in their order, with only blanks between them (and
// line ends after them); blanks tells how many blanks there are at each joint.
func (m *shape) joins(line []bvec, parts [][]bvec) (blanks []int, ok bool) {
	i := 0
	for k, p := range parts {
		n := 0
		if k > 0 {
			for i < len(line) && isBlankBits(line[i]) {
				i++
				n++
			}
			blanks = append(blanks, n)
		}
		for _, b := range p {
			if i >= len(line) || !m.is(line[i], b) {
				return nil, false
			}
			i++
		}
	}
	for ; i < len(line); i++ {
		if k, isK := line[i].konst(); !isK || k != '\n' {
			return nil, false
		}
	}
	return blanks, true
}

func (m *shape) checkSplit(s *splitter, l *msgLaid, x msgShape, r interface{}, joint bool, bad func(string, ...interface{})) {
	t, _ := r.(btuple)
	if len(t) != 2 {
		m.stop("the parser has other results")
	}
	if x.wantErr {
		if isNilShape(t[1]) {
			bad("the message is not refused")
		}
		return
	}
	if !isNilShape(t[1]) || isNilShape(t[0]) {
		bad("the message is refused")
		return
	}
	if joint {
		for i, ps := range l.parts {
			if i < len(s.lines) {
				if bl, ok := m.joins(s.lines[i], ps); ok {
					for _, n := range bl {
						if n == 0 {
							bad("the parts of a folded line are joined without a blank")
						}
					}
				}
			}
		}
		return
	}
	if s.status != x.status {
		bad("the start line is given to the wrong parser")
	}
	if _, ok := m.joins(s.start, [][]bvec{l.start}); !ok {
		bad("the start line is not the first line of the message")
	}
	if len(s.lines) != len(l.parts) {
		bad("%d header lines are parsed instead of %d", len(s.lines), len(l.parts))
		return
	}
	for i, ps := range l.parts {
		if _, ok := m.joins(s.lines[i], ps); !ok {
			bad("header line %d is not parsed as it stands in the message", i+1)
		}
	}
	if len(s.heads) != len(s.made) {
		bad("%d of %d headers are attached to the message", len(s.heads), len(s.made))
	} else {
		for i := range s.heads {
			a, _ := s.heads[i].(bptr)
			b, _ := s.made[i].(bptr)
			if a.c != b.c {
				bad("header %d is not attached in its turn", i+1)
			}
		}
	}
	switch {
	case x.cl <= 0 && s.hasBody && len(s.body) > 0:
		bad("the message gets a body though its Content-Length is %d", x.cl)
	case x.cl > 0 && !s.hasBody:
		bad("the message gets no body")
	case x.cl > 0:
		if len(s.body) != x.cl {
			bad("the body has %d bytes instead of %d", len(s.body), x.cl)
			return
		}
		for i := range s.body {
			if !m.is(s.body[i], l.body[i]) {
				bad("byte %d of the body is not that of the message", i)
				return
			}
		}
	}
}

func splitCases() []scase {
	var cs []scase
	var shapes []msgShape
	heads := [][][]int{nil, {{1}}, {{2}, {4}}, {{3}, {1}, {5}}, {{6}, {3}, {2}, {4}, {2}}}
	folded := [][][]int{{{2, 1}}, {{1, 2, 3}}, {{3}, {2, 2}}, {{2, 1}, {1, 3}}, {{2, 1}, {4}, {1, 1, 1}}}
	for _, lead := range []string{"", "\r\n", "\r\n\r\n"} {
		for _, st := range []bool{false, true} {
			for _, eol := range []string{"\r\n", "\n"} {
				for _, hs := range heads {
					for _, b := range [][3]int{{0, 0, -1}, {0, 0, 0}, {1, 0, 1}, {5, 0, 5}, {5, 3, 5}, {4, 0, 0}} {
						shapes = append(shapes, msgShape{lead: lead, status: st, heads: hs, eol: eol, body: b[0], trail: b[1], cl: b[2]})
					}
					for _, b := range [][2]int{{0, 1}, {3, 4}, {3, 900}, {0, 1 << 30}} {
						shapes = append(shapes, msgShape{lead: lead, status: st, heads: hs, eol: eol, body: b[0], cl: b[1], wantErr: true})
					}
				}
				for _, hs := range folded {
					for _, f := range []string{" ", "\t", "  ", "\t "} {
						shapes = append(shapes, msgShape{lead: lead, status: st, heads: hs, fold: f, eol: eol, body: 2, cl: 2})
					}
				}
			}
		}
	}
	const con = "(*parser.StringMsgParser).ParseSIPMessageFromByte"
	run := func(m *shape, o biface, x msgShape, text, joint bool, bad func(string, ...interface{})) {
		s := &splitter{cl: x.cl}
		m.model = s.model
		l := m.layMessage(x)
		if text {
			m.checkSplit(s, l, x, m.on(o, "ParseSIPMessage", bstr(l.data)), joint, bad)
			return
		}
		buf := m.bytes(l.data)
		r := m.on(o, "ParseSIPMessageFromByte", buf)
		m.checkSplit(s, l, x, r, joint, bad)
		for i := range l.data {
			if !m.is(buf.arr.el[i].v, l.data[i]) {
				bad("the caller's buffer is changed")
				break
			}
		}
		if b, ok := s.raw.(bslice); ok && s.keeps && b.arr == buf.arr {
			bad("the body of the message is the caller's buffer itself")
		}
	}
	newParser := func(m *shape) biface { return m.make("sip/parser", "NewStringMsgParser") }
	for _, x := range shapes {
		x := x
		what := con
		if x.fold != "" {
			what = con + ": folded lines"
		}
		cs = append(cs, scase{what, x.text(), func(m *shape, bad func(string, ...interface{})) {
			run(m, newParser(m), x, false, false, bad)
		}})
		if x.lead == "" && x.eol == "\r\n" {
			if x.fold != "" {
				cs = append(cs, scase{con + ": a blank where a line is folded", x.text(), func(m *shape, bad func(string, ...interface{})) {
					run(m, newParser(m), x, false, true, bad)
				}})
			}
			cs = append(cs, scase{"(*parser.StringMsgParser).ParseSIPMessage", x.text(), func(m *shape, bad func(string, ...interface{})) {
				run(m, newParser(m), x, true, false, bad)
			}})
			// a parser that has parsed other messages
			for _, y := range []msgShape{
				{heads: [][]int{{2}, {2}, {2}, {2}, {2}, {2}}, eol: "\r\n", body: 9, cl: 9},
				{heads: [][]int{{1}}, eol: "\r\n", body: 0, cl: 4, wantErr: true},
				{heads: nil, eol: "\n", body: 3, cl: 0, status: true},
			} {
				y := y
				cs = append(cs, scase{con + ": one message after another", x.text() + "; before: " + y.text(), func(m *shape, bad func(string, ...interface{})) {
					o := newParser(m)
					run(m, o, y, false, false, bad)
					run(m, o, x, false, false, bad)
				}})
			}
		}
	}
	// messages that do not end
	for n := 0; n < 9; n++ {
		for _, st := range []bool{false, true} {
			n, st := n, st
			x := msgShape{status: st, heads: [][]int{{2}, {3}}, eol: "\r\n", cl: -1, wantErr: true}
			cs = append(cs, scase{con + ": what it refuses", fmt.Sprintf("%s; the last %d bytes missing", x.text(), n+1), func(m *shape, bad func(string, ...interface{})) {
				s := &splitter{cl: -1}
				m.model = s.model
				l := m.layMessage(x)
				m.checkSplit(s, l, x, m.on(newParser(m), "ParseSIPMessageFromByte", m.bytes(l.data[:len(l.data)-1-n])), false, bad)
			}})
		}
	}
	// one header line
	for _, hs := range [][]int{{1}, {2}, {5}, {2, 1}, {1, 2, 3}, {4, 4}} {
		for _, f := range []string{" ", "\t", "  ", "\t "} {
			for _, lead := range []string{"", " ", "\n", "\t \n"} {
				for _, end := range []string{"", "\n"} {
					hs, f, lead, end := hs, f, lead, end
					sh := fmt.Sprintf("a line of %v bytes, continuations starting with %q, %q before, %q after", hs, f, lead, end)
					cs = append(cs, scase{"(*parser.StringMsgParser).ParseSIPHeader", sh, func(m *shape, bad func(string, ...interface{})) {
						s := &splitter{cl: -1}
						m.model = s.model
						d := m.lit(lead)
						var ps [][]bvec
						for i, n := range hs {
							p := m.part(n, endSet)
							if i > 0 {
								d = append(append(d, m.lit("\n")...), m.lit(f)...)
							}
							d = append(d, p...)
							ps = append(ps, p)
						}
						d = append(d, m.lit(end)...)
						t, _ := m.on(newParser(m), "ParseSIPHeader", d).(btuple)
						if len(t) != 2 || !isNilShape(t[1]) || len(s.lines) != 1 || len(s.made) != 1 {
							bad("the line is not parsed once")
							return
						}
						bl, ok := m.joins(s.lines[0], ps)
						if !ok {
							bad("the line is not parsed as it stands")
						}
						for _, n := range bl {
							if n == 0 {
								bad("the parts of a folded line are joined without a blank")
							}
						}
						h, _ := t[0].(biface)
						a, _ := h.v.(bptr)
						if b, _ := s.made[0].(bptr); a.c != b.c {
							bad("the header that was parsed is not returned")
						}
					}})
				}
			}
		}
	}
	return cs
}

func init() {
	levels["P06"] = "other"
	register(&Property{ID: "P06",
		Rule:  "The message parser is interpreted over rows of bits: every byte of the lines and of the body is arbitrary, numbers and lengths of lines, line ends, continuations and the Content-Length are enumerated. The parsers of the start line and of header lines must be given exactly the lines of the message in their order, unfolded, each parsed header must be attached in its turn, and the body must be the bytes after the empty line that the Content-Length counts.",
		Trust: []string{"lines of 1 to 6 bytes and up to five header lines stand for all", "the parsers of single lines and the message object are replaced by stand-ins that record what they are given; P05 and P16 are about them", "lines end in a printable ASCII character"},
		Run: func(r *Report) {
			r.shapeCases("message lines", splitCases())
		}})
}
