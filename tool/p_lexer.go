package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// The tokenizer under all parsers (core.StringTokenizer, core.CoreLexer), by the
// shape interpreter: every primitive on texts of arbitrary bytes, against a
// definition of what it takes from the text and what it leaves.

func setOf(spec func(c byte) bool) *byteSet {
	var s byteSet
	for c := 0; c < 256; c++ {
		if spec(byte(c)) {
			s.put(int64(c))
		}
	}
	return &s
}

func oneOf(text string) *byteSet {
	var s byteSet
	for i := 0; i < len(text); i++ {
		s.put(int64(text[i]))
	}
	return &s
}

var (
	lexDigit = setOf(func(c byte) bool { return c >= '0' && c <= '9' })
	lexAlpha = setOf(func(c byte) bool { return c|0x20 >= 'a' && c|0x20 <= 'z' })
	lexHex   = setOf(func(c byte) bool { return c >= '0' && c <= '9' || c|0x20 >= 'a' && c|0x20 <= 'f' })
	// RFC 3261 25.1: alphanum and -.!%*_+`'~
	lexToken = setOf(func(c byte) bool {
		if c >= '0' && c <= '9' || c|0x20 >= 'a' && c|0x20 <= 'z' {
			return true
		}
		for _, x := range []byte("-.!%*_+`'~") {
			if c == x {
				return true
			}
		}
		return false
	})
	lexTokenSp = setOf(func(c byte) bool { return c == ' ' || c == '\t' || lexToken.has(int64(c)) })
	lexBlank   = oneOf(" \t")
	lexASCII   = setOf(func(c byte) bool { return c < 128 })
)

// lexed is what a primitive takes from the text b at p: the value, the new place,
// and whether it is refused.
type lexed struct {
	val []bvec
	p   int
	err bool
}

type lexOp struct {
	name string
	// call runs the primitive and returns its results.
	call func(m *shape, o biface) []interface{}
	// want is the definition.
	want func(m *shape, b []bvec, p int) lexed
	// peek: the place does not change.
	peek  bool
	value bool // the first result is a text (otherwise nothing or a truth value, checked by check)
	isErr bool // the last result is an error
	max   int  // longest text
	full  int  // up to this length every byte is arbitrary; in longer texts one is
}

func results(v interface{}) []interface{} {
	if t, ok := v.(btuple); ok {
		return t
	}
	return []interface{}{v}
}

// while takes the bytes of a set.
func (m *shape) lexWhile(b []bvec, p int, s *byteSet) int {
	for p < len(b) && m.inSet(b[p], s) {
		p++
	}
	return p
}

func (m *shape) lexLine(b []bvec, p int) int {
	for p < len(b) {
		p++
		if m.inSet(b[p-1], oneOf("\n")) {
			break
		}
	}
	return p
}

// lexQuoted reads up to an end that no backslash precedes.
func (m *shape) lexQuoted(b []bvec, p int, open, end string) lexed {
	if p >= len(b) || !m.inSet(b[p], oneOf(open)) {
		return lexed{err: true}
	}
	p++
	var val []bvec
	for {
		if p >= len(b) {
			return lexed{err: true}
		}
		if m.inSet(b[p], oneOf(end)) {
			return lexed{val, p + 1, false}
		}
		if m.inSet(b[p], oneOf("\\")) {
			if p+1 >= len(b) {
				return lexed{err: true}
			}
			val = append(val, b[p], b[p+1])
			p += 2
			continue
		}
		val = append(val, b[p])
		p++
	}
}

var lexOps = []lexOp{
	{name: "GetLine", value: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexLine(b, p)
		return lexed{val: b[p:e], p: e}
	}},
	{name: "NextToken", value: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexLine(b, p)
		return lexed{val: b[p:e], p: e}
	}},
	{name: "PeekLine", value: true, peek: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		return lexed{val: b[p:m.lexLine(b, p)]}
	}},
	{name: "GetRest", value: true, peek: true, max: 3, want: func(m *shape, b []bvec, p int) lexed {
		return lexed{val: b[p:]}
	}},
	{name: "GetBuffer", value: true, peek: true, max: 3, want: func(m *shape, b []bvec, p int) lexed {
		return lexed{val: b}
	}},
	{name: "SPorHT", max: 6, want: func(m *shape, b []bvec, p int) lexed {
		return lexed{p: m.lexWhile(b, p, lexBlank)}
	}},
	{name: "Ttoken", value: true, full: 1, max: 5, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexWhile(b, p, lexToken)
		return lexed{val: b[p:e], p: e}
	}},
	{name: "GetNextId", value: true, full: 1, max: 5, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexWhile(b, p, lexToken)
		return lexed{val: b[p:e], p: e}
	}},
	{name: "PeekNextId", value: true, peek: true, full: 1, max: 5, want: func(m *shape, b []bvec, p int) lexed {
		return lexed{val: b[p:m.lexWhile(b, p, lexToken)]}
	}},
	{name: "PeekNextId, Consume", value: true, full: 1, max: 5,
		call: func(m *shape, o biface) []interface{} {
			v := m.on(o, "PeekNextId")
			m.on(o, "Consume")
			return results(v)
		},
		want: func(m *shape, b []bvec, p int) lexed {
			e := m.lexWhile(b, p, lexToken)
			return lexed{val: b[p:e], p: e}
		}},
	{name: "TtokenAllowSpace", value: true, full: 1, max: 5, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexWhile(b, p, lexTokenSp)
		return lexed{val: b[p:e], p: e}
	}},
	{name: "ByteStringNoSemicolon", value: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexWhile(b, p, setOf(func(c byte) bool { return c != ';' && c != '\n' }))
		return lexed{val: b[p:e], p: e}
	}},
	{name: "ByteStringNoComma", value: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		e := m.lexWhile(b, p, setOf(func(c byte) bool { return c != ',' && c != '\n' }))
		return lexed{val: b[p:e], p: e}
	}},
	{name: "QuotedString", value: true, isErr: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		return m.lexQuoted(b, p, "\"", "\"")
	}},
	{name: "Comment", value: true, isErr: true, max: 6, want: func(m *shape, b []bvec, p int) lexed {
		return m.lexQuoted(b, p, "(", ")")
	}},
}

func lexCases() []scase {
	var cs []scase
	all := *setOf(func(byte) bool { return true })
	ascii := *lexASCII
	text := func(m *shape, n int) []bvec {
		var b []bvec
		for i := 0; i < n; i++ {
			b = append(b, m.char(all))
		}
		return b
	}
	ops := append([]lexOp(nil), lexOps...)
	for _, c := range []byte("?>;\"= \\") {
		c := c
		ops = append(ops, lexOp{name: fmt.Sprintf("GetNextTokenByDelim(%q)", c), value: true, isErr: true, max: 5,
			call: func(m *shape, o biface) []interface{} {
				return results(m.on(o, "GetNextTokenByDelim", cvec(uint64(c), 8)))
			},
			want: func(m *shape, b []bvec, p int) lexed {
				e := m.lexWhile(b, p, setOf(func(x byte) bool { return x != c }))
				return lexed{b[p:e], e, e == len(b)}
			}})
		if c == '\\' {
			continue
		}
		ops = append(ops, lexOp{name: fmt.Sprintf("GetString(%q)", c), value: true, isErr: true, max: 5,
			call: func(m *shape, o biface) []interface{} {
				return results(m.on(o, "GetString", cvec(uint64(c), 8)))
			},
			want: func(m *shape, b []bvec, p int) lexed {
				var val []bvec
				for p < len(b) {
					if m.inSet(b[p], oneOf(string(c))) {
						return lexed{val, p + 1, false}
					}
					if m.inSet(b[p], oneOf("\\")) {
						p++
						if p >= len(b) {
							break
						}
					}
					val = append(val, b[p])
					p++
				}
				return lexed{err: true}
			}})
		ops = append(ops, lexOp{name: fmt.Sprintf("Match(%q)", c), isErr: true, max: 3,
			call: func(m *shape, o biface) []interface{} {
				return m.lexMatch(o, int64(c))
			},
			value: true,
			want: func(m *shape, b []bvec, p int) lexed {
				if p < len(b) && m.inSet(b[p], oneOf(string(c))) {
					return lexed{b[p : p+1], p + 1, false}
				}
				return lexed{err: true}
			}})
	}
	for k := 0; k <= 3; k++ {
		k := k
		ops = append(ops, lexOp{name: fmt.Sprintf("NCharAsString(%d)", k), value: true, peek: true, max: 3,
			call: func(m *shape, o biface) []interface{} { return results(m.on(o, "NCharAsString", cvec(uint64(k), 64))) },
			want: func(m *shape, b []bvec, p int) lexed {
				e := p + k
				if e > len(b) {
					e = len(b)
				}
				return lexed{val: b[p:e]}
			}})
		ops = append(ops, lexOp{name: fmt.Sprintf("LookAheadK(%d)", k), value: true, isErr: true, peek: true, max: 3,
			call: func(m *shape, o biface) []interface{} {
				return m.lexByte(results(m.on(o, "LookAheadK", cvec(uint64(k), 64))))
			},
			want: func(m *shape, b []bvec, p int) lexed {
				if p+k >= len(b) {
					return lexed{err: true}
				}
				return lexed{val: b[p+k : p+k+1]}
			}})
	}
	ops = append(ops,
		lexOp{name: "LookAhead", value: true, isErr: true, peek: true, max: 3,
			call: func(m *shape, o biface) []interface{} { return m.lexByte(results(m.on(o, "LookAhead"))) },
			want: func(m *shape, b []bvec, p int) lexed {
				if p >= len(b) {
					return lexed{err: true}
				}
				return lexed{val: b[p : p+1]}
			}},
		lexOp{name: "GetNextChar", value: true, isErr: true, max: 3,
			call: func(m *shape, o biface) []interface{} { return m.lexByte(results(m.on(o, "GetNextChar"))) },
			want: func(m *shape, b []bvec, p int) lexed {
				if p >= len(b) {
					return lexed{err: true}
				}
				return lexed{b[p : p+1], p + 1, false}
			}},
		lexOp{name: "Match(ID)", value: true, isErr: true, full: 1, max: 4,
			call: func(m *shape, o biface) []interface{} { return m.lexMatch(o, 4095) },
			want: func(m *shape, b []bvec, p int) lexed {
				e := m.lexWhile(b, p, lexToken)
				return lexed{b[p:e], e, e == p}
			}},
		lexOp{name: "Match(DIGIT)", value: true, isErr: true, max: 3,
			call: func(m *shape, o biface) []interface{} { return m.lexMatch(o, 4098) },
			want: func(m *shape, b []bvec, p int) lexed {
				if p < len(b) && m.inSet(b[p], lexDigit) {
					return lexed{b[p : p+1], p + 1, false}
				}
				return lexed{err: true}
			}},
		lexOp{name: "Match(ALPHA)", value: true, isErr: true, max: 3,
			call: func(m *shape, o biface) []interface{} { return m.lexMatch(o, 4099) },
			want: func(m *shape, b []bvec, p int) lexed {
				if p < len(b) && m.inSet(b[p], lexAlpha) {
					return lexed{b[p : p+1], p + 1, false}
				}
				return lexed{err: true}
			}},
		lexOp{name: "Number", value: true, isErr: true, full: -1, max: 5,
			call: func(m *shape, o biface) []interface{} {
				var digits interface{}
				n := m.fresh(64)
				before := m.model
				m.model = func(m *shape, fn *ssa.Function, args []interface{}) (interface{}, bool) {
					if fn.String() == "strconv.Atoi" {
						digits = args[0]
						return btuple{n, biface{}}, true
					}
					if before != nil {
						return before(m, fn, args)
					}
					return nil, false
				}
				r := results(m.on(o, "Number"))
				m.model = before
				if len(r) == 2 && isNilShape(r[1]) {
					if v, ok := r[0].(bvec); !ok || digits == nil || !m.is(v, n) {
						return []interface{}{m.lit("another number"), r[1]}
					}
					return []interface{}{digits, r[1]}
				}
				return r
			},
			want: func(m *shape, b []bvec, p int) lexed {
				e := m.lexWhile(b, p, lexDigit)
				return lexed{b[p:e], e, e == p}
			}},
	)
	tokens := func(m *shape, b []bvec, p, k int) lexed {
		for i := 0; i < k; i++ {
			if p >= len(b) {
				return lexed{err: true}
			}
			e := m.lexWhile(b, p, lexToken)
			if e == p {
				e++
			}
			p = e
		}
		return lexed{p: p}
	}
	for k := 1; k <= 4; k++ {
		k := k
		ops = append(ops, lexOp{name: fmt.Sprintf("PeekNextTokenK(%d), Consume", k), isErr: true, full: -1, max: 5,
			call: func(m *shape, o biface) []interface{} {
				r := results(m.on(o, "PeekNextTokenK", cvec(uint64(k), 64)))
				if isNilShape(r[1]) {
					m.on(o, "Consume")
				}
				return r
			},
			want: func(m *shape, b []bvec, p int) lexed { return tokens(m, b, p, k) }})
	}
	ops = append(ops, lexOp{name: "PeekNextToken, Consume", isErr: true, full: -1, max: 5,
		call: func(m *shape, o biface) []interface{} {
			r := results(m.on(o, "PeekNextToken"))
			if isNilShape(r[1]) {
				m.on(o, "Consume")
			}
			return r
		},
		want: func(m *shape, b []bvec, p int) lexed { return tokens(m, b, p, 1) }})
	peeks := []lexOp{{name: "PeekNextTokenK(3)", isErr: true, peek: true,
		call: func(m *shape, o biface) []interface{} {
			return results(m.on(o, "PeekNextTokenK", cvec(3, 64)))
		},
		want: func(m *shape, b []bvec, p int) lexed { return tokens(m, b, p, 3) }}}
	for _, a := range append(peeks, ops...) {
		for _, b := range ops {
			for _, fill := range []string{"a;b=\"c", "\"\\;1,\n"} {
				a, b, fill := a, b, fill
				cs = append(cs, scase{"(*core.CoreLexer)." + b.name, fmt.Sprintf("after %s, in %q with byte 1 arbitrary", a.name, fill), func(m *shape, bad func(string, ...interface{})) {
					m.initPackage("core")
					t := append([]bvec(nil), m.lit(fill)...)
					t[1] = m.char(ascii)
					o := m.make("core", "NewCoreLexer", m.lit("charLexer"), bstr(t))
					p := m.lexRun(a, o, t, 0, func(string, ...interface{}) {})
					if p >= 0 {
						m.lexRun(b, o, t, p, bad)
					}
				}})
			}
		}
	}
	for _, op := range ops {
		for n := 0; n <= op.max; n++ {
			for start := 0; start <= n && start <= 2; start++ {
				arbitrary := []int{-1} // all of them
				if op.full != 0 && n > op.full {
					arbitrary = nil
					for i := start; i < n; i++ {
						arbitrary = append(arbitrary, i)
					}
				}
				if len(arbitrary) == 0 {
					arbitrary = []int{-1}
				}
				for _, which := range arbitrary {
					op, n, start, which := op, n, start, which
					sh := fmt.Sprintf("%d bytes, %d taken before", n, start)
					if which >= 0 {
						sh += fmt.Sprintf(", byte %d arbitrary", which)
					}
					cs = append(cs, scase{"(*core.CoreLexer)." + op.name, sh, func(m *shape, bad func(string, ...interface{})) {
						m.initPackage("core")
						b := text(m, n)
						if which >= 0 {
							fill := "a~7Z.0"
							if op.name == "Number" {
								fill = "073915"
							}
							if op.full < 0 { // bytes outside ASCII do not come out as they are
								b[which] = m.char(ascii)
							}
							for i := range b {
								if i != which {
									b[i] = cvec(uint64(fill[i]), 8)
								}
							}
						}
						o := m.make("core", "NewCoreLexer", m.lit("charLexer"), bstr(b))
						m.on(o, "ConsumeK", cvec(uint64(start), 64))
						m.lexRun(op, o, b, start, bad)
					}})
				}
			}
		}
	}
	add := func(con, sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{con, sh, f})
	}
	truth := func(m *shape, v interface{}) bool {
		x, ok := v.(bvec)
		if !ok || len(x) != 1 {
			m.stop("a truth value is %T", v)
		}
		return m.decide(m.res(x)[0])
	}
	for n := 0; n <= 2; n++ {
		for start := 0; start <= n; start++ {
			n, start := n, start
			sh := fmt.Sprintf("%d bytes, %d taken before", n, start)
			lexer := func(m *shape) (biface, []bvec) {
				b := text(m, n)
				o := m.make("core", "NewCoreLexer", m.lit("charLexer"), bstr(b))
				m.on(o, "ConsumeK", cvec(uint64(start), 64))
				return o, b
			}
			add("(*core.CoreLexer).HasMoreChars", sh, func(m *shape, bad func(string, ...interface{})) {
				o, _ := lexer(m)
				if truth(m, m.on(o, "HasMoreChars")) != (start < n) {
					bad("it is wrong")
				}
			})
			add("(*core.CoreLexer).StartsId", sh, func(m *shape, bad func(string, ...interface{})) {
				o, b := lexer(m)
				got := truth(m, m.on(o, "StartsId"))
				if got != (start < n && m.inSet(b[start], lexToken)) {
					bad("it is wrong")
				}
				if m.int(m.on(o, "GetPtr")) != start {
					bad("it moves")
				}
			})
			for back := 0; back <= n; back++ {
				back := back
				add("(*core.CoreLexer).RewindInputPosition", sh+fmt.Sprintf(", back to %d", back), func(m *shape, bad func(string, ...interface{})) {
					b := text(m, n)
					o := m.make("core", "NewCoreLexer", m.lit("charLexer"), bstr(b))
					m.on(o, "ConsumeK", cvec(uint64(back), 64))
					mark := m.on(o, "MarkInputPosition")
					m.on(o, "ConsumeK", cvec(uint64(n-back), 64))
					m.on(o, "RewindInputPosition", mark)
					if !m.sameText(m.on(o, "GetRest"), b[back:]) {
						bad("the rest is not that of the marked place")
					}
				})
			}
		}
	}
	for _, c := range []struct {
		name string
		set  *byteSet
	}{{"IsDigit", lexDigit}, {"IsAlpha", lexAlpha}, {"IsHexDigit", lexHex}} {
		c := c
		for k := 0; k < 128; k++ {
			k := k
			add("(*core.StringTokenizer)."+c.name, fmt.Sprintf("byte %d", k), func(m *shape, bad func(string, ...interface{})) {
				o := m.make("core", "NewStringTokenizer", m.lit(""))
				if truth(m, m.on(o, c.name, cvec(uint64(k), 8))) != c.set.has(int64(k)) {
					bad("it is wrong")
				}
			})
		}
	}
	for n := 0; n <= 6; n++ {
		n := n
		add("(*core.StringTokenizer).GetLines", fmt.Sprintf("%d bytes", n), func(m *shape, bad func(string, ...interface{})) {
			b := text(m, n)
			o := m.make("core", "NewStringTokenizer", bstr(b))
			got, ok := m.on(o, "GetLines").(*bmap)
			if !ok {
				m.stop("the lines are no map")
			}
			i := 0
			for p := 0; p < n; i++ {
				e := m.lexLine(b, p)
				v, ok := m.mapGet(got, cvec(uint64(i), 64))
				if !ok || !m.sameText(v, b[p:e]) {
					bad("line %d is not that of the text", i)
					return
				}
				p = e
			}
			if len(got.keys) != i {
				bad("there are %d lines instead of %d", len(got.keys), i)
			}
		})
		if n > 4 {
			continue
		}
		add("(*core.StringTokenizer).GetSDPFieldName", fmt.Sprintf("%d bytes", n), func(m *shape, bad func(string, ...interface{})) {
			b := text(m, n)
			o := m.make("core", "NewStringTokenizer", m.lit(""))
			got := m.on(o, "GetSDPFieldName", bstr(b))
			e := m.lexWhile(b, 0, setOf(func(c byte) bool { return c != '=' }))
			want := b[:e]
			if e == n {
				want = nil
			}
			if !m.sameText(got, want) {
				bad("it is not what precedes the first =")
			}
		})
		add("message.ToHexString", fmt.Sprintf("%d bytes", n), func(m *shape, bad func(string, ...interface{})) {
			m.initPackage("sip/message")
			b := m.freshBytes(n)
			for i, x := range b {
				if n > 1 && i != n/2 {
					b[i] = cvec(uint64(0x9e+0x35*i)&0xff, 8)
					continue
				}
				for _, y := range x {
					m.decide(y)
				}
			}
			fn := m.p.fullFunc("sip/message", "ToHexString")
			got := m.readBytes(m.call(fn, m.bytes(b)))
			if len(got) != 2*n {
				bad("the length is %d", len(got))
				return
			}
			for i, x := range b {
				for h := 0; h < 2; h++ {
					nib := x[4*(1-h) : 4*(1-h)+4]
					for d := 0; d < 16; d++ {
						if m.equalVec(nib, cvec(uint64(d), 4)) {
							if !m.is(got[2*i+h], cvec(uint64("0123456789abcdef"[d]), 8)) {
								bad("digit %d is wrong", 2*i+h)
							}
							break
						}
					}
				}
			}
		})
	}
	// keywords
	for _, text := range []string{"kw", "KW", "Kw;", "kwx", "k", "", ";kw", "other rest"} {
		for tok := 0; tok < 2; tok++ {
			text, tok := text, tok
			names := []string{"KW", "OTHER"}
			add("(*core.CoreLexer).Match(keyword)", fmt.Sprintf("%q, keyword %s", text, names[tok]), func(m *shape, bad func(string, ...interface{})) {
				m.initPackage("core")
				o := m.make("core", "NewCoreLexer", m.lit("charLexer"), m.lit(text))
				for i, k := range names {
					m.on(o, "AddKeyword", m.lit(k), cvec(uint64(2100+i), 64))
				}
				e := 0
				for e < len(text) && lexToken.has(int64(text[e])) {
					e++
				}
				is := equalFoldASCII(text[:e], names[tok])
				t, err := m.lexPeek(o, 1)
				if e > 0 {
					want := 4095
					for i, k := range names {
						if equalFoldASCII(text[:e], k) {
							want = 2100 + i
						}
					}
					if err || len(t) != 1 || t[0].typ != want || !m.sameText(t[0].val, m.lit(text[:e])) {
						bad("PeekNextToken does not find the word")
					}
				}
				r := m.lexMatch(o, int64(2100+tok))
				if isNilShape(r[1]) != is {
					bad("it matches: %v", !is)
					return
				}
				if is && (!m.sameText(r[0], m.lit(text[:e])) || m.int(m.on(o, "GetPtr")) != e) {
					bad("it does not take the word")
				}
			})
		}
	}
	for n := 0; n <= 4; n++ {
		for k := 1; k <= 3; k++ {
			for which := 0; which < n || which == 0; which++ {
				n, k, which := n, k, which
				add("(*core.CoreLexer).PeekNextTokenK", fmt.Sprintf("%d tokens in %d bytes, byte %d arbitrary", k, n, which), func(m *shape, bad func(string, ...interface{})) {
					m.initPackage("core")
					b := m.freshBytes(0)
					for i := 0; i < n; i++ {
						if i == which {
							b = append(b, m.char(ascii))
						} else {
							b = append(b, cvec(uint64("a;7@"[i]), 8))
						}
					}
					o := m.make("core", "NewCoreLexer", m.lit("charLexer"), bstr(b))
					got, err := m.lexPeek(o, k)
					p := 0
					for i := 0; i < k; i++ {
						if p >= n {
							if !err {
								bad("it finds a token after the end")
							}
							p = 0
							break
						}
						e := m.lexWhile(b, p, lexToken)
						id := e > p
						if !id {
							e = p + 1
						}
						if err {
							if n > 0 && i == k-1 {
								bad("it fails")
								return
							}
							p = e
							continue
						}
						if !m.sameText(got[i].val, b[p:e]) {
							bad("token %d is not what stands there", i)
							return
						}
						if id && got[i].typ != 4095 || !id && !m.is(got[i].num, zeroExt(m.res(b[p]), 64)) {
							bad("the type of token %d is wrong", i)
							return
						}
						p = e
					}
					if m.int(m.on(o, "GetPtr")) != 0 {
						bad("it moves")
					}
					if !err {
						m.on(o, "Consume")
						if m.int(m.on(o, "GetPtr")) != p {
							bad("Consume does not take the tokens")
						}
					}
				})
			}
		}
	}
	return cs
}

// lexRun compares one step with its definition on the text b, in a lexer at
// start; it returns the new place, -1 when there is none.
func (m *shape) lexRun(op lexOp, o biface, b []bvec, start int, bad func(string, ...interface{})) int {
	call := op.call
	if call == nil {
		call = func(m *shape, o biface) []interface{} { return results(m.on(o, op.name)) }
	}
	r := call(m, o)
	w := op.want(m, b, start)
	if op.isErr {
		if refused := !isNilShape(r[len(r)-1]); refused != w.err {
			if w.err {
				bad("it does not fail")
			} else {
				bad("it fails")
			}
			return -1
		}
	}
	if !w.err && op.value && !m.sameText(r[0], w.val) {
		bad("it does not return what stands there")
	}
	at := w.p
	if op.peek {
		at = start
	} else if w.err {
		return -1
	}
	if got := m.int(m.on(o, "GetPtr")); got != at {
		bad("it leaves the place at %d instead of %d", got, at)
		return -1
	}
	if !m.sameText(m.on(o, "GetBuffer"), b) {
		bad("the text is changed")
	}
	return at
}

func equalFoldASCII(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if 'a' <= x && x <= 'z' {
			x -= 32
		}
		if 'a' <= y && y <= 'z' {
			y -= 32
		}
		if x != y {
			return false
		}
	}
	return true
}

func zeroExt(v bvec, n int) bvec {
	out := append(bvec(nil), v...)
	for len(out) < n {
		out = append(out, 0)
	}
	return out
}

// lexByte turns a byte and an error into a text and an error.
func (m *shape) lexByte(r []interface{}) []interface{} {
	v, ok := r[0].(bvec)
	if !ok {
		m.stop("a byte is %T", r[0])
	}
	return []interface{}{bstr{m.res(v)}, r[1]}
}

// lexMatch is the text of the token that Match finds, and its error.
func (m *shape) lexMatch(o biface, tok int64) []interface{} {
	fn := m.method(o.t, "Match")
	r := results(m.call(fn, o.v, cvec(uint64(tok), 64)))
	if !isNilShape(r[1]) {
		return r
	}
	t := objOf(fn, 0, r[0])
	if isNilShape(t) {
		return []interface{}{m.lit("no token"), r[1]}
	}
	return []interface{}{m.on(t, "GetTokenValue"), r[1]}
}

type lexTok struct {
	val interface{}
	typ int
	num bvec
}

func (m *shape) lexPeek(o biface, k int) ([]lexTok, bool) {
	fn := m.method(o.t, "PeekNextTokenK")
	one := m.method(o.t, "PeekNextToken")
	r := results(m.call(fn, o.v, cvec(uint64(k), 64)))
	if !isNilShape(r[1]) {
		return nil, true
	}
	l, ok := r[0].(bslice)
	if !ok || l.len != k {
		m.stop("other tokens")
	}
	var out []lexTok
	for i := 0; i < k; i++ {
		t := objOf(one, 0, l.arr.el[l.off+i].v)
		v, _ := m.on(t, "GetTokenType").(bvec)
		x := lexTok{val: m.on(t, "GetTokenValue"), num: m.res(v), typ: -1}
		if c, ok := x.num.konst(); ok {
			x.typ = int(c)
		}
		out = append(out, x)
	}
	return out, false
}

func (m *shape) sameText(v interface{}, want []bvec) bool {
	got := m.readBytes(v)
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if !m.is(got[i], want[i]) {
			return false
		}
	}
	return true
}

func init() {
	levels["P37"] = "other"
	register(&Property{ID: "P37",
		Rule:  "Every primitive of core.StringTokenizer and core.CoreLexer is interpreted on texts of arbitrary bytes, from several places, and its result, its error and the place it leaves are compared with a definition; the classes of bytes are checked for all 256.",
		Trust: []string{"texts of up to six bytes stand for all", "strconv.Atoi is given the digits and replaced by a stand-in"},
		Run: func(r *Report) {
			r.shapeCases("tokenizer", lexCases())
		}})
}
