package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Texts of known shape: literals between unknown texts of which the
// characters they are made of are known. Reading a character of such a text
// splits the states by the piece the position lies in, and a text that is put
// together from characters read one after the other is a part ("cut") of the
// text they were read from.

// textClass is what is known of an unknown text.
type textClass struct {
	set byteSet // its characters
	min int64   // its least length
	n   Num     // its length
}

func charSet(specs ...string) byteSet {
	var b byteSet
	for _, s := range specs {
		for i := 0; i < len(s); i++ {
			if i+2 < len(s) && s[i+1] == '-' && s[i+2] != '-' && s[i] < s[i+2] {
				for c := s[i]; c <= s[i+2]; c++ {
					b.put(int64(c))
				}
				i += 2
				continue
			}
			b.put(int64(s[i]))
		}
	}
	return b
}

// classed makes an unknown text of the given characters.
func (m *Machine) classed(st *State, set byteSet, min int64, tag string) *Val {
	n := m.newNum(st, min, 1<<20)
	s := m.rawSym()
	if m.classes == nil {
		m.classes = map[Sym]*textClass{}
	}
	m.classes[s] = &textClass{set: set, min: min, n: n}
	m.keepNums(st, fmt.Sprint("length ", s), n)
	return &Val{K: KStr, N: n, At: []Atom{{Op: "sym", Sym: s, Tag: tag}}}
}

// keepNums keeps numbers alive in st from now on.
func (m *Machine) keepNums(st *State, name string, ns ...Num) {
	v := &Val{K: KTuple}
	for _, n := range ns {
		v.El = append(v.El, &Val{K: KNum, N: n})
	}
	k := m.slot(name)
	f := st.frames[0]
	if len(st.frames) == 1 {
		st.setReg(k, v)
		return
	}
	nf := *f
	nf.regs = make(map[ssa.Value]*Val, len(f.regs)+1)
	for a, b := range f.regs {
		nf.regs[a] = b
	}
	nf.regs[k] = v
	st.frames[0] = &nf
}

// charsOf gives the characters and the least length of a piece of text.
func (m *Machine) charsOf(st *State, a Atom) (set byteSet, min int64, n Num, ok bool) {
	switch a.Op {
	case "":
		for i := 0; i < len(a.Lit); i++ {
			set.put(int64(a.Lit[i]))
		}
		return set, int64(len(a.Lit)), cnum(int64(len(a.Lit))), true
	case "sym":
		if c := m.classes[a.Sym]; c != nil {
			return c.set, c.min, c.n, true
		}
	case "lower", "upper":
		min, n = 0, cnum(0)
		if len(a.Sub) != 1 {
			return
		}
		s, mn, num, ok := m.charsOf(st, a.Sub[0])
		if !ok {
			return set, 0, n, false
		}
		for k := int64(0); k < 256; k++ {
			if s.has(k) {
				if k >= 128 {
					return set, 0, n, false
				}
				c := strings.ToLower(string(rune(k)))
				if a.Op == "upper" {
					c = strings.ToUpper(string(rune(k)))
				}
				set.put(int64(c[0]))
			}
		}
		return set, mn, num, true
	case "num":
		lo, hi := st.cons.bounds(a.Num)
		if lo < 0 {
			return
		}
		switch a.Tag {
		case "dec", "base10":
			set = charSet("0-9")
		case "base16":
			set = charSet("0-9a-f")
		default:
			return
		}
		if m.numLens == nil {
			m.numLens = map[string]Num{}
		}
		k := atomsString([]Atom{a})
		l, ok := m.numLens[k]
		if !ok {
			l = Num{S: m.rawSym()}
			m.numLens[k] = l
		}
		if st.cons.get(l.S) == topInfo {
			w := int64(len(fmt.Sprint(hi)))
			st.cons.setLo(l.S, 1)
			st.cons.setHi(l.S, w)
		}
		return set, 1, l, true
	case "float":
		if m.numLens == nil {
			m.numLens = map[string]Num{}
		}
		k := atomsString([]Atom{a})
		l, ok := m.numLens[k]
		if !ok {
			l = Num{S: m.rawSym()}
			m.numLens[k] = l
		}
		if st.cons.get(l.S) == topInfo {
			st.cons.setLo(l.S, 1)
			st.cons.setHi(l.S, 400)
		}
		return charSet("0-9", "."), 1, l, true
	}
	return
}

type segment struct {
	at     Atom
	set    byteSet
	lo, hi Num
	n      Num
}

type layout struct {
	at   []Atom
	key  string
	name string
	segs []segment
	nums []Num
	sym  Sym
}

// layoutOf finds where the pieces of a text lie.
func (m *Machine) layoutOf(st *State, x *Val) *layout {
	if !m.scan || x == nil || len(x.At) == 0 {
		return nil
	}
	x = m.mergeCuts(st, x, true)
	at := settle(x.At)
	key := atomsString(at)
	l, ok := m.layouts[key]
	if !ok {
		if m.layouts == nil {
			m.layouts = map[string]*layout{}
		}
		l = m.newLayout(st, at, key)
		m.layouts[key] = l
	}
	if l == nil {
		return nil
	}
	if st.frames[0].regs[m.slot(l.name)] == nil {
		for _, s := range l.segs {
			if s.hi.S == s.lo.S {
				continue
			}
			_, min, n, _ := m.charsOf(st, s.at)
			if s.lo.S != 0 {
				st.cons.add(Num{s.lo.S, s.lo.K + min}, s.hi)
				st.cons.add(s.hi, cnum(maxLen))
			} else if n.S != 0 {
				st.cons.add(cnum(min), n)
				st.cons.add(n, cnum(maxLen))
			}
		}
		m.keepNums(st, l.name, l.nums...)
	}
	if e := l.end(); x.N != e {
		if !st.cons.leq(e, x.N) {
			st.cons.add(e, x.N)
		}
		if !st.cons.leq(x.N, e) {
			st.cons.add(x.N, e)
		}
	}
	return l
}

var smallDiffs = []int64{-2, -1, 0, 1, 2}

// diffThresholds are the distances kept when positions grow apart: small ones
// and those between the pieces of the texts that are read.
func (m *Machine) diffThresholds() []int64 {
	if !m.scan || m.hard {
		return smallDiffs
	}
	m.survey()
	return m.thr
}

// layoutSyms are the symbols of the places where pieces begin and end.
func (m *Machine) layoutSyms() []Sym {
	if !m.scan {
		return nil
	}
	m.survey()
	return m.bounds
}

func (m *Machine) survey() {
	if m.thr == nil || len(m.layouts) != m.thrFor {
		syms := map[Sym]bool{}
		m.thrFor = len(m.layouts)
		set := map[int64]bool{}
		for _, d := range smallDiffs {
			set[d] = true
		}
		for _, l := range m.layouts {
			if l == nil {
				continue
			}
			for _, n := range l.nums {
				if n.S != 0 {
					syms[n.S] = true
				}
				for d := int64(-1); d <= 1; d++ {
					set[n.K+d], set[-n.K+d] = true, true
				}
			}
		}
		m.thr = nil
		for d := range set {
			m.thr = append(m.thr, d)
		}
		sort.Slice(m.thr, func(i, j int) bool { return m.thr[i] < m.thr[j] })
		m.bounds = sortedBool(syms)
	}
}

func (l *layout) end() Num { return l.segs[len(l.segs)-1].hi }

func (m *Machine) newLayout(st *State, at []Atom, key string) *layout {
	l := &layout{at: at, key: key, name: "layout " + key}
	pos := cnum(0)
	for _, a := range at {
		set, _, n, ok := m.charsOf(st, a)
		if !ok {
			return nil
		}
		s := segment{at: a, set: set, lo: pos, n: n}
		switch {
		case n.S == 0:
			s.hi = Num{pos.S, pos.K + n.K}
		case pos.S == 0:
			s.hi = Num{n.S, pos.K + n.K}
		default:
			s.hi = Num{S: m.rawSym()}
		}
		l.segs = append(l.segs, s)
		l.nums = append(l.nums, s.hi)
		pos = s.hi
	}
	l.sym = m.contentSym(at)
	return l
}

func (c *Cons) same(a, b Num) bool { return a == b || c.leq(a, b) && c.leq(b, a) }

// locate says in which piece, and how far into it, a position lies; the end
// of a piece is the start of the next.
func (l *layout) locate(st *State, p Num) (seg int, off int64, ok bool) {
	for i, s := range l.segs {
		if s.at.Op == "" {
			if p.S == s.lo.S {
				if k := p.K - s.lo.K; k >= 0 && k < int64(len(s.at.Lit)) {
					return i, k, true
				}
				continue
			}
			for k := int64(0); k < int64(len(s.at.Lit)); k++ {
				if st.cons.same(p, Num{s.lo.S, s.lo.K + k}) {
					return i, k, true
				}
			}
		} else if st.cons.same(p, s.lo) {
			return i, 0, true
		}
	}
	if st.cons.same(p, l.end()) {
		return len(l.segs), 0, true
	}
	return 0, 0, false
}

// scanByte reads one character of a text of known shape.
func (m *Machine) scanByte(st *State, x *Val, i Num) ([]Result, bool) {
	l := m.layoutOf(st, x)
	if l == nil {
		return nil, false
	}
	prov := &Prov{Text: l.at, Pos: i}
	if seg, off, ok := l.locate(st, i); ok && seg < len(l.segs) && l.segs[seg].at.Op == "" {
		st.read = seg<<16 + int(off) + 1
		return ret1(st, &Val{K: KNum, N: cnum(int64(l.segs[seg].at.Lit[off])), Prov: prov}), true
	}
	var out []Result
	for j, s := range l.segs {
		if st.cons.lt(i, s.lo) || st.cons.leq(s.hi, i) {
			continue
		}
		if s.at.Op == "" {
			for k := int64(0); k < int64(len(s.at.Lit)); k++ {
				p := Num{s.lo.S, s.lo.K + k}
				if st.cons.lt(i, p) || st.cons.lt(p, i) {
					continue
				}
				c := st.clone()
				if c.cons.add(i, p) && c.cons.add(p, i) {
					c.read = j<<16 + int(k) + 1
					out = append(out, Result{c, &Val{K: KNum, N: cnum(int64(s.at.Lit[k])), Prov: prov}})
				}
			}
			continue
		}
		c := st.clone()
		if !c.cons.add(s.lo, i) || !c.cons.add(Num{i.S, i.K + 1}, s.hi) {
			continue
		}
		if !c.cons.same(i, s.lo) && m.inLoop > 0 {
			m.symRead[m.inLoop] = true
		}
		k := rdKey{l.sym, i.S, i.K}
		b, ok := c.cons.rd[k]
		if !ok {
			n := m.newNum(c, 0, 255)
			b = n.S
			c.cons.rd[k] = b
		}
		set := s.set
		if !c.cons.limit(b, &set) {
			continue
		}
		c.read = j<<16 + 1
		out = append(out, Result{c, &Val{K: KNum, N: Num{S: b}, Prov: prov}})
	}
	return out, true
}

// scanText is the text between two positions.
func (m *Machine) scanText(st *State, x *Val, lo, hi Num) *Val {
	l := m.layoutOf(st, x)
	if l == nil {
		return nil
	}
	if st.cons.same(lo, hi) {
		return litVal("")
	}
	if v := l.between(m, st, lo, hi); v != nil {
		return v
	}
	n := m.numSub(st, hi, lo, types.Typ[types.Int])
	st.cons.add(cnum(0), n)
	return &Val{K: KStr, N: n, At: []Atom{cutAtom(l.at, lo, hi)}}
}

func cutAtom(at []Atom, lo, hi Num) Atom {
	return Atom{Op: "cut", Num: lo, Sub: append([]Atom{{Op: "to", Num: hi}}, at...)}
}

// between gives the pieces between two positions, if both are at known places.
func (l *layout) between(m *Machine, st *State, lo, hi Num) *Val {
	i, ki, ok := l.locate(st, lo)
	if !ok {
		return nil
	}
	j, kj, ok := l.locate(st, hi)
	if !ok {
		return nil
	}
	v := litVal("")
	for s := i; s < len(l.segs) && (s < j || s == j && kj > 0); s++ {
		g := l.segs[s]
		if g.at.Op == "" {
			t := g.at.Lit
			if s == j {
				t = t[:kj]
			}
			if s == i {
				t = t[ki:]
			}
			v = m.concat(st, v, litVal(t))
			continue
		}
		_, min, n, _ := m.charsOf(st, g.at)
		st.cons.add(cnum(min), n)
		v = m.concat(st, v, &Val{K: KStr, N: n, At: []Atom{g.at}})
	}
	return v
}

// oneChar is the text of one character read from a text of known shape.
func (m *Machine) oneChar(c *Val) *Val {
	if !m.scan || c.Prov == nil || c.Prov.Text == nil {
		return nil
	}
	p := c.Prov.Pos
	return &Val{K: KStr, N: cnum(1), At: []Atom{cutAtom(c.Prov.Text, p, Num{p.S, p.K + 1})}}
}

// mergeCuts joins cuts that lie next to each other, and resolves those that
// begin and end at known places.
func (m *Machine) mergeCuts(st *State, v *Val, resolve bool) *Val {
	if !m.scan {
		return v
	}
	has := false
	for _, a := range v.At {
		has = has || a.Op == "cut"
	}
	if !has {
		return v
	}
	var at []Atom
	for _, a := range v.At {
		if k := len(at); a.Op == "cut" && k > 0 && at[k-1].Op == "cut" && st.cons.same(at[k-1].Sub[0].Num, a.Num) && atomsString(at[k-1].Sub[1:]) == atomsString(a.Sub[1:]) {
			at[k-1] = cutAtom(a.Sub[1:], at[k-1].Num, a.Sub[0].Num)
			continue
		}
		at = append(at, a)
	}
	if !resolve {
		return &Val{K: v.K, N: v.N, At: at}
	}
	out := litVal("")
	for _, a := range at {
		var x *Val
		switch a.Op {
		case "cut":
			t := a.Sub[1:]
			l := m.layouts[atomsString(t)]
			if l != nil {
				if st.cons.same(a.Num, a.Sub[0].Num) {
					continue
				}
				x = l.between(m, st, a.Num, a.Sub[0].Num)
			}
		default:
			if _, _, n, ok := m.charsOf(st, a); ok {
				x = &Val{K: KStr, N: n, At: []Atom{a}}
			}
		}
		if x == nil {
			return &Val{K: v.K, N: v.N, At: at}
		}
		out = m.concat(st, out, x)
	}
	out = &Val{K: v.K, N: out.N, At: out.At}
	return out
}

// resolved is a result whose texts are resolved.
func (m *Machine) resolved(st *State, v *Val) *Val {
	switch v.K {
	case KStr:
		return m.mergeCuts(st, v, true)
	case KTuple:
		for i, e := range v.El {
			if e != nil && e.K == KStr {
				if w := m.mergeCuts(st, e, true); w != e {
					n := *v
					n.El = append([]*Val(nil), v.El...)
					n.El[i] = w
					v = &n
				}
			}
		}
	}
	return v
}

// cuts joins two contents that end in parts of the same text.
func (j *joiner) cuts(a, b []Atom) []Atom {
	i := 0
	for i < len(a) && i < len(b) && atomsString(a[i:i+1]) == atomsString(b[i:i+1]) {
		i++
	}
	if i > 0 && (i == len(a)) != (i == len(b)) && a[i-1].Op == "cut" {
		i-- // one goes on where the other ends
	}
	ra, rb := a[i:], b[i:]
	cut := func(x []Atom) bool { return len(x) > 0 && x[0].Op == "cut" }
	var t []Atom
	var c Atom
	switch {
	case cut(ra) && cut(rb):
		t = ra[0].Sub[1:]
		ea, ok := j.m.cutEnd(j.a, ra, ra[0].Num, t)
		eb, ok2 := j.m.cutEnd(j.b, rb, rb[0].Num, t)
		if !ok || !ok2 {
			return nil
		}
		c = cutAtom(t, j.num(ra[0].Num, rb[0].Num), j.num(ea, eb))
	case cut(ra):
		t = ra[0].Sub[1:]
		f := ra[0].Num
		ea, ok := j.m.cutEnd(j.a, ra, f, t)
		eb, ok2 := j.m.cutEnd(j.b, rb, f, t)
		if !ok || !ok2 {
			return nil
		}
		c = cutAtom(t, f, j.num(ea, eb))
	case cut(rb):
		t = rb[0].Sub[1:]
		f := rb[0].Num
		ea, ok := j.m.cutEnd(j.a, ra, f, t)
		eb, ok2 := j.m.cutEnd(j.b, rb, f, t)
		if !ok || !ok2 {
			return nil
		}
		c = cutAtom(t, f, j.num(ea, eb))
	default:
		return nil
	}
	return append(append([]Atom(nil), a[:i]...), c)
}

// cutEnd finds where the pieces at end in the text t when they begin at lo.
func (m *Machine) cutEnd(st *State, at []Atom, lo Num, t []Atom) (Num, bool) {
	key := atomsString(t)
	l := m.layouts[key]
	if l == nil {
		return Num{}, false
	}
	for _, a := range at {
		if a.Op == "cut" {
			if atomsString(a.Sub[1:]) != key || !st.cons.same(a.Num, lo) {
				return Num{}, false
			}
			lo = a.Sub[0].Num
			continue
		}
		i, k, ok := l.locate(st, lo)
		if !ok || i >= len(l.segs) {
			return Num{}, false
		}
		if a.Op != "" {
			if l.segs[i].at.Op == "" || atomsString([]Atom{a}) != atomsString([]Atom{l.segs[i].at}) {
				return Num{}, false
			}
			lo = l.segs[i].hi
			continue
		}
		if l.segs[i].at.Op != "" || !strings.HasPrefix(l.segs[i].at.Lit[k:], a.Lit) {
			return Num{}, false
		}
		lo = Num{lo.S, lo.K + int64(len(a.Lit))}
	}
	return lo, true
}

// has decides whether a character occurs in a text: no, yes, or 2.
func (m *Machine) has(st *State, at []Atom, c byte) int {
	r := 0
	for _, a := range at {
		if a.Op == "" {
			if strings.IndexByte(a.Lit, c) >= 0 {
				return 1
			}
			continue
		}
		set, _, _, ok := m.charsOf(st, a)
		if !ok || set.has(int64(c)) {
			r = 2
		}
	}
	return r
}

// searched gives the position of a literal in a text of known shape when no
// unknown piece can hold its first (or, looking from the end, any) character.
func (m *Machine) searched(st *State, x *Val, sep string, last bool) (Num, bool) {
	l := m.layoutOf(st, x)
	if l == nil || sep == "" {
		return Num{}, false
	}
	pos, found := cnum(-1), false
	for _, s := range l.segs {
		if s.at.Op != "" {
			for k := 0; k < len(sep); k++ {
				if s.set.has(int64(sep[k])) {
					return Num{}, false
				}
			}
			continue
		}
		k := strings.Index(s.at.Lit, sep)
		if last {
			k = strings.LastIndex(s.at.Lit, sep)
		}
		if k >= 0 {
			pos, found = Num{s.lo.S, s.lo.K + int64(k)}, true
			if !last {
				return pos, true
			}
		}
	}
	_ = found
	return pos, true
}

const blanks = " \t\r\n\v\f"

// trimmed cuts the given characters off the ends of a text of known shape.
func (m *Machine) trimmed(st *State, x *Val, cutset string, left, right bool) *Val {
	l := m.layoutOf(st, x)
	if l == nil {
		return nil
	}
	at := append([]Atom(nil), l.at...)
	blank := func(set byteSet) (some, all bool) {
		all = true
		for k := int64(0); k < 256; k++ {
			if set.has(k) {
				if k >= 128 || strings.IndexByte(cutset, byte(k)) >= 0 {
					some = true
				} else {
					all = false
				}
			}
		}
		return
	}
	ends := func(i int, trim func(string) string) (done, ok bool) {
		if a := at[i]; a.Op == "" {
			at[i].Lit = trim(a.Lit)
			if at[i].Lit == "" {
				at = append(append([]Atom(nil), at[:i]...), at[i+1:]...)
				return false, true
			}
			return true, true
		}
		set, min, _, _ := m.charsOf(st, at[i])
		some, _ := blank(set)
		return !some && min > 0, !some && min > 0
	}
	for left && len(at) > 0 {
		done, ok := ends(0, func(s string) string { return strings.TrimLeft(s, cutset) })
		if !ok {
			return nil
		}
		if done {
			break
		}
	}
	for right && len(at) > 0 {
		done, ok := ends(len(at)-1, func(s string) string { return strings.TrimRight(s, cutset) })
		if !ok {
			return nil
		}
		if done {
			break
		}
	}
	return m.textOfAtoms(st, at)
}

// textOfAtoms is the text made of pieces with known lengths.
func (m *Machine) textOfAtoms(st *State, at []Atom) *Val {
	v := litVal("")
	for _, a := range at {
		_, min, n, ok := m.charsOf(st, a)
		if !ok {
			return nil
		}
		if n.S != 0 {
			st.cons.add(cnum(min), n)
		}
		v = m.concat(st, v, &Val{K: KStr, N: n, At: []Atom{a}})
	}
	return v
}

// mayBe: can a text of known shape be this literal?
func (m *Machine) mayBe(st *State, at []Atom, lit string) bool {
	if !m.scan {
		return true
	}
	var min int64
	for _, a := range at {
		_, mn, _, ok := m.charsOf(st, a)
		if !ok {
			return true
		}
		min += mn
	}
	if int64(len(lit)) < min {
		return false
	}
	at = settle(at)
	if len(at) == 0 {
		return lit == ""
	}
	if a := at[0]; a.Op == "" {
		if !strings.HasPrefix(lit, a.Lit) {
			return false
		}
		return len(at) > 1 || len(lit) == len(a.Lit)
	}
	if a := at[len(at)-1]; a.Op == "" && !strings.HasSuffix(lit, a.Lit) {
		return false
	}
	if len(at) == 1 {
		set, _, _, _ := m.charsOf(st, at[0])
		for i := 0; i < len(lit); i++ {
			if !set.has(int64(lit[i])) {
				return false
			}
		}
	}
	return true
}

func (m *Machine) startsWith(st *State, at []Atom, b string) int {
	if r := prefixIn(at, b); r != 2 || !m.scan {
		return r
	}
	if len(at) > 0 && b != "" {
		if set, min, _, ok := m.charsOf(st, at[0]); ok && min > 0 && at[0].Op != "" && !set.has(int64(b[0])) {
			return 0
		}
		if m.has(st, at, b[0]) == 0 {
			return 0
		}
	}
	return 2
}

func (m *Machine) endsWith(st *State, at []Atom, b string) int {
	if !m.scan || len(at) == 0 || b == "" {
		return 2
	}
	if m.has(st, at, b[len(b)-1]) == 0 {
		return 0
	}
	a := at[len(at)-1]
	if a.Op == "" {
		if strings.HasSuffix(a.Lit, b) {
			return 1
		}
		if len(a.Lit) >= len(b) || !strings.HasSuffix(b, a.Lit) {
			return 0
		}
		return 2
	}
	if set, min, _, ok := m.charsOf(st, a); ok && min > 0 && !set.has(int64(b[len(b)-1])) {
		return 0
	}
	return 2
}

func (m *Machine) holds(st *State, at []Atom, b string) int {
	if r := containsIn(at, b); r != 2 || !m.scan || b == "" {
		return r
	}
	// only a text that spans pieces could hold it
	for i := 0; i < len(b); i++ {
		if m.has(st, at, b[i]) == 0 {
			return 0
		}
	}
	x := &Val{K: KStr, At: at}
	if len(at) > 0 {
		if v := m.textOfAtoms(st, at); v != nil {
			x.N = v.N
			if p, ok := m.searched(st, x, b, false); ok && len(b) == 1 {
				if p == cnum(-1) {
					return 0
				}
				return 1
			}
		}
	}
	return 2
}
