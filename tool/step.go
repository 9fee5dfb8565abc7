package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(st *State) []*State { return []*State{st} }

// elemField marks the address of the Value field of a list element.
var elemField = types.NewStruct(nil, nil)

func isElemPtr(v *Val) bool {
	return v != nil && v.K == KPtr && v.T != nil && isElementType(v.T)
}

// copyVal makes a value with a new identity but the same contents.
func copyVal(v *Val) *Val {
	if v == nil {
		return nil
	}
	n := *v
	if len(v.El) > 0 {
		n.El = make([]*Val, len(v.El))
		for i, e := range v.El {
			n.El[i] = copyVal(e)
		}
	}
	if len(v.Alts) > 0 {
		n.Alts = make([]Alt, len(v.Alts))
		for i, a := range v.Alts {
			n.Alts[i] = Alt{a.T, copyVal(a.V)}
		}
	}
	n.Smash = copyVal(v.Smash)
	return &n
}

// joinVals returns an upper bound of two values of the same state.
func (m *Machine) joinVals(st *State, a, b *Val) *Val {
	if a == b {
		return a
	}
	if a == nil {
		return copyVal(b)
	}
	if b == nil {
		return a
	}
	j := &joiner{m: m, a: st, b: st, pairs: map[pairKey]Sym{}, strs: map[[2]string]Sym{}}
	r := j.val(a, b)
	type ps struct {
		s    Sym
		a, b Num
	}
	var done []ps
	for _, k := range j.ord {
		p := ps{j.pairs[k], Num{k.a, k.d + j.base[k]}, Num{k.b, j.base[k]}}
		la, ha := st.cons.bounds(p.a)
		lb, hb := st.cons.bounds(p.b)
		st.cons.own()
		n := &symInfo{lo: min(la, lb), hi: max(ha, hb)}
		if u := unionSet(st.cons.info(p.a), st.cons.info(p.b)); u != nil {
			n.restrict(u)
		}
		st.cons.m[p.s] = n
		link := func(q ps) {
			d := max(addInf(st.cons.diff(p.a.S, q.a.S), p.a.K-q.a.K), addInf(st.cons.diff(p.b.S, q.b.S), p.b.K-q.b.K))
			if d < inf && d < st.cons.diff(p.s, q.s) {
				st.cons.rawLink(p.s, q.s, d)
			}
			d = max(addInf(st.cons.diff(q.a.S, p.a.S), q.a.K-p.a.K), addInf(st.cons.diff(q.b.S, p.b.S), q.b.K-p.b.K))
			if d < inf && d < st.cons.diff(q.s, p.s) {
				st.cons.rawLink(q.s, p.s, d)
			}
		}
		for _, q := range done {
			link(q)
		}
		cand := map[Sym]bool{}
		for _, x := range []Sym{k.a, k.b} {
			if x == 0 {
				continue
			}
			cand[x] = true
			for t := range st.cons.get(x).up {
				cand[t] = true
			}
			for t := range st.cons.get(x).dn {
				cand[t] = true
			}
		}
		for _, t := range sortedBool(cand) {
			if t != 0 && t != p.s {
				link(ps{t, Num{t, 0}, Num{t, 0}})
			}
		}
		done = append(done, p)
	}
	return r
}

// cells returns the possible contents of ref; exact means a single strong cell.
func (m *Machine) cells(st *State, r Ref) ([]*Val, bool) {
	o := st.heap[r.Obj]
	if o == nil {
		return nil, false
	}
	cur := []*Val{o.V}
	exact := !o.Sum
	for i := 0; i < len(r.Path); i++ {
		ix := int(r.Path[i])
		var next []*Val
		for _, v := range cur {
			if v == nil {
				continue
			}
			switch v.K {
			case KStruct:
				if ix < len(v.El) {
					next = append(next, v.El[ix])
				}
			case KArr:
				if ix != 0xff && ix < len(v.El) {
					next = append(next, v.El[ix])
				} else {
					exact = false
					if ix == 0xff {
						next = append(next, v.El...)
					}
					if v.Smash != nil {
						next = append(next, v.Smash)
					}
				}
			default:
				exact = false
			}
		}
		cur = next
	}
	return cur, exact && len(cur) == 1
}

func (m *Machine) loadRef(st *State, r Ref, t types.Type) *Val {
	cs, exact := m.cells(st, r)
	if exact {
		return cs[0]
	}
	if len(cs) == 0 {
		return m.top(st, t, "load")
	}
	v := cs[0]
	if len(cs) > 1 {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsInteger != 0 {
				lo, hi := inf, -inf
				for _, c := range cs {
					if c.K != KNum {
						return m.top(st, t, "load")
					}
					l, h := st.cons.bounds(c.N)
					lo, hi = min(lo, l), max(hi, h)
				}
				return &Val{K: KNum, N: m.newNum(st, lo, hi)}
			}
			if u.Info()&types.IsString != 0 {
				lo, hi := inf, -inf
				for _, c := range cs {
					l, h := st.cons.bounds(c.N)
					lo, hi = min(lo, l), max(hi, h)
				}
				return m.strLen(m.newNum(st, lo, hi))
			}
		}
		for _, c := range cs[1:] {
			v = m.joinVals(st, v, c)
		}
	}
	return m.instantiate(st, v)
}

func (m *Machine) top(st *State, t types.Type, why string) *Val {
	if m.ifaceTop != nil {
		if v := m.ifaceTop(m, st, t, why); v != nil {
			return v
		}
	}
	return m.topVal(st, t)
}

func (m *Machine) storeRef(st *State, in ssa.Instruction, r Ref, nv *Val) {
	o := st.heap[r.Obj]
	if o == nil {
		return
	}
	if m.onStore != nil {
		cs, _ := m.cells(st, r)
		var old *Val
		if len(cs) > 0 {
			old = cs[0]
		}
		m.onStore(st, in, r, old, nv)
	}
	_, exact := m.cells(st, r)
	if exact {
		st.setObjVal(r.Obj, setPath(o.V, r.Path, nv))
		return
	}
	st.setObjVal(r.Obj, m.weakSet(st, o.V, r.Path, nv))
}

func (m *Machine) weakSet(st *State, v *Val, path string, nv *Val) *Val {
	if path == "" {
		if v == nil {
			return copyVal(nv)
		}
		return m.joinVals(st, copyVal(v), copyVal(nv))
	}
	if v == nil || (v.K != KStruct && v.K != KArr) {
		return v
	}
	n := *v
	n.Prov = nil
	n.At = nil
	ix := int(path[0])
	if v.K == KStruct || (ix != 0xff && ix < len(v.El)) {
		n.El = append([]*Val(nil), v.El...)
		if ix < len(n.El) {
			n.El[ix] = m.weakSet(st, v.El[ix], path[1:], nv)
		}
		return &n
	}
	sm := v.Smash
	if ix == 0xff && len(v.El) > 0 {
		for _, e := range v.El {
			sm = m.joinVals(st, copyVal(sm), copyVal(e))
		}
		n.El = nil
	}
	if sm == nil {
		sm = copyVal(nv)
		if path[1:] != "" {
			n.Smash = sm
			return v
		}
	}
	n.Smash = m.weakSet(st, copyVal(sm), path[1:], nv)
	return &n
}

// listAt returns the list value behind a *list.List pointer target.
func (m *Machine) listAt(st *State, r Ref) *Val {
	cs, exact := m.cells(st, r)
	if len(cs) == 0 || cs[0].K != KList {
		return nil
	}
	if !exact {
		v := m.instantiate(st, cs[0])
		return v
	}
	return cs[0]
}

// ------------------------------------------------------------ arithmetic

func (m *Machine) fresh(st *State, t types.Type) *Val {
	lo, hi := intBounds(t)
	return &Val{K: KNum, N: m.newNum(st, lo, hi)}
}

func (m *Machine) ranged(st *State, t types.Type, lo, hi int64) *Val {
	tl, th := intBounds(t)
	if lo < tl || hi > th || lo <= -inf || hi >= inf {
		if tl <= -inf {
			tl = -inf
		}
		return &Val{K: KNum, N: m.newNum(st, tl, th)}
	}
	if lo == hi {
		return &Val{K: KNum, N: cnum(lo)}
	}
	return &Val{K: KNum, N: m.newNum(st, lo, hi)}
}

// fits reports whether n surely lies in t's range.
func (m *Machine) fits(st *State, n Num, t types.Type) bool {
	lo, hi := st.cons.bounds(n)
	tl, th := intBounds(t)
	if lo <= -inf || hi >= inf {
		// the unbounded ends stand for the full 64-bit range
		return n.K == 0 && (tl <= -inf || lo >= tl) && (th >= inf || hi <= th)
	}
	return lo >= tl && hi <= th
}

func (m *Machine) numAdd(st *State, a, b Num, t types.Type) Num {
	if a.S == 0 {
		a, b = b, a
	}
	if b.S == 0 {
		r := Num{a.S, a.K + b.K}
		lo, hi := st.cons.bounds(a)
		tl, th := intBounds(t)
		if r.S == 0 {
			if r.K < tl || r.K > th {
				return m.wrapConst(r.K, t)
			}
			return r
		}
		if (b.K > 0 && hi < inf && hi+b.K <= th) || (b.K < 0 && lo > -inf && lo+b.K >= tl) || b.K == 0 {
			return r
		}
		return m.fresh(st, t).N
	}
	la, ha := st.cons.bounds(a)
	lb, hb := st.cons.bounds(b)
	lo, hi := addInf(la, lb), addInf(ha, hb)
	tl, th := intBounds(t)
	if lo <= -inf || hi >= inf || lo < tl || hi > th {
		return m.fresh(st, t).N
	}
	vk := vnKey{'+', min(a.S, b.S), max(a.S, b.S)}
	if v, ok := st.cons.vn[vk]; ok {
		return Num{v.S, v.K + a.K + b.K}
	}
	r := m.newNum(st, lo, hi)
	defer func() {
		st.cons.own()
		st.cons.vn[vk] = Num{r.S, r.K - a.K - b.K}
	}()
	// r - a in [lb,hb], r - b in [la,ha]
	st.cons.addDiff(r.S, a.S, hb+a.K)
	st.cons.addDiff(a.S, r.S, -(lb + a.K))
	st.cons.addDiff(r.S, b.S, ha+b.K)
	st.cons.addDiff(b.S, r.S, -(la + b.K))
	return r
}

func (m *Machine) wrapConst(k int64, t types.Type) Num {
	b, ok := t.Underlying().(*types.Basic)
	if ok {
		switch b.Kind() {
		case types.Uint8:
			return cnum(int64(uint8(k)))
		case types.Uint16:
			return cnum(int64(uint16(k)))
		case types.Uint32:
			return cnum(int64(uint32(k)))
		case types.Int8:
			return cnum(int64(int8(k)))
		case types.Int16:
			return cnum(int64(int16(k)))
		case types.Int32:
			return cnum(int64(int32(k)))
		}
	}
	return cnum(k)
}

func (m *Machine) numSub(st *State, a, b Num, t types.Type) Num {
	if a.S == b.S {
		r := a.K - b.K
		tl, th := intBounds(t)
		if r < tl || r > th {
			return m.wrapConst(r, t)
		}
		return cnum(r)
	}
	if b.S == 0 {
		return m.numAdd(st, a, cnum(-b.K), t)
	}
	la, ha := st.cons.bounds(a)
	lb, hb := st.cons.bounds(b)
	lo, hi := addInf(la, -hb), addInf(ha, -lb)
	if d := st.cons.diff(a.S, b.S); d < inf {
		hi = min(hi, d+a.K-b.K)
	}
	if d := st.cons.diff(b.S, a.S); d < inf {
		lo = max(lo, -(d + b.K - a.K))
	}
	tl, th := intBounds(t)
	if lo <= -inf || hi >= inf || lo < tl || hi > th {
		return m.fresh(st, t).N
	}
	r := m.newNum(st, lo, hi)
	if a.S != 0 {
		// r = a - b: r - a in [-hb, -lb]
		if lb > -inf {
			st.cons.addDiff(r.S, a.S, a.K-lb)
		}
		if hb < inf {
			st.cons.addDiff(a.S, r.S, hb-a.K)
		}
	}
	return r
}

func nextPow2m1(v int64) int64 {
	r := int64(1)
	for r-1 < v && r < 1<<60 {
		r <<= 1
	}
	return r - 1
}

func (m *Machine) arith(st *State, in *ssa.BinOp, x, y *Val) []*State {
	t := in.Type()
	set := func(v *Val) []*State { st.setReg(in, v); return one(st) }
	if x.K == KFloat || y.K == KFloat {
		return set(&Val{K: KFloat, S: m.rawSym()})
	}
	if x.K == KStr && y.K == KStr {
		return set(m.concat(st, x, y))
	}
	if x.K != KNum || y.K != KNum {
		return set(m.topVal(st, t))
	}
	lx, hx := st.cons.bounds(x.N)
	ly, hy := st.cons.bounds(y.N)
	xc, yc := lx == hx, ly == hy
	var out *Val
	switch in.Op {
	case token.ADD:
		out = &Val{K: KNum, N: m.numAdd(st, x.N, y.N, t)}
	case token.SUB:
		out = &Val{K: KNum, N: m.numSub(st, x.N, y.N, t)}
	case token.MUL:
		if yc && ly == 1 {
			out = x
		} else if hx < 1<<30 && lx > -(1<<30) && hy < 1<<30 && ly > -(1<<30) {
			ps := []int64{lx * ly, lx * hy, hx * ly, hx * hy}
			sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
			out = m.ranged(st, t, ps[0], ps[3])
		} else {
			out = m.fresh(st, t)
		}
	case token.QUO, token.REM:
		m.check(in, "div", describe(in.Y), ly > 0 || hy < 0)
		if ly <= 0 && hy >= 0 {
			if yc {
				return nil
			}
			if ly == 0 && !st.cons.add(cnum(1), y.N) {
				return nil
			}
			ly = max(ly, 1)
		}
		switch {
		case in.Op == token.QUO && yc && ly > 0:
			lo, hi := lx, hx
			if lo > -inf {
				lo /= ly
			}
			if hi < inf {
				hi /= ly
			}
			if lx > -inf && hx < inf {
				out = m.ranged(st, t, lo, hi)
			} else {
				tl, th := intBounds(t)
				out = &Val{K: KNum, N: m.newNum(st, max(lo, tl), min(hi, th))}
			}
			if out.N.S != 0 && x.N.S != 0 {
				if lx >= 0 {
					st.cons.add(out.N, x.N)
				}
				if ly > 1 && ly < 1<<31 && m.fixing == 0 {
					if m.quo == nil {
						m.quo = map[Sym]quotient{}
					}
					m.quo[out.N.S] = quotient{x.N, ly}
				}
			}
		case in.Op == token.REM && yc && ly > 0:
			lo, hi := int64(-(ly - 1)), ly-1
			if lx >= 0 {
				lo = 0
				hi = min(hi, hx)
			}
			out = m.ranged(st, t, lo, hi)
		default:
			out = m.fresh(st, t)
		}
	case token.AND:
		switch {
		case xc && yc && lx >= 0 && ly >= 0:
			out = &Val{K: KNum, N: cnum(lx & ly)}
		case yc && ly >= 0:
			if lx >= 0 && hx <= ly && ly == nextPow2m1(ly) {
				out = x
			} else {
				h := ly
				if lx >= 0 {
					h = min(h, hx)
				}
				out = m.ranged(st, t, 0, h)
			}
		case xc && lx >= 0:
			out = m.ranged(st, t, 0, lx)
		case lx >= 0 && ly >= 0:
			out = m.ranged(st, t, 0, min(hx, hy))
		default:
			out = m.fresh(st, t)
		}
	case token.OR, token.XOR:
		switch {
		case xc && yc && lx >= 0 && ly >= 0:
			if in.Op == token.OR {
				out = &Val{K: KNum, N: cnum(lx | ly)}
			} else {
				out = &Val{K: KNum, N: cnum(lx ^ ly)}
			}
		case xc && lx == 0:
			out = y
		case yc && ly == 0:
			out = x
		case lx >= 0 && ly >= 0 && hx < inf && hy < inf:
			lo := int64(0)
			if in.Op == token.OR {
				lo = max(lx, ly)
			}
			out = m.ranged(st, t, lo, nextPow2m1(max(hx, hy)))
		default:
			out = m.fresh(st, t)
		}
	case token.AND_NOT:
		if lx >= 0 {
			out = m.ranged(st, t, 0, hx)
		} else {
			out = m.fresh(st, t)
		}
	case token.SHL:
		if ly < 0 {
			m.check(in, "shift", describe(in.Y), false)
		}
		switch {
		case yc && ly == 0:
			out = x
		case yc && ly < 60 && lx >= 0 && hx < (1<<60)>>uint(ly):
			if xc && !m.constFits(lx<<uint(ly), t) {
				out = &Val{K: KNum, N: m.wrapConst(lx<<uint(ly), t)}
			} else {
				out = m.ranged(st, t, lx<<uint(ly), hx<<uint(ly))
			}
		default:
			out = m.fresh(st, t)
			if yc && ly >= bitsOf(t) {
				out = &Val{K: KNum, N: cnum(0)}
			}
		}
	case token.SHR:
		if ly < 0 {
			m.check(in, "shift", describe(in.Y), false)
		}
		if yc && ly >= 0 && lx >= 0 && hx < inf {
			sh := uint(min(ly, 62))
			out = m.ranged(st, t, lx>>sh, hx>>sh)
		} else if lx >= 0 && hx < inf {
			out = m.ranged(st, t, 0, hx)
		} else {
			out = m.fresh(st, t)
		}
	default:
		out = m.fresh(st, t)
	}
	if p := bitProv(in, x, y, t); p != nil {
		c := *out
		c.Prov = p
		out = &c
	}
	return set(out)
}

func (m *Machine) constFits(k int64, t types.Type) bool {
	lo, hi := intBounds(t)
	return k >= lo && k <= hi
}

func bitsOf(t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// concat is string concatenation.
func (m *Machine) concat(st *State, x, y *Val) *Val {
	if s, ok := isLit(x); ok && s == "" {
		return y
	}
	if s, ok := isLit(y); ok && s == "" {
		return x
	}
	n := m.lenAdd(st, x.N, y.N)
	v := &Val{K: KStr, N: n, At: m.catAtoms(x.At, y.At)}
	if m.scan {
		return m.mergeCuts(st, v, false)
	}
	return v
}

func (m *Machine) lenAdd(st *State, a, b Num) Num {
	m.clampLen(st, a)
	m.clampLen(st, b)
	r := m.numAdd(st, a, b, types.Typ[types.Int])
	m.clampLen(st, r)
	if lo, _ := st.cons.bounds(r); lo < 0 {
		st.cons.add(cnum(0), r)
	}
	return r
}

// clampLen: no string, slice or buffer is longer than maxLen.
func (m *Machine) clampLen(st *State, n Num) {
	if _, hi := st.cons.bounds(n); hi > maxLen {
		st.cons.add(n, cnum(maxLen))
	}
}

const maxAtoms = 400

func (m *Machine) catAtoms(a, b []Atom) []Atom {
	out := make([]Atom, 0, len(a)+len(b))
	out = append(out, a...)
	for _, y := range b {
		if n := len(out); n > 0 && y.Op == "" && out[n-1].Op == "" {
			out[n-1] = Atom{Lit: out[n-1].Lit + y.Lit}
			continue
		}
		out = append(out, y)
		if y.Op == "after" {
			out = rejoin(out)
		}
	}
	if !m.content && len(out) > 1 || len(out) > maxAtoms {
		return []Atom{{Op: "sym", Sym: m.rawSym()}}
	}
	return out
}

// ------------------------------------------------------------ comparison

func neg(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.LEQ:
		return token.GTR
	case token.GTR:
		return token.LEQ
	case token.GEQ:
		return token.LSS
	}
	return op
}

// assumeNum records x op y; false when infeasible.
func (m *Machine) assumeNum(st *State, op token.Token, x, y Num) bool {
	c := st.cons
	switch op {
	case token.EQL:
		if y.S == 0 && x.S != 0 {
			if i := c.get(x.S); i.set != nil && !i.set.has(y.K-x.K) {
				return false
			}
		} else if x.S == 0 && y.S != 0 {
			if i := c.get(y.S); i.set != nil && !i.set.has(x.K-y.K) {
				return false
			}
		}
		return c.add(x, y) && c.add(y, x)
	case token.NEQ:
		if x.S == y.S {
			return x.K != y.K
		}
		if c.leq(x, y) && c.leq(y, x) {
			return false
		}
		if c.leq(x, y) {
			return c.add(Num{x.S, x.K + 1}, y)
		}
		if c.leq(y, x) {
			return c.add(Num{y.S, y.K + 1}, x)
		}
		if y.S == 0 {
			return c.exclude(x.S, y.K-x.K)
		}
		if x.S == 0 {
			return c.exclude(y.S, x.K-y.K)
		}
		return true
	case token.LSS:
		return c.add(Num{x.S, x.K + 1}, y)
	case token.LEQ:
		return c.add(x, y)
	case token.GTR:
		return c.add(Num{y.S, y.K + 1}, x)
	case token.GEQ:
		return c.add(y, x)
	}
	return true
}

// quotient says that a symbol is x/c, rounded towards zero.
type quotient struct {
	x Num
	c int64
}

// quoBounds carries bounds of a quotient over to the dividend.
func (m *Machine) quoBounds(st *State, n Num) bool {
	q, ok := m.quo[n.S]
	if !ok {
		return true
	}
	lo, hi := st.cons.bounds(Num{S: n.S})
	if hi < inf/(2*q.c) {
		k := hi * q.c
		if hi >= 0 {
			k += q.c - 1
		}
		if !st.cons.add(q.x, cnum(k)) {
			return false
		}
	}
	if lo > -inf/(2*q.c) {
		k := lo * q.c
		if lo <= 0 {
			k -= q.c - 1
		}
		if !st.cons.add(cnum(k), q.x) {
			return false
		}
	}
	return m.quoBounds(st, q.x)
}

// splitQuo compares a quotient with a constant; what it differs from is
// split into what is below and what is above.
func (m *Machine) splitQuo(st *State, in *ssa.BinOp, op token.Token, x, y Num) []*State {
	_, qx := m.quo[x.S]
	_, qy := m.quo[y.S]
	if !(qx && y.S == 0 || qy && x.S == 0) || m.fixing > 0 {
		return nil
	}
	var out []*State
	try := func(ops token.Token, v bool) {
		s := st.clone()
		if m.assumeNum(s, ops, x, y) && m.quoBounds(s, x) && m.quoBounds(s, y) {
			s.setReg(in, boolVal(v))
			out = append(out, s)
		}
	}
	if op == token.EQL || op == token.NEQ {
		try(token.EQL, op == token.EQL)
		try(token.LSS, op == token.NEQ)
		try(token.GTR, op == token.NEQ)
		return out
	}
	try(op, true)
	try(neg(op), false)
	return out
}

func (m *Machine) fork(st *State, reg ssa.Value, onTrue, onFalse func(*State) bool) []*State {
	f := st.clone()
	var out []*State
	if onTrue(st) {
		st.setReg(reg, boolVal(true))
		out = append(out, st)
	}
	if onFalse(f) {
		f.setReg(reg, boolVal(false))
		out = append(out, f)
	}
	return out
}

func yes(*State) bool { return true }

func (m *Machine) compare(st *State, in *ssa.BinOp, x, y *Val) []*State {
	set := func(b bool) []*State { st.setReg(in, boolVal(b)); return one(st) }
	op := in.Op
	if x.K == KNum && y.K == KNum {
		if ss := m.splitQuo(st, in, op, x.N, y.N); ss != nil {
			return ss
		}
		return m.fork(st, in, func(s *State) bool { return m.assumeNum(s, op, x.N, y.N) },
			func(s *State) bool { return m.assumeNum(s, neg(op), x.N, y.N) })
	}
	if x.K == KFloat && y.K == KFloat {
		return m.fork(st, in, func(s *State) bool { return assumeFloat(s, op, x, y) },
			func(s *State) bool { return assumeFloat(s, neg(op), x, y) })
	}
	swap := op == token.NEQ
	eq := func(t, f func(*State) bool) []*State {
		if swap {
			return m.fork(st, in, f, t)
		}
		return m.fork(st, in, t, f)
	}
	if op != token.EQL && op != token.NEQ {
		return m.fork(st, in, yes, yes)
	}
	if x.K != y.K {
		return m.fork(st, in, yes, yes)
	}
	switch x.K {
	case KBool:
		if x.B < 2 && y.B < 2 {
			return set((x.B == y.B) != swap)
		}
		if x.B == 2 && y.B < 2 {
			x, y = y, x
		}
		if x.B < 2 {
			return eq(func(s *State) bool { m.replaceIdent(s, y, boolVal(x.B == 1)); return true },
				func(s *State) bool { m.replaceIdent(s, y, boolVal(x.B == 0)); return true })
		}
		return eq(yes, yes)
	case KStr:
		x, y = m.mergeCuts(st, x, true), m.mergeCuts(st, y, true)
		lx, okx := isLit(x)
		ly, oky := isLit(y)
		if okx && oky {
			return set((lx == ly) != swap)
		}
		if len(x.At) > 0 && atomsString(x.At) == atomsString(y.At) && len(x.At) == len(y.At) && (x.N == y.N || m.scan) {
			return set(!swap)
		}
		if okx {
			x, y, lx = y, x, ly
			ly, oky = isLit(y)
		}
		know := func(s *State, v bool) bool {
			return !m.content || len(x.At) == 0 || len(y.At) == 0 || s.setEq(x.At, y.At, v)
		}
		if oky {
			if impossible(x, ly) || !m.mayBe(st, x.At, ly) {
				return set(swap)
			}
			return eq(func(s *State) bool {
				if !know(s, true) || !m.assumeNum(s, token.EQL, x.N, y.N) {
					return false
				}
				m.refineLit(s, x, ly)
				return true
			}, func(s *State) bool {
				if ly == "" {
					return know(s, false) && s.cons.add(cnum(1), x.N)
				}
				return know(s, false)
			})
		}
		return eq(func(s *State) bool { return know(s, true) && m.assumeNum(s, token.EQL, x.N, y.N) },
			func(s *State) bool { return know(s, false) })
	case KPtr, KMap, KSlice, KFunc, KIface:
		if y.definitelyNil() || x.definitelyNil() {
			if x.definitelyNil() {
				x, y = y, x
			}
			if x.definitelyNil() {
				return set(!swap)
			}
			if !x.Nil {
				return set(swap)
			}
			return eq(func(s *State) bool {
				m.replaceIdent(s, x, nilOf(x))
				return true
			}, func(s *State) bool {
				n := *x
				n.Nil = false
				m.replaceIdent(s, x, &n)
				return true
			})
		}
		if x.K == KPtr && !x.Unk && !y.Unk && !x.Nil && !y.Nil && !isElemPtr(x) && !isElemPtr(y) {
			if len(x.Refs) == 1 && len(y.Refs) == 1 && x.Refs[0] == y.Refs[0] {
				if o := st.heap[x.Refs[0].Obj]; o != nil && !o.Sum {
					return set(!swap)
				}
			}
			disjoint := true
			for _, a := range x.Refs {
				for _, b := range y.Refs {
					if a == b {
						disjoint = false
					}
				}
			}
			if disjoint {
				return set(swap)
			}
		}
		if x.K == KIface && !x.Unk && !y.Unk && !(x.Nil && y.Nil) {
			if certain, never := sameAlts(st, x, y); never {
				return set(swap)
			} else if certain && !x.Nil && !y.Nil {
				return set(!swap)
			}
		}
		return eq(yes, yes)
	}
	return m.fork(st, in, yes, yes)
}

// sameAlts says whether interfaces certainly hold the same pointer, or
// certainly do not.
func sameAlts(st *State, x, y *Val) (certain, never bool) {
	never = true
	for _, a := range x.Alts {
		for _, b := range y.Alts {
			if !types.Identical(a.T, b.T) {
				continue
			}
			p, q := a.V, b.V
			if p.K != KPtr || q.K != KPtr || p.Unk || q.Unk || p.Nil || q.Nil {
				return false, false
			}
			for _, r := range p.Refs {
				for _, t := range q.Refs {
					if r == t {
						never = false
						o := st.heap[r.Obj]
						certain = o != nil && !o.Sum && len(x.Alts) == 1 && len(y.Alts) == 1 && len(p.Refs) == 1 && len(q.Refs) == 1
					}
				}
			}
		}
	}
	return certain, never
}

func nilOf(v *Val) *Val {
	switch v.K {
	case KIface:
		return &Val{K: KIface, Nil: true}
	case KSlice:
		return &Val{K: KSlice, Nil: true, N: cnum(0), Off: cnum(0)}
	}
	return &Val{K: v.K, Nil: true}
}

// impossible reports that string x cannot equal lit (leading/trailing literal mismatch).
func impossible(x *Val, lit string) bool {
	if len(x.At) == 0 {
		return false
	}
	if a := x.At[0]; a.Op == "" && !strings.HasPrefix(lit, a.Lit) {
		return true
	}
	if a := x.At[len(x.At)-1]; a.Op == "" && !strings.HasSuffix(lit, a.Lit) {
		return true
	}
	return false
}

func (m *Machine) refineLit(s *State, x *Val, lit string) {
	m.replaceIdent(s, x, litVal(lit))
}

// ------------------------------------------------------------------ step

func (m *Machine) step(st *State, ins ssa.Instruction) []*State {
	switch in := ins.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		id := m.siteID(in)
		site := fmt.Sprintf("%s:%s", fnName(in.Parent()), in.Comment)
		m.alloc(st, id, t, m.zeroVal(t), site)
		st.setReg(in, &Val{K: KPtr, Refs: []Ref{{Obj: id}}})
		return one(st)
	case *ssa.BinOp:
		x, y := m.eval(st, in.X), m.eval(st, in.Y)
		switch in.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.compare(st, in, x, y)
		}
		return m.arith(st, in, x, y)
	case *ssa.UnOp:
		return m.unop(st, in)
	case *ssa.ChangeType:
		st.setReg(in, m.eval(st, in.X))
		return one(st)
	case *ssa.ChangeInterface:
		st.setReg(in, m.eval(st, in.X))
		return one(st)
	case *ssa.MakeInterface:
		x := m.eval(st, in.X)
		st.setReg(in, &Val{K: KIface, Alts: []Alt{{in.X.Type(), x}}})
		return one(st)
	case *ssa.Convert:
		return m.convert(st, in)
	case *ssa.Extract:
		t := m.eval(st, in.Tuple)
		if t.K != KTuple || in.Index >= len(t.El) {
			m.abort("bad tuple in " + fnName(in.Parent()))
		}
		st.setReg(in, t.El[in.Index])
		return one(st)
	case *ssa.Field:
		x := m.eval(st, in.X)
		if x.K == KStruct && in.Field < len(x.El) {
			st.setReg(in, x.El[in.Field])
		} else {
			st.setReg(in, m.top(st, in.Type(), "field"))
		}
		return one(st)
	case *ssa.FieldAddr:
		return m.fieldAddr(st, in)
	case *ssa.Index:
		return m.index(st, in)
	case *ssa.IndexAddr:
		return m.indexAddr(st, in)
	case *ssa.Lookup:
		return m.lookup(st, in)
	case *ssa.MakeMap:
		id := m.siteID(in)
		m.alloc(st, id, in.Type(), &Val{K: KMapObj, N: cnum(0), Keys: map[string]MapEnt{}}, fnName(in.Parent())+":map")
		st.setReg(in, &Val{K: KMap, Refs: []Ref{{Obj: id}}})
		return one(st)
	case *ssa.MapUpdate:
		return m.mapUpdate(st, in)
	case *ssa.MakeSlice:
		return m.makeSlice(st, in)
	case *ssa.Slice:
		return m.slice(st, in)
	case *ssa.Store:
		var out []*State
		v := m.eval(st, in.Val)
		for _, t := range m.targets(st, in, m.eval(st, in.Addr), describe(in.Addr)) {
			if t.unk {
				if m.onStore != nil {
					m.onStore(t.st, in, Ref{}, nil, v)
				}
				out = append(out, t.st)
				continue
			}
			nv := v
			if nr := t.st.top().regs[in.Val]; nr != nil {
				nv = nr
			}
			m.storeRef(t.st, in, t.ref, nv)
			out = append(out, t.st)
		}
		return out
	case *ssa.TypeAssert:
		return m.typeAssert(st, in)
	case *ssa.Call:
		return m.callInstr(st, in)
	case *ssa.Defer:
		d := &deferred{call: in}
		for _, a := range in.Call.Args {
			d.args = append(d.args, m.eval(st, a))
		}
		if in.Call.IsInvoke() {
			d.recv = m.eval(st, in.Call.Value)
		}
		f := *st.top()
		f.defers = append(append([]*deferred(nil), f.defers...), d)
		st.frames[len(st.frames)-1] = &f
		st.topOwned = false
		return one(st)
	case *ssa.RunDefers:
		states := one(st)
		for {
			var next []*State
			more := false
			for _, s := range states {
				f := *s.top()
				if len(f.defers) == 0 {
					next = append(next, s)
					continue
				}
				more = true
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				s.frames[len(s.frames)-1] = &f
				s.topOwned = false
				if fn := d.call.Call.StaticCallee(); fn != nil {
					for _, r := range m.call(s, d.call, fn, d.args) {
						next = append(next, r.st)
					}
				} else {
					next = append(next, s)
				}
			}
			states = next
			if !more {
				return states
			}
		}
	}
	m.abort(fmt.Sprintf("unsupported instruction %T in %s", ins, fnName(ins.Parent())))
	return nil
}

func (m *Machine) siteID(in ssa.Instruction) ObjID {
	ctx := uint64(0)
	if len(m.ctx) > 0 {
		ctx = m.ctx[len(m.ctx)-1]
	}
	id := hashID("site", ctx, fnName(in.Parent()), m.info(in.Parent()).instrID[in])
	return id &^ (3 << 61)
}

func (m *Machine) unop(st *State, in *ssa.UnOp) []*State {
	x := m.eval(st, in.X)
	switch in.Op {
	case token.MUL:
		if x.K == KPtr && x.T == elemField {
			st.setReg(in, x.Smash)
			return one(st)
		}
		var out []*State
		for _, t := range m.targets(st, in, x, describe(in.X)) {
			if t.unk {
				t.st.setReg(in, m.top(t.st, in.Type(), "load"))
			} else {
				t.st.setReg(in, m.loadRef(t.st, t.ref, in.Type()))
			}
			out = append(out, t.st)
		}
		return out
	case token.NOT:
		switch x.B {
		case 0:
			st.setReg(in, boolVal(true))
		case 1:
			st.setReg(in, boolVal(false))
		default:
			s2 := st.clone()
			m.replaceIdent(st, x, boolVal(true))
			m.replaceIdent(s2, x, boolVal(false))
			st.setReg(in, boolVal(false))
			s2.setReg(in, boolVal(true))
			return []*State{st, s2}
		}
		return one(st)
	case token.SUB:
		if x.K == KNum {
			st.setReg(in, &Val{K: KNum, N: m.numSub(st, cnum(0), x.N, in.Type())})
		} else {
			st.setReg(in, &Val{K: KFloat, S: m.rawSym()})
		}
		return one(st)
	case token.XOR:
		lo, hi := st.cons.bounds(x.N)
		if lo == hi {
			st.setReg(in, &Val{K: KNum, N: m.wrapConst(^lo, in.Type())})
		} else {
			st.setReg(in, m.fresh(st, in.Type()))
		}
		return one(st)
	}
	m.abort("unsupported operator " + in.Op.String())
	return nil
}

func (m *Machine) convert(st *State, in *ssa.Convert) []*State {
	x := m.eval(st, in.X)
	from, to := in.X.Type().Underlying(), in.Type().Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if x.K == KNum && m.fits(st, x.N, to) {
			st.setReg(in, x)
		} else if x.K == KNum && x.N.S == 0 {
			st.setReg(in, &Val{K: KNum, N: m.wrapConst(x.N.K, to)})
		} else {
			v := m.fresh(st, to)
			if x.Prov != nil && x.Prov.Bits != nil {
				n := int(bitsOf(to))
				b := x.Prov.Bits
				if len(b) > n {
					b = b[:n]
				}
				v.Prov = &Prov{Bits: b}
			}
			st.setReg(in, v)
		}
	case fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
		lo, hi := st.cons.bounds(x.N)
		if v := m.oneChar(x); v != nil && lo >= 0 && hi < 0x80 {
			st.setReg(in, v)
		} else if lo == hi && lo >= 0 {
			st.setReg(in, litVal(string(rune(lo))))
		} else {
			h := int64(4)
			if lo >= 0 && hi < 0x80 {
				h = 1
			} else if lo >= 0 && hi < 0x800 {
				h = 2
			}
			st.setReg(in, m.strLen(m.newNum(st, 1, h)))
		}
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		st.setReg(in, x)
	case tok && tb.Info()&types.IsString != 0: // []byte/[]rune -> string
		v := &Val{K: KStr, N: x.N, At: []Atom{{Op: "sym", Sym: m.rawSym()}}}
		if at := m.bytesContent(st, x); at != nil {
			v.At = at
		}
		if x.definitelyNil() || (x.N.S == 0 && x.N.K == 0) {
			v = litVal("")
		} else if sl, ok := from.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				v = m.strUnknown(st)
			}
		}
		st.setReg(in, v)
	case fok && fb.Info()&types.IsString != 0: // string -> []byte
		id := m.siteID(in)
		el := &Val{K: KArr, Smash: &Val{K: KNum, N: m.newNum(st, 0, 255)}, At: x.At, T: to}
		m.alloc(st, id, in.Type(), el, fnName(in.Parent())+":[]byte(string)")
		n := x.N
		if sl, ok := to.(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				n = m.newLen(st)
				st.cons.add(n, x.N)
			}
		}
		st.setReg(in, &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: n, Off: cnum(0), At: x.At, T: in.Type()})
	case tok && tb.Info()&types.IsFloat != 0 && x.K == KFloat:
		if k, ok := knownFloat(x); ok && tb.Kind() == types.Float32 && len(x.At) > 0 {
			x = floatVal(float64(float32(k)))
		}
		st.setReg(in, x)
	case tok && tb.Info()&types.IsFloat != 0:
		if lo, hi := st.cons.bounds(x.N); x.K == KNum && lo == hi && lo > -1<<24 && lo < 1<<24 {
			st.setReg(in, floatVal(float64(lo)))
		} else {
			st.setReg(in, &Val{K: KFloat, S: m.rawSym()})
		}
	case fok && fb.Info()&types.IsFloat != 0:
		st.setReg(in, m.fresh(st, to))
	default:
		st.setReg(in, m.topVal(st, in.Type()))
	}
	return one(st)
}

func (m *Machine) fieldAddr(st *State, in *ssa.FieldAddr) []*State {
	x := m.eval(st, in.X)
	if isElemPtr(x) || isElementType(in.X.Type().Underlying().(*types.Pointer).Elem()) {
		m.check(in, "nil", describe(in.X), !x.Nil)
		if x.definitelyNil() {
			return nil
		}
		v := x.Smash
		if v == nil {
			v = &Val{K: KIface, Unk: true, Nil: true}
		}
		st.setReg(in, &Val{K: KPtr, T: elemField, Smash: v})
		if x.Nil {
			n := *x
			n.Nil = false
			m.replaceIdent(st, x, &n)
		}
		return one(st)
	}
	var out []*State
	for _, t := range m.targets(st, in, x, describe(in.X)) {
		if t.unk {
			t.st.setReg(in, &Val{K: KPtr, Unk: true, T: in.Type()})
		} else {
			t.st.setReg(in, &Val{K: KPtr, Refs: []Ref{{t.ref.Obj, t.ref.Path + string([]byte{byte(in.Field)})}}})
		}
		out = append(out, t.st)
	}
	return out
}

// bytesContent is the content of a byte slice as long as nothing has written
// to its backing store since.
func (m *Machine) bytesContent(st *State, x *Val) []Atom {
	if len(x.At) == 0 || len(x.Refs) != 1 || x.Refs[0].Path != "" {
		return nil
	}
	if o := st.heap[x.Refs[0].Obj]; o == nil || o.Sum || o.V == nil || atomsString(o.V.At) != atomsString(x.At) {
		return nil
	}
	return x.At
}

// inBounds checks 0 <= i < n, records the obligation and assumes it.
func (m *Machine) inBounds(st *State, in ssa.Instruction, desc string, i, n Num) bool {
	ok := st.cons.leq(cnum(0), i) && st.cons.lt(i, n)
	if !ok && os.Getenv("VERIF_SITE") != "" && strings.Contains(fnName(in.Parent())+":"+desc, os.Getenv("VERIF_SITE")) && m.verify != 0 {
		fmt.Fprintf(os.Stderr, "INDEX %s %s: i=n%d+%d n=n%d+%d\n%s", fnName(in.Parent()), desc, i.S, i.K, n.S, n.K, dumpState(st))
	}
	m.check(in, "index", desc, ok)
	return st.cons.add(cnum(0), i) && st.cons.add(Num{i.S, i.K + 1}, n)
}

func (m *Machine) index(st *State, in *ssa.Index) []*State {
	x, i := m.eval(st, in.X), m.eval(st, in.Index)
	switch x.K {
	case KStr:
		if !m.inBounds(st, in, describe(in), i.N, x.N) {
			return nil
		}
		if rs, ok := m.scanByte(st, x, i.N); ok {
			var out []*State
			for _, r := range rs {
				r.st.setReg(in, r.ret)
				out = append(out, r.st)
			}
			return out
		}
		st.setReg(in, m.strByte(st, x, i.N))
		return one(st)
	case KArr:
		n := in.X.Type().Underlying().(*types.Array).Len()
		if !m.inBounds(st, in, describe(in), i.N, cnum(n)) {
			return nil
		}
		if i.N.S == 0 && int(i.N.K) < len(x.El) {
			st.setReg(in, x.El[i.N.K])
		} else {
			st.setReg(in, m.top(st, in.Type(), "index"))
		}
		return one(st)
	}
	st.setReg(in, m.top(st, in.Type(), "index"))
	return one(st)
}

func (m *Machine) strByte(st *State, x *Val, i Num) *Val {
	if s, ok := isLit(x); ok {
		lo, hi := st.cons.bounds(i)
		if lo == hi && lo >= 0 && int(lo) < len(s) {
			return &Val{K: KNum, N: cnum(int64(s[lo]))}
		}
		bl, bh := int64(255), int64(0)
		for k := max(lo, 0); k <= hi && k < int64(len(s)); k++ {
			bl, bh = min(bl, int64(s[k])), max(bh, int64(s[k]))
		}
		if bl <= bh {
			return &Val{K: KNum, N: m.newNum(st, bl, bh)}
		}
	}
	if i.S == 0 && len(x.At) > 0 && x.At[0].Op == "" && i.K >= 0 && int(i.K) < len(x.At[0].Lit) {
		return &Val{K: KNum, N: cnum(int64(x.At[0].Lit[i.K]))}
	}
	if n := len(x.At); n > 0 && x.At[n-1].Op == "" && i == (Num{x.N.S, x.N.K - 1}) {
		l := x.At[n-1].Lit
		return &Val{K: KNum, N: cnum(int64(l[len(l)-1]))}
	}
	var str Sym
	if len(x.At) == 1 && x.At[0].Op == "sym" {
		str = x.At[0].Sym
	} else if m.content && len(x.At) == 1 {
		str = m.contentSym(x.At)
	}
	if str != 0 {
		// reading the same position of the same string twice gives the same byte
		k := rdKey{str, i.S, i.K}
		if b, ok := st.cons.rd[k]; ok {
			return &Val{K: KNum, N: Num{b, 0}}
		}
		n := m.newNum(st, 0, 255)
		st.cons.rd[k] = n.S
		return &Val{K: KNum, N: n}
	}
	return &Val{K: KNum, N: m.newNum(st, 0, 255)}
}

// contentSym names a text that is made from others.
func (m *Machine) contentSym(at []Atom) Sym {
	k := atomsString(at)
	s, ok := m.contents[k]
	if !ok {
		if m.contents == nil {
			m.contents, m.derived = map[string]Sym{}, map[Sym]bool{}
		}
		s = m.rawSym()
		m.contents[k], m.derived[s] = s, true
	}
	return s
}

func (m *Machine) indexAddr(st *State, in *ssa.IndexAddr) []*State {
	x, i := m.eval(st, in.X), m.eval(st, in.Index)
	if x.K == KSlice {
		if !m.inBounds(st, in, describe(in), i.N, x.N) {
			return nil
		}
		if len(x.Refs) == 0 || x.Unk {
			p := &Val{K: KPtr, Unk: true, T: in.Type()}
			if x.Prov != nil {
				p.Prov = x.Prov
			}
			st.setReg(in, p)
			return one(st)
		}
		off := Num{}
		if x.Off.S == 0 && i.N.S == 0 {
			off = cnum(x.Off.K + i.N.K)
		} else if x.Off.S == 0 {
			if lo, hi := st.cons.bounds(i.N); lo == hi {
				off = cnum(x.Off.K + lo)
			} else {
				off = cnum(0xff)
			}
		} else {
			off = cnum(0xff)
		}
		k := byte(0xff)
		if off.K >= 0 && off.K < 0xff {
			k = byte(off.K)
		}
		p := &Val{K: KPtr}
		for _, r := range x.Refs {
			p.Refs = append(p.Refs, Ref{r.Obj, r.Path + string([]byte{k})})
		}
		st.setReg(in, p)
		return one(st)
	}
	// pointer to array
	n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	var out []*State
	for _, t := range m.targets(st, in, x, describe(in.X)) {
		if !m.inBounds(t.st, in, describe(in), i.N, cnum(n)) {
			continue
		}
		if t.unk {
			t.st.setReg(in, &Val{K: KPtr, Unk: true, T: in.Type()})
		} else {
			k := byte(0xff)
			if lo, hi := t.st.cons.bounds(i.N); lo == hi && lo < 0xff {
				k = byte(lo)
			}
			t.st.setReg(in, &Val{K: KPtr, Refs: []Ref{{t.ref.Obj, t.ref.Path + string([]byte{k})}}})
		}
		out = append(out, t.st)
	}
	return out
}

func (m *Machine) mapTargets(st *State, x *Val) []tgt {
	var out []tgt
	for i, r := range x.Refs {
		s := st
		if i < len(x.Refs)-1 || x.Unk || x.Nil {
			s = st.clone()
		}
		out = append(out, tgt{st: s, ref: r})
	}
	if x.Unk || (x.Nil && true) || len(x.Refs) == 0 {
		out = append(out, tgt{st: st, unk: x.Unk, p: x})
	}
	return out
}

func (m *Machine) lookup(st *State, in *ssa.Lookup) []*State {
	x, i := m.eval(st, in.X), m.eval(st, in.Index)
	if x.K == KStr {
		if !m.inBounds(st, in, describe(in), i.N, x.N) {
			return nil
		}
		st.setReg(in, m.strByte(st, x, i.N))
		return one(st)
	}
	elT := in.X.Type().Underlying().(*types.Map).Elem()
	var out []*State
	ret := func(s *State, v *Val, ok bool) {
		if v == nil {
			v = m.zeroVal(elT)
		}
		if in.CommaOk {
			v = &Val{K: KTuple, El: []*Val{v, boolVal(ok)}}
		}
		s.setReg(in, v)
		out = append(out, s)
	}
	for _, t := range m.mapTargets(st, x) {
		if t.ref.Obj == 0 {
			if t.unk {
				s2 := t.st.clone()
				ret(s2, m.top(s2, elT, "maplookup"), true)
			}
			ret(t.st, nil, false)
			continue
		}
		o := t.st.heap[t.ref.Obj]
		if o == nil || o.V.K != KMapObj {
			s2 := t.st.clone()
			ret(s2, m.top(s2, elT, "maplookup"), true)
			ret(t.st, nil, false)
			continue
		}
		mo := o.V
		if m.symKey(o, i) {
			name := ""
			if _, lit := keyOf(i); !lit {
				name = atomsString(settle(i.At))
			}
			if g := t.st.got[lookedUp{mo, name}]; g != nil {
				ret(t.st, g.v, g.ok)
				continue
			}
			for _, c := range m.findKey(t.st, mo, i) {
				if !c.found {
					c.st.remember(mo, name, nil, false)
					ret(c.st, nil, false)
					continue
				}
				v := mo.Keys[c.key].V
				c.st.remember(mo, name, v, true)
				ret(c.st, v, true)
			}
			continue
		}
		mo = m.plainMap(t.st, mo)
		key, lit := keyOf(i)
		if lit {
			if e, ok := mo.Keys[key]; ok {
				v := e.V
				if o.Sum {
					v = m.instantiate(t.st, v)
				}
				if e.Maybe || o.Sum {
					s2 := t.st.clone()
					ret(s2, nil, false)
					if !o.Sum {
						m.mapEnsure(t.st, t.ref.Obj, key)
					}
				}
				ret(t.st, v, true)
				continue
			}
			if mo.Smash != nil {
				s2 := t.st.clone()
				ret(s2, nil, false)
				v := m.instantiate(t.st, mo.Smash)
				if !o.Sum {
					// remember the binding
					n := *mo
					n.Keys = copyKeys(mo.Keys)
					n.Keys[key] = MapEnt{V: v}
					t.st.setObjVal(t.ref.Obj, &n)
				}
				ret(t.st, v, true)
				continue
			}
			ret(t.st, nil, false)
			continue
		}
		// unknown key
		name := ""
		if m.content && i.K == KStr && !o.Sum && len(i.At) > 0 {
			name = atomsString(settle(i.At))
			if g := t.st.got[lookedUp{mo, name}]; g != nil {
				ret(t.st, g.v, g.ok)
				continue
			}
		}
		if mo.Smash != nil || len(mo.Keys) > 0 {
			s2 := t.st.clone()
			v := mo.Smash
			for _, k := range sortedKeys(mo.Keys) {
				v = m.joinVals(s2, copyVal(v), copyVal(mo.Keys[k].V))
			}
			v = m.instantiate(s2, v)
			s2.remember(mo, name, v, true)
			ret(s2, v, true)
		}
		t.st.remember(mo, name, nil, false)
		ret(t.st, nil, false)
	}
	return out
}

func sortedKeys(k map[string]MapEnt) []string {
	var r []string
	for x := range k {
		r = append(r, x)
	}
	sort.Strings(r)
	return r
}

func copyKeys(k map[string]MapEnt) map[string]MapEnt {
	n := make(map[string]MapEnt, len(k)+1)
	for a, b := range k {
		n[a] = b
	}
	return n
}

func (m *Machine) mapEnsure(st *State, id ObjID, key string) {
	mo := *st.heap[id].V
	mo.Keys = copyKeys(mo.Keys)
	mo.Keys[key] = MapEnt{V: mo.Keys[key].V}
	st.setObjVal(id, &mo)
}

// symKey reports whether a map with exactly known entries is asked for a text
// that is not literal, or has entries of such names.
func (m *Machine) symKey(o *Obj, k *Val) bool {
	if !m.content || k.K != KStr || o.Sum || o.V.Smash != nil || len(o.V.Keys) > 80 || hasMaybe(o.V) {
		return false
	}
	if _, lit := keyOf(k); !lit {
		return len(k.At) > 0
	}
	for _, e := range o.V.Keys {
		if e.Key != nil {
			return true
		}
	}
	return false
}

// plainMap moves entries without a literal key to the summary.
func (m *Machine) plainMap(st *State, mo *Val) *Val {
	var n *Val
	for _, k := range sortedKeys(mo.Keys) {
		if e := mo.Keys[k]; e.Key != nil {
			if n == nil {
				c := *mo
				n = &c
				n.Keys = copyKeys(mo.Keys)
			}
			delete(n.Keys, k)
			n.Smash = m.joinVals(st, copyVal(n.Smash), copyVal(e.V))
		}
	}
	if n != nil {
		return n
	}
	return mo
}

func hasMaybe(mo *Val) bool {
	for _, e := range mo.Keys {
		if e.Maybe {
			return true
		}
	}
	return false
}

func symAtoms(k *Val) []Atom {
	if _, lit := keyOf(k); lit {
		return nil
	}
	return k.At
}

type keyCase struct {
	st    *State
	key   string
	found bool
}

// findKey splits by which entry of a map a text names.
func (m *Machine) findKey(st *State, mo *Val, k *Val) []keyCase {
	own, lit := keyOf(k)
	if !lit {
		own = "t" + atomsString(k.At)
	}
	if _, ok := mo.Keys[own]; ok {
		return []keyCase{{st, own, true}}
	}
	var out []keyCase
	for _, x := range sortedKeys(mo.Keys) {
		at := mo.Keys[x].Key
		if at == nil {
			if lit || impossible(k, x[1:]) || !m.mayBe(st, k.At, x[1:]) {
				continue
			}
			at = litVal(x[1:]).At
		}
		s := st.clone()
		if s.setEq(k.At, at, true) {
			out = append(out, keyCase{s, x, true})
		}
		if !st.setEq(k.At, at, false) {
			return out
		}
	}
	return append(out, keyCase{st, own, false})
}

// keyOf gives a literal map key.
func keyOf(v *Val) (string, bool) {
	if s, ok := isLit(v); ok {
		return "s" + s, true
	}
	if v.K == KNum && v.N.S == 0 {
		return fmt.Sprintf("i%d", v.N.K), true
	}
	return "", false
}

func (m *Machine) mapUpdate(st *State, in *ssa.MapUpdate) []*State {
	x, k, v := m.eval(st, in.Map), m.eval(st, in.Key), m.eval(st, in.Value)
	m.check(in, "mapwrite", describe(in.Map), !x.Nil)
	if x.definitelyNil() {
		return nil
	}
	var out []*State
	for _, t := range m.mapTargets(st, x) {
		if t.ref.Obj == 0 {
			if t.unk {
				out = append(out, t.st)
			}
			continue
		}
		o := t.st.heap[t.ref.Obj]
		if o == nil || o.V.K != KMapObj {
			out = append(out, t.st)
			continue
		}
		if m.onStore != nil {
			m.onStore(t.st, in, t.ref, nil, v)
		}
		if m.symKey(o, k) {
			for _, c := range m.findKey(t.st, o.V, k) {
				mo := *o.V
				mo.Keys = copyKeys(mo.Keys)
				if !c.found {
					mo.N = m.numAdd(c.st, mo.N, cnum(1), types.Typ[types.Int])
				}
				e := mo.Keys[c.key]
				if !c.found {
					e.Key = symAtoms(k)
				}
				e.V = v
				mo.Keys[c.key] = e
				c.st.setObjVal(t.ref.Obj, &mo)
				out = append(out, c.st)
			}
			continue
		}
		mo := *m.plainMap(t.st, o.V)
		mo.Keys = copyKeys(mo.Keys)
		key, lit := keyOf(k)
		if lit && !o.Sum && len(mo.Keys) < 400 {
			if _, ok := mo.Keys[key]; !ok {
				mo.N = m.numAdd(t.st, mo.N, cnum(1), types.Typ[types.Int])
			}
			mo.Keys[key] = MapEnt{V: v}
		} else if lit && len(mo.Keys) < 400 {
			if e, ok := mo.Keys[key]; ok {
				mo.Keys[key] = MapEnt{m.joinVals(t.st, copyVal(e.V), copyVal(v)), e.Maybe, e.Key}
			} else {
				mo.Keys[key] = MapEnt{V: copyVal(v), Maybe: true}
			}
			mo.N = m.newLen(t.st)
		} else {
			mo.Smash = m.joinVals(t.st, copyVal(mo.Smash), copyVal(v))
			for _, kk := range sortedKeys(mo.Keys) {
				e := mo.Keys[kk]
				mo.Keys[kk] = MapEnt{m.joinVals(t.st, copyVal(e.V), copyVal(v)), e.Maybe, e.Key}
			}
			mo.N = m.newLen(t.st)
		}
		t.st.setObjVal(t.ref.Obj, &mo)
		out = append(out, t.st)
	}
	return out
}

func (m *Machine) makeSlice(st *State, in *ssa.MakeSlice) []*State {
	n := m.eval(st, in.Len)
	lo, hi := st.cons.bounds(n.N)
	m.check(in, "makeslice", describe(in.Len), lo >= 0 && hi <= 1<<50)
	if !st.cons.add(cnum(0), n.N) {
		return nil
	}
	lo, hi = st.cons.bounds(n.N)
	el := in.Type().Underlying().(*types.Slice).Elem()
	arr := &Val{K: KArr, T: in.Type()}
	if lo == hi && lo <= 64 {
		for i := int64(0); i < lo; i++ {
			arr.El = append(arr.El, m.zeroVal(el))
		}
	} else {
		arr.Smash = m.zeroVal(el)
	}
	id := m.siteID(in)
	m.alloc(st, id, in.Type(), arr, fnName(in.Parent())+":make")
	st.setReg(in, &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: n.N, Off: cnum(0), T: in.Type()})
	return one(st)
}

func (m *Machine) slice(st *State, in *ssa.Slice) []*State {
	x := m.eval(st, in.X)
	lo := cnum(0)
	if in.Low != nil {
		lo = m.eval(st, in.Low).N
	}
	run := func(s *State, length Num) (Num, bool) {
		hi := length
		if in.High != nil {
			hi = m.eval(s, in.High).N
		}
		if in.Max != nil {
			m.abort("three-index slice in " + fnName(in.Parent()))
		}
		ok := s.cons.leq(cnum(0), lo) && s.cons.leq(lo, hi) && s.cons.leq(hi, length)
		if !ok && m.verify != 0 && os.Getenv("VERIF_SITE") != "" && strings.Contains(fnName(in.Parent()), os.Getenv("VERIF_SITE")) {
			fmt.Fprintf(os.Stderr, "SLICE %s: lo=n%d+%d hi=n%d+%d len=n%d+%d\n%s", fnName(in.Parent()), lo.S, lo.K, hi.S, hi.K, length.S, length.K, dumpState(s))
		}
		desc := describe(in.X) + "["
		if in.Low != nil {
			desc += describe(in.Low)
		}
		desc += ":"
		if in.High != nil {
			desc += describe(in.High)
		}
		m.check(in, "slice", desc+"]", ok)
		if !s.cons.add(cnum(0), lo) || !s.cons.add(lo, hi) || !s.cons.add(hi, length) {
			return hi, false
		}
		return hi, true
	}
	switch x.K {
	case KStr:
		hi, ok := run(st, x.N)
		if !ok {
			return nil
		}
		st.setReg(in, m.substr(st, x, lo, hi))
		return one(st)
	case KSlice:
		hi, ok := run(st, x.N)
		if !ok {
			return nil
		}
		n := *x
		n.N = m.numSub(st, hi, lo, types.Typ[types.Int])
		if n.N.S != 0 {
			st.cons.add(cnum(0), n.N)
		}
		if lo.S == 0 && lo.K == 0 {
			n.Off = x.Off
			if hi != x.N {
				n.At = nil
			}
		} else {
			n.Off = m.numAdd(st, x.Off, lo, types.Typ[types.Int])
			n.At = nil
		}
		if n.Nil && (n.N.S != 0 || n.N.K != 0) {
			// slicing nil yields nil
		}
		st.setReg(in, &n)
		return one(st)
	}
	al := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	var out []*State
	for _, t := range m.targets(st, in, x, describe(in.X)) {
		hi, ok := run(t.st, cnum(al))
		if !ok {
			continue
		}
		v := &Val{K: KSlice, N: m.numSub(t.st, hi, lo, types.Typ[types.Int]), Off: lo, T: in.Type()}
		if t.unk {
			v.Unk = true
		} else {
			v.Refs = []Ref{t.ref}
		}
		t.st.setReg(in, v)
		out = append(out, t.st)
	}
	return out
}

// substr is s[lo:hi], already known to be in range.
func (m *Machine) substr(st *State, x *Val, lo, hi Num) *Val {
	if lo.S == 0 && lo.K == 0 && hi == x.N {
		return x
	}
	if s, ok := isLit(x); ok {
		l1, h1 := st.cons.bounds(lo)
		l2, h2 := st.cons.bounds(hi)
		if l1 == h1 && l2 == h2 {
			return litVal(s[l1:l2])
		}
	}
	if v := m.scanText(st, x, lo, hi); v != nil {
		return v
	}
	n := m.numSub(st, hi, lo, types.Typ[types.Int])
	st.cons.add(cnum(0), n)
	if s, ok := isLit(x); ok && m.content && s != "" && strings.Count(s, s[:1]) == len(s) {
		return &Val{K: KStr, N: n, At: []Atom{{Op: "rep", Tag: s[:1], Num: n}}}
	}
	if l, h := st.cons.bounds(n); l == h && l == 0 {
		return litVal("")
	}
	if at := m.around(x, lo, hi); at != nil {
		return &Val{K: KStr, N: n, At: at}
	}
	if m.content && len(x.At) > 0 {
		// dropping a known literal prefix or suffix
		if lo.S == 0 && hi == x.N && x.At[0].Op == "" && int(lo.K) <= len(x.At[0].Lit) {
			at := append([]Atom(nil), x.At...)
			if int(lo.K) == len(at[0].Lit) {
				at = at[1:]
			} else {
				at[0].Lit = at[0].Lit[lo.K:]
			}
			return &Val{K: KStr, N: n, At: at}
		}
		last := x.At[len(x.At)-1]
		if lo.S == 0 && lo.K == 0 && last.Op == "" && hi.S == x.N.S && x.N.K-hi.K >= 0 && int(x.N.K-hi.K) <= len(last.Lit) {
			at := append([]Atom(nil), x.At...)
			cut := len(last.Lit) - int(x.N.K-hi.K)
			if cut == 0 {
				at = at[:len(at)-1]
			} else {
				at[len(at)-1].Lit = last.Lit[:cut]
			}
			return &Val{K: KStr, N: n, At: at}
		}
		if l, h := st.cons.bounds(n); l == h && hi == x.N {
			return &Val{K: KStr, N: n, At: []Atom{{Op: "tail", Tag: fmt.Sprint(l), Sub: x.At}}}
		}
	}
	return m.strLen(n)
}

func implementsIface(t types.Type, it *types.Interface) bool { return types.Implements(t, it) }

func (m *Machine) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	x := m.eval(st, in.X)
	want := in.AssertedType
	it, toIface := want.Underlying().(*types.Interface)
	var okAlts, badAlts []Alt
	for _, a := range x.Alts {
		match := false
		if toIface {
			match = implementsIface(a.T, it)
		} else {
			match = types.Identical(a.T, want)
		}
		if match {
			okAlts = append(okAlts, a)
		} else {
			badAlts = append(badAlts, a)
		}
	}
	mayFail := len(badAlts) > 0 || x.Nil || x.Unk
	// an untracked value of an interface type whose static type already
	// satisfies the asserted interface only fails when nil
	if x.Unk && toIface && len(badAlts) == 0 && x.T != nil {
		if types.AssignableTo(x.T, want) {
			mayFail = x.Nil
		}
	}
	if !in.CommaOk {
		m.check(in, "assert", describe(in), !mayFail)
	}
	var out []*State
	if len(okAlts) > 0 || x.Unk {
		s := st
		if in.CommaOk && mayFail {
			s = st.clone()
		}
		ref := *x
		ref.Nil = false
		ref.Alts = okAlts
		if x.Unk && !toIface {
			// the value is known to have the asserted type from here on
			v := m.top(s, want, "assert")
			if len(okAlts) > 0 {
				v = m.joinVals(s, v, okAlts[0].V)
			}
			ref.Unk = false
			ref.Alts = []Alt{{want, v}}
		}
		r := &ref
		m.replaceIdent(s, x, r)
		var v *Val
		if toIface {
			v = r
		} else {
			v = r.Alts[0].V
		}
		if in.CommaOk {
			v = &Val{K: KTuple, El: []*Val{v, boolVal(true)}}
		}
		s.setReg(in, v)
		out = append(out, s)
	}
	if in.CommaOk && mayFail {
		ref := *x
		ref.Alts = badAlts
		m.replaceIdent(st, x, &ref)
		st.setReg(in, &Val{K: KTuple, El: []*Val{m.zeroVal(want), boolVal(false)}})
		out = append(out, st)
	}
	return out
}

// method finds the concrete method of t.
func (m *Machine) method(t types.Type, f *types.Func) *ssa.Function {
	key := t.String() + "." + f.Id()
	if m.p.methods == nil {
		m.p.methods = map[string]*ssa.Function{}
	}
	m.p.mu.Lock()
	defer m.p.mu.Unlock()
	if fn, ok := m.p.methods[key]; ok {
		return fn
	}
	sel := m.p.Prog.MethodSets.MethodSet(t).Lookup(f.Pkg(), f.Name())
	var fn *ssa.Function
	if sel != nil {
		fn = m.p.Prog.MethodValue(sel)
	}
	m.p.methods[key] = fn
	return fn
}

func (m *Machine) callInstr(st *State, in *ssa.Call) []*State {
	var out []*State
	finish := func(rs []Result) {
		for _, r := range rs {
			m.errCall(r.st, in, r.ret)
			if r.ret != nil {
				r.st.setReg(in, r.ret)
			} else if in.Type() != nil {
				if tp, ok := in.Type().(*types.Tuple); ok && tp.Len() == 0 {
					r.st.setReg(in, &Val{K: KTuple})
				}
			}
			out = append(out, r.st)
		}
	}
	c := in.Call
	var args []*Val
	for _, a := range c.Args {
		args = append(args, m.eval(st, a))
	}
	if c.IsInvoke() {
		recv := m.eval(st, c.Value)
		m.check(in, "nil", describe(c.Value)+"."+c.Method.Name()+"()", !recv.Nil)
		if recv.definitelyNil() {
			return nil
		}
		if len(recv.Alts) == 0 && !recv.Unk {
			return nil
		}
		for i, a := range recv.Alts {
			s := st
			if i < len(recv.Alts)-1 || recv.Unk {
				s = st.clone()
			}
			n := *recv
			n.Nil, n.Unk = false, false
			n.Alts = []Alt{a}
			as := args
			if len(recv.Alts) > 1 || recv.Nil || recv.Unk {
				m.replaceIdent(s, recv, &n)
				as = nil
				for _, x := range c.Args {
					as = append(as, m.eval(s, x))
				}
			}
			fn := m.method(a.T, c.Method)
			if fn == nil || (len(fn.Blocks) == 0 && models[fn.String()] == nil && m.overrides[fn.String()] == nil) {
				finish(m.unknownCall(s, in, c.Signature(), tstr(a.T)+"."+c.Method.Name()))
				continue
			}
			finish(m.call(s, in, fn, append([]*Val{a.V}, as...)))
		}
		if recv.Unk {
			if recv.Nil || len(recv.Alts) > 0 {
				n := *recv
				n.Nil = false
				n.Alts = nil
				m.replaceIdent(st, recv, &n)
			}
			finish(m.unknownCall(st, in, c.Signature(), "?."+c.Method.Name()))
		}
		return out
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		finish(m.builtin(st, in, b.Name(), args))
		return out
	}
	if fn := c.StaticCallee(); fn != nil {
		finish(m.call(st, in, fn, args))
		return out
	}
	fv := m.eval(st, c.Value)
	if fv.Fn != nil {
		finish(m.call(st, in, fv.Fn, args))
		return out
	}
	m.check(in, "nil", describe(c.Value), !fv.Nil)
	finish(m.unknownCall(st, in, c.Signature(), "dynamic"))
	return out
}

func (m *Machine) builtin(st *State, in *ssa.Call, name string, args []*Val) []Result {
	switch name {
	case "len":
		x := args[0]
		switch x.K {
		case KStr, KSlice:
			m.clampLen(st, x.N)
			return []Result{{st, &Val{K: KNum, N: x.N}}}
		case KMap:
			if x.definitelyNil() {
				return []Result{{st, &Val{K: KNum, N: cnum(0)}}}
			}
			if len(x.Refs) == 1 && !x.Nil && !x.Unk {
				if o := st.heap[x.Refs[0].Obj]; o != nil && o.V.K == KMapObj && !o.Sum {
					return []Result{{st, &Val{K: KNum, N: o.V.N}}}
				}
			}
			return []Result{{st, &Val{K: KNum, N: m.newLen(st)}}}
		case KArr:
			return []Result{{st, &Val{K: KNum, N: cnum(in.Call.Args[0].Type().Underlying().(*types.Array).Len())}}}
		case KPtr:
			if p, ok := in.Call.Args[0].Type().Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return []Result{{st, &Val{K: KNum, N: cnum(a.Len())}}}
				}
			}
		}
		return []Result{{st, &Val{K: KNum, N: m.newLen(st)}}}
	case "cap":
		n := m.newLen(st)
		if args[0].K == KSlice {
			st.cons.add(args[0].N, n)
		}
		return []Result{{st, &Val{K: KNum, N: n}}}
	case "copy":
		dst, src := args[0], args[1]
		n := m.newLen(st)
		st.cons.add(n, dst.N)
		st.cons.add(n, src.N)
		m.copyInto(st, in, dst, src)
		return []Result{{st, &Val{K: KNum, N: n}}}
	case "append":
		dst, src := args[0], args[1]
		el := in.Type().Underlying().(*types.Slice).Elem()
		var sm *Val
		add := func(s *Val) {
			if s.K == KStr {
				sm = m.joinVals(st, copyVal(sm), &Val{K: KNum, N: m.newNum(st, 0, 255)})
				return
			}
			for _, r := range s.Refs {
				cs, _ := m.cells(st, Ref{r.Obj, r.Path + "\xff"})
				for _, c := range cs {
					sm = m.joinVals(st, copyVal(sm), copyVal(c))
				}
			}
			if s.Unk {
				sm = m.joinVals(st, copyVal(sm), m.top(st, el, "append"))
			}
		}
		add(dst)
		add(src)
		n := m.lenAdd(st, dst.N, src.N)
		id := m.siteID(in)
		at := []Atom(nil)
		if (len(dst.At) > 0 || (dst.N.S == 0 && dst.N.K == 0)) && (len(src.At) > 0 || (src.N.S == 0 && src.N.K == 0)) {
			at = m.catAtoms(dst.At, src.At)
		}
		for _, x := range []*Val{dst, src} {
			if x.K == KSlice && len(x.At) > 0 && m.bytesContent(st, x) == nil {
				at = nil
			}
		}
		m.alloc(st, id, in.Type(), &Val{K: KArr, Smash: sm, At: at, T: in.Type()}, fnName(in.Parent())+":append")
		_, sh := st.cons.bounds(src.N)
		sl, _ := st.cons.bounds(src.N)
		_ = sh
		res := &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: n, Off: cnum(0), Nil: dst.Nil && sl <= 0, At: at, T: in.Type()}
		if m.content && dst.N == cnum(0) && len(dst.Refs) > 0 {
			// the spare room of a resliced array may be used
			for _, r := range dst.Refs {
				if o := st.heap[r.Obj]; o != nil && o.V != nil && o.V.K == KArr && (o.V.Smash != nil || len(o.V.El) > 0) {
					res.Refs = append([]Ref{r}, res.Refs...)
					res.At = nil
				}
			}
		}
		return []Result{{st, res}}
	case "delete":
		x := args[0]
		var out []Result
		for _, t := range m.mapTargets(st, x) {
			if t.ref.Obj != 0 {
				if o := t.st.heap[t.ref.Obj]; o != nil && o.V.K == KMapObj {
					if m.symKey(o, args[1]) {
						for _, c := range m.findKey(t.st, o.V, args[1]) {
							if m.onStore != nil {
								m.onStore(c.st, in, t.ref, nil, nil)
							}
							if c.found {
								mo := *o.V
								mo.Keys = copyKeys(mo.Keys)
								delete(mo.Keys, c.key)
								mo.N = m.newLen(c.st)
								if !hasMaybe(&mo) {
									mo.N = cnum(int64(len(mo.Keys)))
								}
								c.st.setObjVal(t.ref.Obj, &mo)
							}
							out = append(out, Result{c.st, nil})
						}
						continue
					}
					mo := *m.plainMap(t.st, o.V)
					mo.Keys = copyKeys(mo.Keys)
					mo.N = m.newLen(t.st)
					if m.onStore != nil {
						m.onStore(t.st, in, t.ref, nil, nil)
					}
					if k, ok := keyOf(args[1]); ok && !o.Sum {
						delete(mo.Keys, k)
					} else {
						for _, kk := range sortedKeys(mo.Keys) {
							mo.Keys[kk] = MapEnt{mo.Keys[kk].V, true, mo.Keys[kk].Key}
						}
					}
					t.st.setObjVal(t.ref.Obj, &mo)
				}
			}
			out = append(out, Result{t.st, nil})
		}
		return out
	case "print", "println":
		return []Result{{st, nil}}
	case "ssa:wrapnilchk":
		m.check(in, "nil", describe(in.Call.Args[0]), !args[0].Nil)
		if args[0].definitelyNil() {
			return nil
		}
		n := *args[0]
		n.Nil = false
		m.replaceIdent(st, args[0], &n)
		return []Result{{st, &n}}
	}
	m.abort("unsupported builtin " + name)
	return nil
}

func (m *Machine) copyInto(st *State, in ssa.Instruction, dst, src *Val) {
	var v *Val
	if src.K == KSlice {
		for _, r := range src.Refs {
			cs, _ := m.cells(st, Ref{r.Obj, r.Path + "\xff"})
			for _, c := range cs {
				v = m.joinVals(st, copyVal(v), copyVal(c))
			}
		}
	}
	if v == nil {
		if src.N.S == 0 && src.N.K == 0 {
			return
		}
		v = &Val{K: KNum, N: m.newNum(st, 0, 255)}
	}
	for _, r := range dst.Refs {
		if st.heap[r.Obj] == nil {
			continue
		}
		m.storeRef(st, in, Ref{r.Obj, r.Path + "\xff"}, v)
	}
}

// bitProv tracks which source bit each bit of a result came from.
func bitProv(in *ssa.BinOp, x, y *Val, t types.Type) *Prov { return nil }

// dumpState renders a state for debugging.
func dumpState(s *State) string {
	var b strings.Builder
	for i, f := range s.frames {
		nm := "root"
		if f.fn != nil {
			nm = fnName(f.fn)
		}
		fmt.Fprintf(&b, " frame %d %s\n", i, nm)
		var ks []string
		for k, v := range f.regs {
			ks = append(ks, fmt.Sprintf("   %s = %s", k.Name(), v))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, "\n") + "\n")
	}
	var ids []ObjID
	for id := range s.heap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := s.heap[id]
		if o.Own == "global" {
			continue
		}
		sum := ""
		if o.Sum {
			sum = "*"
		}
		fmt.Fprintf(&b, " o%x%s %s = %s\n", uint64(id)&0xffff, sum, o.Site, o.V)
	}
	var ss []Sym
	for x := range s.cons.m {
		ss = append(ss, x)
	}
	sort.Slice(ss, func(i, j int) bool { return ss[i] < ss[j] })
	for _, x := range ss {
		i := s.cons.m[x]
		fmt.Fprintf(&b, " n%d in [%d,%d]", x, i.lo, i.hi)
		if i.set != nil {
			b.WriteString(" {")
			for k := int64(0); k < 256; k++ {
				if i.set.has(k) {
					fmt.Fprintf(&b, "%q", rune(k))
				}
			}
			b.WriteString("}")
		}
		for _, t := range sortedSyms(i.up) {
			fmt.Fprintf(&b, " <=n%d%+d", t, i.up[t])
		}
		b.WriteString("\n")
	}
	return b.String()
}

// info describes the value n on its own.
func (c *Cons) info(n Num) *symInfo {
	if n.S != 0 && n.K == 0 {
		return c.get(n.S)
	}
	lo, hi := c.bounds(n)
	return &symInfo{lo: lo, hi: hi}
}

func dumpDiff(a, b *State) {
	fmt.Fprintf(os.Stderr, "--- old\n%s--- new\n%s", dumpState(a), dumpState(b))
}
