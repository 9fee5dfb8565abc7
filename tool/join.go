package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pairKey struct {
	a, b Sym
	d    int64
}

type joiner struct {
	m     *Machine
	a, b  *State
	out   *State
	pairs map[pairKey]Sym
	ord   []pairKey
	base  map[pairKey]int64
	strs  map[[2]string]Sym
	widen bool
}

var loThr = []int64{4096, 256, 16, 8, 4, 3, 2, 1, 0, -1}
var hiThr = []int64{-1, 0, 1, 2, 3, 4, 7, 8, 15, 16, 255, 4096, 65535, 1<<32 - 1, maxLen}

func thrLo(v int64) int64 {
	for _, t := range loThr {
		if t <= v {
			return t
		}
	}
	return -inf
}
func thrHi(v int64) int64 {
	for _, t := range hiThr {
		if t >= v {
			return t
		}
	}
	return inf
}

// joinStates returns an upper bound of a and b. With widen set, a is the
// previous state and unstable numeric facts are dropped to thresholds.
func (m *Machine) joinStates(a, b *State, widen bool) *State {
	j := &joiner{m: m, a: a, b: b, pairs: map[pairKey]Sym{}, strs: map[[2]string]Sym{}, widen: widen}
	out := &State{heap: make(map[ObjID]*Obj, len(a.heap)), notes: a.notes, err: a.err, fl: joinFloats(a.fl, b.fl, widen), eq: joinEq(a.eq, b.eq), is: joinEq(a.is, b.is)}
	if out.err == "" {
		out.err = b.err
	}
	if a.read == b.read {
		out.read = a.read
	}
	if len(a.notes) < len(b.notes) {
		out.notes = b.notes
	}
	j.out = out
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			out.frames = append(out.frames, fa)
			continue
		}
		nf := &Frame{fn: fa.fn, regs: make(map[ssa.Value]*Val, len(fa.regs)), defers: fa.defers, parent: fa.parent}
		for k, x := range fa.regs {
			y, ok := fb.regs[k]
			if !ok {
				continue // dead on one side: dead
			}
			nf.regs[k] = j.val(x, y)
		}
		out.frames = append(out.frames, nf)
	}
	for id, oa := range a.heap {
		ob, ok := b.heap[id]
		if !ok || oa == ob {
			out.heap[id] = oa
			continue
		}
		n := *oa
		n.Sum = oa.Sum || ob.Sum
		n.V = j.val(oa.V, ob.V)
		out.heap[id] = &n
	}
	for id, ob := range b.heap {
		if _, ok := a.heap[id]; !ok {
			out.heap[id] = ob
		}
	}
	j.got()
	j.constraints()
	return out
}

func (j *joiner) num(a, b Num) Num {
	if a == b {
		return a
	}
	k := pairKey{a.S, b.S, a.K - b.K}
	s, ok := j.pairs[k]
	if !ok {
		s = j.m.rawSym()
		j.pairs[k] = s
		j.ord = append(j.ord, k)
		if j.base == nil {
			j.base = map[pairKey]int64{}
		}
		j.base[k] = b.K
	}
	return Num{s, b.K - j.base[k]}
}

func (j *joiner) str(a, b []Atom) []Atom {
	sa, sb := atomsString(a), atomsString(b)
	if sa == sb && len(a) == len(b) {
		return a
	}
	if j.m.scan {
		if c := j.cuts(a, b); c != nil {
			return c
		}
	}
	k := [2]string{sa, sb}
	s, ok := j.strs[k]
	if !ok {
		s = j.m.rawSym()
		j.strs[k] = s
	}
	return []Atom{{Op: "sym", Sym: s, Sub: nil}}
}

func (j *joiner) vals(a, b []*Val) []*Val {
	r := make([]*Val, len(a))
	for i := range a {
		r[i] = j.val(a[i], b[i])
	}
	return r
}

func (j *joiner) val(a, b *Val) *Val {
	if a == b || b == nil {
		return a
	}
	if a == nil {
		return b
	}
	if a.K != b.K {
		return &Val{K: KOpaque, Unk: true, Nil: true}
	}
	n := &Val{K: a.K, T: a.T, Unk: a.Unk || b.Unk, Nil: a.Nil || b.Nil}
	if a.Prov != nil && a.Prov == b.Prov {
		n.Prov = a.Prov
	} else if x, y := a.Prov, b.Prov; x != nil && y != nil && x.Text != nil && y.Text != nil && atomsString(x.Text) == atomsString(y.Text) {
		n.Prov = &Prov{Text: x.Text, Pos: j.num(x.Pos, y.Pos)}
	}
	if n.T == nil {
		n.T = b.T
	}
	switch a.K {
	case KNum:
		n.N = j.num(a.N, b.N)
		if n.N == a.N {
			if a.Prov == b.Prov {
				return a
			}
		}
	case KBool:
		if a.B == b.B {
			return a
		}
		n.B = 2
	case KStr, KBuf:
		n.N = j.num(a.N, b.N)
		n.At = j.str(a.At, b.At)
	case KFloat:
		if a.S == b.S && (a.S != 0 || floatTag(a) == floatTag(b)) {
			return a
		}
		n.S = j.m.rawSym()
	case KPtr, KMap:
		n.Refs = sortRefs(append(append([]Ref(nil), a.Refs...), b.Refs...))
		if isElemPtr(a) || isElemPtr(b) || a.T == elemField || b.T == elemField {
			switch {
			case a.definitelyNil():
				n.T, n.N, n.Off, n.Smash = b.T, b.N, b.Off, b.Smash
			case b.definitelyNil():
				n.T, n.N, n.Off, n.Smash = a.T, a.N, a.Off, a.Smash
			default:
				n.N = j.num(a.N, b.N)
				n.Off = j.num(a.Off, b.Off)
				n.Smash = j.val(a.Smash, b.Smash)
			}
		}
	case KIface:
		n.Alts = append([]Alt(nil), a.Alts...)
	outer:
		for _, y := range b.Alts {
			for i, x := range n.Alts {
				if types.Identical(x.T, y.T) {
					n.Alts[i] = Alt{x.T, j.val(x.V, y.V)}
					continue outer
				}
			}
			n.Alts = append(n.Alts, y)
		}
		sort.SliceStable(n.Alts, func(x, y int) bool { return tstr(n.Alts[x].T) < tstr(n.Alts[y].T) })
	case KSlice:
		n.Refs = sortRefs(append(append([]Ref(nil), a.Refs...), b.Refs...))
		n.N = j.num(a.N, b.N)
		n.Off = j.num(a.Off, b.Off)
	case KTuple, KStruct:
		if len(a.El) != len(b.El) {
			return &Val{K: KOpaque, Unk: true, Nil: true}
		}
		n.El = j.vals(a.El, b.El)
	case KArr:
		n.Smash = j.val(a.Smash, b.Smash)
		if len(a.El) == len(b.El) {
			n.El = j.vals(a.El, b.El)
		} else {
			fa, fb := j.m.foldList(j.a, a), j.m.foldList(j.b, b)
			n.Smash = j.val(fa.Smash, fb.Smash)
		}
	case KList:
		if len(a.El) != len(b.El) {
			a = j.m.foldList(j.a, a)
			b = j.m.foldList(j.b, b)
		}
		n.N = j.num(a.N, b.N)
		n.Off = j.num(a.Off, b.Off)
		n.Smash = j.val(a.Smash, b.Smash)
		n.El = j.vals(a.El, b.El)
	case KMapObj:
		n.N = j.num(a.N, b.N)
		n.Smash = j.val(a.Smash, b.Smash)
		n.Keys = map[string]MapEnt{}
		for k, x := range a.Keys {
			if y, ok := b.Keys[k]; ok {
				n.Keys[k] = MapEnt{j.val(x.V, y.V), x.Maybe || y.Maybe, x.Key}
			} else {
				n.Keys[k] = MapEnt{x.V, true, x.Key}
			}
		}
		for k, y := range b.Keys {
			if _, ok := a.Keys[k]; !ok {
				n.Keys[k] = MapEnt{y.V, true, y.Key}
			}
		}
	case KFunc:
		if a.Fn == b.Fn {
			return a
		}
		n.Unk = true
	case KOpaque:
	}
	return n
}

// hull is the join of two value ranges.
func (j *joiner) hull(a, b *symInfo) *symInfo {
	n := &symInfo{lo: min(a.lo, b.lo), hi: max(a.hi, b.hi)}
	if n.lo < 0 || n.hi > 255 {
		return n
	}
	u := unionSet(a, b)
	if u == nil {
		return n
	}
	if j.widen {
		if av := a.values(); !subset(b.values(), av) {
			return n
		}
	}
	n.restrict(u)
	return n
}

// reads keeps the bytes both sides have read at corresponding positions.
func (j *joiner) reads() {
	A, B := j.a.cons, j.b.cons
	if len(A.rd) == 0 || len(B.rd) == 0 {
		return
	}
	ks := sortedRd(A.rd)
	for _, k := range ks {
		a := A.rd[k]
		if b, ok := B.rd[k]; ok {
			j.out.cons.rd[k] = j.num(Num{a, 0}, Num{b, 0}).S
		}
	}
	ord := append([]pairKey(nil), j.ord...)
	for _, p := range ord {
		na, nb := Num{p.a, p.d + j.base[p]}, Num{p.b, j.base[p]}
		for _, k := range ks {
			if k.idx != na.S {
				continue
			}
			// the position pair + d
			d := k.k - na.K
			if b, ok := B.rd[rdKey{k.str, nb.S, nb.K + d}]; ok {
				j.out.cons.rd[rdKey{k.str, j.pairs[p], d}] = j.num(Num{A.rd[k], 0}, Num{b, 0}).S
			}
		}
	}
}

func sortedRd(m map[rdKey]Sym) []rdKey {
	r := make([]rdKey, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		if a.str != b.str {
			return a.str < b.str
		}
		if a.idx != b.idx {
			return a.idx < b.idx
		}
		return a.k < b.k
	})
	return r
}

func (j *joiner) constraints() {
	A, B := j.a.cons, j.b.cons
	out := newCons()
	j.out.cons = out
	j.reads()
	for k, x := range A.vn {
		if y, ok := B.vn[k]; ok && x == y {
			out.vn[k] = x
		}
	}
	// symbols known to both sides keep their identity
	both := map[Sym]bool{}
	var changed []Sym
	for s, ia := range A.m {
		ib, ok := B.m[s]
		if !ok {
			continue
		}
		both[s] = true
		if ia == ib {
			out.m[s] = ia
			continue
		}
		changed = append(changed, s)
	}
	for _, s := range changed {
		ia, ib := A.m[s], B.m[s]
		n := j.hull(ia, ib)
		if j.widen && n.set == nil {
			n.lo, n.hi = ia.lo, ia.hi
			if ib.lo < ia.lo {
				n.lo = thrLo(ib.lo)
			}
			if ib.hi > ia.hi {
				n.hi = thrHi(ib.hi)
			}
		}
		n.up = j.rel(ia.up, s, s, both)
		n.dn = j.relDn(ia.dn, s, both)
		out.m[s] = n
	}
	// shared-pointer infos may mention relations whose mirror was weakened:
	// rebuild mirrors for consistency
	isChanged := map[Sym]bool{}
	for _, s := range changed {
		isChanged[s] = true
	}
	for s, i := range out.m {
		if isChanged[s] {
			continue
		}
		fix := false
		for t := range i.up {
			if !both[t] || isChanged[t] {
				fix = true
			}
		}
		for t := range i.dn {
			if !both[t] || isChanged[t] {
				fix = true
			}
		}
		if fix {
			n := &symInfo{lo: i.lo, hi: i.hi, set: i.set}
			n.up = j.rel(i.up, s, s, both)
			n.dn = j.relDn(i.dn, s, both)
			out.m[s] = n
		}
	}
	// one-sided symbols: bounds, and relations among themselves
	oneSided := func(c *Cons, other *Cons) {
		for s, i := range c.m {
			if _, ok := other.m[s]; ok {
				continue
			}
			n := &symInfo{lo: i.lo, hi: i.hi, set: i.set}
			for t, v := range i.up {
				if _, ok := other.m[t]; !ok {
					if n.up == nil {
						n.up = map[Sym]int64{}
					}
					n.up[t] = v
				}
			}
			for t, v := range i.dn {
				if _, ok := other.m[t]; !ok {
					if n.dn == nil {
						n.dn = map[Sym]int64{}
					}
					n.dn[t] = v
				}
			}
			out.m[s] = n
		}
	}
	oneSided(A, B)
	oneSided(B, A)
	// new pair symbols
	type ps struct {
		n      Sym
		na, nb Num
	}
	var news []ps
	for _, k := range j.ord {
		news = append(news, ps{j.pairs[k], Num{k.a, k.d + j.base[k]}, Num{k.b, j.base[k]}})
	}
	relTo := func(x, y ps) int64 { // bound on x.n - y.n
		var da, db int64
		da = addInf(A.diff(x.na.S, y.na.S), x.na.K-y.na.K)
		db = addInf(B.diff(x.nb.S, y.nb.S), x.nb.K-y.nb.K)
		if j.widen {
			if db <= da {
				return da
			}
			for _, t := range j.m.diffThresholds() {
				if db <= t {
					return t
				}
			}
			return inf
		}
		return max(da, db)
	}
	for _, x := range news {
		la, ha := A.bounds(x.na)
		lb, hb := B.bounds(x.nb)
		n := j.hull(&symInfo{lo: la, hi: ha, set: A.info(x.na).set}, &symInfo{lo: lb, hi: hb, set: B.info(x.nb).set})
		if j.widen && n.set == nil {
			n.lo, n.hi = la, ha
			if lb < la {
				n.lo = thrLo(lb)
			}
			if hb > ha {
				n.hi = thrHi(hb)
			}
		}
		out.m[x.n] = n
	}
	// candidates for relations: shared symbols mentioned by either side's
	// symbols, and the other new symbols.
	zero := ps{0, Num{}, Num{}}
	_ = zero
	for i, x := range news {
		cand := map[Sym]bool{}
		collect := func(c *Cons, s Sym) {
			if s == 0 {
				return
			}
			inf := c.get(s)
			for t := range inf.up {
				cand[t] = true
			}
			for t := range inf.dn {
				cand[t] = true
			}
			cand[s] = true
		}
		collect(A, x.na.S)
		collect(B, x.nb.S)
		if x.na.S == 0 && x.nb.S == 0 {
			for _, t := range changed {
				cand[t] = true
			}
		}
		for _, t := range j.m.layoutSyms() {
			cand[t] = true
		}
		for _, t := range sortedBool(cand) {
			if t == 0 || (!both[t]) {
				continue
			}
			y := ps{t, Num{t, 0}, Num{t, 0}}
			if d := relTo(x, y); d < inf && d < out.diff(x.n, t) {
				out.rawLink(x.n, t, d)
			}
			if d := relTo(y, x); d < inf && d < out.diff(t, x.n) {
				out.rawLink(t, x.n, d)
			}
		}
		for k := 0; k < i; k++ {
			y := news[k]
			if d := relTo(x, y); d < inf && d < out.diff(x.n, y.n) {
				out.rawLink(x.n, y.n, d)
			}
			if d := relTo(y, x); d < inf && d < out.diff(y.n, x.n) {
				out.rawLink(y.n, x.n, d)
			}
		}
	}
	if j.widen {
		// bounds lost to widening but implied by the relations that remain
		for _, x := range news {
			i := out.get(x.n)
			hi := i.hi
			if hi <= maxLen {
				continue
			}
			for t, w := range i.up {
				if both[t] {
					hi = min(hi, addInf(out.get(t).hi, w))
				}
			}
			_, ha := A.bounds(x.na)
			hi = max(thrHi(hi), ha)
			if hi < i.hi {
				n := out.mut(x.n)
				n.hi = hi
			}
		}
	}
}

func sortedBool(m map[Sym]bool) []Sym {
	r := make([]Sym, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (j *joiner) wrel(da, db int64) int64 {
	if j.widen {
		if db <= da {
			return da
		}
		for _, t := range []int64{-2, -1, 0, 1, 2} {
			if db <= t {
				return t
			}
		}
		return inf
	}
	return max(da, db)
}

func (j *joiner) rel(up map[Sym]int64, s, _ Sym, both map[Sym]bool) map[Sym]int64 {
	var out map[Sym]int64
	add := func(t Sym) {
		if !both[t] || t == s {
			return
		}
		w := j.wrel(j.a.cons.diff(s, t), j.b.cons.diff(s, t))
		if w < inf {
			if out == nil {
				out = map[Sym]int64{}
			}
			out[t] = w
		}
	}
	for t := range up {
		add(t)
	}
	for t := range j.b.cons.get(s).up {
		if _, ok := up[t]; !ok {
			add(t)
		}
	}
	return out
}

func (j *joiner) relDn(dn map[Sym]int64, s Sym, both map[Sym]bool) map[Sym]int64 {
	var out map[Sym]int64
	add := func(t Sym) {
		if !both[t] || t == s {
			return
		}
		w := j.wrel(j.a.cons.diff(t, s), j.b.cons.diff(t, s))
		if w < inf {
			if out == nil {
				out = map[Sym]int64{}
			}
			out[t] = w
		}
	}
	for t := range dn {
		add(t)
	}
	for t := range j.b.cons.get(s).dn {
		if _, ok := dn[t]; !ok {
			add(t)
		}
	}
	return out
}

// ------------------------------------------------------------- equality

type eqer struct {
	a, b   *State
	fixed  map[Sym]bool
	ab, ba map[Sym]Sym
}

func (v *Val) eachSym(f func(Sym)) {
	if v == nil {
		return
	}
	if v.N.S != 0 {
		f(v.N.S)
	}
	if v.S != 0 {
		f(v.S)
	}
	if v.Off.S != 0 {
		f(v.Off.S)
	}
	if v.Prov != nil && v.Prov.Pos.S != 0 {
		f(v.Prov.Pos.S)
	}
	for _, a := range v.At {
		eachAtomSym(a, f)
	}
	for _, e := range v.El {
		e.eachSym(f)
	}
	v.Smash.eachSym(f)
	for _, a := range v.Alts {
		a.V.eachSym(f)
	}
	for _, k := range v.Keys {
		k.V.eachSym(f)
	}
}

func eachAtomSym(a Atom, f func(Sym)) {
	if a.Sym != 0 {
		f(a.Sym)
	}
	if a.Num.S != 0 {
		f(a.Num.S)
	}
	for _, s := range a.Sub {
		eachAtomSym(s, f)
	}
}

// equalStates decides equality up to renaming of symbols.
// within: what a knows, b knows.
func within[K, T comparable](a, b map[K]T) bool {
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

func equalStates(a, b *State) bool {
	e := &eqer{a: a, b: b, fixed: map[Sym]bool{}, ab: map[Sym]Sym{}, ba: map[Sym]Sym{}}
	if len(a.heap) != len(b.heap) || !within(a.eq, b.eq) || !within(a.is, b.is) || !within(a.fl, b.fl) {
		return false
	}
	for k, x := range a.got {
		if y := b.got[k]; y == nil || x.ok != y.ok {
			return false
		}
	}
	fix := func(s Sym) { e.fixed[s] = true }
	for i := range a.frames {
		if a.frames[i] == b.frames[i] {
			for _, v := range a.frames[i].regs {
				v.eachSym(fix)
			}
		}
	}
	for id, oa := range a.heap {
		ob, ok := b.heap[id]
		if !ok {
			return false
		}
		if oa == ob {
			oa.V.eachSym(fix)
		}
	}
	for i := range a.frames {
		fa, fb := a.frames[i], b.frames[i]
		if fa == fb {
			continue
		}
		if len(fa.regs) != len(fb.regs) {
			return false
		}
		for k, x := range fa.regs {
			y, ok := fb.regs[k]
			if !ok || !e.val(x, y) {
				return false
			}
		}
	}
	for id, oa := range a.heap {
		ob := b.heap[id]
		if oa == ob {
			continue
		}
		if oa.Sum != ob.Sum || !e.val(oa.V, ob.V) {
			return false
		}
	}
	for k, x := range a.got {
		if y := b.got[k]; x.v != nil && (y.v == nil || !e.val(x.v, y.v)) {
			return false
		}
	}
	// constraints among mentioned symbols
	mp := func(s Sym) (Sym, bool) {
		if t, ok := e.ab[s]; ok {
			return t, true
		}
		if e.fixed[s] {
			return s, true
		}
		return 0, false
	}
	pm := func(s Sym) (Sym, bool) {
		if t, ok := e.ba[s]; ok {
			return t, true
		}
		if e.fixed[s] {
			return s, true
		}
		return 0, false
	}
	chk := func(s, t Sym) bool {
		ia, ib := a.cons.get(s), b.cons.get(t)
		if ia == ib && s == t {
			return true
		}
		if ia.lo != ib.lo || ia.hi != ib.hi || !sameSet(ia.set, ib.set) {
			return false
		}
		for u := range ia.up {
			if w, ok := mp(u); ok {
				if a.cons.diff(s, u) != b.cons.diff(t, w) {
					return false
				}
			}
		}
		for w := range ib.up {
			if u, ok := pm(w); ok {
				if a.cons.diff(s, u) != b.cons.diff(t, w) {
					return false
				}
			}
		}
		return true
	}
	nr := 0
	for k, x := range a.cons.rd {
		s, ok1 := mp(k.str)
		i, ok2 := Sym(0), true
		if k.idx != 0 {
			i, ok2 = mp(k.idx)
		}
		if !ok1 || !ok2 {
			continue
		}
		y, ok := b.cons.rd[rdKey{s, i, k.k}]
		if !ok || !e.sym(x, y) {
			return false
		}
		nr++
	}
	for k := range b.cons.rd {
		_, ok1 := pm(k.str)
		ok2 := true
		if k.idx != 0 {
			_, ok2 = pm(k.idx)
		}
		if ok1 && ok2 {
			nr--
		}
	}
	if nr != 0 {
		return false
	}
	for s, t := range e.ab {
		if !chk(s, t) {
			return false
		}
	}
	for s := range e.fixed {
		if !chk(s, s) {
			return false
		}
	}
	return true
}

func (e *eqer) sym(a, b Sym) bool {
	if a == 0 || b == 0 {
		return a == b
	}
	if e.fixed[a] || e.fixed[b] {
		return a == b
	}
	x, ok1 := e.ab[a]
	y, ok2 := e.ba[b]
	if !ok1 && !ok2 {
		e.ab[a] = b
		e.ba[b] = a
		return true
	}
	return ok1 && ok2 && x == b && y == a
}

func (e *eqer) atoms(a, b []Atom) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.Op != y.Op || x.Lit != y.Lit || x.Tag != y.Tag || x.Num.K != y.Num.K {
			return false
		}
		if !e.sym(x.Sym, y.Sym) || !e.sym(x.Num.S, y.Num.S) || !e.atoms(x.Sub, y.Sub) {
			return false
		}
	}
	return true
}

func (e *eqer) val(a, b *Val) bool {
	if a == b {
		if a != nil {
			ok := true
			a.eachSym(func(s Sym) { ok = ok && e.sym(s, s) })
			return ok
		}
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.K != b.K || a.Nil != b.Nil || a.Unk != b.Unk || a.B != b.B || a.Fn != b.Fn {
		return false
	}
	if a.N.K != b.N.K || !e.sym(a.N.S, b.N.S) || !e.sym(a.S, b.S) {
		return false
	}
	if a.Prov != b.Prov && (a.Prov != nil && a.Prov.Text != nil || b.Prov != nil && b.Prov.Text != nil) {
		x, y := a.Prov, b.Prov
		if x == nil || y == nil || x.Pos.K != y.Pos.K || !e.sym(x.Pos.S, y.Pos.S) || atomsString(x.Text) != atomsString(y.Text) {
			return false
		}
	}
	if a.Off.K != b.Off.K || !e.sym(a.Off.S, b.Off.S) {
		return false
	}
	if !e.atoms(a.At, b.At) {
		return false
	}
	if len(a.Refs) != len(b.Refs) || len(a.El) != len(b.El) || len(a.Alts) != len(b.Alts) || len(a.Keys) != len(b.Keys) {
		return false
	}
	for i := range a.Refs {
		if a.Refs[i] != b.Refs[i] {
			return false
		}
	}
	for i := range a.El {
		if !e.val(a.El[i], b.El[i]) {
			return false
		}
	}
	for i := range a.Alts {
		if !types.Identical(a.Alts[i].T, b.Alts[i].T) || !e.val(a.Alts[i].V, b.Alts[i].V) {
			return false
		}
	}
	if (a.Smash == nil) != (b.Smash == nil) || (a.Smash != nil && !e.val(a.Smash, b.Smash)) {
		return false
	}
	for k, x := range a.Keys {
		y, ok := b.Keys[k]
		if !ok || x.Maybe != y.Maybe || !e.val(x.V, y.V) {
			return false
		}
	}
	return true
}

// setEq records that two texts are equal, or different; it reports whether
// that can be.
func (st *State) setEq(x, y []Atom, v bool) bool {
	if cased(x) && cased(y) && !(litAtoms(x) && litAtoms(y)) && sameCase(x, y) {
		x, y = foldAtoms(x), foldAtoms(y)
	}
	a, b := atomsString(x), atomsString(y)
	la, lb := litAtoms(x), litAtoms(y)
	if s, ok := st.is[a]; ok {
		la, a = true, s
	}
	if s, ok := st.is[b]; ok {
		lb, b = true, s
	}
	if la && lb {
		return (a == b) == v
	}
	if a == b {
		return v
	}
	if la && !lb {
		a, b, la, lb = b, a, lb, la
	}
	if !lb && a > b {
		a, b = b, a
	}
	k := a + " = " + b
	if old, ok := st.eq[k]; ok {
		return old == v
	}
	if lb && v {
		n := make(map[string]string, len(st.is)+1)
		for k, x := range st.is {
			n[k] = x
		}
		n[a] = b
		st.is = n
		// what is known about the text applies to the literal
		for k, old := range st.eq {
			if strings.HasPrefix(k, a+" = ") && strings.TrimPrefix(k, a+" = ") == b && !old {
				return false
			}
		}
		return true
	}
	n := make(map[string]bool, len(st.eq)+1)
	for k, x := range st.eq {
		n[k] = x
	}
	n[k] = v
	st.eq = n
	return true
}

func litAtoms(at []Atom) bool {
	for _, a := range at {
		if a.Op != "" {
			return false
		}
	}
	return true
}

func (j *joiner) got() {
	var ks []lookedUp
	for k, x := range j.a.got {
		if y := j.b.got[k]; y != nil && x.ok == y.ok {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return
	}
	sort.SliceStable(ks, func(x, y int) bool { return ks[x].key < ks[y].key })
	out := map[lookedUp]*looked{}
	for _, k := range ks {
		x, y := j.a.got[k], j.b.got[k]
		switch {
		case x == y || !x.ok:
			out[k] = x
		case x.v.K == y.v.K:
			if x.v == y.v {
				out[k] = x
			} else {
				out[k] = &looked{j.val(x.v, y.v), true}
			}
		}
	}
	j.out.got = out
}

func joinEq[T comparable](a, b map[string]T) map[string]T {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	out := map[string]T{}
	for k, v := range a {
		if w, ok := b[k]; ok && v == w {
			out[k] = v
		}
	}
	return out
}

// cased: the text is all in capitals, or all in small letters, whatever its
// unknown parts are, so that it may be compared with another such text in
// either.
func cased(at []Atom) bool {
	for _, op := range []string{"lower", "upper"} {
		ok := false
		for _, a := range at {
			if a.Op == op {
				ok = true
			} else if a.Op == "" && a.Lit != strings.ToLower(a.Lit) && op == "lower" || a.Op == "" && a.Lit != strings.ToUpper(a.Lit) && op == "upper" || a.Op != "" && a.Op != "num" {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return len(at) > 0 && litAtoms(at)
}

// sameCase: a literal compared with a text in small letters or capitals is in
// the same.
func sameCase(x, y []Atom) bool {
	if litAtoms(y) {
		x, y = y, x
	}
	if !litAtoms(x) {
		return true
	}
	l := atomsString(x)
	for _, a := range y {
		if a.Op == "lower" && l != strings.ToLower(l) || a.Op == "upper" && l != strings.ToUpper(l) {
			return false
		}
	}
	return true
}
