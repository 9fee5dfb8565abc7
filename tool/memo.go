package main

import (
	"fmt"
	"os"
	"strings"
	"time"

	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Function summaries: the outcomes of a call, computed once for a (generalised)
// calling state and reused wherever the new calling state is covered by it.

type summary struct {
	fn   *ssa.Function
	pre  *State
	args []*Val
	outs []Result
	cost int
}

type memoTable struct {
	sums map[*ssa.Function][]*summary
	cost map[*ssa.Function]int
	busy map[*ssa.Function]int
	hits int
	miss int
}

func newMemo() *memoTable {
	return &memoTable{sums: map[*ssa.Function][]*summary{}, cost: map[*ssa.Function]int{}, busy: map[*ssa.Function]int{}}
}

var preReg = &ssa.Parameter{}

const memoMinCost = 120

// project keeps only what the callee can see.
func (m *Machine) project(st *State, args []*Val) *State {
	ps := &State{cons: newCons(), heap: map[ObjID]*Obj{}, frames: []*Frame{{regs: map[ssa.Value]*Val{}}}}
	live := st.reach(args)
	for _, id := range m.globals {
		live[id] = true
		if o := st.heap[id]; o != nil {
			for k := range st.reach([]*Val{o.V}) {
				live[k] = true
			}
		}
	}
	used := map[Sym]bool{}
	f := func(s Sym) { used[s] = true }
	for id := range live {
		if o := st.heap[id]; o != nil {
			ps.heap[id] = o
			o.V.eachSym(f)
		}
	}
	for _, a := range args {
		a.eachSym(f)
	}
	for k, b := range st.cons.rd {
		if used[k.str] && (k.idx == 0 || used[k.idx]) {
			used[b] = true
			ps.cons.rd[k] = b
		}
	}
	for s := range used {
		i, ok := st.cons.m[s]
		if !ok {
			continue
		}
		n := &symInfo{lo: i.lo, hi: i.hi, set: i.set}
		for t, c := range i.up {
			if used[t] {
				if n.up == nil {
					n.up = map[Sym]int64{}
				}
				n.up[t] = c
			}
		}
		for t, c := range i.dn {
			if used[t] {
				if n.dn == nil {
					n.dn = map[Sym]int64{}
				}
				n.dn[t] = c
			}
		}
		ps.cons.m[s] = n
	}
	return ps
}

// generalise forgets the exact positions of scanners (integers stored next to
// the string they index), keeping their order with respect to its length.
func (m *Machine) generalise(ps *State) {
	ids := make([]ObjID, 0, len(ps.heap))
	for id := range ps.heap {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	ps.cons.own()
	old := ps.cons.rd
	ps.cons.rd = map[rdKey]Sym{}
	var walk func(v *Val) *Val
	walk = func(v *Val) *Val {
		if v == nil || v.K != KStruct {
			return v
		}
		var str *Val
		for _, e := range v.El {
			if e != nil && e.K == KStr && e.N.S != 0 {
				str = e
			}
		}
		var n *Val
		for i, e := range v.El {
			var r *Val = e
			if e != nil && e.K == KNum && str != nil {
				lo, hi := ps.cons.bounds(e.N)
				g := m.newNum(ps, -inf, inf)
				for _, k := range sortedRd(old) {
					// bytes behind the position no longer matter
					if k.idx == e.N.S && e.N.S != 0 && k.k >= e.N.K {
						ps.cons.rd[rdKey{k.str, g.S, k.k - e.N.K}] = old[k]
						if len(str.At) == 1 && str.At[0].Sym == k.str {
							ps.cons.add(Num{g.S, k.k - e.N.K + 1}, str.N)
						}
					}
				}
				if lo >= 0 {
					ps.cons.add(cnum(0), g)
				}
				if ps.cons.lt(e.N, str.N) {
					ps.cons.add(Num{g.S, g.K + 1}, str.N)
				} else if ps.cons.leq(e.N, str.N) {
					ps.cons.add(g, str.N)
				} else if hi < inf && hi <= maxLen {
					ps.cons.add(g, cnum(maxLen))
				}
				r = &Val{K: KNum, N: g}
			} else if e != nil && e.K == KStruct {
				r = walk(e)
			}
			if r != e {
				if n == nil {
					c := *v
					c.El = append([]*Val(nil), v.El...)
					n = &c
				}
				n.El[i] = r
			}
		}
		if n != nil {
			return n
		}
		return v
	}
	for _, id := range ids {
		o := ps.heap[id]
		if o.Own == "global" || o.Sum {
			continue
		}
		if v := walk(o.V); v != o.V {
			c := *o
			c.V = v
			ps.heap[id] = &c
		}
	}
}

// summarised runs fn through the summary table.
func (m *Machine) summarised(st *State, in ssa.CallInstruction, fn *ssa.Function, args []*Val) []Result {
	mt := m.memo
	if mt.busy[fn] > 0 || in == nil {
		return m.run(st, in, fn, args)
	}
	forced := m.forceSum != nil && m.forceSum(fn)
	if forced {
		mt.cost[fn] = memoMinCost
	}
	if c, ok := mt.cost[fn]; ok && c < memoMinCost {
		return m.run(st, in, fn, args)
	}
	if _, ok := mt.cost[fn]; !ok {
		before := m.steps
		rs := m.run(st, in, fn, args)
		mt.cost[fn] = m.steps - before
		return rs
	}
	for _, s := range mt.sums[fn] {
		if rs, ok := m.applySummary(s, st, in, args); ok {
			mt.hits++
			return rs
		}
	}
	mt.miss++
	if forced && os.Getenv("VERIF_PROGRESS") != "" {
		t0, s0 := time.Now(), m.steps
		defer func() {
			fmt.Fprintf(os.Stderr, "sum %s #%d %.1fs %d steps\n", fnName(fn), len(mt.sums[fn]), time.Since(t0).Seconds(), m.steps-s0)
		}()
	}
	if len(mt.sums[fn]) > 40 {
		return m.run(st, in, fn, args)
	}
	// compute
	pre := m.project(st, args)
	m.generalise(pre)
	// keep the symbols of the calling state alive, so that the outcome can be
	// related to it
	keep := &Val{K: KTuple}
	for _, y := range sortedInfo(pre.cons.m) {
		keep.El = append(keep.El, &Val{K: KNum, N: Num{y, 0}})
	}
	pre.frames[0].regs[preReg] = keep
	s := &summary{fn: fn, pre: pre.clone(), args: args}
	mt.busy[fn]++
	saved := m.verify
	m.verify = 1
	before := m.steps
	s.outs = m.run(pre.clone(), in, fn, args)
	s.cost = m.steps - before
	m.verify = saved
	mt.busy[fn]--
	mt.sums[fn] = append(mt.sums[fn], s)
	if d := os.Getenv("VERIF_DUMPSUM"); d != "" && strings.HasSuffix(fn.String(), d) {
		fmt.Fprintf(os.Stderr, "=== SUM %s\npre %s rd %v\n", fn, dumpState(s.pre), s.pre.cons.rd)
		for _, o := range s.outs {
			fmt.Fprintf(os.Stderr, "out %s ret %s rd %v\n", dumpState(o.st), o.ret, o.st.cons.rd)
		}
	}
	rs, ok := m.applySummary(s, st, in, args)
	if !ok {
		mt.sums[fn] = mt.sums[fn][:len(mt.sums[fn])-1]
		return m.run(st, in, fn, args)
	}
	return rs
}

type matcher struct {
	m        *Machine
	pre, cur *State
	obj      map[ObjID]ObjID
	inv      map[ObjID]ObjID
	sym      map[Sym]Num
	str      map[Sym][]Atom
	flt      map[Sym]Sym
	work     []ObjID
}

func (x *matcher) num(p, c Num) bool {
	if p.S == 0 {
		if c.S == 0 {
			return p.K == c.K
		}
		lo, hi := x.cur.cons.bounds(c)
		return lo == hi && lo == p.K
	}
	want := Num{c.S, c.K - p.K}
	if o, ok := x.sym[p.S]; ok {
		if o == want {
			return true
		}
		return x.cur.cons.leq(o, want) && x.cur.cons.leq(want, o)
	}
	x.sym[p.S] = want
	return true
}

func (x *matcher) bindObj(p, c ObjID) bool {
	if o, ok := x.obj[p]; ok {
		return o == c
	}
	if _, ok := x.inv[c]; ok {
		return false
	}
	x.obj[p] = c
	x.inv[c] = p
	x.work = append(x.work, p)
	return true
}

func (x *matcher) refs(p, c []Ref) bool {
	if len(p) != len(c) {
		return false
	}
	if len(p) == 1 {
		return p[0].Path == c[0].Path && x.bindObj(p[0].Obj, c[0].Obj)
	}
	key := func(st *State, r Ref) string {
		if o := st.heap[r.Obj]; o != nil {
			return o.Site + "|" + r.Path
		}
		return r.Path
	}
	ps := append([]Ref(nil), p...)
	cs := append([]Ref(nil), c...)
	sort.SliceStable(ps, func(i, j int) bool { return key(x.pre, ps[i]) < key(x.pre, ps[j]) })
	sort.SliceStable(cs, func(i, j int) bool { return key(x.cur, cs[i]) < key(x.cur, cs[j]) })
	for i := range ps {
		if ps[i].Path != cs[i].Path || !x.bindObj(ps[i].Obj, cs[i].Obj) {
			return false
		}
	}
	return true
}

func (x *matcher) val(p, c *Val) bool {
	if p == nil || c == nil {
		return p == c
	}
	if p.K != c.K {
		return false
	}
	switch p.K {
	case KNum:
		return x.num(p.N, c.N)
	case KBool:
		return p.B == 2 || p.B == c.B
	case KStr, KBuf:
		if l, ok := isLit(p); ok {
			l2, ok2 := isLit(c)
			return ok2 && l == l2 && p.K == c.K
		}
		if len(p.At) != 1 || p.At[0].Op != "sym" {
			return false
		}
		if at, ok := x.str[p.At[0].Sym]; ok {
			if atomsString(at) != atomsString(c.At) {
				return false
			}
		}
		x.str[p.At[0].Sym] = c.At
		return x.num(p.N, c.N)
	case KFloat:
		if p.S == 0 || c.S == 0 {
			return p.S == c.S && floatTag(p) == floatTag(c)
		}
		if o, ok := x.flt[p.S]; ok {
			return o == c.S
		}
		x.flt[p.S] = c.S
		return true
	case KFunc:
		return p.Fn == c.Fn && p.Unk == c.Unk && p.Nil == c.Nil
	case KOpaque:
		return true
	}
	if c.Unk && !p.Unk {
		return false
	}
	if p.Unk != c.Unk {
		return false
	}
	if p.Nil != c.Nil && !(p.Nil && !c.Nil) {
		return false
	}
	switch p.K {
	case KPtr, KMap:
		if isElemPtr(p) || isElemPtr(c) || p.T == elemField {
			return false
		}
		return x.refs(p.Refs, c.Refs)
	case KSlice:
		return x.refs(p.Refs, c.Refs) && x.num(p.N, c.N) && x.num(p.Off, c.Off)
	case KIface:
		if len(p.Alts) != len(c.Alts) {
			return false
		}
		for i := range p.Alts {
			if !types.Identical(p.Alts[i].T, c.Alts[i].T) || !x.val(p.Alts[i].V, c.Alts[i].V) {
				return false
			}
		}
		return true
	case KTuple, KStruct, KArr:
		if len(p.El) != len(c.El) {
			return false
		}
		for i := range p.El {
			if !x.val(p.El[i], c.El[i]) {
				return false
			}
		}
		return x.val(p.Smash, c.Smash)
	case KList:
		if len(p.El) != len(c.El) || !x.num(p.N, c.N) {
			return false
		}
		for i := range p.El {
			if !x.val(p.El[i], c.El[i]) {
				return false
			}
		}
		if p.Off.S != 0 || c.Off.S != 0 {
			if !x.num(p.Off, c.Off) {
				return false
			}
		}
		return x.val(p.Smash, c.Smash)
	case KMapObj:
		if len(p.Keys) != len(c.Keys) || !x.num(p.N, c.N) {
			return false
		}
		for k, e := range p.Keys {
			f, ok := c.Keys[k]
			if !ok || e.Maybe != f.Maybe || !x.val(e.V, f.V) {
				return false
			}
		}
		return x.val(p.Smash, c.Smash)
	}
	return false
}

// applySummary instantiates s in st if st is covered by its precondition.
func (m *Machine) applySummary(s *summary, st *State, in ssa.CallInstruction, args []*Val) ([]Result, bool) {
	x := &matcher{m: m, pre: s.pre, cur: st, obj: map[ObjID]ObjID{}, inv: map[ObjID]ObjID{}, sym: map[Sym]Num{}, str: map[Sym][]Atom{}, flt: map[Sym]Sym{}}
	for i := range args {
		if !x.val(s.args[i], args[i]) {
			return nil, false
		}
	}
	for id, o := range s.pre.heap {
		if o.Own == "global" {
			c := st.heap[id]
			if c == nil || !x.bindObj(id, id) {
				return nil, false
			}
		}
	}
	for len(x.work) > 0 {
		id := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		p, c := s.pre.heap[id], st.heap[x.obj[id]]
		if p == c && x.obj[id] == id && p != nil {
			// identical object: everything below is matched by identity
			ok := true
			p.V.eachRef(func(r Ref) { ok = ok && x.bindObj(r.Obj, r.Obj) })
			p.V.eachSym(func(y Sym) {
				if n, has := x.sym[y]; has && n != (Num{y, 0}) {
					ok = false
				}
				x.sym[y] = Num{y, 0}
			})
			bindStrs(p.V, x.str)
			if !ok {
				return nil, false
			}
			continue
		}
		if p == nil || c == nil || p.Sum != c.Sum || p.Own != c.Own || !x.val(p.V, c.V) {
			return nil, false
		}
	}
	// bytes the summary has seen
	for _, k := range sortedRd(s.pre.cons.rd) {
		b := s.pre.cons.rd[k]
		at, ok := x.str[k.str]
		if !ok {
			continue // not visible to the callee
		}
		pos := Num{}
		if k.idx != 0 {
			if pos, ok = x.sym[k.idx]; !ok {
				continue
			}
		}
		i := s.pre.cons.get(b)
		full := i.lo <= 0 && i.hi >= 255
		if len(at) == 1 && at[0].Op == "sym" {
			if c, ok := st.cons.rd[rdKey{at[0].Sym, pos.S, pos.K + k.k}]; ok {
				if !x.num(Num{b, 0}, Num{c, 0}) {
					return nil, false
				}
				continue
			}
		}
		if !full || i.set != nil {
			return nil, false
		}
		if _, ok := x.sym[b]; ok {
			return nil, false
		}
		x.sym[b] = m.newNum(st, 0, 255)
	}
	// a summary made without knowing a byte the caller has read would lose it
	if len(st.cons.rd) > 0 {
		strs := map[Sym]bool{}
		for _, at := range x.str {
			if len(at) == 1 && at[0].Op == "sym" {
				strs[at[0].Sym] = true
			}
		}
		pos := map[Num]bool{}
		for _, n := range x.sym {
			if n.S != 0 {
				pos[n] = true
			}
		}
		seen := map[rdKey]bool{}
		for k := range s.pre.cons.rd {
			if at, ok := x.str[k.str]; ok && len(at) == 1 && at[0].Op == "sym" {
				if n, ok := x.sym[k.idx]; ok {
					seen[rdKey{at[0].Sym, n.S, n.K + k.k}] = true
				}
			}
		}
		for k := range st.cons.rd {
			if strs[k.str] && pos[Num{k.idx, k.k}] && !seen[k] {
				return nil, false
			}
		}
	}
	// numeric entailment
	for y, i := range s.pre.cons.m {
		n, ok := x.sym[y]
		if !ok {
			continue
		}
		lo, hi := st.cons.bounds(n)
		if lo < i.lo || hi > i.hi {
			return nil, false
		}
		if i.set != nil {
			v := st.cons.info(n).values()
			if v == nil || !subset(v, i.set) {
				return nil, false
			}
		}
		for t, c := range i.up {
			if nt, ok := x.sym[t]; ok {
				if !st.cons.leq(n, Num{nt.S, nt.K + c}) {
					return nil, false
				}
			}
		}
	}
	var out []Result
	for k, r := range s.outs {
		dst := st
		if k < len(s.outs)-1 {
			dst = st.clone()
		}
		if ret, ok := m.importResult(x, s, r, dst, in); ok {
			if dst.err == "" {
				dst.err = r.st.err
			}
			out = append(out, Result{dst, ret})
		}
	}
	return out, true
}

func bindStrs(v *Val, b map[Sym][]Atom) {
	if v == nil {
		return
	}
	for _, a := range v.At {
		if a.Op == "sym" {
			if _, ok := b[a.Sym]; !ok {
				b[a.Sym] = []Atom{a}
			}
		}
	}
	for _, e := range v.El {
		bindStrs(e, b)
	}
	bindStrs(v.Smash, b)
	for _, a := range v.Alts {
		bindStrs(a.V, b)
	}
	for _, k := range v.Keys {
		bindStrs(k.V, b)
	}
}

func (m *Machine) importResult(x *matcher, s *summary, r Result, dst *State, in ssa.CallInstruction) (*Val, bool) {
	ctx := uint64(0)
	if len(m.ctx) > 0 {
		ctx = m.ctx[len(m.ctx)-1]
	}
	iid := m.info(in.Parent()).instrID[in]
	src := r.st
	newIDs := map[ObjID]ObjID{}
	mapID := func(id ObjID) ObjID {
		if n, ok := x.obj[id]; ok {
			return n
		}
		if n, ok := newIDs[id]; ok {
			return n
		}
		if o := src.heap[id]; o != nil && o.Own == "global" {
			newIDs[id] = id
			return id
		}
		sumBit := id & (1 << 62)
		n := hashID("import", ctx, fnName(in.Parent()), iid, uint64(id&^(1<<62)))&^(3<<61) | sumBit
		newIDs[id] = n
		return n
	}
	syms := map[Sym]Num{}
	mapSym := func(y Sym) Num {
		if y == 0 {
			return Num{}
		}
		if n, ok := x.sym[y]; ok {
			return n
		}
		if n, ok := syms[y]; ok {
			return n
		}
		var n Num
		if i, ok := src.cons.m[y]; ok {
			n = m.newNum(dst, i.lo, i.hi)
			if i.set != nil {
				dst.cons.limit(n.S, i.set)
			}
		} else {
			n = Num{m.rawSym(), 0}
		}
		syms[y] = n
		return n
	}
	mapNum := func(n Num) Num {
		if n.S == 0 {
			return n
		}
		b := mapSym(n.S)
		return Num{b.S, b.K + n.K}
	}
	raw := map[Sym]Sym{}
	mapRaw := func(y Sym) Sym {
		if y == 0 {
			return 0
		}
		if f, ok := x.flt[y]; ok {
			return f
		}
		if n, ok := raw[y]; ok {
			return n
		}
		raw[y] = m.rawSym()
		return raw[y]
	}
	var mapAtoms func(at []Atom) []Atom
	mapAtoms = func(at []Atom) []Atom {
		var o []Atom
		for _, a := range at {
			if a.Op == "sym" {
				if b, ok := x.str[a.Sym]; ok {
					o = append(o, b...)
					continue
				}
			}
			n := a
			n.Sym = mapRaw(a.Sym)
			n.Num = mapNum(a.Num)
			n.Sub = mapAtoms(a.Sub)
			o = append(o, n)
		}
		return o
	}
	seen := map[*Val]*Val{}
	var mapVal func(v *Val) *Val
	mapVal = func(v *Val) *Val {
		if v == nil {
			return nil
		}
		if v == nilPtr || v == nilIface || v == nilElem {
			return v
		}
		if n, ok := seen[v]; ok {
			return n
		}
		n := *v
		seen[v] = &n
		n.N = mapNum(v.N)
		n.Off = mapNum(v.Off)
		if v.K == KFloat {
			n.S = mapRaw(v.S)
		}
		n.At = mapAtoms(v.At)
		if len(v.Refs) > 0 {
			n.Refs = make([]Ref, len(v.Refs))
			for i, q := range v.Refs {
				n.Refs[i] = Ref{mapID(q.Obj), q.Path}
			}
			n.Refs = sortRefs(n.Refs)
		}
		if len(v.El) > 0 {
			n.El = make([]*Val, len(v.El))
			for i, e := range v.El {
				n.El[i] = mapVal(e)
			}
		}
		n.Smash = mapVal(v.Smash)
		if len(v.Alts) > 0 {
			n.Alts = make([]Alt, len(v.Alts))
			for i, a := range v.Alts {
				n.Alts[i] = Alt{a.T, mapVal(a.V)}
			}
		}
		if v.Keys != nil {
			n.Keys = make(map[string]MapEnt, len(v.Keys))
			for _, k := range sortedKeys(v.Keys) {
				n.Keys[k] = MapEnt{mapVal(v.Keys[k].V), v.Keys[k].Maybe, v.Keys[k].Key}
			}
		}
		return &n
	}
	// objects to bring over
	live := src.reach([]*Val{r.ret})
	for p := range x.obj {
		live[p] = true
		if o := src.heap[p]; o != nil && o != s.pre.heap[p] {
			for k := range src.reach([]*Val{o.V}) {
				live[k] = true
			}
		}
	}
	ids := make([]ObjID, 0, len(live))
	for id := range live {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	type upd struct {
		id  ObjID
		old *Obj
		o   *Obj
		isN bool
	}
	var ups []upd
	for _, id := range ids {
		o := src.heap[id]
		if o == nil || o.Own == "global" {
			continue
		}
		if _, bound := x.obj[id]; bound {
			if o == s.pre.heap[id] {
				continue // untouched
			}
			ups = append(ups, upd{id, dst.heap[x.obj[id]], o, false})
		} else {
			ups = append(ups, upd{id, nil, o, true})
		}
	}
	// age colliding objects
	for _, u := range ups {
		if !u.isN {
			continue
		}
		n := mapID(u.id)
		if old, ok := dst.heap[n]; ok && n&(1<<62) == 0 {
			if m.reachable(dst, n) {
				m.alloc(dst, n, old.T, old.V, old.Site)
				// alloc re-creates the object; it is overwritten below
			}
		}
	}
	for _, u := range ups {
		n := mapID(u.id)
		v := mapVal(u.o.V)
		if u.isN {
			if old, ok := dst.heap[n]; ok && n&(1<<62) != 0 {
				v = m.joinVals(dst, copyVal(old.V), copyVal(v))
			}
			dst.put(n, &Obj{ID: n, T: u.o.T, V: v, Sum: u.o.Sum, Site: u.o.Site, Own: u.o.Own, RO: u.o.RO})
		} else {
			c := *u.old
			c.V = v
			c.Sum = u.o.Sum
			dst.put(n, &c)
		}
	}
	ret := mapVal(r.ret)
	for _, k := range sortedRd(src.cons.rd) {
		y, ok := Sym(0), false
		if at, has := x.str[k.str]; has {
			if len(at) == 1 && at[0].Op == "sym" {
				y, ok = at[0].Sym, true
			}
		} else {
			y, ok = raw[k.str]
		}
		pos, ok2 := Num{}, true
		if k.idx != 0 {
			if pos, ok2 = x.sym[k.idx]; !ok2 {
				pos, ok2 = syms[k.idx]
			}
		}
		if !ok || !ok2 {
			continue
		}
		b := mapSym(src.cons.rd[k])
		key := rdKey{y, pos.S, pos.K + k.k}
		if c, has := dst.cons.rd[key]; has {
			if !dst.cons.add(b, Num{c, 0}) || !dst.cons.add(Num{c, 0}, b) {
				return nil, false
			}
		} else if b.S != 0 && b.K == 0 {
			dst.cons.own()
			dst.cons.rd[key] = b.S
		}
	}
	// constraints
	all := sortedInfo(src.cons.m)
	for _, y := range all {
		i := src.cons.m[y]
		var n Num
		if b, ok := x.sym[y]; ok {
			n = b
			if s.pre.cons.m[y] == i {
				continue
			}
		} else if b, ok := syms[y]; ok {
			n = b
		} else {
			continue
		}
		if i.lo > -inf && !dst.cons.add(cnum(i.lo), n) {
			return nil, false
		}
		if i.hi < inf && !dst.cons.add(n, cnum(i.hi)) {
			return nil, false
		}
		if i.set != nil && n.S != 0 && n.K == 0 && !dst.cons.limit(n.S, i.set) {
			return nil, false
		}
	}
	for _, y := range all {
		i := src.cons.m[y]
		look := func(q Sym) (Num, bool) {
			if b, ok := x.sym[q]; ok {
				return b, true
			}
			b, ok := syms[q]
			return b, ok
		}
		n, ok := look(y)
		if !ok {
			continue
		}
		for _, t := range sortedSyms(i.up) {
			if nt, ok := look(t); ok {
				if !dst.cons.add(n, Num{nt.S, nt.K + i.up[t]}) {
					return nil, false
				}
			}
		}
	}
	return ret, !dst.cons.bad
}

func sortedInfo(m map[Sym]*symInfo) []Sym {
	r := make([]Sym, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}
