package main

import (
	"sync/atomic"
	"time"

	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edgeKey struct{ from, to int }

type act struct {
	fn    *ssa.Function
	fi    *FnInfo
	edges map[edgeKey][]*State
	rets  map[int][]*State
	base  int // frame depth
}

type abortErr struct{ why string }

// allEnd is when every entry has to be done, and scanLimit what one text may
// take (it takes less than two seconds on ordinary code).
var (
	allEnd    = time.Now().Add(780 * time.Second)
	scanLimit = 40 * time.Second
	scanOver  int32
)

// tick counts a step and gives up when there is no more time.
func (m *Machine) tick() {
	m.steps++
	if m.steps&255 != 0 {
		return
	}
	now := time.Now()
	if m.began.IsZero() {
		m.began = now
	}
	if now.After(allEnd) {
		m.abort("no time left")
	}
	if m.scan {
		limit := scanLimit
		if atomic.LoadInt32(&scanOver) > 16 {
			limit /= 8 // enough have been seen to fail
		}
		if now.Sub(m.began) > limit {
			atomic.AddInt32(&scanOver, 1)
			m.abort("takes too long")
		}
	}
}

func (m *Machine) abort(why string) { panic(abortErr{why}) }

// call runs fn on args in st and returns the possible outcomes.
func (m *Machine) call(st *State, in ssa.CallInstruction, fn *ssa.Function, args []*Val) []Result {
	m.tick()
	if m.onCall != nil {
		m.onCall(st, in, fn, args)
	}
	if m.scan {
		for i, v := range args {
			if v != nil && v.K == KStr {
				if w := m.mergeCuts(st, v, true); w != v {
					args = append([]*Val(nil), args...)
					args[i] = w
				}
			}
		}
	}
	name := fn.String()
	if mod, ok := m.overrides[name]; ok {
		return mod(m, st, in, args)
	}
	if mod, ok := models[name]; ok {
		return mod(m, st, in, args)
	}
	if m.overrideFn != nil {
		if mod := m.overrideFn(fn); mod != nil {
			return mod(m, st, in, args)
		}
	}
	if len(fn.Blocks) == 0 {
		return m.unknownCall(st, in, fn.Signature, name)
	}
	n := 0
	for _, f := range m.fnStack {
		if f == fn {
			n++
		}
	}
	if n >= 3 || len(m.fnStack) > 60 {
		m.abort("recursion through " + fnName(fn))
	}
	if m.memo != nil {
		return m.summarised(st, in, fn, args)
	}
	return m.run(st, in, fn, args)
}

func (m *Machine) unknownCall(st *State, in ssa.CallInstruction, sig *types.Signature, name string) []Result {
	m.unmod[name]++
	return []Result{{st, m.topResults(st, sig)}}
}

func (m *Machine) topResults(st *State, sig *types.Signature) *Val {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.topVal(st, r.At(0).Type())
	}
	return m.topVal(st, r)
}

// run interprets fn's body.
func (m *Machine) run(st *State, in ssa.CallInstruction, fn *ssa.Function, args []*Val) []Result {
	if m.steps > m.maxSteps {
		m.abort("step budget exhausted")
	}
	m.visited[fn] = true
	fi := m.info(fn)
	if fi.irred {
		m.abort("irreducible control flow in " + fnName(fn))
	}
	ctx := uint64(0)
	if len(m.ctx) > 0 {
		ctx = m.ctx[len(m.ctx)-1]
	}
	iid := -1
	if in != nil {
		iid = m.info(in.Parent()).instrID[in]
		ctx = uint64(hashID(ctx, fnName(in.Parent()), iid))
	}
	m.ctx = append(m.ctx, ctx)
	m.stack = append(m.stack, in)
	m.fnStack = append(m.fnStack, fn)
	defer func() {
		m.ctx = m.ctx[:len(m.ctx)-1]
		m.stack = m.stack[:len(m.stack)-1]
		m.fnStack = m.fnStack[:len(m.fnStack)-1]
	}()
	outerErr := st.err
	st.err = ""
	fr := &Frame{fn: fn, regs: map[ssa.Value]*Val{}}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	st.frames = append(append([]*Frame(nil), st.frames...), fr)
	st.topOwned = true
	a := &act{fn: fn, fi: fi, edges: map[edgeKey][]*State{}, rets: map[int][]*State{}, base: len(st.frames)}
	m.execBlock(a, fn.Blocks[0], []*State{st}, nil)
	m.region(a, nil)
	// collect results
	var outs []*State
	var idx []int
	for b := range a.rets {
		idx = append(idx, b)
	}
	sort.Ints(idx)
	for _, b := range idx {
		outs = append(outs, a.rets[b]...)
	}
	if traceCalls {
		fmt.Fprintf(os.Stderr, "%s%s -> %d states (steps %d)\n", strings.Repeat(" ", len(m.fnStack)), fnName(fn), len(outs), m.steps)
		if os.Getenv("VERIF_TRACE") == "2" {
			fmt.Fprintln(os.Stderr, "   ARGS", args)
			for _, s := range outs {
				fmt.Fprintln(os.Stderr, "   RET", s.top().regs[m.retReg])
			}
		}
	}
	groups := m.group(outs, func(s *State) string {
		return m.class(s.top().regs[m.retReg], true) + errKey(s) + fmt.Sprint(s.read)
	}, 24)
	if os.Getenv("VERIF_TRACE") == "3" {
		for _, s := range groups {
			fmt.Fprintln(os.Stderr, "   GROUP", fnName(fn), s.top().regs[m.retReg], s.read, s.cons.get(1))
		}
	}
	var res []Result
	for _, s := range groups {
		f := s.top()
		ret := f.regs[m.retReg]
		if m.scan && ret != nil {
			ret = m.resolved(s, ret)
		}
		s.frames = append([]*Frame(nil), s.frames[:len(s.frames)-1]...)
		s.topOwned = false
		// arguments refined by the callee are refined for the caller
		for i, p := range fn.Params {
			nv := f.regs[p]
			if nv != nil && nv != args[i] && (args[i].K == KPtr || args[i].K == KIface || args[i].K == KMap || args[i].K == KSlice) && nv.K == args[i].K && args[i].Nil && (!nv.Nil || nv.definitelyNil()) {
				m.replaceIdent(s, args[i], nv)
			}
		}
		m.errExit(fn, s, ret, outerErr)
		res = append(res, Result{s, ret})
	}
	return res
}

func errKey(s *State) string {
	if s.err != "" {
		return "!"
	}
	return ""
}

// errResult is the index of the error result of a signature, or -1.
func errResult(sig *types.Signature) int {
	ix := -1
	for i := 0; i < sig.Results().Len(); i++ {
		if types.Identical(sig.Results().At(i).Type(), errorType) {
			ix = i
		}
	}
	return ix
}

func pick(ret *Val, n, ix int) *Val {
	if n == 1 || ret == nil || ret.K != KTuple {
		return ret
	}
	return ret.El[ix]
}

// errExit: a function that can report errors must not return success once an
// error has been raised in it.
func (m *Machine) errExit(fn *ssa.Function, s *State, ret *Val, outer string) {
	if m.errTrack == nil {
		return
	}
	sig := fn.Signature
	if ix := errResult(sig); ix >= 0 && m.errTrack(fn) {
		e := pick(ret, sig.Results().Len(), ix)
		if m.verify != 0 && e != nil {
			key := "swallowed@" + fnName(fn)
			x := m.swallow[key]
			if x == nil {
				x = &Site{Key: key, Kind: "swallowed", Fn: fnName(fn), Pos: shortPos(m.p.Prog.Fset.Position(fn.Pos()).String())}
				m.swallow[key] = x
			}
			if s.err != "" && e.definitelyNil() {
				x.Bad++
				if x.Desc == "" {
					x.Desc, x.Trace = "returns success although "+s.err+" failed", m.trace()
				}
			} else {
				x.Ok++
			}
		}
		s.err = ""
	}
	if s.err == "" {
		s.err = outer
	}
}

// errCall notes that a call reported an error.
func (m *Machine) errCall(s *State, in ssa.CallInstruction, ret *Val) {
	if m.errTrack == nil || !m.errTrack(in.Parent()) {
		return
	}
	if s.err != "" {
		// going back to a saved position is a deliberate second attempt
		if m.errRewind(in) {
			s.err = ""
		}
		return
	}
	sig := in.Common().Signature()
	ix := errResult(sig)
	if ix < 0 || m.errExempt(in) {
		return
	}
	e := pick(ret, sig.Results().Len(), ix)
	if e != nil && e.K == KIface && !e.Nil {
		s.err = describeCall(in) + " at " + shortPos(posOf(m.p.Prog.Fset, in).String())
	}
}

func describeCall(in ssa.CallInstruction) string {
	c := in.Common()
	if c.IsInvoke() {
		return describe(c.Value) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "call"
}

var debugHead = os.Getenv("VERIF_DUMPHEAD")

var traceCalls = os.Getenv("VERIF_TRACE") != ""

// group joins states with equal keys; if more than limit remain it coarsens.
func (m *Machine) group(in []*State, key func(*State) string, limit int) []*State {
	if len(in) <= 1 || m.apart > 0 && len(in) <= m.apart {
		return in
	}
	var order []string
	by := map[string]*State{}
	for _, s := range in {
		k := key(s)
		if o, ok := by[k]; ok {
			by[k] = m.joinStates(o, s, false)
		} else {
			by[k] = s
			order = append(order, k)
		}
	}
	if m.scan {
		limit *= 2 // as many as there are characters in the literal parts
	}
	if len(order) > limit {
		// states that have seen an error stay apart from those that have not
		var out []*State
		for _, failed := range []bool{false, true} {
			var s *State
			for _, k := range order {
				if x := by[k]; (x.err != "") != failed {
					continue
				} else if s == nil {
					s = x
				} else {
					s = m.joinStates(s, x, false)
				}
			}
			if s != nil {
				out = append(out, s)
			}
		}
		return out
	}
	out := make([]*State, 0, len(order))
	for _, k := range order {
		out = append(out, by[k])
	}
	return out
}

// class abstracts a value for partitioning.
func (m *Machine) class(v *Val, fineInt bool) string {
	if v == nil {
		return "-"
	}
	nilc := func() string {
		if v.definitelyNil() {
			return "0"
		}
		if v.Nil {
			return "?"
		}
		return "p"
	}
	switch v.K {
	case KNum:
		if v.N.S == 0 && fineInt {
			return fmt.Sprintf("c%d", v.N.K)
		}
		return "n"
	case KBool:
		return [...]string{"F", "T", "B"}[v.B]
	case KStr:
		if v.N.S == 0 && v.N.K == 0 {
			return "e"
		}
		if s, ok := isLit(v); ok && fineInt {
			return "l" + s
		}
		return "s"
	case KPtr, KMap, KSlice, KFunc:
		return nilc()
	case KIface:
		if len(v.Alts) == 1 && !v.Nil && !v.Unk {
			t := v.Alts[0].T
			if external(t) {
				return "p"
			}
			if p, ok := t.(*types.Pointer); ok && external(p.Elem()) {
				return "p"
			}
			return "t" + tstr(t) + m.class(v.Alts[0].V, fineInt)
		}
		return nilc()
	case KTuple:
		s := "("
		for _, e := range v.El {
			s += m.class(e, fineInt) + ","
		}
		return s + ")"
	}
	return "o"
}

// stateKey partitions the states entering block b.
func (m *Machine) stateKey(s *State, b *ssa.BasicBlock, fi *FnInfo, fineInt bool) string {
	var parts, ghostKeys []string
	live := fi.liveIn[b.Index]
	regs := s.top().regs
	for v, x := range regs {
		if x == nil {
			continue
		}
		if g, isGhost := v.(*ghost); isGhost {
			// has this trip already moved forward?
			if now, ok := m.locNum(s, g.loc); ok && x.K == KNum && s.cons.lt(x.N, now) {
				ghostKeys = append(ghostKeys, g.key())
			}
			continue
		}
		ok := live[v]
		if p, isPhi := v.(*ssa.Phi); isPhi && p.Block() == b {
			ok = true
		}
		if !ok {
			continue
		}
		switch x.K {
		case KOpaque, KStruct, KArr, KFloat, KBuf, KList:
			continue
		}
		c := m.class(x, fineInt)
		if x.K == KPtr && !m.content && isBuffer(v.Type()) && returnsText(b.Parent()) && m.emptyBuffer(s, x) {
			c = "empty"
		}
		parts = append(parts, v.Name()+"="+c)
	}
	parts = append(parts, ghostKeys...)
	sort.Strings(parts)
	return strings.Join(parts, " ") + errKey(s) + fmt.Sprint(len(s.top().defers))
}

// incoming collects, partitions and joins the states flowing into b.
func (m *Machine) incoming(a *act, b *ssa.BasicBlock, from func(p *ssa.BasicBlock) bool, fineInt bool, limit int) []*State {
	var all []*State
	seen := map[int]bool{}
	for _, p := range b.Preds {
		if seen[p.Index] || (from != nil && !from(p)) {
			continue
		}
		seen[p.Index] = true
		all = append(all, a.edges[edgeKey{p.Index, b.Index}]...)
	}
	if len(all) == 0 {
		return nil
	}
	return m.partition(a, b, all, fineInt, from == nil, limit)
}

func (m *Machine) partition(a *act, b *ssa.BasicBlock, all []*State, fineInt, reads bool, limit int) []*State {
	g := m.group(all, func(s *State) string {
		k := m.stateKey(s, b, a.fi, fineInt)
		if reads && s.read != 0 {
			k += fmt.Sprint(" read ", s.read)
		}
		return k
	}, limit)
	if len(g) == 1 && len(all) > limit && fineInt {
		g2 := m.group(all, func(s *State) string { return m.stateKey(s, b, a.fi, false) }, limit)
		return g2
	}
	return g
}

// region executes the blocks whose innermost loop is l (nil: the function).
func (m *Machine) region(a *act, l *Loop) {
	for _, b := range a.fi.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		if b == a.fn.Blocks[0] && a.fi.headOf[b] == nil {
			continue
		}
		il := a.fi.inner[b]
		if il == l {
			if l != nil && b == l.head {
				continue
			}
			in := m.incoming(a, b, nil, true, 40)
			m.clearOut(a, b)
			if len(in) > 0 {
				m.execBlock(a, b, in, nil)
			}
			continue
		}
		if hl := a.fi.headOf[b]; hl != nil && hl.parent == l {
			m.stabilise(a, hl)
		}
	}
}

func (m *Machine) clearOut(a *act, b *ssa.BasicBlock) {
	for _, s := range b.Succs {
		delete(a.edges, edgeKey{b.Index, s.Index})
	}
	delete(a.rets, b.Index)
}

func (m *Machine) clearBody(a *act, l *Loop) {
	for b := range l.body {
		m.clearOut(a, b)
	}
}

// ghost registers hold the value a location had at a loop head.
type ghost struct {
	*ssa.Parameter
	loop *Loop
	loc  ghostLoc
}

func (g *ghost) key() string {
	if g.loc.phi != nil {
		return "+" + g.loc.phi.Name()
	}
	return fmt.Sprintf("+%x.%x", uint64(g.loc.ref.Obj), g.loc.ref.Path)
}

type ghostLoc struct {
	phi  *ssa.Phi
	part string // "n": number/length, "pos": list position
	ref  Ref
}

const endPos = int64(1) << 50 // the position "past the end of the list"

func (m *Machine) locNum(st *State, g ghostLoc) (Num, bool) {
	var v *Val
	if g.phi != nil {
		v = st.top().regs[g.phi]
	} else {
		if o := st.heap[g.ref.Obj]; o == nil || o.Sum {
			return Num{}, false
		}
		v = m.cell(st, g.ref)
	}
	if v == nil {
		return Num{}, false
	}
	switch v.K {
	case KNum, KStr, KList, KBuf, KMapObj:
		return v.N, true
	case KSlice:
		return v.N, true
	case KPtr:
		if g.part == "pos" {
			if v.definitelyNil() {
				return cnum(endPos), true
			}
			if isElemPtr(v) && !v.Nil && !v.Unk && len(v.Refs) == 1 {
				if l := m.listAt(st, v.Refs[0]); l != nil && l.Off == v.Off {
					return v.N, true
				}
			}
		}
	}
	return Num{}, false
}

// stabilise computes the fixpoint of loop l.
func (m *Machine) stabilise(a *act, l *Loop) {
	inBody := func(p *ssa.BasicBlock) bool { return l.body[p] }
	entry := m.incoming(a, l.head, func(p *ssa.BasicBlock) bool { return !inBody(p) }, true, 24)
	m.clearBody(a, l)
	if len(entry) == 0 {
		return
	}
	// small loops: the first trip is analysed on its own
	peeled := map[edgeKey][]*State{}
	peeledRets := map[int][]*State{}
	if m.peelable(a, l) {
		for trip := 0; trip < max(m.peel, 1); trip++ {
			step := func() {
				m.inLoop++
				delete(m.symRead, m.inLoop)
				m.execBlock(a, l.head, cloneAll(entry), nil)
				m.region(a, l)
				m.inLoop--
			}
			if m.peel > 1 && trip > 0 {
				m.as(fmt.Sprint("trip", trip), step) // objects made in different trips differ
			} else {
				step()
			}
			if m.scan && m.symRead[m.inLoop+1] {
				// inside an unknown text: the trips are taken together
				m.clearBody(a, l)
				break
			}
			entry = nil
			for _, b := range a.fi.rpo {
				if !l.body[b] {
					continue
				}
				for _, t := range b.Succs {
					k := edgeKey{b.Index, t.Index}
					if !l.body[t] {
						peeled[k] = append(peeled[k], a.edges[k]...)
					} else if t == l.head {
						entry = append(entry, a.edges[k]...)
					}
				}
				if r := a.rets[b.Index]; len(r) > 0 {
					peeledRets[b.Index] = append(peeledRets[b.Index], r...)
				}
			}
			m.clearBody(a, l)
			if len(entry) == 0 {
				if m.verify != 0 {
					m.progress(a, l, nil, nil)
				}
				m.restore(a, peeled, peeledRets)
				return
			}
			entry = m.partition(a, l.head, entry, true, false, 24)
		}
		defer m.restore(a, peeled, peeledRets)
	}
	m.fixing++
	m.inLoop++
	defer func() { m.fixing--; m.inLoop-- }()
	saved := m.verify
	m.verify = 0
	H := entry
	var back []*State
	iters := 0
	fine := true
	for {
		iters++
		if iters > 60 && !m.scan || iters > 600 {
			m.verify = saved
			m.abort("no fixpoint for a loop in " + fnName(a.fn))
		}
		m.clearBody(a, l)
		m.execBlock(a, l.head, cloneAll(H), nil)
		m.region(a, l)
		back = nil
		for _, p := range l.head.Preds {
			if inBody(p) {
				back = append(back, a.edges[edgeKey{p.Index, l.head.Index}]...)
			}
		}
		if len(back) == 0 {
			break
		}
		if iters > 12 || len(H) > 16 {
			fine = false
		}
		key := func(s *State) string { return m.stateKey(s, l.head, a.fi, fine) }
		// merge the back-edge states into H, keyed
		cur := map[string]*State{}
		var order []string
		for _, s := range H {
			k := key(s)
			if o, ok := cur[k]; ok {
				cur[k] = m.joinStates(o, s, false)
			} else {
				cur[k] = s
				order = append(order, k)
			}
		}
		changed := false
		backBy := map[string]*State{}
		var border []string
		for _, s := range back {
			k := key(s)
			if os.Getenv("VERIF_PEEL") != "" {
				fmt.Fprintf(os.Stderr, "ITER BACK %s %s\n%s", fnName(a.fn), k, dumpState(s))
			}
			if o, ok := backBy[k]; ok {
				backBy[k] = m.joinStates(o, s, false)
			} else {
				backBy[k] = s
				border = append(border, k)
			}
		}
		for _, k := range border {
			o, ok := cur[k]
			if !ok {
				cur[k] = backBy[k]
				order = append(order, k)
				changed = true
				continue
			}
			m.hard = iters > 45
			n := m.joinStates(o, backBy[k], iters > widenAt)
			m.hard = false
			m.gc(n)
			og := o.clone()
			m.gc(og)
			if !equalStates(og, n) {
				changed = true
				cur[k] = n
				if os.Getenv("VERIF_TRACE_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "LOOP %s iter %d key %s\n", fnName(a.fn), iters, k)
					dumpDiff(og, n)
				}
			}
		}
		var nh []*State
		for _, k := range order {
			nh = append(nh, cur[k])
		}
		if os.Getenv("VERIF_PEEL") != "" {
			for _, x := range nh {
				fmt.Fprintf(os.Stderr, "ITER %d %s %s\n%s", iters, fnName(a.fn), key(x), dumpState(x))
			}
		}
		if len(nh) != len(H) {
			changed = true
		}
		H = nh
		if !changed {
			break
		}
	}
	m.verify = saved
	if debugHead != "" && debugHead == fnName(a.fn) {
		for _, s := range H {
			fmt.Fprintf(os.Stderr, "HEAD %s loop%d key %s\n%s", fnName(a.fn), l.ord, m.stateKey(s, l.head, a.fi, fine), dumpState(s))
		}
	}
	if m.verify == 0 {
		return // the last pass already ran on the stable head state
	}
	// final pass: record obligations, and check progress
	ghosts := m.pickGhosts(a, l, H, back)
	m.clearBody(a, l)
	var gh []*State
	for _, s := range H {
		c := s.clone()
		for _, g := range ghosts {
			if n, ok := m.locNum(c, g.loc); ok {
				c.setReg(g, &Val{K: KNum, N: n})
			}
		}
		gh = append(gh, c)
	}
	m.execBlock(a, l.head, gh, nil)
	m.region(a, l)
	var fin []*State
	for _, p := range l.head.Preds {
		if inBody(p) {
			fin = append(fin, a.edges[edgeKey{p.Index, l.head.Index}]...)
		}
	}
	m.progress(a, l, ghosts, fin)
	// ghosts die at loop exits
	for k, ss := range a.edges {
		if l.body[a.fn.Blocks[k.from]] && !l.body[a.fn.Blocks[k.to]] {
			for i, s := range ss {
				c := s.clone()
				c.ownTop()
				for _, g := range ghosts {
					delete(c.top().regs, g)
				}
				ss[i] = c
			}
		}
	}
	for _, ss := range a.rets {
		for _, s := range ss {
			s.ownTop()
			for _, g := range ghosts {
				delete(s.top().regs, g)
			}
		}
	}
}

// peelable: an innermost loop of moderate size.
func (m *Machine) peelable(a *act, l *Loop) bool {
	if m.peel > 1 {
		return true
	}
	if len(l.body) > 40 {
		return false
	}
	for b := range l.body {
		if a.fi.inner[b] != l {
			return false
		}
	}
	return true
}

// restore puts the exits of the peeled trip back.
func (m *Machine) restore(a *act, edges map[edgeKey][]*State, rets map[int][]*State) {
	for k, ss := range edges {
		if len(ss) > 0 {
			a.edges[k] = append(append([]*State(nil), ss...), a.edges[k]...)
		}
	}
	for b, ss := range rets {
		a.rets[b] = append(append([]*State(nil), ss...), a.rets[b]...)
	}
}

func cloneAll(in []*State) []*State {
	out := make([]*State, len(in))
	for i, s := range in {
		out[i] = s.clone()
	}
	return out
}

// pickGhosts selects the locations whose value changes around the loop.
func (m *Machine) pickGhosts(a *act, l *Loop, H, back []*State) []*ghost {
	locs := map[ghostLoc]bool{}
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for _, s := range H {
			if v := s.top().regs[p]; v != nil {
				if isElemPtr(v) {
					locs[ghostLoc{phi: p, part: "pos"}] = true
				} else if _, ok := m.locNum(s, ghostLoc{phi: p, part: "n"}); ok {
					locs[ghostLoc{phi: p, part: "n"}] = true
				}
			}
		}
	}
	for _, h := range H {
		for _, b := range back {
			for id, ho := range h.heap {
				bo := b.heap[id]
				if bo == nil || ho.Sum || bo.Sum || bo == ho {
					continue
				}
				m.diffLocs(ho.V, bo.V, Ref{Obj: id}, locs)
			}
		}
	}
	var out []*ghost
	for loc := range locs {
		out = append(out, &ghost{Parameter: &ssa.Parameter{}, loop: l, loc: loc})
	}
	sort.Slice(out, func(i, j int) bool {
		x, y := out[i].loc, out[j].loc
		if (x.phi == nil) != (y.phi == nil) {
			return x.phi != nil
		}
		if x.phi != nil {
			return x.phi.Name() < y.phi.Name()
		}
		if x.ref.Obj != y.ref.Obj {
			return x.ref.Obj < y.ref.Obj
		}
		return x.ref.Path < y.ref.Path
	})
	return out
}

func (m *Machine) diffLocs(a, b *Val, r Ref, locs map[ghostLoc]bool) {
	if a == b || a == nil || b == nil || a.K != b.K {
		return
	}
	switch a.K {
	case KNum, KStr, KList, KSlice:
		locs[ghostLoc{ref: r, part: "n"}] = true
	case KStruct, KArr:
		if len(a.El) != len(b.El) {
			return
		}
		for i := range a.El {
			m.diffLocs(a.El[i], b.El[i], Ref{r.Obj, r.Path + string(byte(i))}, locs)
		}
	}
}

// progress decides whether every trip around the loop makes progress.
func (m *Machine) progress(a *act, l *Loop, ghosts []*ghost, back []*State) {
	id := fmt.Sprintf("%s#loop%d", fnName(a.fn), l.ord)
	lv := m.loopsV[id]
	if lv == nil {
		p := ""
		for _, in := range l.head.Instrs {
			if in.Pos().IsValid() {
				p = shortPos(m.p.Prog.Fset.Position(in.Pos()).String())
				break
			}
		}
		lv = &LoopVerdict{Key: id, Fn: fnName(a.fn), Pos: p}
		m.loopsV[id] = lv
	}
	if len(back) == 0 {
		lv.Ok++
		return
	}
	// candidate measures: (location, direction)
	type cand struct {
		g  *ghost
		up bool
	}
	type verdict struct{ strict, weak bool }
	ev := func(c cand, s *State) verdict {
		gv := s.top().regs[c.g]
		now, ok := m.locNum(s, c.g.loc)
		if gv == nil || !ok {
			return verdict{}
		}
		pre := gv.N
		if c.up {
			if !s.cons.leq(pre, now) {
				return verdict{}
			}
			v := verdict{weak: true}
			if s.cons.lt(pre, now) {
				// bounded: pre < B for some loop-invariant B, or a constant
				_, hi := s.cons.bounds(pre)
				if hi < inf && hi <= maxLen {
					v.strict = true
				} else {
					v.strict = m.boundedBy(s, pre, ghosts)
				}
			}
			return v
		}
		if !s.cons.leq(now, pre) {
			return verdict{}
		}
		v := verdict{weak: true}
		if s.cons.lt(now, pre) {
			lo, _ := s.cons.bounds(pre)
			if lo > -inf {
				v.strict = true
			}
		}
		return v
	}
	var cs []cand
	for _, g := range ghosts {
		cs = append(cs, cand{g, true}, cand{g, false})
	}
	// lexicographic elimination
	rem := back
	for len(rem) > 0 {
		done := false
		for _, c := range cs {
			allWeak, anyStrict := true, false
			var next []*State
			for _, s := range rem {
				v := ev(c, s)
				if !v.weak {
					allWeak = false
					break
				}
				if v.strict {
					anyStrict = true
				} else {
					next = append(next, s)
				}
			}
			if allWeak && anyStrict {
				rem = next
				done = true
				break
			}
		}
		if !done {
			break
		}
	}
	if len(rem) == 0 {
		lv.Ok++
	} else {
		lv.Bad++
		if lv.Trace == "" {
			lv.Trace = m.trace()
			lv.Why = fmt.Sprintf("%d of %d ways round the loop make no provable progress", len(rem), len(back))
			if os.Getenv("VERIF_DEBUG_LOOP") != "" {
				for _, s := range rem {
					fmt.Fprintf(os.Stderr, "LOOP %s\n%s", id, dumpState(s))
				}
			}
		}
	}
}

// boundedBy: pre < B for a location B that has not grown since the loop head.
func (m *Machine) boundedBy(s *State, pre Num, ghosts []*ghost) bool {
	grown := map[Sym]bool{}
	for _, g := range ghosts {
		gv := s.top().regs[g]
		now, ok := m.locNum(s, g.loc)
		if gv == nil || !ok {
			continue
		}
		if now.S != 0 && !s.cons.leq(now, gv.N) {
			grown[now.S] = true
		}
	}
	i := s.cons.get(pre.S)
	for t, c := range i.up {
		// pre.S - t <= c ; need pre + k < t  i.e. pre.S + pre.K <= t - 1
		if c <= -1-pre.K && !grown[t] {
			_, hi := s.cons.bounds(Num{t, 0})
			if hi <= maxLen {
				return true
			}
		}
	}
	return false
}

// execBlock runs block b on the given states and stores the outgoing edges.
func (m *Machine) execBlock(a *act, b *ssa.BasicBlock, in []*State, _ *Loop) {
	work := cloneAll(in)
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	for i := start; i < len(b.Instrs); i++ {
		ins := b.Instrs[i]
		switch t := ins.(type) {
		case *ssa.If, *ssa.Jump:
			m.branch(a, b, t, work)
			return
		case *ssa.Return:
			for _, s := range work {
				var v *Val
				if len(t.Results) == 1 {
					v = m.eval(s, t.Results[0])
				} else if len(t.Results) > 1 {
					v = &Val{K: KTuple}
					for _, r := range t.Results {
						v.El = append(v.El, m.eval(s, r))
					}
				}
				f := *s.top()
				nr := map[ssa.Value]*Val{}
				for _, p := range a.fn.Params {
					if x, ok := f.regs[p]; ok {
						nr[p] = x
					}
				}
				if v != nil {
					nr[m.retReg] = v
				}
				f.regs = nr
				s.frames = append([]*Frame(nil), s.frames...)
				s.frames[len(s.frames)-1] = &f
				s.topOwned = true
				a.rets[b.Index] = append(a.rets[b.Index], s)
			}
			return
		case *ssa.Panic:
			for range work {
				m.check(ins, "panic", "explicit panic", false)
			}
			return
		}
		var next []*State
		for _, s := range work {
			m.tick()
			next = append(next, m.step(s, ins)...)
		}
		work = next
		if len(work) > 48 {
			work = m.group(work, func(s *State) string {
				if m.scan {
					return fmt.Sprint(m.stateKeyAt(s, ins), s.read)
				}
				return m.stateKeyAt(s, ins)
			}, 48)
		}
		if len(work) == 0 {
			return
		}
	}
}

func (m *Machine) stateKeyAt(s *State, ins ssa.Instruction) string {
	if v, ok := ins.(ssa.Value); ok {
		return m.class(s.top().regs[v], false)
	}
	return ""
}

// branch propagates the states at the end of block b.
func (m *Machine) branch(a *act, b *ssa.BasicBlock, t ssa.Instruction, work []*State) {
	send := func(s *State, to *ssa.BasicBlock) {
		// phis of the successor
		pi := -1
		for i, p := range to.Preds {
			if p == b {
				pi = i
				break
			}
		}
		f := s.top()
		nv := map[ssa.Value]*Val{}
		var phis []*ssa.Phi
		for _, in := range to.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
			nv[p] = m.eval(s, p.Edges[pi])
		}
		live := a.fi.liveIn[to.Index]
		nr := make(map[ssa.Value]*Val, len(live)+4)
		for k, v := range f.regs {
			if _, g := k.(*ghost); g || live[k] {
				nr[k] = v
			} else if p, isP := k.(*ssa.Parameter); isP && p != m.retReg {
				nr[k] = v
			}
		}
		for _, p := range phis {
			nr[p] = nv[p]
		}
		nf := *f
		nf.regs = nr
		s.frames = append([]*Frame(nil), s.frames...)
		s.frames[len(s.frames)-1] = &nf
		s.topOwned = true
		if len(s.cons.m) > 160 {
			m.gc(s)
		}
		k := edgeKey{b.Index, to.Index}
		a.edges[k] = append(a.edges[k], s)
	}
	switch t := t.(type) {
	case *ssa.Jump:
		for _, s := range work {
			send(s, b.Succs[0])
		}
	case *ssa.If:
		for _, s := range work {
			c := m.eval(s, t.Cond)
			switch c.B {
			case 1:
				send(s, b.Succs[0])
			case 0:
				send(s, b.Succs[1])
			default:
				s2 := s.clone()
				m.replaceIdent(s, c, boolVal(true))
				m.replaceIdent(s2, c, boolVal(false))
				send(s, b.Succs[0])
				send(s2, b.Succs[1])
			}
		}
	}
	for _, to := range b.Succs {
		k := edgeKey{b.Index, to.Index}
		if len(a.edges[k]) > 1 {
			a.edges[k] = m.partition(a, to, a.edges[k], true, a.fi.headOf[to] == nil, 40)
		}
	}
}

// eval returns the abstract value of an operand.
func (m *Machine) eval(st *State, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constVal(st, v)
	case *ssa.Global:
		return &Val{K: KPtr, Refs: []Ref{{Obj: m.globalObj(st, v)}}}
	case *ssa.Function:
		return &Val{K: KFunc, Fn: v}
	case *ssa.Builtin:
		return &Val{K: KFunc, Unk: true}
	}
	x := st.top().regs[v]
	if x == nil {
		m.abort(fmt.Sprintf("no value for %s = %s in %s", v.Name(), v, fnName(st.top().fn)))
	}
	return x
}

func (m *Machine) constVal(st *State, c *ssa.Const) *Val {
	t := c.Type()
	if c.Value == nil {
		return m.zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolVal(constant.BoolVal(c.Value))
	case constant.String:
		return litVal(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return &Val{K: KFloat, S: 0, At: []Atom{{Lit: c.Value.ExactString()}}}
		}
		if n, ok := constant.Int64Val(c.Value); ok {
			return &Val{K: KNum, N: cnum(n)}
		}
		lo, hi := intBounds(t)
		return &Val{K: KNum, N: m.newNum(st, lo, hi)}
	case constant.Float:
		return &Val{K: KFloat, S: 0, At: []Atom{{Lit: c.Value.ExactString()}}}
	}
	return m.topVal(st, t)
}

func (m *Machine) globalObj(st *State, g *ssa.Global) ObjID {
	if id, ok := m.globals[g]; ok {
		if _, ok := st.heap[id]; ok {
			return id
		}
	}
	id := hashID("global", g.String()) | 1<<61
	m.globals[g] = id
	t := g.Type().(*types.Pointer).Elem()
	if _, ok := st.heap[id]; !ok {
		st.put(id, &Obj{ID: id, T: t, V: m.zeroVal(t), Site: g.String(), Own: "global"})
	}
	return id
}

// deref narrows a pointer to its non-nil targets, one state per target.
// It reports the nil obligation.
func (m *Machine) targets(st *State, in ssa.Instruction, p *Val, desc string) []tgt {
	if p.K != KPtr {
		m.abort("dereference of a non-pointer in " + fnName(in.Parent()))
	}
	m.check(in, "nil", desc, !p.Nil)
	if p.definitelyNil() {
		return nil
	}
	var out []tgt
	if len(p.Refs) == 1 && !p.Unk {
		if p.Nil {
			n := *p
			n.Nil = false
			m.replaceIdent(st, p, &n)
			p = &n
		}
		return []tgt{{st, p.Refs[0], p, false}}
	}
	for i, r := range p.Refs {
		s := st
		if i < len(p.Refs)-1 || p.Unk {
			s = st.clone()
		}
		n := *p
		n.Nil, n.Unk = false, false
		n.Refs = []Ref{r}
		m.replaceIdent(s, p, &n)
		out = append(out, tgt{s, r, &n, false})
	}
	if p.Unk {
		n := *p
		n.Nil = false
		n.Refs = nil
		m.replaceIdent(st, p, &n)
		out = append(out, tgt{st, Ref{}, &n, true})
	}
	return out
}

type tgt struct {
	st  *State
	ref Ref
	p   *Val
	unk bool
}

func describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		return describe(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.Field:
		st := x.X.Type().Underlying().(*types.Struct)
		return describe(x.X) + "." + st.Field(x.Field).Name()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return describe(x.X)
		}
		return x.Op.String() + describe(x.X)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Global:
		return x.Name()
	case *ssa.Const:
		return x.Name()
	case *ssa.Call:
		c := x.Call
		if c.IsInvoke() {
			return describe(c.Value) + "." + c.Method.Name() + "()"
		}
		if f := c.StaticCallee(); f != nil {
			return f.Name() + "()"
		}
		return "call()"
	case *ssa.Extract:
		return describe(x.Tuple) + fmt.Sprintf("#%d", x.Index)
	case *ssa.TypeAssert:
		return describe(x.X) + ".(" + tstr(x.AssertedType) + ")"
	case *ssa.IndexAddr:
		return describe(x.X) + "[" + describe(x.Index) + "]"
	case *ssa.Index:
		return describe(x.X) + "[" + describe(x.Index) + "]"
	case *ssa.Lookup:
		return describe(x.X) + "[" + describe(x.Index) + "]"
	case *ssa.MakeInterface:
		return describe(x.X)
	case *ssa.ChangeInterface:
		return describe(x.X)
	case *ssa.ChangeType:
		return describe(x.X)
	case *ssa.Convert:
		return describe(x.X)
	case *ssa.BinOp:
		return describe(x.X) + x.Op.String() + describe(x.Y)
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
		return "new"
	case *ssa.Slice:
		return describe(x.X) + "[:]"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
		return "phi"
	}
	if v == nil {
		return ""
	}
	return v.Name()
}

// returnsText: the function collects a text and returns it.
func returnsText(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() == 0 {
		return false
	}
	t, ok := r.At(0).Type().Underlying().(*types.Basic)
	return ok && t.Kind() == types.String
}

// isBuffer: a pointer to a bytes.Buffer or a strings.Builder.
func isBuffer(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	s := p.Elem().String()
	return s == "bytes.Buffer" || s == "strings.Builder"
}

// emptyBuffer: v certainly points to a buffer in which there is nothing yet.
func (m *Machine) emptyBuffer(s *State, v *Val) bool {
	if v.Nil || v.Unk || len(v.Refs) != 1 {
		return false
	}
	cs, exact := m.cells(s, v.Refs[0])
	return exact && len(cs) == 1 && cs[0].K == KBuf && cs[0].N == cnum(0)
}
