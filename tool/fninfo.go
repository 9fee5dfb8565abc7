package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// FnInfo caches control-flow facts about one function.
type FnInfo struct {
	fn      *ssa.Function
	rpo     []*ssa.BasicBlock
	rpoIdx  map[*ssa.BasicBlock]int
	loops   []*Loop
	headOf  map[*ssa.BasicBlock]*Loop
	inner   map[*ssa.BasicBlock]*Loop // innermost loop containing the block
	liveIn  []map[ssa.Value]bool
	irred   bool
	instrID map[ssa.Instruction]int
}

type Loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
	ord    int
}

func (m *Machine) info(fn *ssa.Function) *FnInfo {
	if i, ok := m.fninfo[fn]; ok {
		return i
	}
	i := computeInfo(fn)
	m.fninfo[fn] = i
	return i
}

func computeInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn, rpoIdx: map[*ssa.BasicBlock]int{}, headOf: map[*ssa.BasicBlock]*Loop{},
		inner: map[*ssa.BasicBlock]*Loop{}, instrID: map[ssa.Instruction]int{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpoIdx[post[i]] = len(fi.rpo)
		fi.rpo = append(fi.rpo, post[i])
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			fi.instrID[in] = n
			n++
		}
	}
	// natural loops
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if fi.rpoIdx[s] <= fi.rpoIdx[b] {
				if !s.Dominates(b) {
					fi.irred = true
					continue
				}
				l := fi.headOf[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					fi.headOf[s] = l
					fi.loops = append(fi.loops, l)
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.body[x] {
						continue
					}
					l.body[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(fi.loops, func(i, j int) bool { return fi.rpoIdx[fi.loops[i].head] < fi.rpoIdx[fi.loops[j].head] })
	for i, l := range fi.loops {
		l.ord = i
		for _, o := range fi.loops {
			if o != l && o.body[l.head] && (l.parent == nil || len(o.body) < len(l.parent.body)) {
				l.parent = o
			}
		}
	}
	for _, b := range fi.rpo {
		for _, l := range fi.loops {
			if l.body[b] && (fi.inner[b] == nil || len(l.body) < len(fi.inner[b].body)) {
				fi.inner[b] = l
			}
		}
	}
	fi.liveness()
	return fi
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
		return false
	}
	return true
}

func (fi *FnInfo) liveness() {
	nb := len(fi.fn.Blocks)
	fi.liveIn = make([]map[ssa.Value]bool, nb)
	liveOut := make([]map[ssa.Value]bool, nb)
	for i := range fi.liveIn {
		fi.liveIn[i] = map[ssa.Value]bool{}
		liveOut[i] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fi.rpo) - 1; i >= 0; i-- {
			b := fi.rpo[i]
			out := liveOut[b.Index]
			for _, s := range b.Succs {
				for v := range fi.liveIn[s.Index] {
					if p, ok := v.(*ssa.Phi); ok && p.Block() == s {
						continue
					}
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for pi, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						p, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if e := p.Edges[pi]; tracked(e) && !out[e] {
							out[e] = true
							changed = true
						}
					}
				}
			}
			in := map[ssa.Value]bool{}
			for v := range out {
				in[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if p, ok := ins.(*ssa.Phi); ok {
					// phis stay live-in of their own block (defined on the edge)
					if !in[p] {
						continue
					}
					continue
				}
				if v, ok := ins.(ssa.Value); ok {
					delete(in, v)
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil && tracked(*op) {
						in[*op] = true
					}
				}
			}
			li := fi.liveIn[b.Index]
			for v := range in {
				if !li[v] {
					li[v] = true
					changed = true
				}
			}
		}
	}
}

func posOf(fset *token.FileSet, in ssa.Instruction) token.Position {
	p := in.Pos()
	if !p.IsValid() {
		if v, ok := in.(ssa.Value); ok {
			p = v.Pos()
		}
	}
	if !p.IsValid() && in.Block() != nil {
		for _, o := range in.Block().Instrs {
			if o.Pos().IsValid() {
				p = o.Pos()
				if o == in {
					break
				}
			}
		}
	}
	return fset.Position(p)
}
