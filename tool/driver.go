package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Entry is one abstract run: a harness that calls into the program.
type Entry struct {
	Name string
	Memo bool
	Run  func(m *Machine, st *State)
	Opt  func(m *Machine)
}

type EntryResult struct {
	Name  string
	M     *Machine
	Abort string
	Dur   time.Duration
}

func runEntry(p *Program, e Entry) (res EntryResult) {
	t0 := time.Now()
	m := newMachine(p)
	res = EntryResult{Name: e.Name, M: m}
	defer func() {
		res.Dur = time.Since(t0)
		m.memo = nil
		if r := recover(); r != nil {
			if a, ok := r.(abortErr); ok {
				res.Abort = a.why + " [" + m.trace() + "]"
				return
			}
			if os.Getenv("VERIF_PANIC") != "" {
				debug.PrintStack()
			}
			res.Abort = fmt.Sprintf("internal: %v [%s]", r, m.trace())
		}
	}()
	st := m.initState()
	if e.Opt != nil {
		e.Opt(m)
	}
	if e.Memo {
		m.memo = newMemo()
	}
	e.Run(m, st)
	return
}

// runEntries analyses the entries on several cores.
func runEntries(p *Program, es []Entry) []EntryResult {
	if only := os.Getenv("VERIF_ENTRY"); only != "" {
		var some []Entry
		for _, e := range es {
			if e.Name == only {
				some = append(some, e)
			}
		}
		es = some
	}
	out := make([]EntryResult, len(es))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range es {
		wg.Add(1)
		sem <- true
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			out[i] = runEntry(p, es[i])
			if os.Getenv("VERIF_PROGRESS") != "" {
				fmt.Fprintf(os.Stderr, "%s %.1fs %d steps %s\n", es[i].Name, out[i].Dur.Seconds(), out[i].M.steps, out[i].Abort)
			}
		}(i)
	}
	wg.Wait()
	return out
}

// method finds a method of T or *T by name.
func (p *Program) method(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	b := t
	if pt, ok := b.(*types.Pointer); ok {
		b = pt.Elem()
	}
	if n, ok := b.(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	for _, x := range []types.Type{t, types.NewPointer(t)} {
		if s := p.Prog.MethodSets.MethodSet(x).Lookup(pkg, name); s != nil {
			return p.Prog.MethodValue(s)
		}
	}
	return nil
}

// pkg finds a package by its path inside the module.
func (p *Program) pkg(short string) *ssa.Package { return p.ByImp[modPath+"/"+short] }

// typesIn lists the exported named struct types of a package.
func (p *Program) typesIn(short string) []*types.Named {
	sp := p.pkg(short)
	if sp == nil {
		return nil
	}
	var out []*types.Named
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if nt, ok := tn.Type().(*types.Named); ok {
			if _, ok := nt.Underlying().(*types.Struct); ok {
				out = append(out, nt)
			}
		}
	}
	return out
}

// headerParsers: every type with Parse() and a constructor New<T>(string).
func (p *Program) headerParsers() []string {
	var out []string
	for _, t := range p.typesIn("sip/parser") {
		n := t.Obj().Name()
		c := p.pkg("sip/parser").Func("New" + n)
		if c == nil || c.Signature.Params().Len() != 1 {
			continue
		}
		if b, ok := c.Signature.Params().At(0).Type().(*types.Basic); !ok || b.Kind() != types.String {
			continue
		}
		mf := p.method(types.NewPointer(t), "Parse")
		if mf == nil || mf.Signature.Params().Len() != 0 {
			continue
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// do runs fn and returns its results.
func (m *Machine) do(st *State, fn *ssa.Function, args ...*Val) []Result {
	return m.run(st, nil, fn, args)
}

func (m *Machine) freshString(st *State) *Val { return m.strUnknown(st) }

func parserEntry(p *Program, name string) Entry {
	return Entry{Name: "parser." + name, Memo: true, Run: func(m *Machine, st *State) {
		p.trackErrors(m)
		ctor := p.pkg("sip/parser").Func("New" + name)
		for _, r := range m.do(st, ctor, m.freshString(st)) {
			mf := p.method(ctor.Signature.Results().At(0).Type(), "Parse")
			want := map[string]bool{}
			if _, ok := mf.Signature.Results().At(0).Type().Underlying().(*types.Interface); ok {
				for _, t := range p.parserProduces(mf) {
					want[t.String()] = true
				}
			}
			for _, r2 := range m.do(r.st, mf, r.ret) {
				m.contracts = append(m.contracts, parserContract(name, want, r2.ret))
			}
		}
	}}
}

// parserContract: without an error the parser returned something.
func parserContract(name string, want map[string]bool, ret *Val) Ob {
	o := Ob{Rule: "contract", Construct: name + ".Parse", OK: true}
	if ret.K != KTuple || len(ret.El) != 2 || ret.El[1].definitelyNonNil() {
		return o
	}
	v := ret.El[0]
	if v.K == KIface {
		if v.Nil || len(v.Alts) == 0 {
			o.OK, o.Why = false, "may return a nil header without an error"
		}
		for _, a := range v.Alts {
			if !want[a.T.String()] {
				o.OK, o.Why = false, "may return a "+a.T.String()
			}
			if !a.V.definitelyNonNil() {
				o.OK, o.Why = false, "may return a nil pointer inside a header without an error"
			}
		}
	} else if !v.definitelyNonNil() {
		o.OK, o.Why = false, "may return nil without an error"
	}
	return o
}

func debugParsers(p *Program, filter string) {
	var es []Entry
	for _, n := range p.headerParsers() {
		if filter == "all" || strings.Contains(","+filter+",", ","+n+",") {
			es = append(es, parserEntry(p, n))
		}
	}
	if filter == "message" {
		es = append(es, messageEntry(p))
	}
	rs := runEntries(p, es)
	type agg struct {
		line string
		n    int
		who  []string
	}
	bad := map[string]*agg{}
	loops := map[string]*agg{}
	okSites := map[string]bool{}
	for _, r := range rs {
		nb := 0
		for k, s := range r.M.sites {
			if s.Bad > 0 {
				nb++
				if bad[k] == nil {
					bad[k] = &agg{line: fmt.Sprintf("%s %s\n     %s", s.Key, s.Pos, s.Trace)}
				}
				bad[k].who = append(bad[k].who, r.Name)
			} else {
				okSites[k] = true
			}
		}
		for k, s := range r.M.swallow {
			if s.Bad > 0 {
				bad[k] = &agg{line: s.Key + " " + s.Pos + " " + s.Desc, who: []string{r.Name}}
			}
		}
		nl := 0
		for k, l := range r.M.loopsV {
			if l.Bad > 0 {
				nl++
				if loops[k] == nil {
					loops[k] = &agg{line: fmt.Sprintf("%s %s %s\n     %s", l.Key, l.Pos, l.Why, l.Trace)}
				}
				loops[k].who = append(loops[k].who, r.Name)
			}
		}
		fmt.Printf("%-32s %6.1fs steps %8d sites %5d bad %3d loops bad %d %s\n", r.Name, r.Dur.Seconds(), r.M.steps, len(r.M.sites), nb, nl, r.Abort)
	}
	pr := func(t string, m map[string]*agg) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			w := m[k].who
			sort.Strings(w)
			if len(w) > 4 {
				w = append(w[:4], fmt.Sprint("+", len(w)-4))
			}
			fmt.Printf("%s %s\n     in %v\n", t, m[k].line, w)
		}
	}
	pr("BAD", bad)
	pr("LOOP", loops)
	fmt.Println("ok sites", len(okSites))
	um := map[string]int{}
	for _, r := range rs {
		for k, n := range r.M.unmod {
			um[k] += n
		}
	}
	fmt.Println("unmodelled", um)
}

// byteSlice is an arbitrary non-nil []byte.
func (m *Machine) byteSlice(st *State, name string) *Val {
	t := types.NewSlice(types.Typ[types.Uint8])
	id := hashID("input", name)
	n := m.newLen(st)
	st.put(id, &Obj{ID: id, V: &Val{K: KArr, Smash: m.topVal(st, types.Typ[types.Uint8])}, Sum: true, Site: "input " + name, Own: "input"})
	return &Val{K: KSlice, Refs: []Ref{{Obj: id}}, N: n, Off: cnum(0), T: t}
}

func messageEntry(p *Program) Entry {
	return Entry{Name: "message", Memo: true, Run: func(m *Machine, st *State) {
		m.maxSteps = 40_000_000
		p.trackErrors(m)
		p.contractParsers(m)
		ctor := p.pkg("sip/parser").Func("NewStringMsgParser")
		for _, r := range m.do(st, ctor) {
			t := ctor.Signature.Results().At(0).Type()
			in := m.byteSlice(r.st, "message")
			m.do(r.st, p.method(t, "ParseSIPMessageFromByte"), r.ret, in)
		}
	}}
}

// parserProduces lists the header types a parser's Parse method returns,
// judging by the conversions to the result interface in its package.
func (p *Program) parserProduces(fn *ssa.Function) []types.Type {
	var out []types.Type
	seen := map[string]bool{}
	res := fn.Signature.Results().At(0).Type().Underlying().(*types.Interface)
	for f := range p.calleesIn(fn, "sip/parser") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok || seen[mi.X.Type().String()] {
					continue
				}
				pt, ok := mi.X.Type().(*types.Pointer)
				if !ok || !types.Implements(pt, res) || external(pt.Elem()) {
					continue
				}
				seen[mi.X.Type().String()] = true
				out = append(out, mi.X.Type())
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// calleesIn: fn and the functions of a package it reaches by static calls.
func (p *Program) calleesIn(fn *ssa.Function, short string) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function)
	walk = func(f *ssa.Function) {
		if seen[f] || f.Pkg == nil || f.Pkg.Pkg.Path() != modPath+"/"+short {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						walk(g)
					}
				}
			}
		}
	}
	walk(fn)
	return seen
}

func calleeName(in ssa.CallInstruction) string {
	if c := in.Common(); c.IsInvoke() {
		return c.Method.Name()
	} else if f := c.StaticCallee(); f != nil {
		return f.Name()
	}
	return ""
}

// trackErrors turns on the error-propagation typestate for the scanner and
// parser packages. Looking ahead past the end is how these parsers test for
// the end of the input; rewinding, or taking the rest of the line verbatim, is how they
// try an alternative; the application's listener may decide to go on.
func (p *Program) trackErrors(m *Machine) {
	m.errTrack = func(fn *ssa.Function) bool {
		return fn.Pkg != nil && (fn.Pkg == p.pkg("sip/parser") || fn.Pkg == p.pkg("core"))
	}
	m.errExempt = func(in ssa.CallInstruction) bool {
		n := calleeName(in)
		return n == "LookAhead" || n == "LookAheadK"
	}
	m.errRewind = func(in ssa.CallInstruction) bool {
		switch calleeName(in) {
		case "RewindInputBuffer", "GetRest", "HandleException":
			return true
		}
		return false
	}
}

// contractParsers replaces the line parsers of header fields by their
// contract, which parserEntry establishes one by one: an error, or a non-nil
// header of one of the types the parser builds. Content-Length keeps its
// value because the message parser reads the body length from it.
func (p *Program) contractParsers(m *Machine) {
	parse := map[*ssa.Function]bool{}
	for _, n := range p.headerParsers() {
		if n == "RequestLineParser" || n == "StatusLineParser" || n == "URLParser" {
			continue
		}
		ctor := p.pkg("sip/parser").Func("New" + n)
		parse[p.method(ctor.Signature.Results().At(0).Type(), "Parse")] = true
	}
	hp := p.pkg("sip/header")
	m.overrideFn = func(fn *ssa.Function) Model {
		if parse[fn] {
			return func(m *Machine, st *State, in ssa.CallInstruction, args []*Val) []Result {
				out := []Result{{st.clone(), tuple(nilIface, errVal())}}
				for _, t := range p.parserProduces(fn) {
					s2 := st.clone()
					out = append(out, Result{s2, tuple(&Val{K: KIface, Alts: []Alt{{t, &Val{K: KPtr, Unk: true, T: t}}}}, nilIface)})
				}
				if strings.Contains(fnName(fn), "ContentLengthParser") {
					c := hp.Func("NewContentLength")
					for _, r := range m.call(st.clone(), in, c, nil) {
						t := c.Signature.Results().At(0).Type()
						arg := &Val{K: KNum, N: m.newNum(r.st, -inf, inf)}
						for _, r2 := range m.call(r.st, in, p.method(t, "SetContentLength"), []*Val{r.ret, arg}) {
							if r2.ret.definitelyNil() {
								out = append(out, Result{r2.st, tuple(&Val{K: KIface, Alts: []Alt{{t, r.ret}}}, nilIface)})
							}
						}
					}
				}
				return out
			}
		}
		if fn.Name() == "AttachHeader2" || fn.Name() == "AttachHeader3" {
			return func(m *Machine, st *State, in ssa.CallInstruction, args []*Val) []Result {
				if args[1].K == KIface && len(args[1].Alts) > 0 && !args[1].Alts[0].V.Unk {
					return m.run(st, in, fn, args)
				}
				return []Result{{st, m.topResults(st, fn.Signature)}}
			}
		}
		return nil
	}
}
