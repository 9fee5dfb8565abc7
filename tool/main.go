package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (p *Program) fn(name string) *ssa.Function {
	for _, sp := range p.Pkgs {
		short := strings.TrimPrefix(sp.Pkg.Path(), modPath+"/")
		if !strings.HasPrefix(name, short+".") {
			continue
		}
		rest := strings.TrimPrefix(name, short+".")
		if strings.Contains(rest, ".") {
			i := strings.Index(rest, ".")
			tn := sp.Pkg.Scope().Lookup(rest[:i])
			if tn == nil {
				continue
			}
			for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				sel := p.Prog.MethodSets.MethodSet(t).Lookup(sp.Pkg, rest[i+1:])
				if sel != nil {
					return p.Prog.MethodValue(sel)
				}
			}
			continue
		}
		if f := sp.Func(rest); f != nil {
			return f
		}
	}
	return nil
}

// initState runs the package initialisers abstractly.
func (m *Machine) initState() *State {
	st := &State{heap: map[ObjID]*Obj{}, cons: newCons()}
	root := &Frame{fn: nil, regs: map[ssa.Value]*Val{}}
	st.frames = append(st.frames, root)
	for _, sp := range m.p.Pkgs {
		f := sp.Func("init")
		if f == nil || len(f.Blocks) == 0 {
			continue
		}
		rs := m.run(st, nil, f, nil)
		if len(rs) != 1 {
			m.abort("package initialiser has several outcomes")
		}
		st = rs[0].st
	}
	return st
}

func main() {
	entry := flag.String("entry", "", "debug: run one function")
	then := flag.String("then", "", "debug: then call this method on the result")
	errd := flag.String("errd", "", "debug")
	access := flag.String("access", "", "debug")
	parsers := flag.String("parsers", "", "debug")
	prop := flag.String("property", "", "decide this property and exit")
	flag.Parse()
	if *prop != "" {
		os.Exit(check(*prop))
	}
	if pf := os.Getenv("VERIF_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	debug.SetGCPercent(800)
	t0 := time.Now()
	p, err := loadProgram()
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0))
	m := newMachine(p)
	t0 = time.Now()
	st := m.initState()
	fmt.Println("init", time.Since(t0), "heap", len(st.heap))
	if *errd != "" {
		for _, c := range p.droppedErrors(*errd) {
			fmt.Println(shortPos(p.Prog.Fset.Position(c.Pos()).String()), c.String())
		}
		return
	}
	if *access != "" {
		debugAccess(p, *access)
		return
	}
	if *parsers != "" {
		debugParsers(p, *parsers)
		return
	}
	if *entry == "" {
		return
	}
	fn := p.fn(*entry)
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(1)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(abortErr); ok {
					fmt.Println("ABORT", a.why, m.trace())
					return
				}
				panic(r)
			}
		}()
		if os.Getenv("VERIF_MEMO") != "" {
			m.memo = newMemo()
		}
		var args []*Val
		for _, pa := range fn.Params {
			v := m.topVal(st, pa.Type())
			if v.K == KPtr || v.K == KIface {
				v.Nil = false
			}
			args = append(args, v)
		}
		t0 = time.Now()
		rs := m.run(st, nil, fn, args)
		for _, r := range rs {
			fmt.Println("RET", r.ret)
			if *then != "" {
				pt := fn.Signature.Results().At(0).Type()
				sel := p.Prog.MethodSets.MethodSet(pt).Lookup(fn.Pkg.Pkg, *then)
				mf := p.Prog.MethodValue(sel)
				for _, r2 := range m.run(r.st, nil, mf, []*Val{r.ret}) {
					fmt.Println("  RET", r2.ret)
				}
			}
		}
	}()
	fmt.Println("run", time.Since(t0), "steps", m.steps)
	if m.memo != nil {
		fmt.Println("memo hits", m.memo.hits, "miss", m.memo.miss)
	}
	m.report()
}

func (m *Machine) report() {
	ok, bad := 0, 0
	for _, s := range m.sortedSites() {
		if s.Bad > 0 {
			bad++
			fmt.Printf("BAD %s %s ok=%d bad=%d\n     %s\n", s.Key, s.Pos, s.Ok, s.Bad, s.Trace)
		} else {
			ok++
		}
	}
	fmt.Println("sites ok", ok, "bad", bad)
	var ks []string
	for k := range m.loopsV {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		l := m.loopsV[k]
		fmt.Printf("LOOP %s %s ok=%d bad=%d %s\n", k, l.Pos, l.Ok, l.Bad, l.Why)
		if l.Bad > 0 {
			fmt.Printf("     %s\n", l.Trace)
		}
	}
	for k, n := range m.unmod {
		fmt.Println("UNMODELLED", k, n)
	}
}
