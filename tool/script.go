package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A script follows a few objects, held in slots, through a history of calls
// on every path the calls have.
type script struct {
	p   *Program
	m   *Machine
	ss  []*State
	ty  map[string]types.Type // what the slots hold
	n   int
	why string

	refused string // where the error of the last call that failed was made
}

func (p *Program) script(m *Machine, st *State) *script {
	return &script{p: p, m: m, ss: []*State{st.clone()}, ty: map[string]types.Type{}}
}

// fork is a copy that goes its own way.
func (c *script) fork() *script {
	d := &script{p: c.p, m: c.m, ty: map[string]types.Type{}, n: c.n, why: c.why}
	for _, s := range c.ss {
		d.ss = append(d.ss, s.clone())
	}
	for k, t := range c.ty {
		d.ty[k] = t
	}
	return d
}

func (c *script) fail(f string, a ...interface{}) {
	if c.why == "" {
		c.why = fmt.Sprintf(f, a...)
	}
}

// named finds a type of the program: "header.Via".
func (p *Program) named(name string) *types.Named {
	for _, t := range p.messageTypes() {
		if typeName(t) == name {
			return t
		}
	}
	return nil
}

// make puts a new object into a slot, with depth >= 0 filled in.
func (c *script) make(slot, typ string, depth int) {
	t := c.p.named(typ)
	if t == nil {
		c.fail("there is no type %s", typ)
		c.ss = nil
		return
	}
	c.ty[slot] = types.NewPointer(t)
	var next []*State
	for _, s := range c.ss {
		rs := c.p.newObj(c.m, s.clone(), t, slot)
		if len(rs) == 0 {
			c.fail("no %s is ever made", typ)
			continue
		}
		s := rs[0].st
		c.m.hold(s, slot, rs[0].ret)
		if depth >= 0 {
			c.m.as(slot, func() { s = c.p.fill(c.m, s, slot, c.p.accessors(t), depth) })
		}
		next = append(next, s)
	}
	c.ss = next
}

// put keeps a value in a slot.
func (c *script) put(slot string, t types.Type, f func(s *State) *Val) {
	c.ty[slot] = t
	for _, s := range c.ss {
		c.m.hold(s, slot, f(s))
	}
}

func (c *script) text(slot string) {
	c.put(slot, types.Typ[types.String], func(s *State) *Val { return c.m.strLen(c.m.newNum(s, 1, maxLen)) })
}

func (c *script) num(slot string, lo, hi int64) {
	c.put(slot, types.Typ[types.Int], func(s *State) *Val { return &Val{K: KNum, N: c.m.newNum(s, lo, hi)} })
}

// lit is an argument given literally.
type lit string

// arg is the value for a parameter: the name of a slot, a literal, a value.
func (c *script) arg(s *State, a interface{}, t types.Type) *Val {
	switch a := a.(type) {
	case string:
		v := c.m.held(s, a)
		if _, ok := t.Underlying().(*types.Interface); ok && v.K != KIface {
			return &Val{K: KIface, Alts: []Alt{{c.ty[a], v}}}
		}
		return v
	case lit:
		return litVal(string(a))
	case int:
		return &Val{K: KNum, N: cnum(int64(a))}
	case bool:
		return boolVal(a)
	case nil:
		return c.m.zeroVal(t)
	}
	return a.(*Val)
}

// target is the method of what a slot holds, and the receiver.
func (c *script) target(s *State, slot, name string) (*ssa.Function, *Val) {
	v := c.m.held(s, slot)
	t := c.ty[slot]
	if v == nil {
		return nil, nil
	}
	if v.K == KIface {
		if len(v.Alts) != 1 || v.Unk {
			return nil, nil
		}
		t, v = v.Alts[0].T, v.Alts[0].V
	}
	return c.p.method(t, name), v
}

// call calls a method of the object in slot recv; the first result goes to
// slot out.
func (c *script) call(out, recv, name string, args ...interface{}) {
	c.n++
	var next []*State
	for i, s := range c.ss {
		s := s.clone()
		f, r := c.target(s, recv, name)
		if f == nil {
			c.fail("%s of %s is not known", name, recv)
			continue
		}
		if f.Signature.Params().Len() != len(args) {
			c.fail("%s takes %d arguments", name, f.Signature.Params().Len())
			continue
		}
		vs := []*Val{r}
		for j, a := range args {
			vs = append(vs, c.arg(s, a, f.Signature.Params().At(j).Type()))
		}
		var rs []Result
		if os.Getenv("VERIF_SCRIPT") != "" {
			fmt.Println(name, "of", recv, "in state", i, "of", len(c.ss), "after", c.m.steps, "steps")
		}
		c.m.as(fmt.Sprint(name, c.n, "-", i), func() { rs = c.m.do(s, f, vs...) })
		for _, r := range rs {
			if out != "" {
				v := firstResult(f.Signature, r.ret)
				if v == nil {
					c.fail("%s returns nothing", name)
					continue
				}
				c.m.hold(r.st, out, v)
				c.ty[out] = f.Signature.Results().At(0).Type()
			}
			if f.Signature.Results().Len() > 0 && !succeeded(f.Signature, r.ret) {
				c.m.hold(r.st, "failed", boolVal(true))
				c.refused = errorSite(r.ret)
			} else {
				c.m.hold(r.st, "failed", boolVal(false))
			}
			next = append(next, r.st)
		}
	}
	if len(next) == 0 {
		c.fail("%s never returns", name)
	}
	c.ss = next
}

// errorSite says where an error was made, when that is known.
func errorSite(ret *Val) string {
	if ret.K == KTuple {
		ret = ret.El[len(ret.El)-1]
	}
	if ret.Site == "" {
		return ""
	}
	return " by " + ret.Site
}

// accepted drops the paths on which the last call reported an error.
func (c *script) accepted() {
	var next []*State
	for _, s := range c.ss {
		if c.m.held(s, "failed").B == 0 {
			next = append(next, s)
		}
	}
	if len(next) == 0 {
		c.fail("it is never accepted")
	}
	c.ss = next
}

// first goes on with one path only.
func (c *script) first() {
	if len(c.ss) > 1 {
		c.ss = c.ss[:1]
	}
}

// each checks every state.
func (c *script) each(f func(s *State) string) {
	for _, s := range c.ss {
		if why := f(s); why != "" {
			c.fail("%s", why)
		}
	}
}

// same checks that two slots hold the same value.
func (c *script) same(what, got, want string) {
	c.each(func(s *State) string {
		a, b := c.m.held(s, got), c.m.held(s, want)
		if !same(s, a, b) {
			return fmt.Sprintf("%s is %v instead of %v", what, a, b)
		}
		return ""
	})
}

// is checks that a slot holds a constant: nil, a text, a number, a truth value.
func (c *script) is(what, got string, want interface{}) {
	c.each(func(s *State) string {
		v := c.m.held(s, got)
		ok := false
		switch w := want.(type) {
		case nil:
			ok = v.definitelyNil()
		case string:
			ok = same(s, v, litVal(w))
		case int:
			ok = same(s, v, &Val{K: KNum, N: cnum(int64(w))})
		case bool:
			ok = same(s, v, boolVal(w))
		}
		if !ok {
			return fmt.Sprintf("%s is %v instead of %v", what, v, want)
		}
		return ""
	})
}

// reads calls a method and compares its result with a slot.
func (c *script) reads(recv, name, want string) {
	d := c.fork()
	d.call("got", recv, name)
	d.same(name+"()", "got", want)
	c.fail2(d)
}

// readsIs calls a method and compares its result with a constant.
func (c *script) readsIs(recv, name string, want interface{}) {
	d := c.fork()
	d.call("got", recv, name)
	d.is(name+"()", "got", want)
	c.fail2(d)
}

func (c *script) fail2(d *script) {
	if d.why != "" {
		c.fail("%s", d.why)
	}
}

// elements are the members of a list value, if they are known one by one.
func elements(s *State, v *Val) ([]*Val, bool) {
	v = pointee(v)
	if v.definitelyNil() {
		return nil, true
	}
	if v.K == KPtr && len(v.Refs) == 1 && !v.Nil && !v.Unk {
		o := s.heap[v.Refs[0].Obj]
		if o == nil || o.Sum {
			return nil, false
		}
		v = o.V
	}
	for v.K == KStruct {
		var next *Val
		for _, e := range v.El {
			if e.K == KList || e.K == KStruct && findList(e) {
				next = e
				break
			}
		}
		if next == nil {
			return nil, false
		}
		v = next
	}
	if v.K != KList || !exactList(v) {
		return nil, false
	}
	return v.El, true
}

func findList(v *Val) bool {
	for _, e := range v.El {
		if e.K == KList || e.K == KStruct && findList(e) {
			return true
		}
	}
	return false
}

// texts is the text of slots and literals one after the other.
func (c *script) texts(s *State, parts ...interface{}) []Atom {
	return settle(c.piece(s, parts))
}

// textIs checks the text in a slot.
func (c *script) textIs(what, got string, parts ...interface{}) {
	c.each(func(s *State) string {
		g, w := settle(pointee(c.m.held(s, got)).At), c.texts(s, parts...)
		if atomsString(g) != atomsString(w) && !sameText(s, g, w) {
			return fmt.Sprintf("%s is %s instead of %s", what, atomsString(g), atomsString(w))
		}
		return ""
	})
}

// piece is the text of a literal, of what a slot holds, or of several of them.
func (c *script) piece(s *State, x interface{}) []Atom {
	switch x := x.(type) {
	case lit:
		return []Atom{{Lit: string(x)}}
	case string:
		v := pointee(c.m.held(s, x))
		if v.K == KNum {
			return c.m.itoa(s, v.N, "dec").At
		}
		return v.At
	case upperOf:
		v := &Val{K: KStr, N: c.m.newNum(s, 0, maxLen), At: c.piece(s, x.x)}
		return caseModel(strings.ToUpper, "upper")(c.m, s, nil, []*Val{v})[0].ret.At
	case []interface{}:
		var at []Atom
		for _, y := range x {
			at = append(at, c.piece(s, y)...)
		}
		return at
	}
	return nil
}

// line is a text of slots and literals.
func line(parts ...interface{}) []interface{} { return parts }

// lines checks that the message in a slot is written as the given lines, in
// any order; the request line and the status line are lines, too.
func (c *script) lines(msg string, want ...interface{}) {
	d := c.fork()
	d.call("lines", msg, "GetMessageAsEncodedStrings")
	d.each(func(s *State) string {
		es, ok := elements(s, d.m.held(s, "lines"))
		if !ok {
			return "the lines of " + msg + " are not known"
		}
		var got, exp []string
		for _, e := range es {
			got = append(got, atomsString(settle(pointee(e).At)))
		}
		for _, w := range want {
			exp = append(exp, atomsString(settle(d.piece(s, w))))
		}
		sort.Strings(got)
		sort.Strings(exp)
		for i := 0; i < len(got) || i < len(exp); i++ {
			if i >= len(got) || i < len(exp) && exp[i] < got[i] {
				return fmt.Sprintf("the line %s is missing", exp[i])
			}
			if i >= len(exp) || got[i] < exp[i] {
				return fmt.Sprintf("there is an unexpected line %s", got[i])
			}
		}
		return ""
	})
	c.fail2(d)
}

// lower puts the text of its parts, in lower case, into a slot.
func (c *script) lower(out string, parts ...interface{}) {
	c.ty[out] = types.Typ[types.String]
	for _, s := range c.ss {
		at := settle(c.piece(s, line(parts...)))
		v := &Val{K: KStr, N: c.m.newNum(s, 0, maxLen), At: at}
		c.m.hold(s, out, caseModel(strings.ToLower, "lower")(c.m, s, nil, []*Val{v})[0].ret)
	}
}
