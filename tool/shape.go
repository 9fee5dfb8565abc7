package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The shape interpreter is a second abstract interpreter, for code that moves
// bytes and bits about: the lengths of slices and texts are constants (the
// shapes are enumerated), their contents are arbitrary. Every number is a row
// of bits, and a bit is 0, 1, or a particular bit of the input (or of an
// operation on the input that is not followed bit by bit; equal operations on
// equal operands are the same bits). Sums are kept as linear forms. Where a
// condition is not decided by this, both ways are followed.

type bit int32 // 0, 1, or a symbol

type bvec []bit // least significant first; a boolean is one bit

type bcell struct{ v interface{} }

type bstruct struct{ f []*bcell }

type barr struct{ el []*bcell }

type bptr struct{ c *bcell } // nil: c == nil

type bslice struct {
	arr           *barr
	off, len, cap int
}

type bstr []bvec

type biface struct {
	t types.Type
	v interface{}
}

type bfunc struct {
	fn   *ssa.Function
	bind []interface{}
}

type btuple []interface{}

type bmap struct {
	keys []interface{}
	vals []interface{}
	t    *types.Map
}

type bopaque struct{ what string }

// bstub is an object outside the program.
type bstub struct {
	method string
	call   func(method string, args []interface{}) interface{}
}

// shapeStop ends the run of one way through the code.
type shapeStop struct {
	why   string
	crash bool // the program itself stops here
}

type linForm struct {
	c    uint64
	term map[string]uint64 // vector key -> coefficient
}

// orderFact: a is below (-1), equal to (0), above (1) or not equal to (2) b.
type orderFact struct {
	a, b   bvec
	o      int
	signed bool
}

// ordered looks for what is known about a and b.
func (m *shape) ordered(a, b bvec, signed bool) (int, bool) {
	best, ok := 0, false
	for _, f := range m.order {
		x, y := m.res(f.a), m.res(f.b)
		o := f.o
		if !(sameVec(x, a) && sameVec(y, b)) {
			if !(sameVec(x, b) && sameVec(y, a)) {
				continue
			}
			if o != 2 {
				o = -o
			}
		}
		if (o == 1 || o == -1) && f.signed != signed {
			o = 2
		}
		if !ok || best == 2 {
			best, ok = o, true
		}
	}
	return best, ok
}

type shape struct {
	p       *Program
	next    bit
	memo    map[string]bvec
	lin     map[string]*linForm
	vecs    map[string]bvec
	sub     map[bit]bit
	classes map[bit]*byteSet // by the first bit of a byte
	order   []orderFact
	plan    []int // the choices to make
	made    []int // the choices made
	ways    []int // how many there were
	globals map[*ssa.Global]*bcell
	steps   int
	depth   int
	model   func(m *shape, fn *ssa.Function, args []interface{}) (interface{}, bool)
	watch   map[*bcell]bool
	event   func(kind string, c *bcell, in ssa.Instruction)
	stack   []*ssa.Function
	opaque  map[bit]bool // bits of operations that are not followed
	derived map[bit]bool // bits of any operation
	bounds  map[string]*[2]uint64
	buffers map[*bcell][]bvec // the contents of bytes.Buffers and strings.Builders
	guess   bool              // a way was chosen that may not exist
}

var fullMu sync.Mutex

// full is the program with the bodies of the packages it imports.
func (p *Program) full() *ssa.Program {
	fullMu.Lock()
	defer fullMu.Unlock()
	if p.all == nil {
		prog, _ := ssautil.AllPackages(p.Info, ssa.InstantiateGenerics)
		prog.Build()
		p.all = prog
	}
	return p.all
}

func (p *Program) fullFunc(pkg, name string) *ssa.Function {
	sp := p.full().ImportedPackage(modPath + "/" + pkg)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

func (p *Program) fullType(pkg, name string) types.Type {
	sp := p.full().ImportedPackage(modPath + "/" + pkg)
	if sp == nil || sp.Type(name) == nil {
		return nil
	}
	return sp.Type(name).Type()
}

func (m *shape) stop(f string, a ...interface{}) {
	at := ""
	if n := len(m.stack); n > 0 {
		at = " in " + fnName(m.stack[n-1])
	}
	panic(shapeStop{fmt.Sprintf(f, a...) + at, false})
}

func (m *shape) crash(f string, a ...interface{}) {
	at := ""
	if n := len(m.stack); n > 0 {
		at = " in " + fnName(m.stack[n-1])
	}
	panic(shapeStop{"the code stops: " + fmt.Sprintf(f, a...) + at, true})
}

// shapeRuns interprets f along every way through the code. crash says how the
// code itself stops on one of them, stuck why the analysis does.
func shapeRuns(p *Program, f func(m *shape)) (ways int, crash, stuck string) {
	plan := []int{}
	for {
		m := &shape{p: p, next: 2, memo: map[string]bvec{}, lin: map[string]*linForm{}, vecs: map[string]bvec{}, sub: map[bit]bit{},
			classes: map[bit]*byteSet{}, plan: plan, globals: map[*ssa.Global]*bcell{}, watch: map[*bcell]bool{}, opaque: map[bit]bool{}, derived: map[bit]bool{}, bounds: map[string]*[2]uint64{}, buffers: map[*bcell][]bvec{}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(shapeStop); ok {
						if s.crash {
							crash = s.why
						} else {
							stuck = s.why
						}
						return
					}
					at := ""
					if n := len(m.stack); n > 0 {
						at = " in " + fnName(m.stack[n-1])
					}
					stuck = fmt.Sprint("internal: ", r, at)
				}
			}()
			f(m)
		}()
		ways++
		if crash != "" {
			return
		}
		if ways > 4000 {
			stuck = "too many ways through the code"
			return
		}
		// next plan
		i := len(m.made) - 1
		for i >= 0 && m.made[i]+1 >= m.ways[i] {
			i--
		}
		if i < 0 {
			return
		}
		plan = append(append([]int{}, m.made[:i]...), m.made[i]+1)
	}
}

// guessing notes that a choice is made about the result of an operation,
// which other choices may already have settled.
func (m *shape) guessing(vs ...bvec) {
	for _, v := range vs {
		for _, b := range v {
			if m.derived[b] || m.opaque[b] {
				m.guess = true
			}
		}
	}
}

func (m *shape) choose(n int) int {
	k := len(m.made)
	c := 0
	if k < len(m.plan) {
		c = m.plan[k]
	}
	m.made = append(m.made, c)
	m.ways = append(m.ways, n)
	return c
}

func (m *shape) bitOf(b bit) bit {
	for b > 1 {
		c, ok := m.sub[b]
		if !ok {
			return b
		}
		b = c
	}
	return b
}

func (m *shape) res(v bvec) bvec {
	if len(m.sub) == 0 {
		return v
	}
	out := make(bvec, len(v))
	for i, b := range v {
		out[i] = m.bitOf(b)
	}
	return out
}

func (m *shape) fresh(n int) bvec {
	v := make(bvec, n)
	for i := range v {
		v[i] = m.next
		m.next++
	}
	return v
}

// char is an arbitrary byte out of a set.
func (m *shape) char(set byteSet) bvec {
	v := m.fresh(8)
	s := set
	m.classes[v[0]] = &s
	for i := 1; i < 8; i++ {
		v[i] = setBit(&s, i, v[i])
	}
	return v
}

// setBit is bit i of the bytes of a set, when they agree on it.
func setBit(s *byteSet, i int, b bit) bit {
	n := [2]bool{}
	for c := int64(0); c < 256; c++ {
		if s.has(c) {
			n[c>>uint(i)&1] = true
		}
	}
	if n[0] && n[1] {
		return b
	}
	if n[0] {
		return 0
	}
	return 1
}

func cvec(x uint64, n int) bvec {
	v := make(bvec, n)
	for i := range v {
		if i < 64 {
			v[i] = bit(x >> uint(i) & 1)
		}
	}
	return v
}

func (v bvec) konst() (uint64, bool) {
	var x uint64
	for i, b := range v {
		if b > 1 {
			return 0, false
		}
		x |= uint64(b) << uint(i)
	}
	return x, true
}

func signedK(x uint64, n int, signed bool) int64 {
	if signed && n < 64 && x>>uint(n-1)&1 == 1 {
		return int64(x | ^uint64(0)<<uint(n))
	}
	return int64(x)
}

func (v bvec) key() string {
	var sb strings.Builder
	for _, b := range v {
		fmt.Fprintf(&sb, "%x,", int32(b))
	}
	return sb.String()
}

func sameVec(a, b bvec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// byteSetOf: v is a byte of a known set (in its low eight bits).
func (m *shape) byteSetOf(v bvec) *byteSet {
	if len(v) < 8 || v[0] <= 1 {
		return nil
	}
	s := m.classes[v[0]]
	if s == nil {
		return nil
	}
	for i := 1; i < len(v); i++ {
		if i < 8 && v[i] != v[0]+bit(i) && !(v[i] <= 1 && setBit(s, i, 2) == v[i]) || i >= 8 && v[i] != 0 {
			return nil
		}
	}
	return s
}

// byteFunc: v is a function of one byte of a known set, whose first bit is base.
func (m *shape) byteFunc(v bvec, deep int) (base bit, f func(c int64) uint64, ok bool) {
	if len(v) > 64 || deep > 3 {
		return 0, nil, false
	}
	mask := ^uint64(0) >> uint(64-len(v))
	if l := m.lin[v.key()]; l != nil {
		type part struct {
			f func(c int64) uint64
			k uint64
		}
		var ps []part
		for t, k := range l.term {
			b, g, ok := m.byteFunc(m.res(m.vecs[t]), deep+1)
			if !ok || base != 0 && b != 0 && b != base {
				return 0, nil, false
			}
			if b != 0 {
				base = b
			}
			ps = append(ps, part{g, k})
		}
		k := l.c
		return base, func(c int64) uint64 {
			x := k
			for _, p := range ps {
				x += p.k * p.f(c)
			}
			return x & mask
		}, true
	}
	from := make([]int, len(v))
	for i, b := range v {
		if b <= 1 {
			continue
		}
		j := 0
		for j < 8 && (b-bit(j) <= 1 || m.classes[b-bit(j)] == nil) {
			j++
		}
		if j == 8 || base != 0 && base != b-bit(j) {
			return 0, nil, false
		}
		base, from[i] = b-bit(j), j
	}
	return base, func(c int64) uint64 {
		var x uint64
		for i, b := range v {
			if b > 1 {
				b = bit(c >> uint(from[i]) & 1)
			}
			x |= uint64(b) << uint(i)
		}
		return x
	}, true
}

// byteRelation decides a relation between functions of one byte of a known set.
func (m *shape) byteRelation(a, b bvec, rel func(x, y uint64) bool) (r, ok bool) {
	p, f, ok := m.byteFunc(a, 0)
	if !ok {
		return false, false
	}
	q, g, ok := m.byteFunc(b, 0)
	if !ok || p != 0 && q != 0 && p != q || p == 0 && q == 0 {
		return false, false
	}
	if p == 0 {
		p = q
	}
	var sets [2]byteSet
	var some [2]bool
	for c := int64(0); c < 256; c++ {
		if m.classes[p].has(c) {
			i := 0
			if rel(f(c), g(c)) {
				i = 1
			}
			sets[i].put(c)
			some[i] = true
		}
	}
	if some[0] && some[1] {
		r = m.choose(2) == 0
	} else {
		r = some[1]
	}
	i := 0
	if r {
		i = 1
	}
	m.classes[p] = &sets[i]
	n := 0
	for c := int64(0); c < 256; c++ {
		if sets[i].has(c) {
			n++
		}
	}
	for j := 0; j < 8; j++ {
		if j == 0 && n > 1 {
			continue // the first bit stands for the byte
		}
		if x := setBit(&sets[i], j, 2); x <= 1 {
			if _, done := m.sub[p+bit(j)]; !done {
				m.bind(p+bit(j), x == 1)
			}
		}
	}
	return r, true
}

func (m *shape) term(key string, n int) bvec {
	if v, ok := m.memo[key]; ok {
		return v
	}
	v := m.fresh(n)
	m.memo[key] = v
	for _, b := range v {
		m.derived[b] = true
	}
	return v
}

// unknown is the result of an operation that is not followed.
func (m *shape) unknown(key string, n int) bvec {
	v := m.term(key, n)
	for _, b := range v {
		m.opaque[b] = true
	}
	return v
}

func width(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 1, false
	case types.Int8:
		return 8, true
	case types.Uint8:
		return 8, false
	case types.Int16:
		return 16, true
	case types.Uint16:
		return 16, false
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

// ---- arithmetic

func (m *shape) formOf(v bvec) *linForm {
	if k, ok := v.konst(); ok {
		return &linForm{c: k}
	}
	if f, ok := m.lin[v.key()]; ok {
		return f
	}
	m.vecs[v.key()] = v
	return &linForm{term: map[string]uint64{v.key(): 1}}
}

func (m *shape) ofForm(f *linForm, n int) bvec {
	mask := ^uint64(0)
	if n < 64 {
		mask = 1<<uint(n) - 1
	}
	f.c &= mask
	var ks []string
	for k, c := range f.term {
		if c&mask == 0 {
			delete(f.term, k)
			continue
		}
		f.term[k] = c & mask
		ks = append(ks, k)
	}
	if len(ks) == 0 {
		return cvec(f.c, n)
	}
	sort.Strings(ks)
	if len(ks) == 1 && f.c == 0 && f.term[ks[0]] == 1 && len(m.vecs[ks[0]]) == n {
		return m.vecs[ks[0]]
	}
	key := fmt.Sprintf("lin%d %d", n, f.c)
	for _, k := range ks {
		key += fmt.Sprintf("+%d*%s", f.term[k], k)
	}
	v := m.term(key, n)
	for _, k := range ks {
		for _, b := range m.vecs[k] {
			if m.opaque[b] {
				for _, c := range v {
					m.opaque[c] = true
				}
			}
		}
	}
	m.lin[v.key()] = f
	m.vecs[v.key()] = v
	return v
}

func (m *shape) addVec(a, b bvec, sign uint64) bvec {
	n := len(a)
	if sign == 1 {
		// without a carry
		disjoint := true
		out := make(bvec, n)
		for i := range a {
			if a[i] != 0 && b[i] != 0 {
				disjoint = false
				break
			}
			out[i] = a[i] | b[i]
		}
		if disjoint {
			return out
		}
	}
	x, y := m.formOf(a), m.formOf(b)
	f := &linForm{c: x.c + sign*y.c, term: map[string]uint64{}}
	for k, c := range x.term {
		f.term[k] += c
	}
	for k, c := range y.term {
		f.term[k] += sign * c
	}
	return m.ofForm(f, n)
}

func (m *shape) mulVec(a, b bvec) bvec {
	n := len(a)
	k, ok := b.konst()
	if !ok {
		a, b = b, a
		k, ok = b.konst()
	}
	if !ok {
		ka, kb := a.key(), b.key()
		if ka > kb {
			ka, kb = kb, ka
		}
		return m.unknown("mul "+ka+" "+kb, n)
	}
	if k == 0 {
		return cvec(0, n)
	}
	for i := 0; i < 64; i++ {
		if k == 1<<uint(i) {
			return shiftVec(a, i, false)
		}
	}
	x := m.formOf(a)
	f := &linForm{c: x.c * k, term: map[string]uint64{}}
	for t, c := range x.term {
		f.term[t] = c * k
	}
	return m.ofForm(f, n)
}

// shiftVec shifts left by n, or right by -n.
func shiftVec(a bvec, n int, signed bool) bvec {
	out := make(bvec, len(a))
	for i := range a {
		j := i - n
		switch {
		case j >= 0 && j < len(a):
			out[i] = a[j]
		case j >= len(a) && signed:
			out[i] = a[len(a)-1]
		}
	}
	return out
}

func (m *shape) logic(op token.Token, a, b bit) bit {
	switch op {
	case token.AND:
		switch {
		case a == 0 || b == 0:
			return 0
		case a == 1 || a == b:
			return b
		case b == 1:
			return a
		}
	case token.OR:
		switch {
		case a == 1 || b == 1:
			return 1
		case a == 0 || a == b:
			return b
		case b == 0:
			return a
		}
	case token.XOR:
		switch {
		case a == b:
			return 0
		case a == 0:
			return b
		case b == 0:
			return a
		case a == 1:
			return m.notBit(b)
		case b == 1:
			return m.notBit(a)
		}
	case token.AND_NOT:
		return m.logic(token.AND, a, m.notBit(b))
	}
	if a > b {
		a, b = b, a
	}
	if m.opaque[a] || m.opaque[b] {
		return m.unknown(fmt.Sprintf("%s %d %d", op, a, b), 1)[0]
	}
	return m.term(fmt.Sprintf("%s %d %d", op, a, b), 1)[0]
}

func (m *shape) notBit(a bit) bit {
	if a <= 1 {
		return 1 - a
	}
	v := m.term(fmt.Sprintf("not %d", a), 1)
	if m.opaque[a] {
		m.opaque[v[0]] = true
	}
	if _, ok := m.memo[fmt.Sprintf("not %d", v[0])]; !ok {
		m.memo[fmt.Sprintf("not %d", v[0])] = bvec{a}
	}
	return v[0]
}

// decide asks for the value of a condition.
func (m *shape) decide(b bit) bool {
	b = m.bitOf(b)
	if b <= 1 {
		return b == 1
	}
	if r, ok := m.byteRelation(bvec{b}, bvec{1}, func(x, y uint64) bool { return x == y }); ok {
		return r
	}
	m.guessing(bvec{b})
	r := m.choose(2) == 0
	m.bind(b, r)
	return r
}

func (m *shape) bind(b bit, v bool) {
	x := bit(0)
	if v {
		x = 1
	}
	b = m.bitOf(b)
	if b <= 1 {
		return
	}
	m.sub[b] = x
	if n, ok := m.memo[fmt.Sprintf("not %d", b)]; ok && n[0] > 1 {
		if _, done := m.sub[n[0]]; !done {
			m.sub[n[0]] = 1 - x
		}
	}
}

// compare decides the order of two numbers: -1, 0, 1. want restricts what
// matters: with "eq" only equality is decided (0 or 2).
func (m *shape) equalVec(a, b bvec) bool {
	a, b = m.res(a), m.res(b)
	if len(a) != len(b) {
		return false
	}
	if sameVec(a, b) {
		return true
	}
	for i := range a {
		if a[i] <= 1 && b[i] <= 1 && a[i] != b[i] {
			return false
		}
	}
	if k, ok := b.konst(); ok {
		if s := m.byteSetOf(a); s != nil {
			if k > 255 || !s.has(int64(k)) {
				return false
			}
			n := 0
			for c := 0; c < 256; c++ {
				if s.has(int64(c)) {
					n++
				}
			}
			if n == 1 {
				return true
			}
			r := m.choose(2) == 0
			var t byteSet
			for c := 0; c < 256; c++ {
				if s.has(int64(c)) && (c == int(k)) == r {
					t.put(int64(c))
				}
			}
			if r {
				for i := 0; i < 8; i++ {
					m.bind(a[i], k>>uint(i)&1 == 1)
				}
			} else {
				m.classes[a[0]] = &t
			}
			return r
		}
	} else if _, ok := a.konst(); ok {
		return m.equalVec(b, a)
	}
	if r, ok := m.byteRelation(a, b, func(x, y uint64) bool { return x == y }); ok {
		return r
	}
	// one bit that decides it?
	var open []int
	for i := range a {
		if a[i] != b[i] {
			open = append(open, i)
		}
	}
	x0, y0 := a, b
	for len(x0) > 1 && x0[len(x0)-1] == 0 && y0[len(y0)-1] == 0 {
		x0, y0 = x0[:len(x0)-1], y0[:len(y0)-1]
	}
	if o, ok := m.ordered(x0, y0, false); ok {
		return o == 0
	}
	if len(a) <= 64 {
		amin, amax := m.boundsOf(a)
		bmin, bmax := m.boundsOf(b)
		if amax < bmin || bmax < amin {
			return false
		}
		if amin == amax && bmin == bmax {
			return true
		}
		if k, ok := b.konst(); ok && !(m.lin[a.key()] != nil && !m.freeForm(a)) && (k == amin || k == amax) {
			// at the edge of what is known
			if m.bounds[stripped(a).key()] != nil {
				r := m.choose(2) == 0
				switch {
				case r:
					amin, amax = k, k
				case k == amin:
					amin++
				default:
					amax--
				}
				m.bounds[stripped(a).key()] = &[2]uint64{amin, amax}
				return r
			}
		}
	}
	if sa, sb := m.byteSetOf(a), m.byteSetOf(b); sa != nil && sb != nil {
		both := false
		for c := int64(0); c < 256; c++ {
			both = both || sa.has(c) && sb.has(c)
		}
		if !both {
			return false
		}
	}
	m.guessing(a, b)
	if len(open) == 1 && (a[open[0]] <= 1 || b[open[0]] <= 1) {
		x, y := a[open[0]], b[open[0]]
		if x <= 1 {
			x, y = y, x
		}
		r := m.choose(2) == 0
		m.bind(x, (y == 1) == r)
		return r
	}
	r := m.choose(2) == 0
	if r {
		sa, sb := m.byteSetOf(a), m.byteSetOf(b)
		for _, i := range open {
			x, y := m.bitOf(a[i]), m.bitOf(b[i])
			if x <= 1 {
				x, y = y, x
			}
			if x > 1 && x != y {
				m.sub[x] = y
			}
		}
		if sa != nil || sb != nil {
			var t byteSet
			for c := int64(0); c < 256; c++ {
				if (sa == nil || sa.has(c)) && (sb == nil || sb.has(c)) {
					t.put(c)
				}
			}
			if v := m.res(a); v[0] > 1 {
				m.classes[v[0]] = &t
			}
		}
	} else {
		m.order = append(m.order, orderFact{x0, y0, 2, false})
	}
	return r
}

// less decides a < b.
func (m *shape) less(a, b bvec, signed bool) bool {
	a, b = m.res(a), m.res(b)
	if sameVec(a, b) {
		return false
	}
	if r, ok := m.byteRelation(a, b, func(x, y uint64) bool {
		if signed {
			return signedK(x, len(a), true) < signedK(y, len(a), true)
		}
		return x < y
	}); ok {
		return r
	}
	lo := func(v bvec, one bit) uint64 {
		var x uint64
		for i, c := range v {
			if c > 1 {
				c = one
				if signed && i == len(v)-1 {
					c = 1 - one
				}
			}
			x |= uint64(c) << uint(i)
		}
		return x
	}
	s := func(x uint64) int64 {
		return signedK(x, len(a), signed)
	}
	lt := func(x, y uint64) bool {
		if signed {
			return s(x) < s(y)
		}
		return x < y
	}
	amin, amax, bmin, bmax := lo(a, 0), lo(a, 1), lo(b, 0), lo(b, 1)
	if !signed || a[len(a)-1] == 0 && b[len(b)-1] == 0 {
		amin, amax = m.boundsOf(a)
		bmin, bmax = m.boundsOf(b)
	}
	if k, ok := b.konst(); ok && k == 0 && signed {
		// x-y < 0
		if f, ok := m.lin[a.key()]; ok && f.c == 0 && len(f.term) == 2 {
			var x, y bvec
			for t, c := range f.term {
				v := m.vecs[t]
				if len(v) == 0 || v[len(v)-1] != 0 {
					x, y = nil, nil
					break
				}
				if c == 1 {
					x = v
				} else if c == ^uint64(0)>>uint(64-len(a)) {
					y = v
				}
			}
			if x != nil && y != nil {
				return m.less(m.res(x), m.res(y), true)
			}
		}
	}
	edge := func(v bvec, mn, mx *uint64) {
		if set := m.byteSetOf(v); set != nil {
			first := true
			for c := 0; c < 256; c++ {
				if set.has(int64(c)) {
					if first {
						*mn = uint64(c)
						first = false
					}
					*mx = uint64(c)
				}
			}
		}
	}
	if len(a) > 8 || !signed {
		edge(a, &amin, &amax)
		edge(b, &bmin, &bmax)
	}
	if lt(amax, bmin) {
		return true
	}
	if !lt(amin, bmax) {
		return false
	}
	// a byte of a set against a constant
	for _, flip := range []bool{false, true} {
		x, y := a, b
		if flip {
			x, y = b, a
		}
		if set := m.byteSetOf(x); set != nil {
			if k, ok := y.konst(); ok {
				r := m.choose(2) == 0
				var t byteSet
				for c := 0; c < 256; c++ {
					l := lt(uint64(c), k)
					if flip {
						l = lt(k, uint64(c))
					}
					if set.has(int64(c)) && l == r {
						t.put(int64(c))
					}
				}
				m.classes[x[0]] = &t
				return r
			}
		}
	}
	// a number that is not negative against a constant
	for _, flip := range []bool{false, true} {
		x, y := a, b
		if flip {
			x, y = b, a
		}
		k, ok := y.konst()
		if !ok || signed && (x[len(x)-1] != 0 || y[len(y)-1] != 0) {
			continue
		}
		if !m.freeForm(x) {
			m.guessing(x)
		}
		mn, mx := m.boundsOf(x)
		r := m.choose(2) == 0
		switch {
		case !flip && r:
			mx = k - 1
		case !flip:
			mn = k
		case r:
			mn = k + 1
		default:
			mx = k
		}
		m.bounds[stripped(x).key()] = &[2]uint64{mn, mx}
		return r
	}
	// leading zeros do not matter
	mayBeNegative := signed && (a[len(a)-1] != 0 || b[len(b)-1] != 0)
	for len(a) > 1 && a[len(a)-1] == 0 && b[len(b)-1] == 0 {
		a, b = a[:len(a)-1], b[:len(b)-1]
	}
	o, ok := m.ordered(a, b, mayBeNegative)
	if !ok || o == 2 {
		m.guessing(a, b)
		if ok {
			o = []int{-1, 1}[m.choose(2)]
		} else {
			o = []int{-1, 0, 1}[m.choose(3)]
		}
		m.order = append(m.order, orderFact{a, b, o, mayBeNegative})
	}
	return o < 0
}

// freeForm: v is a sum of inputs of which nothing is known but where each
// lies, and where the sum lies.
func (m *shape) freeForm(v bvec) bool {
	f, ok := m.lin[v.key()]
	if !ok {
		return false
	}
	mine := map[bit]bool{}
	for t := range f.term {
		for _, b := range m.vecs[t] {
			mine[b] = b > 1
		}
	}
	var touches func(v bvec, deep int) bool
	touches = func(v bvec, deep int) bool {
		for _, b := range v {
			if mine[b] || deep > 8 || m.opaque[b] {
				return true
			}
		}
		if g, ok := m.lin[v.key()]; ok {
			for t := range g.term {
				if touches(m.vecs[t], deep+1) {
					return true
				}
			}
		} else {
			for _, b := range v {
				if m.derived[b] {
					return true
				}
			}
		}
		return false
	}
	for _, o := range m.order {
		if touches(o.a, 0) || touches(o.b, 0) {
			return false
		}
	}
	one := ^uint64(0) >> uint(64-len(v))
	for t, c := range f.term {
		if c != 1 && c != one {
			return false
		}
		for _, b := range m.vecs[t] {
			if m.derived[b] || m.opaque[b] {
				return false
			}
		}
	}
	for k := range m.bounds {
		if g, ok := m.lin[k]; ok && k != stripped(v).key() {
			for t := range g.term {
				if touches(m.vecs[t], 0) {
					return false
				}
			}
		}
	}
	return true
}

// stripped is v without leading zeros.
func stripped(v bvec) bvec {
	for len(v) > 1 && v[len(v)-1] == 0 {
		v = v[:len(v)-1]
	}
	return v
}

// boundsOf are the least and the greatest value of v, without a sign.
func (m *shape) boundsOf(v bvec) (uint64, uint64) {
	var mn, mx uint64
	for i, b := range v {
		if b == 1 {
			mn |= 1 << uint(i)
		}
		if b != 0 {
			mx |= 1 << uint(i)
		}
	}
	if f, ok := m.lin[v.key()]; ok && len(v) <= 32 {
		// a sum that does not wrap
		one := uint64(1)<<uint(len(v)) - 1
		lo, hi, plain := int64(f.c), int64(f.c), true
		if f.c > one/2 {
			lo, hi = lo-int64(one)-1, hi-int64(one)-1
		}
		for t, c := range f.term {
			x, y := m.boundsOf(m.vecs[t])
			switch c {
			case 1:
				lo, hi = lo+int64(x), hi+int64(y)
			case one:
				lo, hi = lo-int64(y), hi-int64(x)
			default:
				plain = false
			}
		}
		if plain && lo >= 0 && hi <= int64(one) {
			mn, mx = max(mn, uint64(lo)), min(mx, uint64(hi))
		}
	}
	if b, ok := m.bounds[stripped(v).key()]; ok {
		mn, mx = max(mn, b[0]), min(mx, b[1])
	}
	return mn, mx
}

// ---- values

func (m *shape) zero(t types.Type) interface{} {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return bstr{}
		case u.Info()&types.IsBoolean != 0, u.Info()&types.IsInteger != 0:
			n, _ := width(t)
			return cvec(0, n)
		}
		return bopaque{"zero " + t.String()}
	case *types.Pointer:
		return bptr{}
	case *types.Slice:
		return bslice{}
	case *types.Struct:
		s := &bstruct{}
		for i := 0; i < u.NumFields(); i++ {
			s.f = append(s.f, &bcell{m.zero(u.Field(i).Type())})
		}
		return s
	case *types.Array:
		a := &barr{}
		for i := int64(0); i < u.Len(); i++ {
			a.el = append(a.el, &bcell{m.zero(u.Elem())})
		}
		return a
	case *types.Interface:
		return biface{}
	case *types.Map:
		return (*bmap)(nil)
	case *types.Signature:
		return bfunc{}
	}
	return bopaque{"zero " + t.String()}
}

func copyShape(v interface{}) interface{} {
	switch x := v.(type) {
	case *bstruct:
		n := &bstruct{}
		for _, c := range x.f {
			n.f = append(n.f, &bcell{copyShape(c.v)})
		}
		return n
	case *barr:
		n := &barr{}
		for _, c := range x.el {
			n.el = append(n.el, &bcell{copyShape(c.v)})
		}
		return n
	}
	return v
}

func (m *shape) lit(s string) bstr {
	var out bstr
	for i := 0; i < len(s); i++ {
		out = append(out, cvec(uint64(s[i]), 8))
	}
	return out
}

func (m *shape) konstVal(c *ssa.Const) interface{} {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return bvec{1}
		}
		return bvec{0}
	case constant.String:
		return m.lit(constant.StringVal(c.Value))
	}
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		n, signed := width(c.Type())
		if signed {
			return cvec(uint64(c.Int64()), n)
		}
		return cvec(c.Uint64(), n)
	}
	return bopaque{"constant " + c.String()}
}

// bytes makes a slice of bytes.
func (m *shape) bytes(b []bvec) bslice {
	a := &barr{}
	for _, x := range b {
		a.el = append(a.el, &bcell{x})
	}
	return bslice{a, 0, len(b), len(b)}
}

func (m *shape) slice(vs ...interface{}) bslice {
	a := &barr{}
	for _, x := range vs {
		a.el = append(a.el, &bcell{x})
	}
	return bslice{a, 0, len(vs), len(vs)}
}

// readBytes is the contents of a slice of bytes.
func (m *shape) readBytes(v interface{}) []bvec {
	var out []bvec
	switch s := v.(type) {
	case bslice:
		for i := 0; i < s.len; i++ {
			x, _ := s.arr.el[s.off+i].v.(bvec)
			out = append(out, m.res(x))
		}
	case bstr:
		for _, x := range s {
			out = append(out, m.res(x))
		}
	default:
		m.stop("bytes of %T", v)
	}
	return out
}

func (m *shape) int(v interface{}) int {
	x, ok := v.(bvec)
	if !ok {
		m.stop("a number is %T", v)
	}
	x = m.res(x)
	k, ok := x.konst()
	if !ok {
		m.stop("a length or an index depends on the contents")
	}
	return int(signedK(k, len(x), true))
}

// ---- frames

type bframe struct {
	m      *shape
	fn     *ssa.Function
	regs   map[ssa.Value]interface{}
	defers []func()
}

func (m *shape) call(fn *ssa.Function, args ...interface{}) interface{} {
	if fn == nil {
		m.stop("a function that does not exist")
	}
	if m.model != nil {
		if r, ok := m.model(m, fn, args); ok {
			return r
		}
	}
	if r, ok := m.library(fn, args); ok {
		return r
	}
	if len(fn.Blocks) == 0 {
		m.stop("no body for %s", fnName(fn))
	}
	m.depth++
	if m.depth > 60 {
		m.stop("recursion")
	}
	m.stack = append(m.stack, fn)
	f := &bframe{m: m, fn: fn, regs: map[ssa.Value]interface{}{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	r := f.run()
	m.depth--
	m.stack = m.stack[:len(m.stack)-1]
	return r
}

func (f *bframe) eval(v ssa.Value) interface{} {
	m := f.m
	switch x := v.(type) {
	case *ssa.Const:
		return m.konstVal(x)
	case *ssa.Global:
		return bptr{m.global(x)}
	case *ssa.Function:
		return bfunc{fn: x}
	}
	r, ok := f.regs[v]
	if !ok {
		m.stop("no value for %s", v.Name())
	}
	if b, ok := r.(bvec); ok {
		return m.res(b)
	}
	return r
}

func (m *shape) global(g *ssa.Global) *bcell {
	if c, ok := m.globals[g]; ok {
		return c
	}
	c := &bcell{m.zero(g.Type().(*types.Pointer).Elem())}
	m.globals[g] = c
	// what the initialiser of the package stores there at once
	if init := g.Pkg.Func("init"); init != nil {
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(g) {
					if k, ok := s.Val.(*ssa.Const); ok {
						c.v = m.konstVal(k)
					} else {
						c.v = bopaque{"global " + g.Name()}
					}
				}
			}
		}
	}
	return c
}

func (f *bframe) run() interface{} {
	m := f.m
	var prev *ssa.BasicBlock
	b := f.fn.Blocks[0]
	for {
		// phis at once
		var phis []interface{}
		n := 0
		for _, in := range b.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			n++
			for i, q := range b.Preds {
				if q == prev {
					phis = append(phis, f.eval(p.Edges[i]))
					break
				}
			}
		}
		for i := 0; i < n; i++ {
			f.regs[b.Instrs[i].(*ssa.Phi)] = phis[i]
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[n:] {
			m.steps++
			if m.steps > 20_000_000 {
				m.stop("no end in sight")
			}
			switch t := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				c, ok := f.eval(t.Cond).(bvec)
				if !ok {
					m.stop("a condition that is not followed")
				}
				if m.decide(c[0]) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Return:
				var out []interface{}
				for _, r := range t.Results {
					out = append(out, f.eval(r))
				}
				switch len(out) {
				case 0:
					return nil
				case 1:
					return out[0]
				}
				return btuple(out)
			case *ssa.Panic:
				m.crash("a panic")
			case *ssa.RunDefers:
				for i := len(f.defers) - 1; i >= 0; i-- {
					f.defers[i]()
				}
				f.defers = nil
			default:
				f.step(in)
			}
		}
		if next == nil {
			m.stop("a block without a successor")
		}
		prev, b = b, next
	}
}

func (f *bframe) cell(v interface{}) *bcell {
	p, ok := v.(bptr)
	if !ok {
		f.m.stop("a pointer is %T", v)
	}
	if p.c == nil {
		f.m.crash("a nil pointer is followed")
	}
	return p.c
}

func (f *bframe) step(in ssa.Instruction) {
	m := f.m
	set := func(x interface{}) { f.regs[in.(ssa.Value)] = x }
	switch t := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		set(bptr{&bcell{m.zero(t.Type().(*types.Pointer).Elem())}})
	case *ssa.Store:
		c := f.cell(f.eval(t.Addr))
		if m.watch[c] && m.event != nil {
			m.event("write", c, in)
		}
		assignShape(c, copyShape(f.eval(t.Val)))
	case *ssa.FieldAddr:
		c := f.cell(f.eval(t.X))
		s, ok := c.v.(*bstruct)
		if !ok {
			m.stop("a field of %T", c.v)
		}
		set(bptr{s.f[t.Field]})
	case *ssa.Field:
		s, ok := f.eval(t.X).(*bstruct)
		if !ok {
			m.stop("a field of something else")
		}
		set(copyShape(s.f[t.Field].v))
	case *ssa.IndexAddr:
		i := m.int(f.eval(t.Index))
		switch x := f.eval(t.X).(type) {
		case bslice:
			if i < 0 || i >= x.len {
				m.crash("index %d of %d", i, x.len)
			}
			set(bptr{x.arr.el[x.off+i]})
		case bptr:
			a := f.cell(x).v.(*barr)
			if i < 0 || i >= len(a.el) {
				m.crash("index %d of %d", i, len(a.el))
			}
			set(bptr{a.el[i]})
		default:
			m.stop("an index into %T", x)
		}
	case *ssa.Index:
		i := m.int(f.eval(t.Index))
		switch x := f.eval(t.X).(type) {
		case *barr:
			set(copyShape(x.el[i].v))
		case bstr:
			if i < 0 || i >= len(x) {
				m.crash("index %d of %d", i, len(x))
			}
			set(x[i])
		default:
			m.stop("an index into %T", x)
		}
	case *ssa.Lookup:
		switch x := f.eval(t.X).(type) {
		case bstr:
			i := m.int(f.eval(t.Index))
			if i < 0 || i >= len(x) {
				m.crash("index %d of %d", i, len(x))
			}
			set(x[i])
		case *bmap:
			v, ok := m.mapGet(x, f.eval(t.Index))
			if !ok {
				v = m.zero(t.X.Type().Underlying().(*types.Map).Elem())
			}
			if t.CommaOk {
				b := bvec{0}
				if ok {
					b[0] = 1
				}
				v = btuple{v, b}
			}
			set(v)
		default:
			m.stop("a lookup in %T", x)
		}
	case *ssa.MapUpdate:
		x, _ := f.eval(t.Map).(*bmap)
		if x == nil {
			m.crash("a nil map is written")
		}
		k, v := f.eval(t.Key), f.eval(t.Value)
		for i := range x.keys {
			if m.equal(x.keys[i], k) {
				x.vals[i] = v
				return
			}
		}
		x.keys = append(x.keys, k)
		x.vals = append(x.vals, v)
	case *ssa.MakeMap:
		set(&bmap{t: t.Type().Underlying().(*types.Map)})
	case *ssa.MakeSlice:
		n, c := m.int(f.eval(t.Len)), m.int(f.eval(t.Cap))
		if n < 0 || c < n || c > 1<<20 {
			m.crash("a slice of %d", n)
		}
		el := t.Type().Underlying().(*types.Slice).Elem()
		a := &barr{}
		for i := 0; i < c; i++ {
			a.el = append(a.el, &bcell{m.zero(el)})
		}
		set(bslice{a, 0, n, c})
	case *ssa.Slice:
		set(f.sliceOp(t))
	case *ssa.UnOp:
		x := f.eval(t.X)
		switch t.Op {
		case token.MUL:
			c := f.cell(x)
			if m.watch[c] && m.event != nil {
				m.event("read", c, in)
			}
			v := copyShape(c.v)
			if b, ok := v.(bvec); ok {
				v = m.res(b)
			}
			set(v)
		case token.NOT:
			set(bvec{m.notBit(x.(bvec)[0])})
		case token.SUB:
			b, ok := x.(bvec)
			if !ok {
				set(bopaque{"negation"})
				return
			}
			set(m.addVec(cvec(0, len(b)), b, ^uint64(0)))
		case token.XOR:
			b := x.(bvec)
			out := make(bvec, len(b))
			for i := range b {
				out[i] = m.notBit(b[i])
			}
			set(out)
		default:
			m.stop("operation %s", t.Op)
		}
	case *ssa.BinOp:
		set(f.binop(t.Op, f.eval(t.X), f.eval(t.Y), t.X.Type(), t.Y.Type()))
	case *ssa.Convert:
		set(f.convert(f.eval(t.X), t.X.Type(), t.Type()))
	case *ssa.ChangeType:
		set(f.eval(t.X))
	case *ssa.ChangeInterface:
		set(f.eval(t.X))
	case *ssa.MakeInterface:
		set(biface{t.X.Type(), f.eval(t.X)})
	case *ssa.TypeAssert:
		x, ok := f.eval(t.X).(biface)
		if !ok {
			m.stop("an assertion on something else")
		}
		good := false
		if x.t != nil {
			if it, isI := t.AssertedType.Underlying().(*types.Interface); isI {
				good = types.Implements(x.t, it)
			} else {
				good = types.Identical(x.t, t.AssertedType)
			}
		}
		var v interface{}
		if good {
			v = x.v
			if types.IsInterface(t.AssertedType) {
				v = x
			}
		} else if !t.CommaOk {
			m.crash("a type assertion fails")
		} else {
			v = m.zero(t.AssertedType)
		}
		if t.CommaOk {
			b := bvec{0}
			if good {
				b[0] = 1
			}
			v = btuple{v, b}
		}
		set(v)
	case *ssa.Extract:
		set(f.eval(t.Tuple).(btuple)[t.Index])
	case *ssa.MakeClosure:
		c := bfunc{fn: t.Fn.(*ssa.Function)}
		for _, b := range t.Bindings {
			c.bind = append(c.bind, f.eval(b))
		}
		set(c)
	case *ssa.Call:
		set(f.callOp(&t.Call, in))
	case *ssa.Defer:
		c := t.Call
		fn, args := f.target(&c)
		f.defers = append(f.defers, func() { f.invoke(fn, args) })
	case *ssa.Range:
		switch x := f.eval(t.X).(type) {
		case bstr:
			set(&brange{str: x})
		default:
			m.stop("a range over %T", x)
		}
	case *ssa.Next:
		r := f.eval(t.Iter).(*brange)
		if r.pos >= len(r.str) {
			set(btuple{bvec{0}, cvec(0, 64), cvec(0, 32)})
			return
		}
		c := m.res(r.str[r.pos])
		if c[7] != 0 {
			if s := m.byteSetOf(c); s == nil || !below128(s) {
				m.stop("a range over text that may not be ASCII")
			}
		}
		set(btuple{bvec{1}, cvec(uint64(r.pos), 64), append(append(bvec{}, c...), cvec(0, 24)...)})
		r.pos++
	default:
		m.stop("instruction %T", in)
	}
}

type brange struct {
	str bstr
	pos int
}

func below128(s *byteSet) bool {
	for c := 128; c < 256; c++ {
		if s.has(int64(c)) {
			return false
		}
	}
	return true
}

func assignShape(c *bcell, v interface{}) {
	// the cells of a struct or an array keep their identity
	switch x := v.(type) {
	case *bstruct:
		if o, ok := c.v.(*bstruct); ok && len(o.f) == len(x.f) {
			for i := range x.f {
				assignShape(o.f[i], x.f[i].v)
			}
			return
		}
	case *barr:
		if o, ok := c.v.(*barr); ok && len(o.el) == len(x.el) {
			for i := range x.el {
				assignShape(o.el[i], x.el[i].v)
			}
			return
		}
	}
	c.v = v
}

func (m *shape) mapGet(x *bmap, k interface{}) (interface{}, bool) {
	if x == nil {
		return nil, false
	}
	for i := range x.keys {
		if m.equal(x.keys[i], k) {
			return x.vals[i], true
		}
	}
	return nil, false
}

func (f *bframe) sliceOp(t *ssa.Slice) interface{} {
	m := f.m
	at := func(v ssa.Value, d int) int {
		if v == nil {
			return d
		}
		return m.int(f.eval(v))
	}
	switch x := f.eval(t.X).(type) {
	case bstr:
		lo, hi := at(t.Low, 0), at(t.High, len(x))
		if lo < 0 || hi < lo || hi > len(x) {
			m.crash("slice %d:%d of %d", lo, hi, len(x))
		}
		return x[lo:hi]
	case bslice:
		lo, hi := at(t.Low, 0), at(t.High, x.len)
		mx := at(t.Max, x.cap)
		if lo < 0 || hi < lo || hi > mx || mx > x.cap {
			m.crash("slice %d:%d of %d", lo, hi, x.len)
		}
		return bslice{x.arr, x.off + lo, hi - lo, mx - lo}
	case bptr:
		a := f.cell(x).v.(*barr)
		lo, hi := at(t.Low, 0), at(t.High, len(a.el))
		return bslice{a, lo, hi - lo, len(a.el) - lo}
	}
	m.stop("a slice of something else")
	return nil
}

func (m *shape) equal(a, b interface{}) bool {
	switch x := a.(type) {
	case bvec:
		y, ok := b.(bvec)
		return ok && m.equalVec(x, y)
	case bstr:
		y, ok := b.(bstr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !m.equalVec(x[i], y[i]) {
				return false
			}
		}
		return true
	case bptr:
		y, ok := b.(bptr)
		return ok && x.c == y.c
	case biface:
		y, ok := b.(biface)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		return types.Identical(x.t, y.t) && m.equal(x.v, y.v)
	case bslice:
		y, ok := b.(bslice)
		return ok && x.arr == nil && y.arr == nil
	case *bmap:
		y, ok := b.(*bmap)
		return ok && x == y
	case bfunc:
		y, ok := b.(bfunc)
		return ok && x.fn == y.fn
	case *bstruct:
		y, ok := b.(*bstruct)
		if !ok || len(x.f) != len(y.f) {
			return false
		}
		for i := range x.f {
			if !m.equal(x.f[i].v, y.f[i].v) {
				return false
			}
		}
		return true
	}
	m.stop("a comparison of %T", a)
	return false
}

func boolBit(b bool) bvec {
	if b {
		return bvec{1}
	}
	return bvec{0}
}

func (f *bframe) binop(op token.Token, a, b interface{}, at, bt types.Type) interface{} {
	m := f.m
	switch op {
	case token.EQL:
		return boolBit(m.equal(a, b))
	case token.NEQ:
		return boolBit(!m.equal(a, b))
	}
	if x, ok := a.(bstr); ok {
		y, ok := b.(bstr)
		if ok && op == token.ADD {
			return append(append(bstr{}, x...), y...)
		}
		m.stop("operation %s on texts", op)
	}
	x, ok1 := a.(bvec)
	y, ok2 := b.(bvec)
	if !ok1 || !ok2 {
		if _, isB := at.Underlying().(*types.Basic); isB {
			if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
				return m.fresh(1)
			}
			return bopaque{"arithmetic"}
		}
		m.stop("operation %s on %T", op, a)
	}
	n, signed := width(at)
	switch op {
	case token.LSS:
		return boolBit(m.less(x, y, signed))
	case token.GTR:
		return boolBit(m.less(y, x, signed))
	case token.LEQ:
		return boolBit(!m.less(y, x, signed))
	case token.GEQ:
		return boolBit(!m.less(x, y, signed))
	case token.ADD:
		return m.addVec(x, y, 1)
	case token.SUB:
		return m.addVec(x, y, ^uint64(0))
	case token.MUL:
		return m.mulVec(x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		out := make(bvec, len(x))
		for i := range x {
			out[i] = m.logic(op, x[i], y[i])
		}
		return out
	case token.SHL, token.SHR:
		k, ok := y.konst()
		if !ok {
			return m.unknown("shift "+op.String()+x.key()+" "+y.key(), n)
		}
		if k > 64 {
			k = 64
		}
		if op == token.SHL {
			return shiftVec(x, int(k), false)
		}
		return shiftVec(x, -int(k), signed)
	case token.QUO, token.REM:
		kx, okx := x.konst()
		ky, oky := y.konst()
		if oky && ky == 0 {
			m.crash("a division by zero")
		}
		if okx && oky {
			if signed {
				p, q := signedK(kx, n, true), signedK(ky, n, true)
				if op == token.QUO {
					return cvec(uint64(p/q), n)
				}
				return cvec(uint64(p%q), n)
			}
			if op == token.QUO {
				return cvec(kx/ky, n)
			}
			return cvec(kx%ky, n)
		}
		if oky && (!signed || x[n-1] == 0) && ky&(ky-1) == 0 {
			k := 0
			for ; 1<<uint(k) < ky; k++ {
			}
			if op == token.QUO {
				return shiftVec(x, -k, false)
			}
			out := make(bvec, n)
			copy(out, x[:k])
			return out
		}
		return m.unknown(op.String()+" "+x.key()+" "+y.key(), n)
	}
	m.stop("operation %s", op)
	return nil
}

func (f *bframe) convert(v interface{}, from, to types.Type) interface{} {
	m := f.m
	fb, _ := from.Underlying().(*types.Basic)
	tb, _ := to.Underlying().(*types.Basic)
	isInt := func(b *types.Basic) bool { return b != nil && b.Info()&types.IsInteger != 0 }
	switch {
	case isInt(fb) && isInt(tb):
		x, ok := v.(bvec)
		if !ok {
			return m.fresh(func() int { n, _ := width(to); return n }())
		}
		n, _ := width(to)
		_, signed := width(from)
		out := make(bvec, n)
		for i := range out {
			if i < len(x) {
				out[i] = x[i]
			} else if signed {
				out[i] = x[len(x)-1]
			}
		}
		return out
	case tb != nil && tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case bstr:
			return x
		case bslice:
			var s bstr
			for _, b := range m.readBytes(x) {
				s = append(s, b)
			}
			return s
		case bvec:
			if k, ok := x.konst(); ok && k < 128 {
				return bstr{cvec(k, 8)}
			}
			low := m.res(x)
			if s := m.byteSetOf(low); s != nil && below128(s) {
				return bstr{low[:8]}
			}
			m.stop("the text of a number")
		}
	case isSliceOf(to, types.Uint8):
		if s, ok := v.(bstr); ok {
			return m.bytes(s)
		}
	case isInt(tb):
		n, _ := width(to)
		if o, ok := v.(bopaque); ok {
			return m.unknown("convert "+o.what, n)
		}
	case tb != nil && tb.Info()&types.IsFloat != 0:
		if x, ok := v.(bvec); ok {
			return bopaque{"float " + x.key()}
		}
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	m.stop("a conversion from %s to %s", from, to)
	return nil
}

func isSliceOf(t types.Type, k types.BasicKind) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == k
}

// target finds what a call calls.
func (f *bframe) target(c *ssa.CallCommon) (interface{}, []interface{}) {
	m := f.m
	var args []interface{}
	if c.IsInvoke() {
		x, ok := f.eval(c.Value).(biface)
		if !ok || x.t == nil {
			m.crash("a method of a nil interface is called")
		}
		if st, ok := x.v.(*bstub); ok {
			for _, a := range c.Args {
				args = append(args, f.eval(a))
			}
			st.method = c.Method.Name()
			return st, args
		}
		fn := m.p.full().LookupMethod(x.t, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			m.stop("no method %s", c.Method.Name())
		}
		args = append(args, x.v)
		for _, a := range c.Args {
			args = append(args, f.eval(a))
		}
		return bfunc{fn: fn}, args
	}
	for _, a := range c.Args {
		args = append(args, f.eval(a))
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b, args
	}
	return f.eval(c.Value), args
}

func (f *bframe) invoke(fn interface{}, args []interface{}) interface{} {
	m := f.m
	switch t := fn.(type) {
	case *bstub:
		return t.call(t.method, args)
	case bfunc:
		if t.fn == nil {
			m.crash("a nil function is called")
		}
		if len(t.bind) > 0 {
			return m.closure(t, args)
		}
		return m.call(t.fn, args...)
	case *ssa.Builtin:
		return f.builtin(t, args)
	}
	m.stop("a call of %T", fn)
	return nil
}

func (m *shape) closure(c bfunc, args []interface{}) interface{} {
	m.depth++
	m.stack = append(m.stack, c.fn)
	f := &bframe{m: m, fn: c.fn, regs: map[ssa.Value]interface{}{}}
	for i, p := range c.fn.Params {
		f.regs[p] = args[i]
	}
	for i, v := range c.fn.FreeVars {
		f.regs[v] = c.bind[i]
	}
	r := f.run()
	m.depth--
	m.stack = m.stack[:len(m.stack)-1]
	return r
}

func (f *bframe) callOp(c *ssa.CallCommon, in ssa.Instruction) interface{} {
	fn, args := f.target(c)
	if m := f.m; m.event != nil {
		if b, ok := fn.(bfunc); ok && b.fn != nil {
			switch b.fn.String() {
			case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
				p, _ := args[0].(bptr)
				m.event(b.fn.Name(), p.c, in)
				return nil
			}
		}
	}
	return f.invoke(fn, args)
}

func (f *bframe) builtin(b *ssa.Builtin, args []interface{}) interface{} {
	m := f.m
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case bstr:
			return cvec(uint64(len(x)), 64)
		case bslice:
			if b.Name() == "cap" {
				return cvec(uint64(x.cap), 64)
			}
			return cvec(uint64(x.len), 64)
		case *bmap:
			if x == nil {
				return cvec(0, 64)
			}
			return cvec(uint64(len(x.keys)), 64)
		case *barr:
			return cvec(uint64(len(x.el)), 64)
		}
	case "copy":
		d, ok := args[0].(bslice)
		if !ok {
			break
		}
		var vs []interface{}
		switch s := args[1].(type) {
		case bslice:
			for i := 0; i < s.len; i++ {
				vs = append(vs, copyShape(s.arr.el[s.off+i].v))
			}
		case bstr:
			for _, x := range s {
				vs = append(vs, x)
			}
		}
		n := len(vs)
		if d.len < n {
			n = d.len
		}
		for i := 0; i < n; i++ {
			assignShape(d.arr.el[d.off+i], vs[i])
		}
		return cvec(uint64(n), 64)
	case "append":
		d, ok := args[0].(bslice)
		if !ok {
			break
		}
		var vs []interface{}
		switch s := args[1].(type) {
		case bslice:
			for i := 0; i < s.len; i++ {
				vs = append(vs, copyShape(s.arr.el[s.off+i].v))
			}
		case bstr:
			for _, x := range s {
				vs = append(vs, x)
			}
		}
		if len(vs) == 0 {
			return d
		}
		if d.len+len(vs) <= d.cap {
			for i, v := range vs {
				assignShape(d.arr.el[d.off+d.len+i], v)
			}
			return bslice{d.arr, d.off, d.len + len(vs), d.cap}
		}
		a := &barr{}
		for i := 0; i < d.len; i++ {
			a.el = append(a.el, &bcell{copyShape(d.arr.el[d.off+i].v)})
		}
		for _, v := range vs {
			a.el = append(a.el, &bcell{v})
		}
		return bslice{a, 0, len(a.el), len(a.el)}
	case "print", "println":
		return nil
	case "min", "max":
		return func() interface{} {
			x, y := args[0].(bvec), args[1].(bvec)
			if m.less(x, y, true) == (b.Name() == "min") {
				return x
			}
			return y
		}()
	}
	m.stop("builtin %s", b.Name())
	return nil
}

// library models functions that are not interpreted.
func (m *shape) library(fn *ssa.Function, args []interface{}) (interface{}, bool) {
	name := fn.String()
	switch name {
	case "fmt.Errorf", "errors.New":
		return biface{types.Universe.Lookup("error").Type(), bopaque{"error"}}, true
	case "fmt.Sprintf", "fmt.Sprint":
		return bopaque{"text"}, true
	case "fmt.Printf", "fmt.Println", "fmt.Print", "log.Printf", "log.Println":
		return btuple{cvec(0, 64), biface{}}, true
	case "os.Getpid":
		return m.fresh(64), true
	case "(time.Time).Second", "(time.Time).Nanosecond", "(time.Time).UnixNano", "(time.Time).Unix":
		return m.fresh(64), true
	case "(net.IP).To4":
		x, _ := args[0].(bslice)
		if x.len == 4 {
			return x, true
		}
		if x.len == 16 && m.inV6(m.readBytes(x)) {
			return bslice{x.arr, x.off + 12, 4, x.cap - 12}, true
		}
		return bslice{}, true
	case "(net.IP).Equal":
		a, b := m.readBytes(args[0]), m.readBytes(args[1])
		if len(a) != len(b) {
			if len(a) == 16 && m.inV6(a) {
				a = a[12:]
			}
			if len(b) == 16 && m.inV6(b) {
				b = b[12:]
			}
		}
		return boolBit(m.sameBytes(a, b)), true
	case "bytes.NewBuffer", "bytes.NewBufferString":
		c := &bcell{m.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())}
		m.buffers[c] = append([]bvec{}, m.readBytes(args[0])...)
		return bptr{c}, true
	case "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte", "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString", "(*bytes.Buffer).Write", "(*strings.Builder).Write", "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune":
		p, _ := args[0].(bptr)
		if p.c == nil {
			m.crash("a nil buffer is written")
		}
		var add []bvec
		switch x := args[1].(type) {
		case bvec:
			x = m.res(x)
			if len(x) > 8 {
				k, ok := x.konst()
				if !ok || k > 127 {
					if s := m.byteSetOf(x); s == nil || !below128(s) {
						m.stop("a rune is written")
					}
				}
			}
			add = []bvec{x[:8]}
		default:
			add = m.readBytes(x)
		}
		m.buffers[p.c] = append(m.buffers[p.c], add...)
		n := fn.Signature.Results().Len()
		if n == 1 {
			return biface{}, true
		}
		return btuple{cvec(uint64(len(add)), 64), biface{}}, true
	case "(*bytes.Buffer).String", "(*strings.Builder).String":
		p, _ := args[0].(bptr)
		if p.c == nil {
			return m.lit("<nil>"), true
		}
		return append(bstr{}, m.readBytes(bstr(m.buffers[p.c]))...), true
	case "(*bytes.Buffer).Bytes":
		p, _ := args[0].(bptr)
		return m.bytes(m.readBytes(bstr(m.buffers[p.c]))), true
	case "(*bytes.Buffer).Len", "(*strings.Builder).Len":
		p, _ := args[0].(bptr)
		return cvec(uint64(len(m.buffers[p.c])), 64), true
	case "(*bytes.Buffer).Reset", "(*strings.Builder).Reset":
		p, _ := args[0].(bptr)
		m.buffers[p.c] = nil
		return nil, true
	case "(*bytes.Buffer).Truncate":
		p, _ := args[0].(bptr)
		n := m.int(args[1])
		if n < 0 || n > len(m.buffers[p.c]) {
			m.crash("a buffer is truncated to %d", n)
		}
		m.buffers[p.c] = m.buffers[p.c][:n:n]
		return nil, true
	case "(*bytes.Buffer).Grow", "(*strings.Builder).Grow":
		return nil, true
	case "time.Now":
		return bopaque{"time"}, true
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return nil, true
	case "strings.Index", "strings.IndexByte", "strings.Contains", "strings.HasPrefix", "strings.TrimSpace", "strings.IndexRune", "strings.LastIndex", "strings.ContainsAny", "strings.IndexAny", "strings.TrimRight", "strings.TrimLeft", "strings.Trim", "bytes.IndexByte", "bytes.Index", "bytes.Equal", "bytes.HasPrefix", "bytes.HasSuffix", "strings.HasSuffix", "strings.TrimPrefix", "strings.TrimSuffix", "strings.Split", "strings.SplitN", "strings.ReplaceAll", "strings.Replace", "bytes.TrimSpace", "bytes.TrimLeft", "bytes.TrimRight", "bytes.Trim", "bytes.ReplaceAll", "bytes.LastIndex", "bytes.Contains", "strings.LastIndexByte", "strings.Repeat", "strings.Join", "bytes.IndexAny":
		return m.textModel(name, args)
	}
	return nil, false
}

func (m *shape) textModel(name string, args []interface{}) (interface{}, bool) {
	text := func(i int) []bvec { return m.readBytes(args[i]) }
	at := func(s, t []bvec, i int) bool {
		if i+len(t) > len(s) {
			return false
		}
		for j := range t {
			if !m.equalVec(s[i+j], t[j]) {
				return false
			}
		}
		return true
	}
	num := func(i int) interface{} { return cvec(uint64(int64(i)), 64) }
	inBytes := strings.HasPrefix(name, "bytes.")
	// ret is a text or a slice of bytes; sub is part of argument 0
	ret := func(t []bvec) interface{} {
		if inBytes {
			return m.bytes(t)
		}
		return append(bstr{}, t...)
	}
	sub := func(lo, hi int) interface{} {
		if x, ok := args[0].(bslice); ok {
			return bslice{x.arr, x.off + lo, hi - lo, x.cap - lo}
		}
		return args[0].(bstr)[lo:hi]
	}
	switch name[strings.Index(name, ".")+1:] {
	case "Index", "Contains":
		s, t := text(0), text(1)
		for i := 0; i+len(t) <= len(s); i++ {
			if at(s, t, i) {
				if strings.HasSuffix(name, "Contains") {
					return bvec{1}, true
				}
				return num(i), true
			}
		}
		if strings.HasSuffix(name, "Contains") {
			return bvec{0}, true
		}
		return num(-1), true
	case "LastIndex":
		s, t := text(0), text(1)
		for i := len(s) - len(t); i >= 0; i-- {
			if at(s, t, i) {
				return num(i), true
			}
		}
		return num(-1), true
	case "IndexByte", "IndexRune":
		s := text(0)
		c := args[1].(bvec)
		if k, ok := c.konst(); len(c) > 8 && (!ok || k > 127) {
			m.stop("a rune is searched")
		}
		for i := range s {
			if m.equalVec(s[i], c[:8]) {
				return num(i), true
			}
		}
		return num(-1), true
	case "LastIndexByte":
		s := text(0)
		c := args[1].(bvec)[:8]
		for i := len(s) - 1; i >= 0; i-- {
			if m.equalVec(s[i], c) {
				return num(i), true
			}
		}
		return num(-1), true
	case "Equal":
		s, t := text(0), text(1)
		return boolBit(len(s) == len(t) && at(s, t, 0)), true
	case "HasPrefix":
		return boolBit(at(text(0), text(1), 0)), true
	case "HasSuffix":
		s, t := text(0), text(1)
		return boolBit(len(s) >= len(t) && at(s, t, len(s)-len(t))), true
	case "TrimPrefix":
		s, t := text(0), text(1)
		if at(s, t, 0) {
			return sub(len(t), len(s)), true
		}
		return args[0], true
	case "TrimSuffix":
		s, t := text(0), text(1)
		if len(s) >= len(t) && at(s, t, len(s)-len(t)) {
			return sub(0, len(s)-len(t)), true
		}
		return args[0], true
	case "Split", "SplitN":
		s, t := text(0), text(1)
		n := -1
		if strings.HasSuffix(name, "N") {
			n = m.int(args[2])
		}
		if len(t) == 0 || n == 0 {
			return nil, false
		}
		var out []interface{}
		from := 0
		for i := 0; i+len(t) <= len(s); {
			if (n < 0 || len(out) < n-1) && at(s, t, i) {
				out = append(out, sub(from, i))
				i += len(t)
				from = i
			} else {
				i++
			}
		}
		return m.slice(append(out, sub(from, len(s)))...), true
	case "Replace", "ReplaceAll":
		s, t, u := text(0), text(1), text(2)
		n := -1
		if len(args) > 3 {
			n = m.int(args[3])
		}
		if len(t) == 0 {
			return nil, false
		}
		var out []bvec
		for i := 0; i < len(s); {
			if n != 0 && at(s, t, i) {
				out = append(out, u...)
				i += len(t)
				n--
			} else {
				out = append(out, s[i])
				i++
			}
		}
		return ret(out), true
	case "Repeat":
		var out []bvec
		for i := m.int(args[1]); i > 0; i-- {
			out = append(out, text(0)...)
		}
		return ret(out), true
	case "Join":
		l, ok := args[0].(bslice)
		if !ok {
			return nil, false
		}
		var out []bvec
		for i := 0; i < l.len; i++ {
			if i > 0 {
				out = append(out, text(1)...)
			}
			out = append(out, m.readBytes(l.arr.el[l.off+i].v)...)
		}
		return ret(out), true
	case "IndexAny", "ContainsAny":
		s, t := text(0), text(1)
		for i := range s {
			for _, c := range t {
				if m.equalVec(s[i], c) {
					if strings.HasPrefix(name, "strings.Contains") {
						return bvec{1}, true
					}
					return num(i), true
				}
			}
		}
		if strings.HasPrefix(name, "strings.Contains") {
			return bvec{0}, true
		}
		return num(-1), true
	case "TrimSpace", "Trim", "TrimLeft", "TrimRight":
		s := text(0)
		cut := []bvec(m.lit(" \t\n\v\f\r"))
		if !strings.HasSuffix(name, "TrimSpace") {
			cut = text(1)
		}
		var set byteSet
		for _, c := range cut {
			k, ok := c.konst()
			if !ok || k > 127 {
				m.stop("characters to trim that are not constant")
			}
			set.put(int64(k))
		}
		lo, hi := 0, len(s)
		for !strings.HasSuffix(name, "TrimRight") && lo < hi && m.inSet(s[lo], &set) {
			lo++
		}
		for !strings.HasSuffix(name, "TrimLeft") && hi > lo && m.inSet(s[hi-1], &set) {
			hi--
		}
		if strings.HasSuffix(name, "TrimSpace") && hi > lo {
			for _, b := range []bvec{s[lo], s[hi-1]} {
				if k, ok := b.konst(); ok && k < 128 {
					continue
				}
				if t := m.byteSetOf(b); t == nil || !below128(t) {
					m.stop("blanks that may not be ASCII are trimmed")
				}
			}
		}
		if lo == hi && inBytes && !strings.HasSuffix(name, "TrimRight") {
			return bslice{}, true
		}
		return sub(lo, hi), true
	}
	return nil, false
}

// inSet decides whether a byte is in a set.
func (m *shape) inSet(b bvec, set *byteSet) bool {
	b = m.res(b)
	if k, ok := b.konst(); ok {
		return set.has(int64(k))
	}
	s := m.byteSetOf(b)
	if s == nil {
		for c := int64(0); c < 256; c++ {
			if set.has(c) && m.equalVec(b, cvec(uint64(c), 8)) {
				return true
			}
		}
		return false
	}
	var in, out byteSet
	n, k := 0, 0
	for c := int64(0); c < 256; c++ {
		if s.has(c) && set.has(c) {
			in.put(c)
			n++
		} else if s.has(c) {
			out.put(c)
			k++
		}
	}
	if n == 0 || k == 0 {
		return n > 0
	}
	if m.choose(2) == 0 {
		m.classes[b[0]] = &in
		return true
	}
	m.classes[b[0]] = &out
	return false
}

// inV6: sixteen bytes are an IPv4 address.
func (m *shape) inV6(b []bvec) bool {
	for i := 0; i < 12; i++ {
		k := uint64(0)
		if i >= 10 {
			k = 255
		}
		if !m.equalVec(b[i], cvec(k, 8)) {
			return false
		}
	}
	return true
}
