package main

import "sort"

const inf = int64(1) << 61

type symInfo struct {
	lo, hi int64         // lo <= s <= hi
	up     map[Sym]int64 // s - t <= c
	dn     map[Sym]int64 // t - s <= c  (mirror of up)
	set    *byteSet      // the values a byte may have (nil: all of lo..hi)
}

// byteSet is a set of byte values.
type byteSet [4]uint64

func (b *byteSet) has(k int64) bool { return k >= 0 && k < 256 && b[k>>6]>>(k&63)&1 == 1 }
func (b *byteSet) put(k int64)      { b[k>>6] |= 1 << (k & 63) }
func (b *byteSet) cut(k int64)      { b[k>>6] &^= 1 << (k & 63) }

// values is the byte set of i, nil when i is not a byte.
func (i *symInfo) values() *byteSet {
	if i.lo < 0 || i.hi > 255 {
		return nil
	}
	if i.set != nil {
		return i.set
	}
	var b byteSet
	for k := i.lo; k <= i.hi; k++ {
		b.put(k)
	}
	return &b
}

// restrict makes the value set of i the part of b inside lo..hi; it reports
// false when nothing remains.
func (i *symInfo) restrict(b *byteSet) bool {
	n := *b
	lo, hi, cnt := int64(-1), int64(-1), int64(0)
	for k := int64(0); k < 256; k++ {
		if k < i.lo || k > i.hi {
			n.cut(k)
		} else if n.has(k) {
			if lo < 0 {
				lo = k
			}
			hi = k
			cnt++
		}
	}
	if cnt == 0 {
		return false
	}
	i.lo, i.hi = lo, hi
	i.set = &n
	if cnt == hi-lo+1 {
		i.set = nil
	}
	return true
}

func unionSet(a, b *symInfo) *byteSet {
	if a.set == nil && b.set == nil {
		x, y := a, b
		if y.lo < x.lo {
			x, y = y, x
		}
		if y.lo <= x.hi+1 {
			return nil
		}
	}
	x, y := a.values(), b.values()
	if x == nil || y == nil {
		return nil
	}
	u := *x
	for k := range u {
		u[k] |= y[k]
	}
	return &u
}

func subset(a, b *byteSet) bool {
	for k := range a {
		if a[k]&^b[k] != 0 {
			return false
		}
	}
	return true
}

func sameSet(a, b *byteSet) bool {
	if a == nil || b == nil {
		return a == b
	}
	return *a == *b
}

// rdKey names the byte of string content str at position idx+k.
type rdKey struct {
	str, idx Sym
	k        int64
}

type vnKey struct {
	op   byte
	a, b Sym
}

// Cons is a set of difference constraints with separate bounds.
type Cons struct {
	m      map[Sym]*symInfo
	rd     map[rdKey]Sym // bytes already read
	vn     map[vnKey]Num // sums and differences already computed
	bad    bool
	shared bool
}

// own makes the constraint map private before a write.
func (c *Cons) own() {
	if !c.shared {
		return
	}
	n := make(map[Sym]*symInfo, len(c.m)+8)
	for k, v := range c.m {
		n[k] = v
	}
	c.m = n
	r := make(map[rdKey]Sym, len(c.rd)+1)
	for k, v := range c.rd {
		r[k] = v
	}
	c.rd = r
	w := make(map[vnKey]Num, len(c.vn)+1)
	for k, v := range c.vn {
		w[k] = v
	}
	c.vn = w
	c.shared = false
}

func newCons() *Cons { return &Cons{m: map[Sym]*symInfo{}, rd: map[rdKey]Sym{}, vn: map[vnKey]Num{}} }

func (c *Cons) clone() *Cons {
	c.shared = true
	return &Cons{m: c.m, rd: c.rd, vn: c.vn, bad: c.bad, shared: true}
}

var topInfo = &symInfo{lo: -inf, hi: inf}

func (c *Cons) get(s Sym) *symInfo {
	if i, ok := c.m[s]; ok {
		return i
	}
	return topInfo
}

func (c *Cons) mut(s Sym) *symInfo {
	o := c.get(s)
	n := &symInfo{lo: o.lo, hi: o.hi, set: o.set}
	if o.up != nil {
		n.up = make(map[Sym]int64, len(o.up)+1)
		for k, v := range o.up {
			n.up[k] = v
		}
	}
	if o.dn != nil {
		n.dn = make(map[Sym]int64, len(o.dn)+1)
		for k, v := range o.dn {
			n.dn[k] = v
		}
	}
	c.own()
	c.m[s] = n
	return n
}

func addInf(a, b int64) int64 {
	if a >= inf || b >= inf {
		return inf
	}
	if a <= -inf || b <= -inf {
		return -inf
	}
	r := a + b
	if r > inf {
		return inf
	}
	if r < -inf {
		return -inf
	}
	return r
}

// diff returns the best known c with s - t <= c.
func (c *Cons) diff(s, t Sym) int64 {
	if s == t {
		return 0
	}
	var hi, lo int64 = 0, 0
	if s != 0 {
		hi = c.get(s).hi
	}
	if t != 0 {
		lo = c.get(t).lo
	}
	best := inf
	if hi < inf && lo > -inf {
		best = hi - lo
	}
	if s != 0 && t != 0 {
		if v, ok := c.get(s).up[t]; ok && v < best {
			best = v
		}
	}
	return best
}

// leq reports whether a <= b is implied.
func (c *Cons) leq(a, b Num) bool {
	d := c.diff(a.S, b.S)
	return d < inf && d <= b.K-a.K
}

func (c *Cons) lt(a, b Num) bool { return c.leq(Num{a.S, a.K + 1}, b) }

func (c *Cons) bounds(n Num) (int64, int64) {
	if n.S == 0 {
		return n.K, n.K
	}
	i := c.get(n.S)
	return addInf(i.lo, n.K), addInf(i.hi, n.K)
}

// add records a <= b. It reports false if that is impossible.
func (c *Cons) add(a, b Num) bool { return c.addDiff(a.S, b.S, b.K-a.K) }

func (c *Cons) addDiff(s, t Sym, k int64) bool {
	if c.bad {
		return false
	}
	if s == t {
		if k < 0 {
			c.bad = true
		}
		return !c.bad
	}
	if c.diff(s, t) <= k {
		return true
	}
	if d := c.diff(t, s); d < inf && d+k < 0 {
		c.bad = true
		return false
	}
	switch {
	case t == 0: // s <= k
		c.setHi(s, k)
	case s == 0: // t >= -k
		c.setLo(t, -k)
	default:
		c.link(s, t, k)
	}
	return !c.bad
}

func (c *Cons) setHi(s Sym, k int64) {
	i := c.get(s)
	if i.hi <= k {
		return
	}
	if i.lo > k {
		c.bad = true
		return
	}
	m := c.mut(s)
	m.hi = k
	if m.set != nil {
		if !m.restrict(m.set) {
			c.bad = true
			return
		}
		k = m.hi
	}
	// t - s <= w  =>  t <= k + w
	for _, t := range sortedSyms(m.dn) {
		c.setHi(t, addInf(k, m.dn[t]))
		if c.bad {
			return
		}
	}
}

func (c *Cons) setLo(s Sym, k int64) {
	i := c.get(s)
	if i.lo >= k {
		return
	}
	if i.hi < k {
		c.bad = true
		return
	}
	m := c.mut(s)
	m.lo = k
	if m.set != nil {
		if !m.restrict(m.set) {
			c.bad = true
			return
		}
		k = m.lo
	}
	// s - t <= w  =>  t >= k - w
	for _, t := range sortedSyms(m.up) {
		c.setLo(t, addInf(k, -m.up[t]))
		if c.bad {
			return
		}
	}
}

// exclude records s != k for a byte s; it reports false if that is impossible.
func (c *Cons) exclude(s Sym, k int64) bool {
	i := c.get(s)
	v := i.values()
	if v == nil || !v.has(k) {
		return !c.bad
	}
	n := *v
	n.cut(k)
	return c.limit(s, &n)
}

// limit records that s is one of the bytes in b.
func (c *Cons) limit(s Sym, b *byteSet) bool {
	i := c.get(s)
	if i.lo < 0 || i.hi > 255 {
		return !c.bad
	}
	if i.set != nil {
		n := *b
		for k := range n {
			n[k] &= i.set[k]
		}
		b = &n
	}
	t := &symInfo{lo: i.lo, hi: i.hi}
	if !t.restrict(b) {
		c.bad = true
		return false
	}
	if t.lo == i.lo && t.hi == i.hi && sameSet(t.set, i.set) {
		return !c.bad
	}
	c.mut(s).set = t.set
	c.setLo(s, t.lo)
	if !c.bad {
		c.setHi(s, t.hi)
	}
	return !c.bad
}

func sortedSyms(m map[Sym]int64) []Sym {
	r := make([]Sym, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return r
}

func (c *Cons) rawLink(s, t Sym, k int64) bool {
	si := c.get(s)
	if v, ok := si.up[t]; ok && v <= k {
		return false
	}
	m := c.mut(s)
	if m.up == nil {
		m.up = map[Sym]int64{}
	}
	m.up[t] = k
	n := c.mut(t)
	if n.dn == nil {
		n.dn = map[Sym]int64{}
	}
	n.dn[s] = k
	return true
}

func (c *Cons) link(s, t Sym, k int64) {
	if !c.rawLink(s, t, k) {
		return
	}
	// closure through the new edge: x - y <= d(x,s) + k + d(t,y)
	type e struct {
		s Sym
		w int64
	}
	xs := []e{{s, 0}}
	for _, x := range sortedSyms(c.get(s).dn) {
		xs = append(xs, e{x, c.get(s).dn[x]})
	}
	ys := []e{{t, 0}}
	for _, y := range sortedSyms(c.get(t).up) {
		ys = append(ys, e{y, c.get(t).up[y]})
	}
	for _, x := range xs {
		for _, y := range ys {
			if x.s == y.s {
				if x.w+k+y.w < 0 {
					c.bad = true
					return
				}
				continue
			}
			w := x.w + k + y.w
			if c.diff(x.s, y.s) > w {
				if d := c.diff(y.s, x.s); d < inf && d+w < 0 {
					c.bad = true
					return
				}
				c.rawLink(x.s, y.s, w)
			}
		}
	}
	// bounds
	if hi := c.get(t).hi; hi < inf {
		c.setHi(s, hi+k)
	}
	if lo := c.get(s).lo; lo > -inf {
		c.setLo(t, lo-k)
	}
}

// drop removes a symbol.
func (c *Cons) drop(s Sym) {
	i, ok := c.m[s]
	if !ok {
		return
	}
	for t := range i.up {
		if _, ok := c.m[t]; ok {
			m := c.mut(t)
			delete(m.dn, s)
		}
	}
	for t := range i.dn {
		if _, ok := c.m[t]; ok {
			m := c.mut(t)
			delete(m.up, s)
		}
	}
	c.own()
	delete(c.m, s)
}
