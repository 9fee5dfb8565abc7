package main

import (
	"go/token"
	"math"
	"math/big"
)

// fint is an interval of numbers; NaN is not tracked.
type fint struct {
	lo, hi         float64
	loOpen, hiOpen bool
}

var anyFloat = fint{lo: math.Inf(-1), hi: math.Inf(1)}

func (f fint) empty() bool { return f.lo > f.hi || f.lo == f.hi && (f.loOpen || f.hiOpen) }

func meet(a, b fint) fint {
	if b.lo > a.lo || b.lo == a.lo && b.loOpen {
		a.lo, a.loOpen = b.lo, b.loOpen
	}
	if b.hi < a.hi || b.hi == a.hi && b.hiOpen {
		a.hi, a.hiOpen = b.hi, b.hiOpen
	}
	return a
}

func (f fint) within(g fint) bool { return meet(f, g) == f || f.empty() }

// joinFloats keeps what both sides know.
func joinFloats(a, b map[Sym]fint, widen bool) map[Sym]fint {
	out := map[Sym]fint{}
	for s, x := range a {
		y, ok := b[s]
		if !ok || widen && x != y {
			continue
		}
		if y.lo < x.lo || y.lo == x.lo && !y.loOpen {
			x.lo, x.loOpen = y.lo, y.loOpen
		}
		if y.hi > x.hi || y.hi == x.hi && !y.hiOpen {
			x.hi, x.hiOpen = y.hi, y.hiOpen
		}
		out[s] = x
	}
	return out
}

func (st *State) float(v *Val) fint {
	if v.K != KFloat {
		return anyFloat
	}
	if v.S == 0 {
		if len(v.At) == 0 {
			return fint{}
		}
		r, ok := new(big.Rat).SetString(v.At[0].Lit)
		if !ok {
			return anyFloat
		}
		k, _ := r.Float64()
		return fint{lo: k, hi: k}
	}
	if f, ok := st.fl[v.S]; ok {
		return f
	}
	return anyFloat
}

func (st *State) setFloat(v *Val, f fint) bool {
	f = meet(st.float(v), f)
	if v.S != 0 {
		n := make(map[Sym]fint, len(st.fl)+1)
		for k, x := range st.fl {
			n[k] = x
		}
		n[v.S] = f
		st.fl = n
	}
	return !f.empty()
}

func assumeFloat(st *State, op token.Token, x, y *Val) bool {
	a, b := st.float(x), st.float(y)
	switch op {
	case token.GTR, token.GEQ:
		x, y, a, b = y, x, b, a
		op = map[token.Token]token.Token{token.GTR: token.LSS, token.GEQ: token.LEQ}[op]
	}
	switch op {
	case token.EQL:
		return st.setFloat(x, b) && st.setFloat(y, a)
	case token.NEQ:
		return a != b || a.lo != a.hi
	case token.LSS, token.LEQ:
		o := op == token.LSS
		return st.setFloat(x, fint{lo: math.Inf(-1), hi: b.hi, hiOpen: o || b.hiOpen}) &&
			st.setFloat(y, fint{lo: a.lo, hi: math.Inf(1), loOpen: o || a.loOpen})
	}
	return true
}

// floatVal is a known number.
func floatVal(q float64) *Val {
	return &Val{K: KFloat, At: []Atom{{Lit: new(big.Rat).SetFloat64(q).RatString()}}}
}

// known gives the value of a known number.
func knownFloat(v *Val) (float64, bool) {
	if v.K != KFloat || v.S != 0 {
		return 0, false
	}
	if len(v.At) == 0 {
		return 0, true
	}
	r, ok := new(big.Rat).SetString(v.At[0].Lit)
	if !ok {
		return 0, false
	}
	k, _ := r.Float64()
	return k, true
}
