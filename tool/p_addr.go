package main

import (
	"fmt"
)

// RTP addresses and the list of collisions, by the shape interpreter.

// addr is an address of arbitrary contents: kind 4 and 16 are IP addresses of
// so many bytes, kind 100+n host names of n bytes, kind 104 and 116... see
// addrKinds.
type addr struct {
	o    biface
	host []bvec
	kind int
	port bvec
}

var addrKinds = []int{0, 4, 16, 17, 100, 101, 103}

func (m *shape) addr(kind int) *addr {
	a := &addr{kind: kind, port: m.fresh(16)}
	switch {
	case kind >= 100:
		a.host = m.freshBytes(kind - 100)
	case kind == 17: // an IPv4 address in sixteen bytes
		for i := 0; i < 12; i++ {
			if i < 10 {
				a.host = append(a.host, cvec(0, 8))
			} else {
				a.host = append(a.host, cvec(255, 8))
			}
		}
		a.host = append(a.host, m.freshBytes(4)...)
	case kind == 16: // no IPv4 address
		a.host = append([]bvec{cvec(0x20, 8)}, m.freshBytes(15)...)
	default:
		a.host = m.freshBytes(kind)
	}
	a.o = m.addrOf(a)
	return a
}

// addrOf makes another object of the same contents.
func (m *shape) addrOf(a *addr) biface {
	if a.kind >= 100 {
		return m.make("rtp", "NewHostAddress", bstr(a.host), a.port)
	}
	return m.make("rtp", "NewIPAddress", m.bytes(a.host), a.port)
}

func (m *shape) sameHost(a, b *addr) bool {
	if a.kind/100 != b.kind/100 {
		return false
	}
	x, y := a.host, b.host
	if a.kind == 17 {
		x = x[12:]
	}
	if b.kind == 17 {
		y = y[12:]
	}
	return m.sameBytes(x, y)
}

func (m *shape) sameBytes(x, y []bvec) bool {
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !m.equalVec(x[i], y[i]) {
			return false
		}
	}
	return true
}

func (m *shape) samePort(a, b *addr) bool { return m.equalVec(a.port, b.port) }

func kindText(k int) string {
	switch {
	case k >= 100:
		return fmt.Sprintf("a host name of %d bytes", k-100)
	case k == 17:
		return "an IPv4 address in 16 bytes"
	}
	return fmt.Sprintf("an IP address of %d bytes", k)
}

func addrCases() []scase {
	var cs []scase
	add := func(construct, sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{construct, sh, f})
	}
	for _, k := range addrKinds {
		typ := "IPAddress"
		if k >= 100 {
			typ = "HostAddress"
		}
		for _, l := range addrKinds {
			k, l := k, l
			sh := kindText(k) + " and " + kindText(l)
			add("(*rtp."+typ+").IsSameAddress", sh, func(m *shape, bad func(string, ...interface{})) {
				a, b := m.addr(k), m.addr(l)
				got := m.on(a.o, "IsSameAddress", b.o)
				want := m.sameHost(a, b) && m.samePort(a, b)
				if !m.is(got, boolBit(want)) {
					bad("the result is not whether host and port are the same (%v)", want)
				}
			})
			add("(*rtp."+typ+").IsFromSameHost", sh, func(m *shape, bad func(string, ...interface{})) {
				a, b := m.addr(k), m.addr(l)
				got := m.on(a.o, "IsFromSameHost", b.o)
				want := m.sameHost(a, b)
				if !m.is(got, boolBit(want)) {
					bad("the result is not whether the host is the same (%v)", want)
				}
			})
		}
		k := k
		for _, name := range []string{"IsSameAddress", "IsFromSameHost"} {
			name := name
			add("(*rtp."+typ+")."+name, kindText(k)+" and nil", func(m *shape, bad func(string, ...interface{})) {
				if !m.is(m.on(m.addr(k).o, name, biface{}), bvec{0}) {
					bad("nil is taken for the same address")
				}
			})
		}
		add("(*rtp."+typ+").Clone", kindText(k), func(m *shape, bad func(string, ...interface{})) {
			a := m.addr(k)
			c, ok := m.on(a.o, "Clone").(biface)
			if !ok || isNilShape(c) {
				bad("there is no clone")
				return
			}
			p, _ := c.v.(bptr)
			if q, _ := a.o.v.(bptr); p.c == q.c {
				bad("the clone is the address itself")
			}
			get := func() {
				name := "GetIP"
				if k >= 100 {
					name = "GetHost"
				}
				if why := m.are(m.on(c, name), a.host); why != "" {
					bad("%s of the clone: %s", name, why)
				}
				if !m.is(m.on(c, "GetPort"), a.port) {
					bad("the clone has another port")
				}
			}
			get()
			m.on(a.o, "SetPort", m.fresh(16))
			if k < 100 {
				ip, _ := m.on(a.o, "GetIP").(bslice)
				for i := 0; i < ip.len; i++ {
					ip.arr.el[ip.off+i].v = m.fresh(8)
				}
			} else {
				m.on(a.o, "SetHost", bstr(m.freshBytes(2)))
			}
			get()
		})
	}
	return cs
}

// timeK is a time in seconds and microseconds.
func (m *shape) timeOf(sec, mic bvec) bptr {
	b, _, _ := m.rtpTime()
	s := b.c.v.(*bstruct)
	s.f[0].v, s.f[1].v = sec, mic
	return b
}

func collisionCases() []scase {
	var cs []scase
	const con = "rtp.CollisionList"
	add := func(sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{con, sh, f})
	}
	type entry struct {
		a        *addr
		sec, mic bvec
	}
	add("no address", func(m *shape, bad func(string, ...interface{})) {
		l := m.make("rtp", "NewCollisionList")
		r, _ := m.on(l, "UpdateAddress", biface{}, m.timeOf(m.fresh(32), m.fresh(32)).c.v).(btuple)
		if len(r) != 2 || isNilShape(r[1]) {
			bad("UpdateAddress(nil) is not refused")
		}
	})
	type span struct{ cs, cm, ds, dm int } // now, and for how long entries are kept
	spans := []span{{1000, 0, 0, 0}, {1000, 200000, 5, 0}, {1000, 200000, 5, 300000}, {7, 999999, 7, 999999}}
	// sequences of operations: u0..u2 update, t the time-out, c clear
	for _, seq := range []string{"u0", "u0u1", "u0u1u2", "u0u1u0", "u0u1tu1", "u0tu0", "u0u1u2t", "u0u1u2u1t", "u0u1c", "u0u1cu1", "tu0", "u0u1tt"} {
		for si, sp := range spans {
			for _, kinds := range [][]int{{101, 101, 101}, {4, 101, 4}} {
				seq, sp, kinds := seq, sp, kinds
				hasT := false
				for _, c := range seq {
					hasT = hasT || c == 't'
				}
				if !hasT && si > 0 {
					continue
				}
				add(fmt.Sprintf("the operations %s, it is %d.%06d, entries are kept for %d.%06d", seq, sp.cs, sp.cm, sp.ds, sp.dm), func(m *shape, bad func(string, ...interface{})) {
					l := m.make("rtp", "NewCollisionList")
					as := []*addr{m.addr(kinds[0]), m.addr(kinds[1]), m.addr(kinds[2])}
					for _, a := range as {
						a.port = cvec(5004, 16)
					}
					var have []*entry
					same := func(a, b *addr) bool { return a == b || m.sameHost(a, b) }
					find := func(a *addr) *entry {
						for _, e := range have {
							if same(e.a, a) {
								return e
							}
						}
						return nil
					}
					limS, limM := sp.cs-sp.ds, sp.cm-sp.dm
					if limM < 0 {
						limS, limM = limS-1, limM+1000000
					}
					for i := 0; i < len(seq); i++ {
						switch seq[i] {
						case 'u':
							i++
							a := as[seq[i]-'0']
							o := m.addrOf(a)
							sec, mic := cvec(uint64(sp.cs), 32), cvec(uint64(sp.cm), 32)
							if hasT {
								sec, mic = m.fresh(32), m.fresh(32)
								if !m.less(mic, cvec(1000000, 32), false) {
									return
								}
							}
							r, _ := m.on(l, "UpdateAddress", o, m.timeOf(sec, mic).c.v).(btuple)
							e := find(a)
							if len(r) != 2 || !isNilShape(r[1]) {
								bad("UpdateAddress is refused")
								return
							}
							if !m.is(r[0], boolBit(e == nil)) {
								bad("UpdateAddress says wrongly whether the entry is new")
							}
							if e == nil {
								have = append(have, &entry{a, sec, mic})
							} else {
								e.sec, e.mic = sec, mic
							}
							m.on(o, "SetPort", m.fresh(16)) // the list keeps its own copy
						case 't':
							m.on(l, "Timeout", m.timeOf(cvec(uint64(sp.cs), 32), cvec(uint64(sp.cm), 32)), m.timeOf(cvec(uint64(sp.ds), 32), cvec(uint64(sp.dm), 32)))
							var keep []*entry
							for _, e := range have {
								s, u := cvec(uint64(limS), 32), cvec(uint64(limM), 32)
								if m.less(e.sec, s, false) || m.equalVec(e.sec, s) && m.less(e.mic, u, false) {
									continue
								}
								keep = append(keep, e)
							}
							have = keep
						case 'c':
							m.on(l, "Clear")
							have = nil
						}
						for j, a := range as {
							if j > 1 && i < len(seq)-1 {
								continue
							}
							got := m.on(l, "HasAddress", m.addrOf(a))
							if !m.is(got, boolBit(find(a) != nil)) {
								bad("after %s, HasAddress is wrong (there is an entry: %v)", seq[:i+1], find(a) != nil)
								return
							}
						}
					}
				})
			}
		}
	}
	return cs
}

func init() {
	levels["P28"] = "other"
	register(&Property{ID: "P28",
		Rule:  "Comparisons and copies of IP and host addresses are interpreted for pairs of addresses of every kind whose bytes and ports are arbitrary; each result must be the equality of host (and port).",
		Trust: []string{"host names of 0, 1 and 3 bytes stand for all", "net.IP.Equal and net.IP.To4 are replaced by their definitions"},
		Run: func(r *Report) {
			r.shapeCases("RTP addresses", addrCases())
		}})
	levels["P29"] = "other"
	register(&Property{ID: "P29",
		Rule:  "Sequences of operations on a collision list are interpreted, together with container/list, for arbitrary addresses (equal or not) and times; what the list holds must be what a list of pairs of address and time holds.",
		Trust: []string{"sequences of up to four operations with up to three addresses stand for all"},
		Run: func(r *Report) {
			r.shapeCases("collision list", collisionCases())
		}})
}
