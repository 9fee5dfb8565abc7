package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// RTCP packets, addresses, times and random numbers, by the shape interpreter.

func byteK(k int) bvec { return cvec(uint64(k), 8) }

// rtcp lays out an RTCP packet: the count or subtype, the rest after the
// header, and padding.
func (m *shape) rtcp(typ int, count bvec, rest []bvec, pad int) []bvec {
	p := bit(0)
	if pad > 0 {
		p = 1
	}
	out := []bvec{joinBits(count[:5], bvec{p}, cvec(2, 2)), byteK(typ)}
	out = append(out, be(m.fresh(16))...)
	out = append(out, rest...)
	for i := 0; i < pad; i++ {
		if i == pad-1 {
			out = append(out, byteK(pad))
		} else {
			out = append(out, m.fresh(8))
		}
	}
	return out
}

func (m *shape) rtcpCommon(o biface, data []bvec, known bool, typ int, bad func(string, ...interface{})) bool {
	if !m.is(m.on(o, "IsKnownFormat"), boolBit(known)) {
		if known {
			bad("the packet is not understood")
		} else {
			bad("the packet is not refused")
		}
		return false
	}
	if why := m.are(m.on(o, "GetPacketData"), data); why != "" {
		bad("GetPacketData: %s", why)
	}
	if !m.isK(m.on(o, "GetPacketLength"), len(data)) {
		bad("GetPacketLength is wrong")
	}
	if !m.isK(m.on(o, "GetPacketType"), typ) {
		bad("GetPacketType is wrong")
	}
	return true
}

func (m *shape) nothing(o biface, names []string, bad func(string, ...interface{})) {
	for _, n := range names {
		switch x := m.on(o, n).(type) {
		case bvec:
			if !m.is(x, cvec(0, len(x))) {
				bad("%s is not zero though the packet is not understood", n)
			}
		case bslice:
			if x.len != 0 {
				bad("%s is not empty though the packet is not understood", n)
			}
		}
	}
}

func rtcpCases() []scase {
	var cs []scase
	add := func(construct, sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{construct, sh, f})
	}
	const APP, BYE = 4, 3
	appNone := []string{"GetSubType", "GetSSRC", "GetName", "GetAPPData", "GetAPPDataLength"}
	byeNone := []string{"GetSSRCCount", "HasReasonForLeaving", "GetReasonLength", "GetReasonData"}
	for n := 0; n <= 17; n++ {
		for _, pad := range []int{0, 4, 8, 12, 16} {
			n, pad := n, pad
			add("rtp.NewRTCPAPPPacket", fmt.Sprintf("%d bytes of data, %d bytes of padding", n, pad), func(m *shape, bad func(string, ...interface{})) {
				sub, ssrc, name, app := m.fresh(5), m.fresh(32), m.freshBytes(4), m.freshBytes(n)
				data := m.rtcp(204, sub, append(append(be(ssrc), name...), app...), pad)
				buf := m.bytes(data)
				o := m.make("rtp", "NewRTCPAPPPacket", buf, cvec(uint64(len(data)), 64))
				check := func() {
					if !m.rtcpCommon(o, data, true, APP, bad) {
						return
					}
					if !m.is(m.on(o, "GetSubType"), sub) {
						bad("GetSubType is not the subtype of the packet")
					}
					if !m.is(m.on(o, "GetSSRC"), ssrc) {
						bad("GetSSRC is not the source of the packet")
					}
					if why := m.are(m.on(o, "GetName"), name); why != "" {
						bad("GetName: %s", why)
					}
					if why := m.are(m.on(o, "GetAPPData"), app); why != "" {
						bad("GetAPPData: %s", why)
					}
					if !m.isK(m.on(o, "GetAPPDataLength"), n) {
						bad("GetAPPDataLength is wrong")
					}
				}
				check()
				for i := 0; i < buf.len; i++ {
					buf.arr.el[i].v = m.fresh(8)
				}
				check()
			})
		}
	}
	refuse := func(ctor, sh string, typ int, none []string, lay func(m *shape) []bvec) {
		add("rtp."+ctor+": what it refuses", sh, func(m *shape, bad func(string, ...interface{})) {
			data := lay(m)
			o := m.make("rtp", ctor, m.bytes(data), cvec(uint64(len(data)), 64))
			if m.rtcpCommon(o, data, false, typ, bad) {
				m.nothing(o, none, bad)
			}
		})
	}
	for n := 0; n < 12; n++ {
		n := n
		refuse("NewRTCPAPPPacket", fmt.Sprintf("a packet of %d bytes", n), APP, appNone, func(m *shape) []bvec {
			return m.rtcp(204, m.fresh(5), m.freshBytes(8), 0)[:n]
		})
	}
	for n := 0; n < 24; n += 1 {
		for pad := 1; pad < 256; pad++ {
			n, pad := n, pad
			total := 4 + n + 1
			lay := func(count int) func(m *shape) []bvec {
				return func(m *shape) []bvec {
					d := m.rtcp(204, cvec(uint64(count), 5), m.freshBytes(n), 1)
					d[len(d)-1] = byteK(pad)
					return d
				}
			}
			if pad%4 != 0 || total-pad < 12 {
				refuse("NewRTCPAPPPacket", fmt.Sprintf("a packet of %d bytes with %d bytes of padding announced", total, pad), APP, appNone, lay(n))
			}
			if pad%4 != 0 || total-pad < 4+4*(n/4) {
				refuse("NewRTCPBYEPacket", fmt.Sprintf("a packet of %d bytes and %d sources with %d bytes of padding announced", total, n/4, pad), BYE, byeNone, lay(n/4))
			}
		}
	}
	for c := 0; c < 32; c++ {
		for k := 0; k < 4+4*c; k++ {
			c, k := c, k
			refuse("NewRTCPBYEPacket", fmt.Sprintf("%d sources, cut off after %d bytes", c, k), BYE, byeNone, func(m *shape) []bvec {
				return m.rtcp(203, cvec(uint64(c), 5), m.freshBytes(4*c), 0)[:k]
			})
		}
		for reason := -1; reason < 20; reason++ {
			for _, pad := range []int{0, 4, 8} {
				for _, fill := range []int{0, 1, 3} {
					if reason < 0 && fill > 0 {
						continue
					}
					c, reason, pad, fill := c, reason, pad, fill
					add("rtp.NewRTCPBYEPacket", fmt.Sprintf("%d sources, a reason of %d bytes (-1: none) and %d more, %d bytes of padding", c, reason, fill, pad), func(m *shape, bad func(string, ...interface{})) {
						ssrc := m.freshWords(c, 32)
						var rest []bvec
						for _, s := range ssrc {
							rest = append(rest, be(s)...)
						}
						var text []bvec
						if reason >= 0 {
							text = m.freshBytes(reason)
							rest = append(append(append(rest, byteK(reason)), text...), m.freshBytes(fill)...)
						}
						data := m.rtcp(203, cvec(uint64(c), 5), rest, pad)
						buf := m.bytes(data)
						o := m.make("rtp", "NewRTCPBYEPacket", buf, cvec(uint64(len(data)), 64))
						check := func() {
							if !m.rtcpCommon(o, data, true, BYE, bad) {
								return
							}
							if !m.isK(m.on(o, "GetSSRCCount"), c) {
								bad("GetSSRCCount is wrong")
							}
							for i := range ssrc {
								if !m.is(m.on(o, "GetSSRC", cvec(uint64(i), 64)), ssrc[i]) {
									bad("GetSSRC(%d) is not the source in the packet", i)
								}
							}
							if !m.is(m.on(o, "HasReasonForLeaving"), boolBit(reason >= 0)) {
								bad("HasReasonForLeaving is wrong")
							}
							n := reason
							if n < 0 {
								n = 0
							}
							if !m.isK(m.on(o, "GetReasonLength"), n) {
								bad("GetReasonLength is wrong")
							}
							if why := m.are(m.on(o, "GetReasonData"), text); why != "" {
								bad("GetReasonData: %s", why)
							}
						}
						check()
						for i := 0; i < buf.len; i++ {
							buf.arr.el[i].v = m.fresh(8)
						}
						check()
					})
				}
			}
		}
		for over := 1; over < 12; over++ {
			c, over := c, over
			refuse("NewRTCPBYEPacket", fmt.Sprintf("%d sources and a reason that is %d bytes too short", c, over), BYE, byeNone, func(m *shape) []bvec {
				return m.rtcp(203, cvec(uint64(c), 5), append(append(m.freshBytes(4*c), byteK(over+c)), m.freshBytes(c)...), 0)
			})
			refuse("NewRTCPBYEPacket", fmt.Sprintf("%d sources and a reason that reaches into the padding (by %d bytes)", c, over), BYE, byeNone, func(m *shape) []bvec {
				return m.rtcp(203, cvec(uint64(c), 5), append(append(m.freshBytes(4*c), byteK(over+c)), m.freshBytes(c)...), 12)
			})
		}
	}
	return cs
}

// ---- random numbers

// guard watches one call of a method of the generator.
type guard struct {
	m        *shape
	held     map[*bcell]int // 1: for reading, 2: for writing
	sections map[int]bool   // critical sections in which the state is used
	section  int
	wrote    map[int]bool
	bad      func(string, ...interface{})
}

func (g *guard) event(kind string, c *bcell, in ssa.Instruction) {
	at := shortPos(g.m.p.full().Fset.Position(in.Pos()).String())
	switch kind {
	case "Lock", "RLock":
		if g.held[c] != 0 {
			g.bad("%s: the lock is taken while it is held", at)
		}
		g.held[c] = 2
		if kind == "RLock" {
			g.held[c] = 1
		}
		g.section++
	case "Unlock", "RUnlock":
		if g.held[c] == 0 {
			g.bad("%s: a lock that is not held is released", at)
		}
		g.held[c] = 0
	case "read", "write":
		best := 0
		for _, h := range g.held {
			if h > best {
				best = h
			}
		}
		if best == 0 {
			g.bad("%s: the state is used without the lock", at)
		}
		if best == 1 && kind == "write" {
			g.bad("%s: the state is changed with the lock held for reading only", at)
		}
		if kind == "write" {
			g.wrote[g.section] = true
		}
		g.sections[g.section] = true
	}
}

func randomCases() []scase {
	var cs []scase
	calls := []string{"GetRandom8", "GetRandom16", "GetRandom32", "GetRandomDouble"}
	var seqs [][]int
	for i := 0; i < 4; i++ {
		for j := 0; j < 4; j++ {
			seqs = append(seqs, []int{i, j, 2}, []int{2, i, j, 1, 2}, []int{-1, i, j, 2}, []int{i, -1, j, 2})
		}
	}
	for _, seq := range seqs {
		seq := seq
		name := ""
		for _, k := range seq {
			if k < 0 {
				name += " SetSeed"
			} else {
				name += " " + calls[k]
			}
		}
		cs = append(cs, scase{"rtp.RandomRand48", "the calls" + name, func(m *shape, bad func(string, ...interface{})) {
			seed := m.fresh(32)
			o := m.make("rtp", "NewRandomRand48FromSeed", seed)
			start := func(seed bvec) bvec { return joinBits(cvec(0x330E, 16), seed, cvec(0, 16)) }
			state := start(seed)
			next := func() {
				x := m.addVec(m.mulVec(state, cvec(0x5DEECE66D, 64)), cvec(0xB, 64), 1)
				state = joinBits(x[:48], cvec(0, 16))
			}
			st, ok := o.v.(bptr)
			if !ok {
				m.stop("the generator is not an object")
			}
			g := &guard{m: m, bad: bad}
			for _, c := range st.c.v.(*bstruct).f {
				if _, isNum := c.v.(bvec); isNum {
					m.watch[c] = true
				}
			}
			m.event = g.event
			for _, k := range seq {
				g.held, g.sections, g.wrote, g.section = map[*bcell]int{}, map[int]bool{}, map[int]bool{}, 0
				what := "SetSeed"
				if k < 0 {
					s := m.fresh(32)
					m.on(o, "SetSeed", s)
					state = start(s)
				} else {
					what = calls[k]
					next()
					v := m.on(o, what)
					want := state[16:48]
					switch k {
					case 0:
						want = state[40:48]
					case 1:
						want = state[32:48]
					}
					if k < 3 && !m.is(v, want) {
						bad("the result of %s is not that of rand48", what)
					}
				}
				for _, h := range g.held {
					if h != 0 {
						bad("%s returns with the lock held", what)
					}
				}
				if len(g.sections) > 1 {
					bad("%s uses the state in %d critical sections: between them another goroutine may advance it", what, len(g.sections))
				}
			}
		}})
	}
	return cs
}

// ---- times

func timeCases() []scase {
	var cs []scase
	type tv struct {
		b        bptr
		sec, mic bvec
	}
	mk := func(m *shape) tv {
		b, s, u := m.rtpTime()
		if len(s) != 32 || len(u) != 32 {
			m.stop("RTPTime has other fields")
		}
		if !m.less(u, cvec(1000000, 32), false) {
			return tv{}
		}
		return tv{b, s, u}
	}
	obj := func(m *shape, t tv) biface {
		return objOf(m.p.fullFunc("rtp", "NewRTPTimeFromFloat64"), 0, t.b)
	}
	for _, name := range []string{"LT", "GT", "ELT", "EGT"} {
		name := name
		cs = append(cs, scase{"(*rtp.RTPTime)." + name, "two times", func(m *shape, bad func(string, ...interface{})) {
			a, b := mk(m), mk(m)
			if a.sec == nil || b.sec == nil {
				return
			}
			lt := m.less(a.sec, b.sec, false) || m.equalVec(a.sec, b.sec) && m.less(a.mic, b.mic, false)
			gt := m.less(b.sec, a.sec, false) || m.equalVec(a.sec, b.sec) && m.less(b.mic, a.mic, false)
			want := map[string]bool{"LT": lt, "GT": gt, "ELT": !gt, "EGT": !lt}[name]
			if !m.is(m.on(obj(m, a), name, b.b), boolBit(want)) {
				bad("the result is not the order of the times")
			}
		}})
	}
	field := func(m *shape, t tv, sec, mic bvec, what string, bad func(string, ...interface{})) {
		s := t.b.c.v.(*bstruct)
		if !m.is(s.f[0].v, sec) {
			bad("the seconds of %s are wrong", what)
		}
		if !m.is(s.f[1].v, mic) {
			bad("the microseconds of %s are wrong", what)
		}
	}
	const minus = ^uint64(0)
	cs = append(cs, scase{"(*rtp.RTPTime).Add", "two times", func(m *shape, bad func(string, ...interface{})) {
		a, b := mk(m), mk(m)
		if a.sec == nil || b.sec == nil {
			return
		}
		sec, mic := m.addVec(a.sec, b.sec, 1), m.addVec(a.mic, b.mic, 1)
		if !m.less(mic, cvec(1000000, 32), false) {
			sec, mic = m.addVec(sec, cvec(1, 32), 1), m.addVec(mic, cvec(1000000, 32), minus)
		}
		m.guess = false
		m.on(obj(m, a), "Add", b.b)
		field(m, a, sec, mic, "the sum", bad)
		field(m, b, b.sec, b.mic, "the time that is added", bad)
	}}, scase{"(*rtp.RTPTime).Sub", "two times", func(m *shape, bad func(string, ...interface{})) {
		a, b := mk(m), mk(m)
		if a.sec == nil || b.sec == nil {
			return
		}
		sec, mic := m.addVec(a.sec, b.sec, minus), m.addVec(a.mic, b.mic, minus)
		if m.less(a.mic, b.mic, false) {
			sec, mic = m.addVec(sec, cvec(1, 32), minus), m.addVec(mic, cvec(1000000, 32), 1)
		}
		m.on(obj(m, a), "Sub", b.b)
		field(m, a, sec, mic, "the difference", bad)
		field(m, b, b.sec, b.mic, "the time that is subtracted", bad)
	}}, scase{"(*rtp.RTPTime).Clone", "a time", func(m *shape, bad func(string, ...interface{})) {
		a := mk(m)
		if a.sec == nil {
			return
		}
		c, ok := m.on(obj(m, a), "Clone").(bptr)
		if !ok || c.c == nil || c.c == a.b.c {
			bad("it is not another object")
			return
		}
		field(m, tv{b: c}, a.sec, a.mic, "the clone", bad)
	}}, scase{"(*rtp.RTPTime).GetNTPTime, rtp.NewRTPTimeFromNTPTime", "a time", func(m *shape, bad func(string, ...interface{})) {
		a := mk(m)
		if a.sec == nil {
			return
		}
		n, ok := m.on(obj(m, a), "GetNTPTime").(bptr)
		if !ok || n.c == nil {
			bad("there is no NTP time")
			return
		}
		o := objOf(m.p.fullFunc("rtp", "NewNTPTime"), 0, n)
		if !m.is(m.on(o, "GetMSW"), m.addVec(a.sec, cvec(2208988800, 32), 1)) {
			bad("the NTP seconds are not those since 1900")
		}
	}}, scase{"rtp.NewRTPTimeFromNTPTime", "an NTP time", func(m *shape, bad func(string, ...interface{})) {
		msw, lsw := m.fresh(32), m.fresh(32)
		before := m.less(msw, cvec(2208988800, 32), false)
		n := m.make("rtp", "NewNTPTime", msw, lsw)
		o := m.make("rtp", "NewRTPTimeFromNTPTime", n.v)
		s := o.v.(bptr).c.v.(*bstruct)
		if before {
			if !m.is(s.f[0].v, cvec(0, 32)) || !m.is(s.f[1].v, cvec(0, 32)) {
				bad("a time before 1970 is not zero")
			}
		} else if !m.is(s.f[0].v, m.addVec(msw, cvec(2208988800, 32), minus)) {
			bad("the seconds are not those since 1970")
		}
	}})
	return cs
}

func init() {
	levels["P24"] = "other"
	register(&Property{ID: "P24",
		Rule:  "The constructors and getters of the RTCP APP and BYE packets are interpreted over rows of bits: every value and byte is arbitrary, numbers of sources, of data, reason and padding bytes are enumerated. Each value got must be the bits of its field in RFC 3550, and packets whose counts do not fit their length must be reported as not understood.",
		Trust: []string{"data of 0 to 17 bytes, reasons of 0 to 19 bytes and padding of 4 to 16 bytes stand for all", "the packet length in the header is left to the caller, who passes the length of the packet"},
		Run: func(r *Report) {
			r.shapeCases("RTCP packets", rtcpCases())
		}})
	levels["P26"] = "other"
	register(&Property{ID: "P26",
		Rule:  "Sequences of calls on a generator with an arbitrary seed are interpreted over linear forms: each result must be the bits that rand48 gives, and every use of the state must lie in one critical section of the call, which ends before it returns.",
		Trust: []string{"the value of GetRandomDouble is not followed, only that it advances the state once"},
		Run: func(r *Report) {
			r.shapeCases("random numbers", randomCases())
		}})
	levels["P30"] = "proof"
	register(&Property{ID: "P30",
		Rule:  "The comparisons, the sum, the difference and the whole seconds of the conversion to and from NTP are interpreted over rows of bits and linear forms, for every pair of times with less than a million microseconds.",
		Trust: []string{"the fraction of a second, which is converted in floating point, is not followed"},
		Run: func(r *Report) {
			r.shapeCases("RTP times", timeCases())
		}})
}
