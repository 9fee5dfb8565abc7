package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Packets and their parts, by the shape interpreter.

// scase is one shape of the input: f interprets the code with it and says
// what is wrong.
type scase struct {
	construct string // what is judged
	shape     string // with which input
	f         func(m *shape, bad func(f string, a ...interface{}))
}

// shapeCases decides all cases and reports one obligation per construct.
func (r *Report) shapeCases(rule string, cases []scase) {
	type out struct {
		ways         int
		wrong, stuck string
	}
	res := make([]out, len(cases))
	r.p.full()
	var wg sync.WaitGroup
	next := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				c, o := cases[i], &res[i]
				ways, crash, stuck := shapeRuns(r.p, func(m *shape) {
					c.f(m, func(f string, a ...interface{}) {
						if o.wrong == "" {
							o.wrong = fmt.Sprintf(f, a...)
						}
					})
				})
				o.ways, o.stuck = ways, stuck
				if o.wrong == "" {
					o.wrong = crash
				}
			}
		}()
	}
	for i := range cases {
		next <- i
	}
	close(next)
	wg.Wait()
	ways, undecided := 0, map[string]string{}
	n := map[string]int{}
	for i, c := range cases {
		n[c.construct]++
		ways += res[i].ways
		switch {
		case res[i].wrong != "":
			r.bad(rule, c.construct, r.p.whereIs(c.construct), fmt.Sprintf("with %s: %s", c.shape, res[i].wrong))
		case res[i].stuck != "":
			undecided[c.construct] = c.shape + ": " + res[i].stuck
		default:
			r.ok(rule, c.construct)
		}
	}
	r.stat("shapes of input ("+rule+")", n)
	r.stat("ways through the code ("+rule+")", ways)
	if len(undecided) > 0 {
		var ks []string
		for k, v := range undecided {
			ks = append(ks, k+" with "+v)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("UNDECIDED:", k)
		}
		r.stat("undecided ("+rule+")", ks)
	}
}

var nameRe = regexp.MustCompile(`\(\*(\w+)\.(\w+)\)\.(\w+)|(\w+)\.(\w+)`)

// whereIs finds the first function named in a construct.
func (p *Program) whereIs(construct string) string {
	g := nameRe.FindStringSubmatch(construct)
	if g == nil {
		return ""
	}
	pkg, name, meth := g[1], g[2], g[3]
	if pkg == "" {
		pkg, name = g[4], g[5]
	}
	sp := p.full().ImportedPackage(modPath + "/" + pkg)
	if sp == nil {
		return ""
	}
	obj := sp.Pkg.Scope().Lookup(name)
	if obj == nil {
		return ""
	}
	if meth != "" {
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(obj.Type()), true, sp.Pkg, meth); o != nil {
			obj = o
		}
	}
	return shortPos(p.full().Fset.Position(obj.Pos()).String())
}

// on calls a public method.
func (m *shape) on(obj interface{}, name string, args ...interface{}) interface{} {
	var t types.Type
	switch x := obj.(type) {
	case biface:
		t, obj = x.t, x.v
	default:
		m.stop("a method of %T", obj)
	}
	fn := m.method(t, name)
	return m.call(fn, append([]interface{}{obj}, args...)...)
}

func (m *shape) method(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	switch x := t.(type) {
	case *types.Pointer:
		if n, ok := x.Elem().(*types.Named); ok {
			pkg = n.Obj().Pkg()
		}
	case *types.Named:
		pkg = x.Obj().Pkg()
	}
	fn := m.p.full().LookupMethod(t, pkg, name)
	if fn == nil {
		m.stop("no method %s of %s", name, t)
	}
	return fn
}

// obj is a result of fn together with its type.
func objOf(fn *ssa.Function, i int, v interface{}) biface {
	if x, ok := v.(biface); ok {
		return x
	}
	return biface{fn.Signature.Results().At(i).Type(), v}
}

func (m *shape) make(pkg, name string, args ...interface{}) biface {
	fn := m.p.fullFunc(pkg, name)
	if fn == nil {
		m.stop("no function %s", name)
	}
	v := m.call(fn, args...)
	if t, ok := v.(btuple); ok {
		v = t[0]
	}
	return objOf(fn, 0, v)
}

func isNilShape(v interface{}) bool {
	switch x := v.(type) {
	case biface:
		return x.t == nil || isNilShape(x.v)
	case bptr:
		return x.c == nil
	case bslice:
		return x.arr == nil
	case *bmap:
		return x == nil
	}
	return false
}

// is: the number v has these bits.
func (m *shape) is(v interface{}, want bvec) bool {
	x, ok := v.(bvec)
	if !ok {
		return false
	}
	x, want = m.res(x), m.res(want)
	for i := range x {
		w := bit(0)
		if i < len(want) {
			w = want[i]
		}
		if x[i] != w {
			if m.opaque[x[i]] || m.guess {
				m.stop("arithmetic that is not followed")
			}
			return false
		}
	}
	return len(want) <= len(x)
}

func (m *shape) isK(v interface{}, k int) bool {
	x, ok := v.(bvec)
	return ok && m.is(v, cvec(uint64(int64(k)), len(x)))
}

// are: the bytes of v are these.
func (m *shape) are(v interface{}, want []bvec) string {
	got := m.readBytes(v)
	if len(got) != len(want) {
		return fmt.Sprintf("%d bytes instead of %d", len(got), len(want))
	}
	for i := range got {
		if !m.is(got[i], want[i]) {
			return fmt.Sprintf("byte %d is not what it should be", i)
		}
	}
	return ""
}

func be(v bvec) []bvec {
	var out []bvec
	for i := len(v) - 8; i >= 0; i -= 8 {
		out = append(out, v[i:i+8])
	}
	return out
}

func (m *shape) freshBytes(n int) []bvec {
	var out []bvec
	for i := 0; i < n; i++ {
		out = append(out, m.fresh(8))
	}
	return out
}

func (m *shape) words(vs []bvec) bslice {
	var xs []interface{}
	for _, v := range vs {
		xs = append(xs, v)
	}
	return m.slice(xs...)
}

func (m *shape) freshWords(n, bits int) []bvec {
	var out []bvec
	for i := 0; i < n; i++ {
		out = append(out, m.fresh(bits))
	}
	return out
}

func joinBits(parts ...bvec) bvec {
	var out bvec
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// laid is an RTP packet laid out by RFC 3550, section 5.1.
type laid struct {
	version, cc, marker  int
	ext                  int // words of header extension, -1: none
	pad                  int // bytes of padding
	pt, seq, ts, ssrc    bvec
	csrc, words, payload []bvec
	extid                bvec
}

func (m *shape) lay(cc, ext, payload, pad, marker int) *laid {
	l := &laid{version: 2, cc: cc, ext: ext, pad: pad, marker: marker}
	l.pt = m.payloadType(marker == 0)
	l.seq, l.ts, l.ssrc = m.fresh(16), m.fresh(32), m.fresh(32)
	l.csrc = m.freshWords(cc, 32)
	if ext >= 0 {
		l.extid = m.fresh(16)
		l.words = m.freshWords(ext, 32)
	}
	l.payload = m.freshBytes(payload)
	return l
}

// payloadType is any payload type, or any but the two that a marker turns
// into RTCP reports.
func (m *shape) payloadType(all bool) bvec {
	var set byteSet
	for c := int64(0); c < 128; c++ {
		if all || c != 72 && c != 73 {
			set.put(c)
		}
	}
	return m.char(set)
}

func (l *laid) header() []bvec {
	x, p := 0, 0
	if l.ext >= 0 {
		x = 1
	}
	if l.pad > 0 {
		p = 1
	}
	out := []bvec{cvec(uint64(l.cc|x<<4|p<<5|l.version<<6), 8), joinBits(l.pt[:7], cvec(uint64(l.marker), 1))}
	out = append(out, be(l.seq)...)
	out = append(out, be(l.ts)...)
	out = append(out, be(l.ssrc)...)
	for _, c := range l.csrc {
		out = append(out, be(c)...)
	}
	return out
}

func (l *laid) extension() []bvec {
	if l.ext < 0 {
		return nil
	}
	out := append(be(l.extid), be(cvec(uint64(l.ext), 16))...)
	for _, w := range l.words {
		out = append(out, be(w)...)
	}
	return out
}

func (l *laid) packet() []bvec {
	out := append(l.header(), l.extension()...)
	out = append(out, l.payload...)
	for i := 0; i < l.pad; i++ {
		if i == l.pad-1 {
			out = append(out, cvec(uint64(l.pad), 8))
		} else {
			out = append(out, cvec(0, 8))
		}
	}
	return out
}

// getters compares what the packet object tells with the packet.
func (m *shape) rtpGetters(o biface, l *laid, bad func(string, ...interface{})) {
	flag := func(name string, want bool) {
		if !m.is(m.on(o, name), boolBit(want)) {
			bad("%s is wrong", name)
		}
	}
	num := func(name string, want bvec) {
		if !m.is(m.on(o, name), want) {
			bad("%s is not the value of the packet", name)
		}
	}
	flag("HasMarker", l.marker == 1)
	flag("HasExtension", l.ext >= 0)
	num("GetPayloadType", l.pt[:7])
	num("GetSequenceNumber", l.seq)
	num("GetTimestamp", l.ts)
	num("GetSSRC", l.ssrc)
	num("GetCSRCCount", cvec(uint64(l.cc), 8))
	for i, c := range l.csrc {
		if !m.is(m.on(o, "GetCSRC", cvec(uint64(i), 8)), c) {
			bad("GetCSRC(%d) is not the value of the packet", i)
		}
	}
	if l.ext >= 0 {
		num("GetExtensionID", l.extid)
		num("GetExtensionLength", cvec(uint64(l.ext), 16))
		d, _ := m.on(o, "GetExtensionData").(bslice)
		if d.len != l.ext {
			bad("GetExtensionData has %d words instead of %d", d.len, l.ext)
		} else {
			for i := range l.words {
				if !m.is(d.arr.el[d.off+i].v, l.words[i]) {
					bad("word %d of GetExtensionData is not the value of the packet", i)
				}
			}
		}
	} else if d, _ := m.on(o, "GetExtensionData").(bslice); d.len != 0 {
		bad("GetExtensionData has data where there is no extension")
	}
	if why := m.are(m.on(o, "GetPayload"), l.payload); why != "" {
		bad("GetPayload: %s", why)
	}
}

func (m *shape) newPacket(l *laid, pt bvec, numcsrc, extlen int, csrc, words []bvec, payload bslice) biface {
	id := l.extid
	if id == nil {
		id = m.fresh(16)
	}
	return m.make("rtp", "NewPacket", pt, payload, l.seq, l.ts, l.ssrc, boolBit(l.marker == 1), cvec(uint64(numcsrc), 8), m.words(csrc), boolBit(l.ext >= 0), id, cvec(uint64(extlen), 16), m.words(words))
}

func (m *shape) rtpTime() (bptr, bvec, bvec) {
	t := m.p.fullType("rtp", "RTPTime")
	if t == nil {
		m.stop("no type RTPTime")
	}
	v := m.zero(t).(*bstruct)
	if len(v.f) != 2 {
		m.stop("RTPTime has other fields")
	}
	a, b := m.fresh(len(v.f[0].v.(bvec))), m.fresh(len(v.f[1].v.(bvec)))
	v.f[0].v, v.f[1].v = a, b
	return bptr{&bcell{v}}, a, b
}

func (m *shape) rawPacket(data []bvec, rtp bool) (biface, bvec, bvec) {
	t, a, b := m.rtpTime()
	return m.make("rtp", "NewRawPacket", m.bytes(data), biface{}, t, boolBit(rtp)), a, b
}

func rtpCases() []scase {
	var cs []scase
	add := func(construct, sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{construct, sh, f})
	}
	for cc := 0; cc <= 15; cc++ {
		for _, ext := range []int{-1, 0, 1, 2, 5} {
			for _, n := range []int{0, 1, 2, 7} {
				for mk := 0; mk < 2; mk++ {
					cc, ext, n, mk := cc, ext, n, mk
					sh := fmt.Sprintf("%d CSRCs, %s, %d bytes of payload, marker %d", cc, extText(ext), n, mk)
					add("rtp.NewPacket", sh, func(m *shape, bad func(string, ...interface{})) {
						l := m.lay(cc, ext, n, 0, mk)
						l.pt = m.payloadType(false)
						buf := m.bytes(l.payload)
						// more words than are asked for
						csrc := append(append([]bvec{}, l.csrc...), m.freshWords(n&1, 32)...)
						words := append(append([]bvec{}, l.words...), m.freshWords(n&2, 32)...)
						xl := ext
						if ext < 0 {
							xl = 3
						}
						o := m.newPacket(l, l.pt, cc, xl, csrc, words, buf)
						if isNilShape(o) {
							bad("no packet is built")
							return
						}
						check := func() {
							if why := m.are(m.on(o, "GetPacket"), l.packet()); why != "" {
								bad("GetPacket: %s", why)
							}
							m.rtpGetters(o, l, bad)
						}
						check()
						for i := 0; i < buf.len; i++ { // the buffer is used for something else
							buf.arr.el[i].v = m.fresh(8)
						}
						check()
					})
					if n == 2 && mk == 1 {
						continue
					}
					for _, pad := range []int{0, 1, 4, 9} {
						pad := pad
						add("rtp.NewRTPPacketFromRawPacket", sh+fmt.Sprintf(", %d bytes of padding", pad), func(m *shape, bad func(string, ...interface{})) {
							l := m.lay(cc, ext, n, pad, mk)
							raw, t1, t2 := m.rawPacket(l.packet(), true)
							data, _ := m.on(raw, "GetData").(bslice)
							o := m.make("rtp", "NewRTPPacketFromRawPacket", raw.v)
							if isNilShape(o) {
								bad("the packet is refused")
								return
							}
							check := func() {
								m.rtpGetters(o, l, bad)
								if why := m.are(m.on(o, "GetPacket"), l.packet()); why != "" {
									bad("GetPacket: %s", why)
								}
							}
							check()
							if t, ok := m.on(o, "GetReceiveTime").(bptr); !ok || t.c == nil {
								bad("GetReceiveTime is nil")
							} else if s := t.c.v.(*bstruct); !m.is(s.f[0].v, t1) || !m.is(s.f[1].v, t2) {
								bad("GetReceiveTime is not the time of the raw packet")
							}
							for i := 0; i < data.len; i++ {
								data.arr.el[data.off+i].v = m.fresh(8)
							}
							check()
						})
					}
				}
			}
		}
	}
	refused := func(construct, sh string, f func(m *shape) biface) {
		add(construct, sh, func(m *shape, bad func(string, ...interface{})) {
			if !isNilShape(f(m)) {
				bad("it is not refused")
			}
		})
	}
	for k := 0; k < 256; k++ {
		if k < 128 && k != 72 && k != 73 {
			continue
		}
		k := k
		refused("rtp.NewPacket: what it refuses", fmt.Sprintf("payload type %d", k), func(m *shape) biface {
			l := m.lay(1, 1, 1, 0, 0)
			return m.newPacket(l, cvec(uint64(k), 8), 1, 1, l.csrc, l.words, m.bytes(l.payload))
		})
	}
	for k := 16; k < 256; k++ {
		k := k
		refused("rtp.NewPacket: what it refuses", fmt.Sprintf("%d CSRCs", k), func(m *shape) biface {
			l := m.lay(15, 1, 1, 0, 0)
			return m.newPacket(l, l.pt, k, 1, m.freshWords(k, 32), l.words, m.bytes(l.payload))
		})
	}
	for k := 1; k < 16; k++ {
		k := k
		refused("rtp.NewPacket: what it refuses", fmt.Sprintf("%d CSRCs of which %d are given", k, k-1), func(m *shape) biface {
			l := m.lay(k, -1, 1, 0, 0)
			return m.newPacket(l, l.pt, k, 0, l.csrc[1:], nil, m.bytes(l.payload))
		})
		refused("rtp.NewPacket: what it refuses", fmt.Sprintf("an extension of %d words of which %d are given", k, k-1), func(m *shape) biface {
			l := m.lay(1, k, 1, 0, 0)
			return m.newPacket(l, l.pt, 1, k, l.csrc, l.words[1:], m.bytes(l.payload))
		})
	}
	const recv = "rtp.NewRTPPacketFromRawPacket: what it refuses"
	for cc := 0; cc <= 15; cc++ {
		for _, ext := range []int{-1, 0, 1, 4} {
			n := 12 + 4*cc
			if ext >= 0 {
				n += 4 + 4*ext
			}
			for k := 0; k < n; k++ {
				cc, ext, k := cc, ext, k
				refused(recv, fmt.Sprintf("%d CSRCs, %s, cut off after %d bytes", cc, extText(ext), k), func(m *shape) biface {
					l := m.lay(cc, ext, 0, 0, 0)
					raw, _, _ := m.rawPacket(l.packet()[:k], true)
					return m.make("rtp", "NewRTPPacketFromRawPacket", raw.v)
				})
			}
			for _, pad := range []int{4, 5, 77, 255} {
				pad, cc, ext := pad, cc, ext
				refused(recv, fmt.Sprintf("%d CSRCs, %s, 3 bytes of payload, %d bytes of padding announced", cc, extText(ext), pad), func(m *shape) biface {
					l := m.lay(cc, ext, 3, 1, 0)
					l.payload = l.payload[1:]
					b := l.packet()
					b[len(b)-1] = cvec(uint64(pad), 8)
					raw, _, _ := m.rawPacket(b, true)
					return m.make("rtp", "NewRTPPacketFromRawPacket", raw.v)
				})
			}
		}
	}
	for _, v := range []int{0, 1, 3} {
		v := v
		refused(recv, fmt.Sprintf("version %d", v), func(m *shape) biface {
			l := m.lay(1, 1, 4, 0, 0)
			l.version = v
			raw, _, _ := m.rawPacket(l.packet(), true)
			return m.make("rtp", "NewRTPPacketFromRawPacket", raw.v)
		})
	}
	refused(recv, "data of the RTCP port", func(m *shape) biface {
		raw, _, _ := m.rawPacket(m.lay(1, 1, 4, 0, 0).packet(), false)
		return m.make("rtp", "NewRTPPacketFromRawPacket", raw.v)
	})
	for _, pt := range []int{72, 73} {
		pt := pt
		refused(recv, fmt.Sprintf("marker and payload type %d, which is an RTCP report", pt), func(m *shape) biface {
			l := m.lay(1, 1, 4, 0, 1)
			l.pt = cvec(uint64(pt), 8)
			raw, _, _ := m.rawPacket(l.packet(), true)
			return m.make("rtp", "NewRTPPacketFromRawPacket", raw.v)
		})
	}
	for cc := 0; cc <= 15; cc++ {
		cc := cc
		add("rtp.NewRTPHeaderFromBytes, (*rtp.RTPHeader).Encode", fmt.Sprintf("%d CSRCs", cc), func(m *shape, bad func(string, ...interface{})) {
			l := m.lay(cc, cc%2-1, 0, cc%3, 0)
			h := l.header()
			h[0] = joinBits(cvec(uint64(cc), 4), m.fresh(4))
			h[1] = m.fresh(8)
			o := m.make("rtp", "NewRTPHeaderFromBytes", m.bytes(append(append([]bvec{}, h...), m.freshBytes(cc%5)...)))
			if isNilShape(o) {
				bad("the header is refused")
				return
			}
			if why := m.are(m.on(o, "Encode"), h); why != "" {
				bad("a header that was read is encoded differently: %s", why)
			}
		})
	}
	for _, n := range []int{0, 1, 2, 3, 8, 63, 64, 65, 300, 16383, 16384, 16385} {
		n := n
		add("rtp.NewRTPExtensionFromBytes, (*rtp.RTPExtension).Encode", fmt.Sprintf("%d words", n), func(m *shape, bad func(string, ...interface{})) {
			l := m.lay(0, n, 0, 0, 0)
			e := l.extension()
			o := m.make("rtp", "NewRTPExtensionFromBytes", m.bytes(append(append([]bvec{}, e...), m.freshBytes(n%5)...)))
			if isNilShape(o) {
				bad("the extension is refused")
				return
			}
			if why := m.are(m.on(o, "Encode"), e); why != "" {
				bad("an extension that was read is encoded differently: %s", why)
			}
		})
		if n < 400 {
			for k := 0; k < 4+4*n; k++ {
				k := k
				refused("rtp.NewRTPExtensionFromBytes: what it refuses", fmt.Sprintf("%d words cut off after %d bytes", n, k), func(m *shape) biface {
					return m.make("rtp", "NewRTPExtensionFromBytes", m.bytes(m.lay(0, n, 0, 0, 0).extension()[:k]))
				})
			}
		}
	}
	return cs
}

func extText(n int) string {
	if n < 0 {
		return "no extension"
	}
	return strings.TrimSpace(fmt.Sprintf("an extension of %d words", n))
}

func init() {
	levels["P23"] = "other"
	register(&Property{ID: "P23",
		Rule:  "The functions that build, lay out and read RTP packets are interpreted over rows of bits: every value and byte is arbitrary, numbers of CSRCs, extension words, payload and padding bytes are enumerated. Each bit of the packet must be the bit of the value that RFC 3550 puts there, each value got from a packet must be the bits of its field, and packets that are not well formed must be refused.",
		Trust: []string{"payloads of 0, 1, 2 and 7 bytes, extensions of 0 to 5 words (up to 16385 for the extension alone) and padding of 1, 4 and 9 bytes stand for all", "the padding count zero, which RFC 3550 forbids, is left open"},
		Run: func(r *Report) {
			r.shapeCases("RTP packets", rtpCases())
		}})
}
