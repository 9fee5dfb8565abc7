package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The states and timeouts of the stack (package sip) and the objects that only
// hold values (package rtp), by the shape interpreter.

// initPackage runs the initialiser of one package.
func (m *shape) initPackage(pkg string) {
	sp := m.p.full().ImportedPackage(modPath + "/" + pkg)
	if sp == nil || sp.Func("init") == nil {
		m.stop("no package %s", pkg)
	}
	first := sp.Func("init")
	if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
		m.globals[g] = &bcell{bvec{0}}
	}
	before := m.model
	m.model = func(m *shape, fn *ssa.Function, args []interface{}) (interface{}, bool) {
		if fn.Name() == "init" && fn != first {
			return nil, true
		}
		if before != nil {
			return before(m, fn, args)
		}
		return nil, false
	}
	m.call(first)
	m.model = before
}

// stateVar reads a public variable.
func (m *shape) stateVar(pkg, name string) interface{} {
	sp := m.p.full().ImportedPackage(modPath + "/" + pkg)
	g, _ := sp.Members[name].(*ssa.Global)
	if g == nil {
		m.stop("no variable %s", name)
	}
	return m.global(g).v
}

var stateKinds = []struct {
	typ, get, prefix string
	names, texts     []string
}{
	{"TransactionState", "GetTransactionState", "TRANSACTIONSTATE_",
		[]string{"CALLING", "TRYING", "PROCEEDING", "COMPLETED", "CONFIRMED", "TERMINATED"},
		[]string{"Calling", "Trying", "Proceeding", "Completed", "Confirmed", "Terminated"}},
	{"DialogState", "GetDialogState", "DIALOGSTATE_",
		[]string{"EARLY", "CONFIRMED", "COMPLETED", "TERMINATED"},
		[]string{"Early", "Confirmed", "Completed", "Terminated"}},
	{"Timeout", "GetTimeout", "TIMEOUT_",
		[]string{"RETRANSMIT", "TRANSACTION"},
		[]string{"Retransmission", "Transaction"}},
}

func stateCases() []scase {
	var cs []scase
	add := func(con, sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{con, sh, f})
	}
	for _, k := range stateKinds {
		k := k
		con := "sip." + k.get
		add(con, "any number", func(m *shape, bad func(string, ...interface{})) {
			m.initPackage("sip")
			v := m.fresh(64)
			fn := m.p.fullFunc("sip", k.get)
			if fn == nil {
				m.stop("no function %s", k.get)
			}
			in := !m.less(v, cvec(0, 64), true) && m.less(v, cvec(uint64(len(k.names)), 64), true)
			if in { // one way for each state
				i := 0
				for ; i < len(k.names)-1; i++ {
					if m.equalVec(v, cvec(uint64(i), 64)) {
						break
					}
				}
				v = cvec(uint64(i), 64)
			}
			r, _ := m.call(fn, v).(btuple)
			if len(r) != 2 {
				m.stop("other results")
			}
			if !in {
				if isNilShape(r[1]) {
					bad("a number that is no state is not refused")
				}
				if !isNilShape(r[0]) {
					bad("a number that is no state leads to a state")
				}
				return
			}
			if !isNilShape(r[1]) || isNilShape(r[0]) {
				bad("a state is refused")
				return
			}
			i := m.int(v)
			if cellOf(r[0]) != cellOf(m.stateVar("sip", k.prefix+k.names[i])) {
				bad("number %d does not lead to %s%s", i, k.prefix, k.names[i])
			}
		})
		for i, n := range k.names {
			i, n := i, n
			add("(*sip."+k.typ+").GetValue", k.prefix+n, func(m *shape, bad func(string, ...interface{})) {
				m.initPackage("sip")
				o := objOf(m.p.fullFunc("sip", k.get), 0, m.stateVar("sip", k.prefix+n))
				if isNilShape(o) {
					bad("%s%s is nil", k.prefix, n)
					return
				}
				g := m.on(o, "GetValue")
				if got := m.int(g); got != i {
					bad("the value is %d instead of %d", got, i)
				}
				r, _ := m.call(m.p.fullFunc("sip", k.get), g).(btuple)
				if len(r) != 2 || cellOf(r[0]) != cellOf(o) {
					bad("its value does not lead back to it")
				}
			})
			add("(*sip."+k.typ+").ToString", k.prefix+n, func(m *shape, bad func(string, ...interface{})) {
				m.initPackage("sip")
				o := objOf(m.p.fullFunc("sip", k.get), 0, m.stateVar("sip", k.prefix+n))
				var b strings.Builder
				for _, x := range m.readBytes(m.on(o, "ToString")) {
					c, _ := x.konst()
					b.WriteByte(byte(c))
				}
				if !strings.HasPrefix(b.String(), k.texts[i]+" ") {
					bad("the text is %q", b.String())
				}
			})
		}
	}
	return cs
}

// held is a value given to a setter or constructor.
type heldValue struct {
	name string
	v    interface{}
	bits []bvec
}

func (m *shape) sameHeld(a interface{}, h heldValue) bool {
	switch x := a.(type) {
	case bslice:
		y, _ := h.v.(bslice)
		if x.len != y.len {
			return false
		}
		if x.len == 0 || x.arr == y.arr && x.off == y.off {
			return true
		}
		for i := 0; i < x.len; i++ {
			xb, ok := x.arr.el[x.off+i].v.(bvec)
			if !ok || i >= len(h.bits) || !m.is(xb, h.bits[i]) {
				return false
			}
		}
		return true
	case bvec:
		y, ok := h.v.(bvec)
		return ok && m.is(x, y)
	case bptr:
		return cellOf(x) == cellOf(h.v)
	case biface:
		return cellOf(x) == cellOf(h.v)
	}
	m.stop("a value is %T", a)
	return false
}

var transParams = []struct {
	name string
	bits int // 0: bytes
	def  int
}{
	{"TransmissionProtocol", 8, -1},
	{"BindIP", 0, 0},
	{"MulticastInterfaceIndex", 32, 0},
	{"Portbase", 16, 5000},
	{"MulticastTTL", 8, 1},
	{"LocalIPList", -1, 0},
	{"RTPSendBuffer", 64, 32768},
	{"RTPReceiveBuffer", 64, 32768},
	{"RTCPSendBuffer", 64, 32768},
	{"RTCPReceiveBuffer", 64, 32768},
}

func holderCases() []scase {
	var cs []scase
	add := func(con, sh string, f func(m *shape, bad func(string, ...interface{}))) {
		cs = append(cs, scase{con, sh, f})
	}
	value := func(m *shape, i int) heldValue {
		p := transParams[i]
		h := heldValue{name: p.name}
		switch {
		case p.bits > 0:
			h.v = m.fresh(p.bits)
		case p.bits == 0:
			h.bits = m.freshBytes(4)
			h.v = m.bytes(h.bits)
		default:
			h.v = m.slice(m.bytes(m.freshBytes(4)), m.bytes(m.freshBytes(16)))
		}
		return h
	}
	n := len(transParams)
	add("rtp.NewTransmissionParams", "nothing set", func(m *shape, bad func(string, ...interface{})) {
		o := m.make("rtp", "NewTransmissionParams")
		for _, p := range transParams {
			if p.bits > 0 && p.def >= 0 {
				if got := m.int(m.on(o, "Get"+p.name)); got != p.def {
					bad("Get%s returns %d instead of %d", p.name, got, p.def)
				}
			} else if p.bits <= 0 {
				if s, ok := m.on(o, "Get"+p.name).(bslice); !ok || s.len != 0 {
					bad("Get%s returns something", p.name)
				}
			}
		}
	})
	check := func(m *shape, o biface, set map[int]heldValue, bad func(string, ...interface{})) {
		for i, p := range transParams {
			if h, ok := set[i]; ok {
				if !m.sameHeld(m.on(o, "Get"+p.name), h) {
					bad("Get%s does not return what was set", p.name)
				}
			} else if p.bits > 0 && p.def >= 0 {
				v, ok := m.on(o, "Get"+p.name).(bvec)
				if k, isK := m.res(v).konst(); !ok || !isK || int(k) != p.def {
					bad("Get%s changed though it was not set", p.name)
				}
			}
		}
	}
	const con = "(*rtp.TransmissionParams)"
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			i, j := i, j
			add(con, fmt.Sprintf("Set%s, Set%s", transParams[i].name, transParams[j].name), func(m *shape, bad func(string, ...interface{})) {
				o := m.make("rtp", "NewTransmissionParams")
				set := map[int]heldValue{}
				for _, k := range []int{i, j} {
					h := value(m, k)
					m.on(o, "Set"+h.name, h.v)
					set[k] = h
				}
				check(m, o, set, bad)
			})
		}
	}
	for _, rev := range []bool{false, true} {
		rev := rev
		add(con, fmt.Sprintf("everything set, backwards: %v", rev), func(m *shape, bad func(string, ...interface{})) {
			o := m.make("rtp", "NewTransmissionParams")
			set := map[int]heldValue{}
			for k := 0; k < n; k++ {
				i := k
				if rev {
					i = n - 1 - k
				}
				h := value(m, i)
				m.on(o, "Set"+h.name, h.v)
				set[i] = h
			}
			check(m, o, set, bad)
		})
	}
	// raw packets
	for _, size := range []int{0, 1, 5, 12} {
		for _, calls := range [][]string{nil, {"ZeroData"}, {"ZeroData", "ZeroData"}} {
			size, calls := size, calls
			add("(*rtp.RawPacket)", fmt.Sprintf("%d bytes, then %v", size, calls), func(m *shape, bad func(string, ...interface{})) {
				data := heldValue{bits: m.freshBytes(size)}
				buf := m.bytes(data.bits)
				data.v = buf
				a := m.addr(4)
				tm := objOf(m.p.fullFunc("rtp", "NewRTPTimeFromFloat64"), 0, bptr{&bcell{bopaque{"time"}}})
				rtp := m.fresh(1)
				o := m.make("rtp", "NewRawPacket", buf, a.o, tm.v, rtp)
				for _, c := range calls {
					m.on(o, c)
				}
				got, ok := m.on(o, "GetData").(bslice)
				n := m.int(m.on(o, "GetDataLength"))
				if len(calls) > 0 {
					if !ok || got.len != 0 || n != 0 {
						bad("there are data after ZeroData")
					}
				} else {
					if !ok || !m.sameHeld(got, data) {
						bad("GetData does not return the data")
					}
					if n != size {
						bad("GetDataLength returns %d instead of %d", n, size)
					}
				}
				for i := range data.bits {
					if !m.is(buf.arr.el[i].v, data.bits[i]) {
						bad("the caller's data are changed")
					}
				}
				if cellOf(m.on(o, "GetReceiveTime")) != cellOf(tm) {
					bad("GetReceiveTime does not return the time")
				}
				if cellOf(m.on(o, "GetSenderAddress")) != cellOf(a.o) {
					bad("GetSenderAddress does not return the address")
				}
				if v, ok := m.on(o, "IsRTP").(bvec); !ok || !m.is(v, rtp) {
					bad("IsRTP is not what was given")
				}
			})
		}
	}
	// information about the transmitter
	for _, kinds := range [][]int{nil, {4}, {16}, {17}, {4, 16}, {16, 4}, {17, 16}, {16, 17, 4}} {
		kinds := kinds
		add("rtp.NewTransmissionInfo", fmt.Sprintf("addresses of kinds %v (4: IPv4, 16: IPv6, 17: IPv4 in sixteen bytes)", kinds), func(m *shape, bad func(string, ...interface{})) {
			var ips []interface{}
			for _, k := range kinds {
				ips = append(ips, m.bytes(m.addr(k).host))
			}
			list := m.slice(ips...)
			rs, cs := m.fresh(64), m.fresh(64)
			o := m.make("rtp", "NewTransmissionInfo", list, rs, cs)
			want := 1
			if len(kinds) > 0 && kinds[0] != 16 {
				want = 0
			}
			if got := m.int(m.on(o, "GetTransmissionProtocol")); got != want {
				bad("the protocol is %d instead of %d", got, want)
			}
			if l, ok := m.on(o, "GetLocalIPList").(bslice); !ok || !m.sameHeld(l, heldValue{v: list}) {
				bad("GetLocalIPList does not return the list")
			}
			if v, ok := m.on(o, "GetRTPSocket").(bvec); !ok || !m.is(v, rs) {
				bad("GetRTPSocket is not what was given")
			}
			if v, ok := m.on(o, "GetRTCPSocket").(bvec); !ok || !m.is(v, cs) {
				bad("GetRTCPSocket is not what was given")
			}
		})
	}
	return cs
}

func init() {
	levels["P35"], levels["P36"] = "other", "other"
	register(&Property{ID: "P35",
		Rule:  "GetTransactionState, GetDialogState and GetTimeout are interpreted for an arbitrary 64-bit number: it is refused, without a state, unless it is the number of a state, and then leads to the public variable of that state; for each public variable, GetValue is its number, leads back to it, and ToString starts with its name.",
		Trust: []string{"the order of the states is that of JAIN SIP 1.1, as documented in package sip"},
		Run: func(r *Report) {
			r.shapeCases("states", stateCases())
		}})
	register(&Property{ID: "P36",
		Rule:  "Transmission parameters, transmitter information and raw packets are interpreted with arbitrary values: every getter is compared with what was given, after no, each one, each two (in both orders) and all setters; the ports, buffer sizes and time to live that were not set are the documented defaults.",
		Trust: []string{"lists of up to three addresses and packets of up to 12 bytes stand for all", "net.IP.To4 is replaced by its definition"},
		Run: func(r *Report) {
			r.shapeCases("values held", holderCases())
		}})
}
