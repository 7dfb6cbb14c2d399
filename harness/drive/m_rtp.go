package main

import (
	"math"
	"net"

	"github.com/use-go/gosips/rtp"
	"github.com/use-go/gosips/sip"
)

// ---------------------------------------------------------------- RTCP (P18)
type rtcpM struct{}

func none(b []byte) []int {
	if b == nil {
		return []int{}
	}
	return bytesOut(b)
}

func (m *rtcpM) Do(op string, a Args) interface{} {
	b := a.Bytes(0)
	switch op {
	case "app":
		p := rtp.NewRTCPAPPPacket(b, len(b))
		return rec{"known": p.IsKnownFormat(), "subtype": p.GetSubType(), "ssrc": u32Out(p.GetSSRC()), "name": none(p.GetName()),
			"data": none(p.GetAPPData()), "len": p.GetAPPDataLength()}
	case "bye":
		p := rtp.NewRTCPBYEPacket(b, len(b))
		n := p.GetSSRCCount()
		ss := [][]int{}
		for i := 0; i < n; i++ {
			ss = append(ss, u32Out(p.GetSSRC(i)))
		}
		out := [][]int{u32Out(p.GetSSRC(-1)), u32Out(p.GetSSRC(n)), u32Out(p.GetSSRC(n + 40))}
		return rec{"known": p.IsKnownFormat(), "count": n, "ssrc": ss, "outside": out, "has": p.HasReasonForLeaving(),
			"rlen": p.GetReasonLength(), "reason": none(p.GetReasonData())}
	case "plain":
		p := rtp.NewRTCPPacket(rtp.SDES, b, len(b))
		return rec{"known": p.IsKnownFormat(), "data": none(p.GetPacketData()), "len": p.GetPacketLength()}
	}
	return badOp(op)
}

// ---------------------------------------------------------------- times (P19)
const ntpOffset = 2208988800

func limbs(v uint32) []int { return []int{int(v >> 16), int(v & 65535)} }
func unlimb(a Args, i int) uint32 {
	return uint32(a.Int(i))<<16 | uint32(a.Int(i+1))
}

// mkTime makes the time s seconds m microseconds; a quarter of a microsecond keeps
// the binary fraction clear of the truncation.
func mkTime(s uint32, m int) *rtp.RTPTime {
	return rtp.NewRTPTimeFromFloat64(float64(s) + (float64(m)+0.25)/1e6)
}
func sameTime(a, b *rtp.RTPTime) bool { return a.ELT(b) && a.EGT(b) && !a.LT(b) && !a.GT(b) }

// readTime observes a time: seconds through NTP, microseconds by comparison.
func readTime(t *rtp.RTPTime) []int {
	n := t.GetNTPTime()
	s := n.GetMSW() - ntpOffset
	m := int(math.Round(float64(n.GetLSW()) / 4294.967296))
	for _, ds := range []int{0, -1, 1} {
		for _, c := range []int{m, m - 1, m + 1} {
			if c >= 0 && c < 1000000 && sameTime(t, mkTime(uint32(int64(s)+int64(ds)), c)) {
				return append(limbs(uint32(int64(s)+int64(ds))), c)
			}
		}
	}
	return append(limbs(s), -m-1) // microseconds out of range
}

type timeM struct{ x *rtp.RTPTime }

func near(a, b float64) bool { return math.Abs(a-b) <= 1.0 }
func cmpTimes(a, b *rtp.RTPTime) rec {
	return rec{"lt": a.LT(b), "gt": a.GT(b), "elt": a.ELT(b), "egt": a.EGT(b)}
}

func (m *timeM) Do(op string, a Args) interface{} {
	switch op {
	case "new":
		m.x = mkTime(unlimb(a, 0), a.Int(2))
		return readTime(m.x)
	case "add", "sub":
		y := mkTime(unlimb(a, 0), a.Int(2))
		if op == "add" {
			m.x.Add(y)
		} else {
			m.x.Sub(y)
		}
		return rec{"x": readTime(m.x), "y": readTime(y)}
	case "cloned":
		c := m.x.Clone()
		c.Add(mkTime(unlimb(a, 0), a.Int(2)))
		return rec{"x": readTime(m.x), "y": readTime(c)}
	case "original":
		c := m.x.Clone()
		m.x.Sub(mkTime(unlimb(a, 0), a.Int(2)))
		return rec{"x": readTime(m.x), "y": readTime(c)}
	case "cmp":
		return cmpTimes(m.x, mkTime(unlimb(a, 0), a.Int(2)))
	case "self":
		return cmpTimes(m.x, m.x)
	case "ntp":
		n := m.x.GetNTPTime()
		f := a.U32(0)
		back := rtp.NewRTPTimeFromNTPTime(n)
		br := readTime(back)
		return rec{"msw": limbs(n.GetMSW()), "near": near(float64(n.GetLSW())/4294.967296, float64(f)/4294.967296),
			"back": br[:2], "backnear": near(float64(br[2]), float64(a.Int(1)))}
	case "fromntp":
		w := a.List(0)
		t := rtp.NewRTPTimeFromNTPTime(rtp.NewNTPTime(unlimb(w, 0), a.U32(1)))
		r := readTime(t)
		m.x = t
		z := r[0] == 0 && r[1] == 0 && r[2] == 0
		return rec{"sec": r[:2], "near": near(float64(r[2]), float64(a.Int(2))), "zero": z}
	}
	return badOp(op)
}

// ---------------------------------------------------------------- collisions (P20)
type collM struct {
	slots []rtp.Address
	list  *rtp.CollisionList
	times map[int]*rtp.RTPTime
	ask   []map[string]interface{} // the addresses asked for after each step
}

func ipOf(s string) net.IP {
	if s == "" {
		return nil
	}
	ip := net.ParseIP(s)
	if v4 := ip.To4(); v4 != nil {
		return append(net.IP{}, v4...)
	}
	return ip
}
func ipText(ip net.IP) string {
	if len(ip) == 0 {
		return ""
	}
	return ip.String()
}
func mkAddr(r map[string]interface{}) rtp.Address {
	h, p := r["h"].(string), uint16(r["p"].(float64))
	if r["k"] == "ip" {
		return rtp.NewIPAddress(ipOf(h), p)
	}
	return rtp.NewHostAddress(h, p)
}

var collAsk = []map[string]interface{}{
	{"k": "ip", "h": "10.0.0.1", "p": 5.0}, {"k": "ip", "h": "10.0.0.1", "p": 261.0}, {"k": "ip", "h": "10.0.0.2", "p": 5.0},
	{"k": "ip", "h": "10.0.0.2", "p": 261.0}, {"k": "ip", "h": "fe80::1", "p": 5.0}, {"k": "host", "h": "10.0.0.1", "p": 5.0},
	{"k": "host", "h": "10.0.0.1", "p": 261.0}, {"k": "host", "h": "10.0.0.17", "p": 5.0}, {"k": "host", "h": "10.0.0.17", "p": 261.0}}

func (m *collM) has() []bool {
	r := []bool{}
	for _, q := range m.ask {
		r = append(r, m.list.HasAddress(mkAddr(q)))
	}
	return r
}
func (m *collM) Do(op string, a Args) interface{} {
	at := func(i int) *rtp.RTPTime { // a number of steps of 0.6 seconds; the caller keeps its time objects
		n := a.Int(i)
		if m.times[n] == nil {
			m.times[n] = mkTime(uint32(n*6/10), n*6%10*100000)
		}
		return m.times[n]
	}
	switch op {
	case "start":
		m.list, m.times, m.ask = rtp.NewCollisionList(), map[int]*rtp.RTPTime{}, collAsk
		for i := range a.List(0) {
			m.slots = append(m.slots, mkAddr(a.List(0).Rec(i)))
		}
		return m.has()
	case "sighting":
		n, err := m.list.UpdateAddress(m.slots[a.Int(0)-1], *at(1))
		return rec{"new": n, "err": err != nil, "has": m.has()}
	case "crowd": // a table, and the addresses there are
		m.list = rtp.NewCollisionList()
		for i := range a.List(0) {
			m.ask = append(m.ask, a.List(0).Rec(i))
		}
		return m.has()
	case "see":
		n, err := m.list.UpdateAddress(mkAddr(a.Rec(0)), *mkTime(uint32(a.Int(1)), a.Int(2)))
		return rec{"new": n, "err": err != nil, "has": m.has()}
	case "flood":
		news := []bool{}
		for i := range a.List(0) {
			x := a.List(0).List(i)
			n, err := m.list.UpdateAddress(mkAddr(m.ask[x.Int(0)-1]), *mkTime(uint32(x.Int(1)), x.Int(2)))
			if err != nil {
				panic(err)
			}
			news = append(news, n)
		}
		return rec{"new": news, "has": m.has()}
	case "expire":
		m.list.Timeout(mkTime(uint32(a.Int(0)), a.Int(1)), mkTime(uint32(a.Int(2)), a.Int(3)))
		return m.has()
	case "nil":
		n, err := m.list.UpdateAddress(nil, *mkTime(1, 0))
		return rec{"new": n, "err": err != nil, "has": m.has()}
	case "timeout":
		m.list.Timeout(at(0), at(1))
		return m.has()
	case "clear":
		m.list.Clear()
		return m.has()
	case "setport":
		switch x := m.slots[a.Int(0)-1].(type) {
		case *rtp.IPAddress:
			x.SetPort(uint16(a.Int(1)))
		case *rtp.HostAddress:
			x.SetPort(uint16(a.Int(1)))
		}
		return m.has()
	case "sethost":
		switch x := m.slots[a.Int(0)-1].(type) {
		case *rtp.IPAddress:
			x.SetIP(ipOf(a.Str(1)))
		case *rtp.HostAddress:
			x.SetHost(a.Str(1))
		}
		return m.has()
	case "flip":
		ip := m.slots[a.Int(0)-1].(*rtp.IPAddress).GetIP()
		ip[3] ^= 3
		return m.has()
	case "copy":
		m.slots[a.Int(0)-1] = m.slots[a.Int(1)-1].Clone()
		return rec{"same": m.slots[a.Int(0)-1].IsSameAddress(m.slots[a.Int(1)-1]), "has": m.has()}
	case "compare":
		x, y := m.slots[a.Int(0)-1], m.slots[a.Int(1)-1]
		return rec{"same": x.IsSameAddress(y), "samehost": x.IsFromSameHost(y), "nilsame": x.IsSameAddress(nil), "nilhost": x.IsFromSameHost(nil),
			"kind": int(x.GetAddressType())}
	}
	return badOp(op)
}

// ---------------------------------------------------------------- random numbers (P21)
type randM struct{ r *rtp.RandomRand48 }

func word48(d float64) []int {
	if !(d >= 0 && d < 1) {
		return []int{-1}
	}
	v := d * 281474976710656.0
	u := uint64(v)
	if float64(u) != v {
		return []int{-2}
	}
	r := make([]int, 6)
	for i := range r {
		r[i] = int(u >> uint(40-8*i) & 255)
	}
	return r
}
func ask(r *rtp.RandomRand48, op string) []int {
	switch op {
	case "r32":
		return u32Out(r.GetRandom32())
	case "r16":
		v := r.GetRandom16()
		return []int{int(v >> 8), int(v & 255)}
	case "r8":
		return []int{int(r.GetRandom8())}
	case "dbl":
		return word48(r.GetRandomDouble())
	}
	panic(harnessError("unknown request " + op))
}
func (m *randM) Do(op string, a Args) interface{} {
	switch op {
	case "new":
		m.r = rtp.NewRandomRand48FromSeed(a.U32(0))
		return true
	case "seed":
		m.r.SetSeed(a.U32(0))
		return true
	}
	return ask(m.r, op)
}

// ---------------------------------------------------------------- settings (P22)
type settingsM struct {
	p  *rtp.TransmissionParams
	ip *rtp.IPAddress
	h  *rtp.HostAddress
}

func ipTexts(l []net.IP) []string {
	r := []string{}
	for _, ip := range l {
		r = append(r, ipText(ip))
	}
	return r
}
func ipList(a Args) []net.IP {
	var r []net.IP
	for i := range a {
		r = append(r, ipOf(a.Str(i)))
	}
	return r
}
func (m *settingsM) view() rec {
	p := m.p
	return rec{"par": rec{"protocol": p.GetTransmissionProtocol(), "portbase": p.GetPortbase(), "bind": ipText(p.GetBindIP()),
		"mcastif": u32Out(p.GetMulticastInterfaceIndex()), "locals": ipTexts(p.GetLocalIPList()), "ttl": p.GetMulticastTTL(),
		"rtpsend": p.GetRTPSendBuffer(), "rtprecv": p.GetRTPReceiveBuffer(), "rtcpsend": p.GetRTCPSendBuffer(), "rtcprecv": p.GetRTCPReceiveBuffer()},
		"adr": rec{"ip": rec{"host": ipText(m.ip.GetIP()), "port": m.ip.GetPort()}, "host": rec{"host": m.h.GetHost(), "port": m.h.GetPort()}}}
}
func (m *settingsM) Do(op string, a Args) interface{} {
	switch op {
	case "start":
		m.p, m.ip, m.h = rtp.NewTransmissionParams(), rtp.NewIPAddress(ipOf("10.0.0.9"), 7), rtp.NewHostAddress("h", 8)
		return m.view()
	case "set":
		switch a.Str(0) {
		case "protocol":
			m.p.SetTransmissionProtocol(rtp.TransmissionProtocol(a.Int(1)))
		case "portbase":
			m.p.SetPortbase(uint16(a.Int(1)))
		case "bind":
			m.p.SetBindIP(ipOf(a.Str(1)))
		case "mcastif":
			m.p.SetMulticastInterfaceIndex(a.U32(1))
		case "locals":
			m.p.SetLocalIPList(ipList(a.List(1)))
		case "ttl":
			m.p.SetMulticastTTL(uint8(a.Int(1)))
		case "rtpsend":
			m.p.SetRTPSendBuffer(a.Int(1))
		case "rtprecv":
			m.p.SetRTPReceiveBuffer(a.Int(1))
		case "rtcpsend":
			m.p.SetRTCPSendBuffer(a.Int(1))
		case "rtcprecv":
			m.p.SetRTCPReceiveBuffer(a.Int(1))
		default:
			return badOp(a.Str(0))
		}
		return m.view()
	case "adr":
		switch a.Str(0) + a.Str(1) {
		case "iphost":
			m.ip.SetIP(ipOf(a.Str(2)))
		case "ipport":
			m.ip.SetPort(uint16(a.Int(2)))
		case "hosthost":
			m.h.SetHost(a.Str(2))
		case "hostport":
			m.h.SetPort(uint16(a.Int(2)))
		}
		return m.view()
	case "lookup":
		v := a.Int(1)
		var val interface{}
		var text string
		var err error
		same := false
		switch a.Str(0) {
		case "dialog":
			x, e := sip.GetDialogState(v)
			if err = e; e == nil {
				y, _ := sip.GetDialogState(v)
				val, text, same = x.GetValue(), x.ToString(), x == y
			}
		case "transaction":
			x, e := sip.GetTransactionState(v)
			if err = e; e == nil {
				y, _ := sip.GetTransactionState(v)
				val, text, same = x.GetValue(), x.ToString(), x == y
			}
		case "timeout":
			x, e := sip.GetTimeout(v)
			if err = e; e == nil {
				y, _ := sip.GetTimeout(v)
				val, text, same = x.GetValue(), x.ToString(), x == y
			}
		}
		return opt(err == nil, rec{"value": val, "text": text, "same": same})
	case "names":
		switch a.Str(0) {
		case "dialog":
			return []string{sip.DIALOGSTATE_EARLY.ToString(), sip.DIALOGSTATE_CONFIRMED.ToString(), sip.DIALOGSTATE_COMPLETED.ToString(), sip.DIALOGSTATE_TERMINATED.ToString()}
		case "transaction":
			return []string{sip.TRANSACTIONSTATE_CALLING.ToString(), sip.TRANSACTIONSTATE_TRYING.ToString(), sip.TRANSACTIONSTATE_PROCEEDING.ToString(),
				sip.TRANSACTIONSTATE_COMPLETED.ToString(), sip.TRANSACTIONSTATE_CONFIRMED.ToString(), sip.TRANSACTIONSTATE_TERMINATED.ToString()}
		}
		return []string{sip.TIMEOUT_RETRANSMIT.ToString(), sip.TIMEOUT_TRANSACTION.ToString()}
	case "info":
		i := rtp.NewTransmissionInfo(ipList(a.List(0)), a.Int(1), a.Int(2))
		return rec{"protocol": i.GetTransmissionProtocol(), "locals": ipTexts(i.GetLocalIPList()), "rtp": i.GetRTPSocket(), "rtcp": i.GetRTCPSocket()}
	case "raw":
		r := rtp.NewRawPacket(a.Bytes(0), m.ip, mkTime(3, 4), a.Bool(1))
		d, l := none(r.GetData()), r.GetDataLength()
		if r.GetSenderAddress() != rtp.Address(m.ip) || !sameTime(r.GetReceiveTime(), mkTime(3, 4)) {
			return rec{"data": "address or time lost", "len": 0, "rtp": 0, "zeroed": 0}
		}
		r.ZeroData()
		return rec{"data": d, "len": l, "rtp": r.IsRTP(), "zeroed": r.GetDataLength()}
	}
	return badOp(op)
}

func init() {
	machines["rtcp"] = func() Machine { return &rtcpM{} }
	machines["rtptime"] = func() Machine { return &timeM{} }
	machines["collision"] = func() Machine { return &collM{} }
	machines["rand"] = func() Machine { return &randM{} }
	machines["settings"] = func() Machine { return &settingsM{} }
}
