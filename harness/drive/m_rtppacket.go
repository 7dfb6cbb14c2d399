package main

import (
	"encoding/json"
	"net"

	"github.com/use-go/gosips/rtp"
)

// rtpPacketM keeps the packets of the behaviour: what is built or received later, or done
// to the buffers they came from, leaves them as they were.
type rtpPacketM struct {
	again   *rtp.RTPPacket // one object that is built and filled again and again
	packets []*rtp.RTPPacket
	told    []string
}

func tell(p *rtp.RTPPacket) string {
	b, _ := json.Marshal(rec{"packet": bytesOut(p.GetPacket()), "p": packetFields(p)})
	return string(b)
}

// keep remembers a packet and says whether the earlier ones are still what they were.
func (m *rtpPacketM) keep(p *rtp.RTPPacket) bool {
	for i, q := range m.packets {
		if tell(q) != m.told[i] {
			return false
		}
	}
	if len(m.packets) < 8 {
		m.packets, m.told = append(m.packets, p), append(m.told, tell(p))
	}
	return true
}

func init() {
	machines["rtppacket"] = func() Machine { return &rtpPacketM{again: &rtp.RTPPacket{}} }
}

func wordsIn(l Args) []uint32 {
	r := make([]uint32, len(l))
	for i := range l {
		r[i] = l.U32(i)
	}
	return r
}

func packetFields(p *rtp.RTPPacket) rec {
	cs := [][]int{}
	for i := uint8(0); i < p.GetCSRCCount(); i++ {
		cs = append(cs, u32Out(p.GetCSRC(i)))
	}
	xw, xid, xlen := [][]int{}, 0, 0
	if p.HasExtension() {
		xid, xlen = int(p.GetExtensionID()), int(p.GetExtensionLength())
		for _, w := range p.GetExtensionData() {
			xw = append(xw, u32Out(w))
		}
	}
	return rec{"pt": p.GetPayloadType(), "m": p.HasMarker(), "seq": p.GetSequenceNumber(), "ts": u32Out(p.GetTimestamp()),
		"ssrc": u32Out(p.GetSSRC()), "csrc": cs, "ext": p.HasExtension(), "xid": xid, "xlen": xlen, "xw": xw,
		"pl": bytesOut(p.GetPayload()), "beyond": u32Out(p.GetCSRC(p.GetCSRCCount()))}
}

func (m *rtpPacketM) Do(op string, a Args) interface{} {
	switch op {
	case "build":
		cs, xw, pl := wordsIn(a.List(6)), wordsIn(a.List(9)), a.Bytes(1)
		n, x := uint8(len(cs)), uint16(len(xw))
		p := rtp.NewPacket(uint8(a.Int(0)), pl, uint16(a.Int(2)), a.U32(3), a.U32(4), a.Bool(5), n, cs, a.Bool(7), uint16(a.Int(8)), x, xw)
		q := &rtp.RTPPacket{}
		err := q.BuildPacket(uint8(a.Int(0)), pl, uint16(a.Int(2)), a.U32(3), a.U32(4), a.Bool(5), n, cs, a.Bool(7), uint16(a.Int(8)), x, xw)
		if (p != nil) != (err == nil) {
			return rec{"ok": "NewPacket and BuildPacket disagree"}
		}
		// the same on an object that was a packet before, with lists longer than what is to be taken of them
		if (m.again.BuildPacket(uint8(a.Int(0)), pl, uint16(a.Int(2)), a.U32(3), a.U32(4), a.Bool(5), n, append(cs, 0x01020304), a.Bool(7), uint16(a.Int(8)), x, append(xw, 0x05060708)) == nil) != (err == nil) {
			return rec{"ok": "BuildPacket disagrees with itself"}
		}
		if err != nil {
			return rec{"ok": false}
		}
		for i := range cs { // what the caller gave is the caller's again
			cs[i] = 0xdddddddd
		}
		for i := range xw {
			xw[i] = 0xdddddddd
		}
		for i := range pl {
			pl[i] = 0xdd
		}
		if tell(p) != tell(q) || tell(m.again) != tell(q) {
			return rec{"ok": "the same packet built twice differs", "again": packetFields(m.again), "p": packetFields(q)}
		}
		if !m.keep(q) {
			return rec{"ok": "an earlier packet has changed"}
		}
		return rec{"ok": true, "packet": bytesOut(q.GetPacket()), "p": packetFields(q)}
	case "recv":
		b := a.Bytes(0)
		r := rtp.NewRawPacket(b, rtp.NewIPAddress(net.IPv4(1, 2, 3, 4), 5), rtp.NewRTPTimeFromFloat64(12.5), a.Bool(1))
		p, err := rtp.NewRTPPacketFromRawPacket(r)
		twin := append([]byte{}, b...)
		if (m.again.ParseRawPacket(rtp.NewRawPacket(twin, r.GetSenderAddress(), rtp.NewRTPTimeFromFloat64(12.5), a.Bool(1))) == nil) != (err == nil) {
			return rec{"ok": "NewRTPPacketFromRawPacket and ParseRawPacket disagree"}
		}
		if err != nil {
			return rec{"ok": false}
		}
		for i := range b { // the caller's buffer takes the next packet
			b[i], twin[i] = 0xdd, 0xdd
		}
		if tell(m.again) != tell(p) {
			return rec{"ok": "the same packet read twice differs", "again": packetFields(m.again), "p": packetFields(p)}
		}
		if !m.keep(p) {
			return rec{"ok": "an earlier packet has changed"}
		}
		return rec{"ok": true, "p": packetFields(p), "packet": bytesOut(p.GetPacket())}
	case "header":
		h, err := rtp.NewRTPHeaderFromBytes(a.Bytes(0))
		if err != nil {
			return opt(false, nil)
		}
		return opt(true, bytesOut(h.Encode()))
	case "extension":
		x := rtp.NewRTPExtensionFromBytes(a.Bytes(0))
		if x == nil {
			return opt(false, nil)
		}
		return opt(true, bytesOut(x.Encode()))
	}
	return badOp(op)
}
