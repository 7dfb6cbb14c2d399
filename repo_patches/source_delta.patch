From 3e0155451dee8c8a24d952d4cc5bfafeeefa666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 001/140] fix: RTP header parsing uses all four bits of the
 CSRC count

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..2df6a7f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From 3bd4930028419ec77e41e6f1146c838ea86b3f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 002/140] fix: RTP header encoding writes every byte of a CSRC
 identifier

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 2df6a7f..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From 5b98ba04fd9b8c95e78c79d6e585fd8514c20ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 003/140] fix: RTP extension parsing stores the extension words
 instead of panicking

---
 rtp/rtp.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..a5e4865 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,7 +231,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
-- 
2.43.0


From 519bf10d6493ed102e6de3806b324cdab2ae72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 004/140] fix: RTP extensions of 16384 words and more are
 encoded without overflow

---
 rtp/rtp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index a5e4865..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -244,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From bb302ec37e8fa672e2c7fc51365179f88a378b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 005/140] fix: a parsed RTP packet gives its payload, without
 padding

---
 rtp/rtppacket.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..f4baeb0 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -88,6 +88,8 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 		return errors.New("invalid payload length.")
 	}
 
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
+
 	return nil
 }
 
-- 
2.43.0


From 93b52fc54693d896ef36e1208fa6a65a70768b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 006/140] fix: an RTP packet with a padding count of zero is
 refused

---
 rtp/rtppacket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index f4baeb0..6d76df1 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -76,7 +76,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 
 	if rp.header.padding != 0 { // adjust payload length to take padding into account
 		numpadbytes = int(rp.packet[len(rp.packet)-1]) // last byte contains number of padding bytes
-		if numpadbytes > len(rp.packet)-payloadoffset {
+		if numpadbytes == 0 || numpadbytes > len(rp.packet)-payloadoffset {
 			return errors.New("invalid padding.")
 		}
 	} else {
-- 
2.43.0


From 73399144c2f1fd7a344834df32ef0697ebb797b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 007/140] fix: an RTP packet without a receive time can be
 parsed

---
 rtp/rtppacket.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index 6d76df1..4c3c081 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -24,7 +24,9 @@ type RTPPacket struct {
  */
 func NewRTPPacketFromRawPacket(rawpack *RawPacket) (*RTPPacket, error) {
 	rp := &RTPPacket{}
-	rp.receivetime = rawpack.GetReceiveTime().Clone()
+	if t := rawpack.GetReceiveTime(); t != nil {
+		rp.receivetime = t.Clone()
+	}
 	if err := rp.ParseRawPacket(rawpack); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 9626f23e5a5f05229a28ab9b95a3cc35c244dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:07 +0000
Subject: [PATCH 008/140] fix: building an RTP packet with fewer sources or
 extension words than announced is an error

---
 rtp/rtppacket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index 4c3c081..d9ae28f 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -149,6 +149,10 @@ func (rp *RTPPacket) BuildPacket(payloadtype uint8,
 		return errors.New("ERR_RTP_PACKET_TOOMANYCSRCS")
 	}
 
+	if len(csrcs) < int(numcsrcs) || (gotextension && len(extensiondata) < int(extensionlen)) {
+		return errors.New("ERR_RTP_PACKET_MISSINGDATA")
+	}
+
 	if payloadtype > 127 { // high bit should not be used
 		return errors.New("ERR_RTP_PACKET_BADPAYLOADTYPE")
 	}
-- 
2.43.0


From 38b6b834967f24c0874d76852bbfed508c46ffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:06 +0000
Subject: [PATCH 009/140] fix: RTCP APP and BYE packets shorter than their
 header are of unknown format instead of panicking

---
 rtp/rtcpapppacket.go | 3 +++
 rtp/rtcpbyepacket.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..505a1f4 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..36107dd 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
-- 
2.43.0


From af1e97bac4d8cd1d3ed56ca8357d26ab6681011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 010/140] fix: RTCP APP name is four bytes and the application
 data excludes padding

---
 rtp/rtcpapppacket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 505a1f4..5fe47db 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -77,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -88,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
-- 
2.43.0


From 697a256cb5a623fb86f6d99b447fb0c71b51fdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 011/140] fix: RTCP BYE reason data ends where the reason ends

---
 rtp/rtcpbyepacket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index 36107dd..2c96f2e 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -116,7 +116,7 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+int(reasonlen)]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From 619c956f7e132006fde73bc021161a9972a035e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 012/140] fix: RTCP BYE gives no SSRC for an index outside the
 packet

---
 rtp/rtcpbyepacket.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index 2c96f2e..4f6b319 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -73,6 +73,9 @@ func (this *RTCPBYEPacket) GetSSRC(index int) uint32 {
 	if !this.knownformat {
 		return 0
 	}
+	if index < 0 || index >= this.GetSSRCCount() {
+		return 0
+	}
 	ssrc := uint32(this.data[SIZEOF_RTCPHEADER+4*index+0])<<24 |
 		uint32(this.data[SIZEOF_RTCPHEADER+4*index+1])<<16 |
 		uint32(this.data[SIZEOF_RTCPHEADER+4*index+2])<<8 |
-- 
2.43.0


From a953e2653cc907c4478971366b56c72890c4ccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 013/140] fix: a collision time-out longer than the clock value
 expires nothing

---
 rtp/collisionlist.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rtp/collisionlist.go b/rtp/collisionlist.go
index cf24396..371b53f 100644
--- a/rtp/collisionlist.go
+++ b/rtp/collisionlist.go
@@ -66,6 +66,9 @@ func (this *CollisionList) HasAddress(addr Address) bool {
  */
 
 func (this *CollisionList) Timeout(currenttime *RTPTime, timeoutdelay *RTPTime) {
+	if currenttime.LT(timeoutdelay) { // nothing can be older than the clock
+		return
+	}
 	checktime := currenttime.Clone()
 	checktime.Sub(timeoutdelay)
 
-- 
2.43.0


From 1bd2e3fb49793a54abf2669c63f8e1530416526c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 014/140] fix: a cloned IP address does not share its bytes
 with the original

---
 rtp/ipaddress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..94ef77f 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -69,7 +69,7 @@ func (this *IPAddress) IsFromSameHost(addr Address) bool {
 }
 
 func (this *IPAddress) Clone() Address {
-	return &IPAddress{ip: this.ip, port: this.port}
+	return &IPAddress{ip: append(net.IP(nil), this.ip...), port: this.port}
 }
 
 func (this *IPAddress) String() string {
-- 
2.43.0


From 81eea623022e99d98fe2228e5ce6daf5238b99ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 015/140] fix: reseeding the random generator takes its lock

---
 rtp/random.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rtp/random.go b/rtp/random.go
index 543f9a0..af48a99 100644
--- a/rtp/random.go
+++ b/rtp/random.go
@@ -54,7 +54,9 @@ func (this *RandomRand48) PickSeed() uint32 {
 }
 
 func (this *RandomRand48) SetSeed(seed uint32) {
+	this.mutex.Lock()
 	this.state = (uint64(seed) << 16) | uint64(0x330E)
+	this.mutex.Unlock()
 }
 
 func (this *RandomRand48) GetRandom8() uint8 {
-- 
2.43.0


From 32b8caf9ee8434d26935be754ccea639d16e1b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 016/140] fix: a copied or joined parameter list holds the
 parameters

---
 core/NameValueList.go | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..0bc4b03 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -46,17 +46,14 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 		return
 	}
 
-	if !topFlag {
-		//nameValueList.PushBackList(nvl)
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
-		}
-	} else {
-		//nameValueList.PushFrontList(nvl)
-		// add given items to the end of the list.
-		first := nameValueList.Front()
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
+	// the list may be joined to itself, and the items are not shared
+	items := nvl.Clone().(*NameValueList)
+	first := nameValueList.Front()
+	for e := items.Front(); e != nil; e = e.Next() {
+		if topFlag && first != nil {
+			nameValueList.InsertBefore(e.Value, first)
+		} else {
+			nameValueList.PushBack(e.Value)
 		}
 	}
 }
@@ -255,11 +252,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From 5d56d1e85c2f3821b1c0950e0f23dd392d0d1702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 017/140] fix: setting a parameter replaces it in place,
 removing drops it, and names ignore letter case

---
 core/NameValueList.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0bc4b03..1512bf9 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -134,7 +135,15 @@ func (nameValueList *NameValueList) AddNameAndValue(name string, value interface
 * Set a namevalue object in nameValueList list.
  */
 func (nameValueList *NameValueList) SetNameValue(nv *NameValue) {
-	nameValueList.Delete(nv.name)
+	if nv == nil {
+		return
+	}
+	for e := nameValueList.Front(); e != nil; e = e.Next() {
+		if strings.EqualFold(e.Value.(*NameValue).GetName(), nv.name) {
+			e.Value = nv
+			return
+		}
+	}
 	nameValueList.AddNameValue(nv)
 }
 
@@ -199,7 +208,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -221,15 +230,17 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 * @since 1.0
  */
 func (nameValueList *NameValueList) Delete(name string) bool {
-	for e := nameValueList.Front(); e != nil; e = e.Next() {
-		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+	found := false
+	for e := nameValueList.Front(); e != nil; {
+		next := e.Next()
+		if strings.EqualFold(e.Value.(*NameValue).GetName(), name) {
 			nameValueList.Remove(e)
-			return true
+			found = true
 		}
+		e = next
 	}
 
-	return false
+	return found
 }
 
 /**
-- 
2.43.0


From 39b3693811d643d8d0fdc16dfcc7bac3f95e2146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:20 +0000
Subject: [PATCH 018/140] fix: an unterminated quoted parameter value is an
 error

---
 core/CoreParser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..bd771a9 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,7 +53,9 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
-- 
2.43.0


From dc428595f34e8a6aa3a0f85a031f82121767ed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 019/140] fix: the value of an absent or valueless parameter is
 empty instead of a panic

---
 sip/header/ParametersImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
-- 
2.43.0


From 5aad8d783c0bbb804141c844234ef775089a1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:21 +0000
Subject: [PATCH 020/140] fix: parsed quoted header parameters are read without
 their quotes

---
 sip/parser/ParametersParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..0758647 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -52,7 +52,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		}
 
 		if nv.IsValueQuoted() {
-			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+			parametersHeader.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
 		} else {
 			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
 		}
-- 
2.43.0


From e3595114e0b0d5b5d0649fd53804bf2a4d7ea8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:22 +0000
Subject: [PATCH 021/140] fix: the encoding of a flag parameter is parsed again

---
 core/CoreParser.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index bd771a9..0b1e3f3 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -58,11 +58,14 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 			}
 			quoted = true
 		} else {
-			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
-				return nil, ParseException
+			// an empty value is what a flag parameter is encoded with
+			la, err = coreParser.lexer.LookAheadK(0)
+			if err == nil && la != ';' && la != ',' && la != ' ' && la != '\t' && la != '\n' {
+				if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
+				str = coreParser.lexer.GetNextToken().tokenValue
 			}
-			value := coreParser.lexer.GetNextToken()
-			str = value.tokenValue
 		}
 		nv := NewNameValue(name.tokenValue, str)
 		if quoted {
-- 
2.43.0


From a5fd0b49e3533339ab96d9856762b59c778ce486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:24 +0000
Subject: [PATCH 022/140] fix: setting a parameter from a name and value
 replaces the parameter of that name

---
 sip/header/Challenge.go      | 2 +-
 sip/header/ParametersImpl.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..9d76bf5 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -158,7 +158,7 @@ func (this *Challenge) RemoveParameters() {
  * @param nv NameValue to Set
  */
 func (this *Challenge) SetParameter(nv *core.NameValue) {
-	this.authParams.AddNameValue(nv)
+	this.authParams.SetNameValue(nv)
 }
 
 /**
diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index 39002d7..9647574 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -183,7 +183,7 @@ func (this *Parameters) SetParameter(name, value string) (ParseException error)
  * @param nameValue - the name value of the parameter to set.
  */
 func (this *Parameters) SetParameterFromNameValue(nameValue *core.NameValue) {
-	this.parameters.AddNameValue(nameValue)
+	this.parameters.SetNameValue(nameValue)
 }
 
 /**
-- 
2.43.0


From 161e3d1114c9e48e3b96bac7e8cf359014ff0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:25 +0000
Subject: [PATCH 023/140] fix: hosts are classified by what they are, and an
 empty name leaves a host unchanged

---
 core/Host.go | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..85419d8 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -37,10 +37,7 @@ func NewHost(hname string) *Host {
 	host := &Host{}
 
 	host.hostname = hname
-	if host.isIPv6Address(hname) {
-		host.addressType = IPV6ADDRESS
-	}
-	host.addressType = IPV4ADDRESS
+	host.addressType = host.classify(hname)
 
 	return host
 }
@@ -128,15 +125,11 @@ func (host *Host) GetIpAddress() string {
  * @param h String to set
  */
 func (host *Host) SetHostName(hname string) {
-	host.inetAddress = nil
-	if host.isIPv6Address(hname) {
-		host.addressType = IPV6ADDRESS
-	} else {
-		host.addressType = HOSTNAME
-	}
 	// Null check bug fix sent in by jpaulo@ipb.pt
-	if hname != "" {
-		host.hostname = strings.ToLower(strings.TrimSpace(hname))
+	if hname = strings.TrimSpace(hname); hname != "" {
+		host.inetAddress = nil
+		host.hostname = strings.ToLower(hname)
+		host.addressType = host.classify(host.hostname)
 	}
 }
 
@@ -144,14 +137,10 @@ func (host *Host) SetHostName(hname string) {
  *@param address is the address string to set.
  */
 func (host *Host) SetHostAddress(address string) {
-	host.inetAddress = nil
-	if host.isIPv6Address(address) {
-		host.addressType = IPV6ADDRESS
-	} else {
-		host.addressType = IPV4ADDRESS
-	}
-	if address != "" {
-		host.hostname = strings.TrimSpace(address)
+	if address = strings.TrimSpace(address); address != "" {
+		host.inetAddress = nil
+		host.hostname = address
+		host.addressType = host.classify(address)
 	}
 }
 
@@ -197,6 +186,17 @@ func (host *Host) GetInetAddress() net.IP {
 
 }
 
+// classify tells whether a name is a host name, an IPv4 or an IPv6 address.
+func (host *Host) classify(name string) int {
+	if host.isIPv6Address(name) {
+		return IPV6ADDRESS
+	}
+	if net.ParseIP(name) != nil {
+		return IPV4ADDRESS
+	}
+	return HOSTNAME
+}
+
 //----- IPv6
 /**
  * Verifies whether the <code>address</code> could
@@ -211,7 +211,7 @@ func (host *Host) isIPv6Address(address string) bool {
  * square brackets
  */
 func (host *Host) isIPv6Reference(address string) bool {
-	return address[0] == '[' && address[len(address)-1] == ']'
+	return strings.HasPrefix(address, "[") && strings.HasSuffix(address, "]")
 }
 
 func (host *Host) Clone() interface{} {
-- 
2.43.0


From 35289c0e8c729c0e09ef9aecc2dcfab4b24a1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:26 +0000
Subject: [PATCH 024/140] fix: header parsers match their header name instead
 of taking any

---
 sip/parser/HeaderParser.go |  8 ++++----
 sip/parser/SIPParser.go    | 11 ++---------
 2 files changed, 6 insertions(+), 13 deletions(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..f5cb75c 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -25,7 +25,7 @@ func NewHeaderParser(header string) *HeaderParser {
 	this := &HeaderParser{}
 
 	this.SIPParser.super(header)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 
 	return this
 }
@@ -34,19 +34,19 @@ func NewHeaderParserFromLexer(lexer core.Lexer) *HeaderParser {
 	this := &HeaderParser{}
 
 	this.SIPParser.SetLexer(lexer)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 
 	return this
 }
 
 func (this *HeaderParser) super(header string) {
 	this.SIPParser.super(header)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 }
 
 func (this *HeaderParser) superFromLexer(lexer core.Lexer) {
 	this.SetLexer(lexer)
-	this.SIPParser.GetLexer().SetLexerName("command_keywordLexer")
+	this.SIPParser.GetLexer().SelectLexer("command_keywordLexer")
 }
 
 /** Parse the SIP header from the buffer and return a parsed
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..375d4c4 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -176,15 +176,8 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 	}
 
 	token := tokens[0]
-	if token.GetTokenType() == TokenTypes_INVITE ||
-		token.GetTokenType() == TokenTypes_ACK ||
-		token.GetTokenType() == TokenTypes_OPTIONS ||
-		token.GetTokenType() == TokenTypes_BYE ||
-		token.GetTokenType() == TokenTypes_REGISTER ||
-		token.GetTokenType() == TokenTypes_CANCEL ||
-		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
-		token.GetTokenType() == TokenTypes_NOTIFY ||
-		token.GetTokenType() == TokenTypes_ID {
+	// any token is a method, whether or not it is also a keyword
+	if token.GetTokenType() > TokenTypes_START && token.GetTokenType() < TokenTypes_END {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
 	} else {
-- 
2.43.0


From 0c78b35a151b77ef30fa30b0cf5a92cb3068464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 025/140] fix: peeking past the end of the input is an error,
 and no byte is widened

---
 core/CoreLexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..d2c3c43 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,11 +175,11 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
-			if err != nil {
+			var nextChar byte
+			if nextChar, err = coreLexer.GetNextChar(); err != nil {
 				break
 			}
-			tok.tokenValue += string(nextChar)
+			tok.tokenValue = coreLexer.CharAsString(nextChar)
 			if coreLexer.IsAlpha(nextChar) {
 				tok.tokenType = CORELEXER_ALPHA
 			} else if coreLexer.IsDigit(nextChar) {
-- 
2.43.0


From eae5c0e22370998db09d7b00c8468a9c697d278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:29 +0000
Subject: [PATCH 026/140] fix: a failed match consumes nothing

---
 core/CoreLexer.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d2c3c43..b3e5e5e 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -213,9 +213,11 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 			coreLexer.currentMatch.tokenValue = id
 			coreLexer.currentMatch.tokenType = CORELEXER_ID
 		} else {
+			start := coreLexer.ptr
 			nexttok := coreLexer.GetNextId()
 			cur, ok := coreLexer.currentLexer[strings.ToUpper(nexttok)]
 			if !ok || cur != tok {
+				coreLexer.ptr = start
 				return nil, errors.New("ParseException: Unexpected Token")
 			}
 			coreLexer.currentMatch = &Token{}
@@ -244,6 +246,13 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 			coreLexer.currentMatch.tokenValue = string(next)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
+		} else if tok == CORELEXER_WHITESPACE && (next == ' ' || next == '\t') {
+			coreLexer.currentMatch = &Token{}
+			coreLexer.currentMatch.tokenValue = string(next)
+			coreLexer.currentMatch.tokenType = tok
+			coreLexer.ConsumeK(1)
+		} else {
+			return nil, errors.New("ParseException: Unexpected character")
 		}
 	} else {
 		// This is a direct character spec.
@@ -254,7 +263,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 		}
 		if next == ch {
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(ch)
+			coreLexer.currentMatch.tokenValue = coreLexer.CharAsString(ch)
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		} else {
-- 
2.43.0


From d53bbc73bc9aec2acc890eab4b3618673ca7f212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:30 +0000
Subject: [PATCH 027/140] fix: a quoted string that ends in a backslash gains
 no byte

---
 core/CoreLexer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index b3e5e5e..1becc89 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -383,7 +383,9 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 			// 	return "", errors.New("ParseException: unexpected EOL")
 		} else if next == '\\' {
 			retval.WriteByte(next)
-			next, _ = coreLexer.GetNextChar()
+			if next, err = coreLexer.GetNextChar(); err != nil {
+				break
+			}
 			retval.WriteByte(next)
 		} else {
 			retval.WriteByte(next)
-- 
2.43.0


From e5be7d20a76e901b22eba46f46ea83f4e62db0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:32 +0000
Subject: [PATCH 028/140] fix: looking for a delimiter that is missing consumes
 nothing

---
 core/StringTokenizer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/StringTokenizer.go b/core/StringTokenizer.go
index e7862a6..abba269 100644
--- a/core/StringTokenizer.go
+++ b/core/StringTokenizer.go
@@ -130,9 +130,11 @@ func (stringtokenizer *StringTokenizer) GetLines() map[int]string {
 // GetNextTokenByDelim  Get the next token from the buffer.
 func (stringtokenizer *StringTokenizer) GetNextTokenByDelim(delim byte) (string, error) {
 	var retval bytes.Buffer
+	start := stringtokenizer.ptr
 	for {
 		la, err := stringtokenizer.LookAheadK(0)
 		if err != nil {
+			stringtokenizer.ptr = start
 			return "", err
 		}
 		if la == delim {
-- 
2.43.0


From e338a21a381ba7573ec54477ab3be44de944d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:45 +0000
Subject: [PATCH 029/140] fix: header parsers report a failed match instead of
 carrying on with a stale or missing token

---
 sip/parser/AcceptEncodingParser.go     | 28 +++++++++++----
 sip/parser/AcceptLanguageParser.go     | 28 +++++++++++----
 sip/parser/AcceptParser.go             | 32 ++++++++++++-----
 sip/parser/AddressParser.go            | 16 ++++++---
 sip/parser/AlertInfoParser.go          | 24 +++++++++----
 sip/parser/AllowEventsParser.go        | 20 ++++++++---
 sip/parser/AllowParser.go              | 20 ++++++++---
 sip/parser/AuthenticationInfoParser.go | 12 +++++--
 sip/parser/AuthorizationParser.go      |  4 ++-
 sip/parser/CSeqParser.go               | 12 +++++--
 sip/parser/CallIdParser.go             |  8 +++--
 sip/parser/CallInfoParser.go           | 24 +++++++++----
 sip/parser/ChallengeParser.go          |  8 +++--
 sip/parser/ContactParser.go            | 12 +++++--
 sip/parser/ContentDispositionParser.go | 12 +++++--
 sip/parser/ContentEncodingParser.go    | 16 ++++++---
 sip/parser/ContentLanguageParser.go    | 16 ++++++---
 sip/parser/ContentLengthParser.go      |  8 +++--
 sip/parser/ContentTypeParser.go        | 20 ++++++++---
 sip/parser/DateParser.go               |  4 ++-
 sip/parser/ErrorInfoParser.go          | 24 +++++++++----
 sip/parser/EventParser.go              | 12 +++++--
 sip/parser/ExpiresParser.go            | 12 +++++--
 sip/parser/FromParser.go               |  8 +++--
 sip/parser/HeaderParser.go             | 11 ++++--
 sip/parser/InReplyToParser.go          | 32 ++++++++++++-----
 sip/parser/MaxForwardsParser.go        |  8 +++--
 sip/parser/MimeVersionParser.go        | 12 +++++--
 sip/parser/MinExpiresParser.go         |  8 +++--
 sip/parser/OrganizationParser.go       |  4 ++-
 sip/parser/PriorityParser.go           | 12 +++++--
 sip/parser/ProxyAuthenticateParser.go  |  4 ++-
 sip/parser/ProxyAuthorizationParser.go |  4 ++-
 sip/parser/ProxyRequireParser.go       | 16 ++++++---
 sip/parser/RAckParser.go               | 12 +++++--
 sip/parser/RSeqParser.go               |  8 +++--
 sip/parser/ReasonParser.go             | 12 +++++--
 sip/parser/RecordRouteParser.go        | 12 +++++--
 sip/parser/ReferToParser.go            |  8 +++--
 sip/parser/ReplyToParser.go            |  4 ++-
 sip/parser/RequestLineParser.go        |  4 ++-
 sip/parser/RequireParser.go            | 16 ++++++---
 sip/parser/RetryAfterParser.go         | 24 +++++++++----
 sip/parser/RouteParser.go              | 12 +++++--
 sip/parser/SIPParser.go                |  4 ++-
 sip/parser/ServerParser.go             |  4 ++-
 sip/parser/SubjectParser.go            |  4 ++-
 sip/parser/SubscriptionStateParser.go  | 48 +++++++++++++++++++-------
 sip/parser/SupportedParser.go          | 16 ++++++---
 sip/parser/TimeStampParser.go          | 12 +++++--
 sip/parser/ToParser.go                 |  8 +++--
 sip/parser/UnsupportedParser.go        | 16 ++++++---
 sip/parser/UserAgentParser.go          |  4 ++-
 sip/parser/ViaParser.go                | 45 ++++++++++++++++++------
 sip/parser/WWWAuthenticateParser.go    |  4 ++-
 sip/parser/WarningParser.go            | 24 +++++++++----
 56 files changed, 594 insertions(+), 198 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..4e743bd 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -62,7 +62,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// empty body is fine for this header.
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
@@ -72,19 +74,29 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				lexer.Match(';')
+				if _, ParseException = lexer.Match(';'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, ParseException = lexer.Match('q'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, ParseException = lexer.Match('='); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
@@ -99,7 +111,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				lexer.Match(',')
+				if _, ParseException = lexer.Match(','); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..016a372 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -56,25 +56,37 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(';')
+			if _, ParseException = lexer.Match(';'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, ParseException = lexer.Match('q'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
@@ -91,7 +103,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..5ecbc87 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -47,17 +47,25 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	accept := header.NewAccept()
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
@@ -66,16 +74,24 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match('/'); ParseException != nil {
+			return nil, ParseException
+		}
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..a9cd619 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -47,7 +47,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 	lexer := this.GetLexer()
 
 	if ch, _ = lexer.LookAheadK(0); ch == '<' {
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SelectLexer("sip_urlLexer")
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
@@ -58,7 +60,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -75,7 +79,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			}
 		}
 		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -84,7 +90,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	}
 }
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..65b01d5 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -50,20 +50,26 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALERT_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ALERT_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -72,17 +78,23 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfoList.PushBack(alertInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..1b577db 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -40,13 +40,17 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW_EVENTS)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW_EVENTS); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEvents := header.NewAllowEvents()
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allowEvents.SetEventType(token.GetTokenValue())
 
@@ -54,11 +58,15 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allowEvents.SetEventType(token.GetTokenValue())
 
@@ -66,7 +74,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..fa62e32 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -40,24 +40,32 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allow := header.NewAllow()
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allow.SetMethod(token.GetTokenValue())
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allow.SetMethod(token.GetTokenValue())
 
@@ -65,7 +73,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..ed7bcfb 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -39,7 +39,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	var ch byte
 	var nv *core.NameValue
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_AUTHENTICATION_INFO)
+	if ParseException = this.HeaderName(TokenTypes_AUTHENTICATION_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	authenticationInfo := header.NewAuthenticationInfo()
 	authenticationInfo.SetHeaderName(core.SIPHeaderNames_AUTHENTICATION_INFO)
@@ -53,7 +55,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
@@ -64,7 +68,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index ef04392..038cecc 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -34,7 +34,9 @@ func NewAuthorizationParserFromLexer(lexer core.Lexer) *AuthorizationParser {
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	auth := header.NewAuthorization()
 	ParseException = this.ChallengeParser.Parse(auth)
 	return auth, ParseException
diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..a74894c 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -29,9 +29,13 @@ func NewCSeqParserFromLexer(lexer core.Lexer) *CSeqParser {
 
 func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CSEQ)
+	if _, ParseException = lexer.Match(TokenTypes_CSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	var number int
@@ -45,7 +49,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 	//c.SetMethod(m);
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	c := header.NewCSeq(number, method)
 
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index afc7375..9b1c8fa 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -44,9 +44,13 @@ func NewCallIDParserFromLexer(lexer core.Lexer) *CallIDParser {
  */
 func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_CALL_ID)
+	if _, ParseException = lexer.Match(TokenTypes_CALL_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	rest := strings.TrimSpace(lexer.GetRest())
 
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..57cf721 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -42,39 +42,51 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CALL_INFO)
+	if ParseException = this.HeaderName(TokenTypes_CALL_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		this.ParametersParser.Parse(callInfo)
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			this.ParametersParser.Parse(callInfo)
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..fd00ced 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
@@ -73,7 +75,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 	}
 	return nil
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..0cc344c 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -31,11 +31,15 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	// past the header name and the colon.
 	lexer := this.GetLexer()
 	var la byte
-	this.HeaderName(TokenTypes_CONTACT)
+	if ParseException = this.HeaderName(TokenTypes_CONTACT); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		contact := header.NewContact()
 		if la, _ = lexer.LookAheadK(0); la == '*' {
-			lexer.Match('*')
+			if _, ParseException = lexer.Match('*'); ParseException != nil {
+				return nil, ParseException
+			}
 			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
@@ -51,7 +55,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 		retval.AddContact(contact)
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if la, _ = lexer.LookAheadK(0); la == '\n' {
 			break
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..68e25fc 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -36,13 +36,17 @@ func NewContentDispositionParserFromLexer(lexer core.Lexer) *ContentDispositionP
  */
 func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_DISPOSITION)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_DISPOSITION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	cd := header.NewContentDisposition()
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
 	cd.SetDispositionType(token.GetTokenValue())
@@ -52,7 +56,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..09489a9 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -39,14 +39,18 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetEncoding(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentEncoding()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetEncoding(token.GetTokenValue())
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..7d92952 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -39,14 +39,18 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentLanguage()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..6207c1f 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -27,7 +27,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 	var number int
 	contentLength := header.NewContentLength()
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LENGTH)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LENGTH); ParseException != nil {
+		return nil, ParseException
+	}
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -35,6 +37,8 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return contentLength, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..1ac6ab2 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -27,24 +27,34 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	contentType := header.NewContentType()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_TYPE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_TYPE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index e216dc6..abcda2e 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -36,7 +36,9 @@ func NewDateParserFromLexer(lexer core.Lexer) *DateParser {
  */
 func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_DATE)
+	if ParseException = this.HeaderName(TokenTypes_DATE); ParseException != nil {
+		return nil, ParseException
+	}
 	var t time.Time
 	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..18c3b9b 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -44,20 +44,26 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ERROR_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ERROR_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -66,19 +72,25 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfoList.PushBack(errorInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..16c2ee6 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -36,11 +36,15 @@ func NewEventParserFromLexer(lexer core.Lexer) *EventParser {
  */
 func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_EVENT)
+	if ParseException = this.HeaderName(TokenTypes_EVENT); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
@@ -50,7 +54,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..bf65df5 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -37,12 +37,18 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	expires := header.NewExpires()
 
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_EXPIRES)
+	if _, ParseException = lexer.Match(TokenTypes_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..05ab4cb 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -30,13 +30,17 @@ func NewFromParserFromLexer(lexer core.Lexer) *FromParser {
 
 func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
-	this.HeaderName(TokenTypes_FROM)
+	if ParseException = this.HeaderName(TokenTypes_FROM); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	addr := from.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index f5cb75c..f571d79 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -70,9 +70,14 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 
 /** Parse the header name until the colon  and chew WS after that.
  */
-func (this *HeaderParser) HeaderName(tok int) {
-	this.GetLexer().Match(tok)
+func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
+	if _, ParseException = this.GetLexer().Match(tok); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
+	return nil
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..8a9fd13 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -38,17 +38,25 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_IN_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_IN_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
 			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 				secToken.GetTokenValue())
@@ -61,16 +69,24 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyToList.PushBack(inReplyTo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match('@'); ParseException != nil {
+					return nil, ParseException
+				}
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
 				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 					secToken.GetTokenValue())
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..42d8d5b 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -28,7 +28,9 @@ func (this *MaxForwardsParser) super(hname string) {
 
 func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error) {
 	contentLength := header.NewMaxForwards()
-	this.HeaderName(TokenTypes_MAX_FORWARDS)
+	if ParseException = this.HeaderName(TokenTypes_MAX_FORWARDS); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer := this.GetLexer()
 
 	var number int
@@ -39,7 +41,9 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..5e950e2 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -37,7 +37,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	mimeVersion := header.NewMimeVersion()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIME_VERSION)
+	if ParseException = this.HeaderName(TokenTypes_MIME_VERSION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	mimeVersion.SetHeaderName(core.SIPHeaderNames_MIME_VERSION)
 
@@ -46,7 +48,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	mimeVersion.SetMajorVersion(majorVersion)
-	lexer.Match('.')
+	if _, ParseException = lexer.Match('.'); ParseException != nil {
+		return nil, ParseException
+	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -54,7 +58,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..2f14e22 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -37,7 +37,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 	minExpires := header.NewMinExpires()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIN_EXPIRES)
+	if ParseException = this.HeaderName(TokenTypes_MIN_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 
 	minExpires.SetHeaderName(core.SIPHeaderNames_MIN_EXPIRES)
 
@@ -50,7 +52,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/OrganizationParser.go b/sip/parser/OrganizationParser.go
index bf0403b..0cda863 100644
--- a/sip/parser/OrganizationParser.go
+++ b/sip/parser/OrganizationParser.go
@@ -38,7 +38,9 @@ func (this *OrganizationParser) Parse() (sh header.Header, ParseException error)
 	organization := header.NewOrganization()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ORGANIZATION)
+	if ParseException = this.HeaderName(TokenTypes_ORGANIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	organization.SetHeaderName(core.SIPHeaderNames_ORGANIZATION)
 
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..56ec415 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -37,18 +37,24 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority := header.NewPriority()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PRIORITY)
+	if ParseException = this.HeaderName(TokenTypes_PRIORITY); ParseException != nil {
+		return nil, ParseException
+	}
 
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index cf27453..d47b616 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthenticateParserFromLexer(lexer core.Lexer) *ProxyAuthenticatePar
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
 	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
 	return proxyAuthenticate, ParseException
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index 88fc298..e5592ac 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthorizationParserFromLexer(lexer core.Lexer) *ProxyAuthorizationP
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuth := header.NewProxyAuthorization()
 	ParseException = this.ChallengeParser.Parse(proxyAuth)
 	return proxyAuth, ParseException
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..43e83bc 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -38,14 +38,18 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PROXY_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +57,17 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		proxyRequireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..00288ca 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -37,7 +37,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	rack := header.NewRAck()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RACK)
+	if ParseException = this.HeaderName(TokenTypes_RACK); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rack.SetHeaderName(core.SIPHeaderNames_RACK)
 
@@ -52,12 +54,16 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	}
 	rack.SetCSeqNumber(number)
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	rack.SetMethod(token.GetTokenValue())
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..656fc0f 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -37,7 +37,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq := header.NewRSeq()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RSEQ)
+	if ParseException = this.HeaderName(TokenTypes_RSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rseq.SetHeaderName(core.SIPHeaderNames_RSEQ)
 
@@ -48,7 +50,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq.SetSequenceNumber(number)
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..6bd2be9 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -38,11 +38,15 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REASON)
+	if ParseException = this.HeaderName(TokenTypes_REASON); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
@@ -52,7 +56,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		}
 		reasonList.PushBack(reason)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..4096237 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -35,9 +35,13 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_RECORD_ROUTE)
+	if _, ParseException = lexer.Match(TokenTypes_RECORD_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
@@ -45,7 +49,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..a81ac34 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -28,11 +28,15 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REFER_TO)
+	if ParseException = this.HeaderName(TokenTypes_REFER_TO); ParseException != nil {
+		return nil, ParseException
+	}
 	referTo := header.NewReferTo()
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..4d238e0 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -37,7 +37,9 @@ func NewReplyToParserFromLexer(lexer core.Lexer) *ReplyToParser {
 func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 	replyTo := header.NewReplyTo()
 
-	this.HeaderName(TokenTypes_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..ed1c3f0 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -52,7 +52,9 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return retval, nil
 }
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..97a18c7 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -38,14 +38,18 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -53,13 +57,17 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		requireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..40933b3 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -38,7 +38,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RETRY_AFTER)
+	if ParseException = this.HeaderName(TokenTypes_RETRY_AFTER); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// mandatory delatseconds:
 	var ds int
@@ -55,13 +57,19 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			var duration int
@@ -71,9 +79,13 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			retryAfter.SetDuration(duration)
 		} else {
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..10ffac0 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -36,9 +36,13 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	lexer.Match(TokenTypes_ROUTE)
+	if _, ParseException = lexer.Match(TokenTypes_ROUTE); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
@@ -46,7 +50,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 375d4c4..72d176b 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -152,7 +152,9 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok.GetTokenValue() != "SIP" {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	this.GetLexer().Match('/')
+	if _, ParseException = this.GetLexer().Match('/'); ParseException != nil {
+		return "", ParseException
+	}
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP/2.0")
 	}
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..7dcac9a 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -40,7 +40,9 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SERVER)
+	if ParseException = this.HeaderName(TokenTypes_SERVER); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
diff --git a/sip/parser/SubjectParser.go b/sip/parser/SubjectParser.go
index b160f0f..aca0684 100644
--- a/sip/parser/SubjectParser.go
+++ b/sip/parser/SubjectParser.go
@@ -38,7 +38,9 @@ func (this *SubjectParser) Parse() (sh header.Header, ParseException error) {
 	subject := header.NewSubject()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBJECT)
+	if ParseException = this.HeaderName(TokenTypes_SUBJECT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..5ae27e1 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -40,32 +40,48 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBSCRIPTION_STATE)
+	if ParseException = this.HeaderName(TokenTypes_SUBSCRIPTION_STATE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 			subscriptionState.SetReasonCode(value)
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -75,9 +91,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetExpires(expires)
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -87,9 +107,13 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			subscriptionState.SetRetryAfter(retryAfter)
 		} else {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..e6e491b 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -38,7 +38,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_SUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,7 +48,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		supported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +58,17 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supportedList.PushBack(supported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			supported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..04137ed 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -41,7 +41,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	var firstNumber, secondNumber int
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_TIMESTAMP)
+	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
+		return nil, ParseException
+	}
 
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
@@ -52,7 +54,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 	var ts float64
 	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
+		if _, ParseException = lexer.Match('.'); ParseException != nil {
+			return nil, ParseException
+		}
 
 		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
@@ -73,7 +77,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		}
 
 		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
+			if _, ParseException = lexer.Match('.'); ParseException != nil {
+				return nil, ParseException
+			}
 			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..ab82e89 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -28,13 +28,17 @@ func NewToParserFromLexer(lexer core.Lexer) *ToParser {
 
 func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
-	this.HeaderName(TokenTypes_TO)
+	if ParseException = this.HeaderName(TokenTypes_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	addr := to.GetAddress().(*address.AddressImpl)
 	if addr.GetAddressType() == address.ADDRESS_SPEC {
 		// the parameters are header parameters.
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..e49b8ca 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -38,7 +38,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_UNSUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_UNSUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,7 +48,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		unsupported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -54,13 +58,17 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupportedList.PushBack(unsupported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			unsupported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..0147937 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -41,7 +41,9 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_USER_AGENT)
+	if ParseException = this.HeaderName(TokenTypes_USER_AGENT); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..a04b66e 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,7 +32,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -40,9 +42,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -51,9 +57,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	// We consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -79,7 +89,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var la byte
 	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 
 		var nameValue *core.NameValue
@@ -130,7 +142,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -154,7 +168,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
@@ -175,9 +191,14 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 	viaList := header.NewViaList()
 
 	// The first via header.
-	lexer.Match(TokenTypes_VIA)
+	if _, ParseException = lexer.Match(TokenTypes_VIA); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()   // ignore blanks
-	lexer.Match(':') // expect a colon.
+	// expect a colon.
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()   // ingore blanks.
 
 	for {
@@ -195,7 +216,9 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 			break
 		}
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return viaList, nil
 }
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index d9e0327..429a1cc 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewWWWAuthenticateParserFromLexer(lexer core.Lexer) *WWWAuthenticateParser
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_WWW_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_WWW_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
 	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
 	return wwwAuthenticate, ParseException
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..25dd982 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -39,14 +39,18 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_WARNING)
+	if ParseException = this.HeaderName(TokenTypes_WARNING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,7 +64,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		warning.SetAgent(token.GetTokenValue())
 		lexer.SPorHT()
@@ -76,13 +82,17 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
@@ -93,7 +103,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
 			warning.SetAgent(tok.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From 705b5e4f4418b5a178aee2cee0791d88b21d9283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:33 +0000
Subject: [PATCH 030/140] fix: header parsers report a value that its header
 refuses, and bad parameters

---
 sip/parser/AcceptEncodingParser.go     |  4 +++-
 sip/parser/AcceptParser.go             |  8 ++++++--
 sip/parser/AllowEventsParser.go        |  8 ++++++--
 sip/parser/AllowParser.go              |  8 ++++++--
 sip/parser/AuthenticationInfoParser.go |  8 ++++++--
 sip/parser/CallInfoParser.go           |  8 ++++++--
 sip/parser/ContentDispositionParser.go |  4 +++-
 sip/parser/ContentEncodingParser.go    |  8 ++++++--
 sip/parser/ContentTypeParser.go        |  8 ++++++--
 sip/parser/EventParser.go              |  4 +++-
 sip/parser/ExpiresParser.go            |  4 +++-
 sip/parser/InReplyToParser.go          | 18 ++++++++++++------
 sip/parser/MimeVersionParser.go        |  8 ++++++--
 sip/parser/MinExpiresParser.go         |  4 +++-
 sip/parser/ParametersParser.go         |  4 +++-
 sip/parser/PriorityParser.go           |  4 +++-
 sip/parser/ProxyRequireParser.go       |  8 ++++++--
 sip/parser/RAckParser.go               | 12 +++++++++---
 sip/parser/RSeqParser.go               |  4 +++-
 sip/parser/ReasonParser.go             |  4 +++-
 sip/parser/RecordRouteParser.go        |  4 +++-
 sip/parser/RequireParser.go            |  8 ++++++--
 sip/parser/RetryAfterParser.go         | 12 +++++++++---
 sip/parser/RouteParser.go              |  4 +++-
 sip/parser/SubscriptionStateParser.go  | 20 +++++++++++++++-----
 sip/parser/SupportedParser.go          |  8 ++++++--
 sip/parser/TimeStampParser.go          |  8 ++++++--
 sip/parser/UnsupportedParser.go        |  8 ++++++--
 sip/parser/WarningParser.go            | 12 +++++++++---
 29 files changed, 165 insertions(+), 57 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 4e743bd..c6841f8 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -78,7 +78,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 					return nil, ParseException
 				}
 				value := lexer.GetNextToken()
-				acceptEncoding.SetEncoding(value.GetTokenValue())
+				if ParseException = acceptEncoding.SetEncoding(value.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 5ecbc87..4c22943 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -70,7 +70,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
+	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -95,7 +97,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
+		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index 1b577db..8b31670 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -52,7 +52,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	allowEvents.SetEventType(token.GetTokenValue())
+	if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEventsList.PushBack(allowEvents)
 	lexer.SPorHT()
@@ -68,7 +70,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		allowEvents.SetEventType(token.GetTokenValue())
+		if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowEventsList.PushBack(allowEvents)
 		lexer.SPorHT()
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index fa62e32..c2e9772 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -52,7 +52,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	allow.SetMethod(token.GetTokenValue())
+	if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
@@ -67,7 +69,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		allow.SetMethod(token.GetTokenValue())
+		if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowList.PushBack(allow)
 		lexer.SPorHT()
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index ed7bcfb..dd3ee9d 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -51,7 +51,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return nil, ParseException
 	}
-	authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+	if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -63,7 +65,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+		if ParseException = authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 	}
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 57cf721..68412e2 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -64,7 +64,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -89,7 +91,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 68e25fc..e9e9ccf 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -49,7 +49,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	}
 
 	token := lexer.GetNextToken()
-	cd.SetDispositionType(token.GetTokenValue())
+	if ParseException = cd.SetDispositionType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if ParseException = this.ParametersParser.Parse(cd); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 09489a9..fbc3e48 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -53,7 +53,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		}
 
 		token := lexer.GetNextToken()
-		cl.SetEncoding(token.GetTokenValue())
+		if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 		contentEncodingList.PushBack(cl)
@@ -69,7 +71,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
-			cl.SetEncoding(token.GetTokenValue())
+			if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 1ac6ab2..9cf2138 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -37,7 +37,9 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
-	contentType.SetContentType(t.GetTokenValue())
+	if ParseException = contentType.SetContentType(t.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The sub-type:
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
@@ -48,7 +50,9 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
-	contentType.SetContentSubType(subType.GetTokenValue())
+	if ParseException = contentType.SetContentSubType(subType.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index 16c2ee6..d1798d3 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -48,7 +48,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
-	event.SetEventType(value)
+	if ParseException = event.SetEventType(value); ParseException != nil {
+		return nil, ParseException
+	}
 	if ParseException = this.ParametersParser.Parse(event); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index bf65df5..f940f17 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -53,6 +53,8 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
 	}
-	expires.SetExpires(int(delta))
+	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
+		return nil, ParseException
+	}
 	return expires, ParseException
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 8a9fd13..af18d99 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -58,10 +58,13 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			secToken := lexer.GetNextToken()
-			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-				secToken.GetTokenValue())
+			if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
-			inReplyTo.SetCallId(token.GetTokenValue())
+			if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 
 		lexer.SPorHT()
@@ -88,10 +91,13 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 					return nil, ParseException
 				}
 				secToken := lexer.GetNextToken()
-				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-					secToken.GetTokenValue())
+				if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			} else {
-				inReplyTo.SetCallId(token.GetTokenValue())
+				if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			}
 
 			inReplyToList.PushBack(inReplyTo)
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 5e950e2..5d0e7f6 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -47,14 +47,18 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	if majorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMajorVersion(majorVersion)
+	if ParseException = mimeVersion.SetMajorVersion(majorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 	if _, ParseException = lexer.Match('.'); ParseException != nil {
 		return nil, ParseException
 	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMinorVersion(minorVersion)
+	if ParseException = mimeVersion.SetMinorVersion(minorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 2f14e22..396c0a9 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -48,7 +48,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	minExpires.SetExpires(number)
+	if ParseException = minExpires.SetExpires(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index 0758647..651c530 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -54,7 +54,9 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		if nv.IsValueQuoted() {
 			parametersHeader.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
 		} else {
-			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
+			if ParseException = parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string)); ParseException != nil {
+				return ParseException
+			}
 		}
 
 		// eat white space
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 56ec415..255a91b 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -49,7 +49,9 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	}
 	token := lexer.GetNextToken()
 
-	priority.SetPriority(token.GetTokenValue())
+	if ParseException = priority.SetPriority(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 43e83bc..139a8a7 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -51,7 +51,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 			return nil, ParseException
 		}
 		token := lexer.GetNextToken()
-		r.SetOptionTag(token.GetTokenValue())
+		if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		proxyRequireList.PushBack(r)
@@ -69,7 +71,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 				return nil, ParseException
 			}
 			token = lexer.GetNextToken()
-			r.SetOptionTag(token.GetTokenValue())
+			if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			proxyRequireList.PushBack(r)
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index 00288ca..478006a 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -47,18 +47,24 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetRSeqNumber(number)
+	if ParseException = rack.SetRSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetCSeqNumber(number)
+	if ParseException = rack.SetCSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	rack.SetMethod(token.GetTokenValue())
+	if ParseException = rack.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index 656fc0f..ecd4888 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -47,7 +47,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rseq.SetSequenceNumber(number)
+	if ParseException = rseq.SetSequenceNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index 6bd2be9..5962792 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -50,7 +50,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
-		reason.SetProtocol(value)
+		if ParseException = reason.SetProtocol(value); ParseException != nil {
+			return nil, ParseException
+		}
 		if ParseException = this.ParametersParser.Parse(reason); ParseException != nil {
 			return nil, ParseException
 		}
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index 4096237..9c52b4b 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -45,7 +45,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index 97a18c7..ed81abc 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -51,7 +51,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token := lexer.GetNextToken()
-		r.SetOptionTag(token.GetTokenValue())
+		if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		requireList.PushBack(r)
@@ -69,7 +71,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			token = lexer.GetNextToken()
-			r.SetOptionTag(token.GetTokenValue())
+			if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			requireList.PushBack(r)
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 40933b3..85e8158 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -47,7 +47,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	if ds, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	retryAfter.SetRetryAfter(ds)
+	if ParseException = retryAfter.SetRetryAfter(ds); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
@@ -76,7 +78,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			if duration, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
-			retryAfter.SetDuration(duration)
+			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			lexer.SPorHT()
 			if _, ParseException = lexer.Match('='); ParseException != nil {
@@ -88,7 +92,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
-			retryAfter.SetParameter(value, secondValue)
+			if ParseException = retryAfter.SetParameter(value, secondValue); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 		lexer.SPorHT()
 	}
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 10ffac0..b523a2b 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -46,7 +46,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 5ae27e1..b6055e7 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -51,7 +51,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 	token := lexer.GetNextToken()
-	subscriptionState.SetState(token.GetTokenValue())
+	if ParseException = subscriptionState.SetState(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
@@ -73,7 +75,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
-			subscriptionState.SetReasonCode(value)
+			if ParseException = subscriptionState.SetReasonCode(value); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "expires" {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
@@ -89,7 +93,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetExpires(expires)
+			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "retry-after" {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
@@ -105,7 +111,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetRetryAfter(retryAfter)
+			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			if _, ParseException = lexer.Match('='); ParseException != nil {
 				return nil, ParseException
@@ -116,7 +124,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
-			subscriptionState.SetParameter(value, secondValue)
+			if ParseException = subscriptionState.SetParameter(value, secondValue); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 
 		lexer.SPorHT()
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index e6e491b..2a61f62 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -52,7 +52,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token := lexer.GetNextToken()
-		supported.SetOptionTag(token.GetTokenValue())
+		if ParseException = supported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		supportedList.PushBack(supported)
@@ -70,7 +72,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			token = lexer.GetNextToken()
-			supported.SetOptionTag(token.GetTokenValue())
+			if ParseException = supported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supportedList.PushBack(supported)
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 04137ed..26de1f8 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -68,7 +68,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		ts = float64(firstNumber)
 	}
 
-	timeStamp.SetTimeStamp(float32(ts))
+	if ParseException = timeStamp.SetTimeStamp(float32(ts)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
@@ -90,7 +92,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 			ts = float64(firstNumber)
 		}
 
-		timeStamp.SetDelay(float32(ts))
+		if ParseException = timeStamp.SetDelay(float32(ts)); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return timeStamp, nil
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index e49b8ca..8317100 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -52,7 +52,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 			return nil, ParseException
 		}
 		token := lexer.GetNextToken()
-		unsupported.SetOptionTag(token.GetTokenValue())
+		if ParseException = unsupported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		unsupportedList.PushBack(unsupported)
@@ -70,7 +72,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 				return nil, ParseException
 			}
 			token = lexer.GetNextToken()
-			unsupported.SetOptionTag(token.GetTokenValue())
+			if ParseException = unsupported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupportedList.PushBack(unsupported)
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 25dd982..98d6c82 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -68,7 +68,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
+		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		// Parsing the text
@@ -98,7 +100,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			if ParseException = warning.SetCode(code); ParseException != nil {
+				return nil, ParseException
+			}
 
 			lexer.SPorHT()
 
@@ -107,7 +111,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
+			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			// Parsing the text
-- 
2.43.0


From 51b300f87527544dd808936035fc46a9a780d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 031/140] fix: the Via maddr parameter is read as a host
 instead of a panic

---
 sip/header/ViaImpl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..dd7fce9 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,11 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	maddr := this.GetMAddr()
+	if maddr == "" {
+		return nil
+	}
+	return core.NewHost(maddr)
 }
 
 /** port of the Via Header.
-- 
2.43.0


From c8abdc3de851ac3756f38cde062483d151dff0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 032/140] fix: removing the port of a Via keeps its host

---
 sip/header/ViaImpl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index dd7fce9..5bc296d 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -139,7 +139,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
-- 
2.43.0


From c83cf2a9baeb6e1ed4f5a4925d181d897bf68f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 033/140] fix: the transport of a Via can be set

---
 sip/header/ViaImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 5bc296d..a8c986b 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -312,7 +312,7 @@ func (this *Via) GetTransport() string {
  * @throws ParseException which signals that an error has been reached
  * unexpectedly while parsing the transport value.
  */
-func (this *Via) setTransport(transport string) (ParseException error) {
+func (this *Via) SetTransport(transport string) (ParseException error) {
 	if transport == "" {
 		return errors.New("NullPointerException: GoSIP Exception, Via, setTransport(), the transport parameter is null.")
 	}
-- 
2.43.0


From a1ebbede1f8647904e9a8f281c88be24df54fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 034/140] fix: a Via time to live is -1 when not set and never
 above 255

---
 sip/header/ViaImpl.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index a8c986b..381eee1 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -360,7 +360,10 @@ func (this *Via) SetProtocol(protocol string) (ParseException error) {
  * @return the integer value of the <code>ttl</code> parameter
  */
 func (this *Via) GetTTL() int {
-	ttl, _ := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	ttl, err := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	if err != nil {
+		return -1
+	}
 	return ttl
 }
 
@@ -373,8 +376,12 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
+	if ttl < -1 || ttl > 255 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0 or > 255")
+	}
+	if ttl == -1 { // not set
+		this.RemoveParameter(ParameterNames_TTL)
+		return nil
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
 	return nil
-- 
2.43.0


From 629b5fc3c6afba6f49be13d4065e99307d7c3d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 035/140] fix: setting the expiry of a Contact replaces the one
 it has and refuses negative values

---
 sip/header/ContactImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..78fd68f 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,8 +113,10 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is < 0")
+	}
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
-- 
2.43.0


From 378889a9317bbf48be63368bfa3d2b118fc9c0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:05 +0000
Subject: [PATCH 036/140] fix: setting cause or text of a Reason replaces it,
 text is quoted, and a negative cause is refused

---
 sip/header/ReasonImpl.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..07d40dd 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"bytes"
+	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
 )
@@ -36,8 +37,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
-	return nil
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: the cause parameter is < 0")
+	}
+	return this.SetParameter(ParameterNames_CAUSE, strconv.Itoa(cause))
 }
 
 /** Set the protocol
@@ -63,7 +66,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
+	this.SetQuotedParameter(ParameterNames_TEXT, text)
 	return nil
 }
 
@@ -76,13 +79,13 @@ func (this *Reason) GetText() string {
 	return this.parameters.GetParameter("text")
 }
 
-/** Set the cause.
-
+/*
+* Set the cause.
 
-  /** Gets the unique string name of this Header. A name constant is defined in
-   * each individual Header identifying each Header.
-   *
-   * @return the name of this specific Header
+	/** Gets the unique string name of this Header. A name constant is defined in
+	 * each individual Header identifying each Header.
+	 *
+	 * @return the name of this specific Header
 */
 func (this *Reason) GetName() string {
 	return core.SIPHeaderNames_REASON
-- 
2.43.0


From 2bf728ce39cfe5e79833cebdcd000c1d86275727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 037/140] fix: a refused call identifier leaves the one that
 was set

---
 sip/header/CallIdImpl.go     | 8 ++++++--
 sip/header/CallIdentifier.go | 7 +++----
 sip/header/InReplyToImpl.go  | 8 ++++++--
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..e7a90d3 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,8 +97,12 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
-	return ParseException
+	var callIdentifier *CallIdentifier
+	if callIdentifier, ParseException = NewCallIdentifier(cid); ParseException != nil {
+		return ParseException
+	}
+	this.callIdentifier = callIdentifier
+	return nil
 }
 
 /**
diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..7058811 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,13 +118,12 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		if index == 0 || index == len(cid)-1 {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = cid[0:index]
+		this.host = cid[index+1:]
 	}
-
 	return nil
 }
 
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..d95d44d 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,8 +38,12 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
-	return ParseException
+	var cid *CallIdentifier
+	if cid, ParseException = NewCallIdentifier(callId); ParseException != nil {
+		return ParseException
+	}
+	this.callId = cid
+	return nil
 }
 
 /**
-- 
2.43.0


From 5bc35272fa3b1d8c538a42e13f8713e71fbd3ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:09 +0000
Subject: [PATCH 038/140] fix: Max-Forwards is not decremented below zero

---
 sip/header/MaxForwardsImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..cde07c4 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -72,8 +72,9 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: max forwards has reached zero")
 	}
+	this.maxForwards--
 	return nil
 }
-- 
2.43.0


From ed47542afa65aec4dbb5cb5b7ac6c7cbf1d7057c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:08 +0000
Subject: [PATCH 039/140] fix: a Retry-After of zero seconds is encoded

---
 sip/header/RetryAfterImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
-- 
2.43.0


From 12986f3f66f6ddb7465dab53c2b0a9152820828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:10 +0000
Subject: [PATCH 040/140] fix: RAck refuses an empty method and takes the
 sequence number zero, as CSeq does

---
 sip/header/RAckImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/header/RAckImpl.go b/sip/header/RAckImpl.go
index b8b9e07..5f63b41 100644
--- a/sip/header/RAckImpl.go
+++ b/sip/header/RAckImpl.go
@@ -72,7 +72,7 @@ func (this *RAck) GetRSeqNumber() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *RAck) SetCSeqNumber(cSeqNumber int) (InvalidArgumentException error) {
-	if cSeqNumber <= 0 {
+	if cSeqNumber < 0 {
 		return errors.New("InvalidArgumentException: Bad CSeq")
 	}
 	this.cSeqNumber = cSeqNumber
@@ -87,6 +87,9 @@ func (this *RAck) SetCSeqNumber(cSeqNumber int) (InvalidArgumentException error)
  * unexpectedly while parsing the method value.
  */
 func (this *RAck) SetMethod(method string) (ParseException error) {
+	if method == "" {
+		return errors.New("NullPointerException: the method parameter is null")
+	}
 	this.method = method
 	return nil
 }
-- 
2.43.0


From f93220b9cef7da115b6765a03a7cf8551ee9069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:11 +0000
Subject: [PATCH 041/140] fix: Reason refuses an empty protocol

---
 sip/header/ReasonImpl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 07d40dd..46c984a 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -49,6 +49,9 @@ func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
  */
 
 func (this *Reason) SetProtocol(protocol string) (ParseException error) {
+	if protocol == "" {
+		return errors.New("NullPointerException: the protocol parameter is null")
+	}
 	this.protocol = protocol
 	return nil
 }
-- 
2.43.0


From ed4b31e0e250d72c8b6646ab22524b3cb365a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:13 +0000
Subject: [PATCH 042/140] fix: Subscription-State takes times of zero seconds

---
 sip/header/SubscriptionStateImpl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index 5a379f6..cbf70a2 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -36,8 +36,8 @@ func NewSubscriptionState() *SubscriptionState {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetExpires(expires int) (InvalidArgumentException error) {
-	if expires <= 0 {
-		return errors.New("InvalidArgumentException: the expires parameter is <=0")
+	if expires < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is <0")
 	}
 	this.expires = expires
 	return nil
@@ -61,8 +61,8 @@ func (this *SubscriptionState) GetExpires() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetRetryAfter(retryAfter int) (InvalidArgumentException error) {
-	if retryAfter <= 0 {
-		return errors.New("InvalidArgumentException: the retryAfter parameter is <=0")
+	if retryAfter < 0 {
+		return errors.New("InvalidArgumentException: the retryAfter parameter is <0")
 	}
 	this.retryAfter = retryAfter
 	return nil
-- 
2.43.0


From 70ed8fe73f3bd20a90cd5beea0706070f0142498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:14 +0000
Subject: [PATCH 043/140] fix: a quoted authentication parameter whose new text
 begins with a quote is refused

---
 sip/header/AuthenticationImpl.go     | 27 +++++++++------------------
 sip/header/AuthenticationInfoImpl.go | 15 +++++----------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..c58f814 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -134,8 +134,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -163,8 +162,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -222,8 +220,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -250,8 +247,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -278,8 +274,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -306,8 +301,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -358,8 +352,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -390,8 +383,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -412,8 +404,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..06d1be2 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -119,8 +119,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -132,8 +131,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -152,8 +150,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -165,8 +162,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -180,8 +176,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From 2d29b905a893ed288d3480fcaa487e4a7e9d9943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 044/140] fix: the nonce count is hexadecimal in both
 directions, -1 when absent, and at most eight digits

---
 sip/header/AuthenticationImpl.go     | 7 +++++--
 sip/header/AuthenticationInfoImpl.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index c58f814..4cae129 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -366,7 +366,10 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseInt(s, 16, 64)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -375,7 +378,7 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || int64(nonceCount) > 0xFFFFFFFF {
 		return errors.New("ParseException: bad value")
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 06d1be2..246289e 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,7 +87,10 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseInt(s, 16, 64)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -143,7 +146,7 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || int64(nonceCount) > 0xFFFFFFFF {
 		return errors.New("ParseException: bad value")
 	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
-- 
2.43.0


From 1198f5a8b51b8752320f57b50f8c6ba1007f453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:17 +0000
Subject: [PATCH 045/140] fix: the response set on Authentication-Info is the
 one read from it

---
 sip/header/AuthenticationInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 246289e..1e2e428 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -179,7 +179,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	return this.SetParameter(ParameterNames_RESPONSE, response)
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From 0a2910a19cb1c5196d536a1310e82443259effe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:19 +0000
Subject: [PATCH 046/140] fix: the message of an Error-Info is encoded in
 quotes

---
 sip/header/ErrorInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..7eb9fd9 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -91,7 +91,7 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 	if message == "" {
 		return errors.New("NullPointerException: the message parameter is null")
 	}
-	this.SetParameter("message", message)
+	this.SetQuotedParameter("message", message)
 	return nil
 }
 
-- 
2.43.0


From 9973270aa3b71e7d15e0d54ba925503bea73047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 047/140] fix: Alert-Info and Call-Info take any kind of URI

---
 sip/header/AlertInfoImpl.go | 4 ++--
 sip/header/CallInfoImpl.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
-- 
2.43.0


From 3c679b9b3138c0c3e3ade378cb97e56c5d508e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:22 +0000
Subject: [PATCH 048/140] fix: a Date is encoded in GMT whatever its time zone

---
 sip/header/DateImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..d90fad7 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -33,7 +33,7 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
-	return this.date.Format(time.RFC1123)
+	return this.date.UTC().Format("Mon, 02 Jan 2006 15:04:05") + " GMT"
 }
 
 /**
-- 
2.43.0


From 0f1e10fac964e93171d0fbf833d55d613ebcfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:24 +0000
Subject: [PATCH 049/140] fix: setting the methods of an Allow or Allow-Events
 list replaces them, all or none

---
 sip/header/AllowEventsList.go | 5 ++++-
 sip/header/AllowList.go       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/header/AllowEventsList.go b/sip/header/AllowEventsList.go
index 18df735..a7f304a 100644
--- a/sip/header/AllowEventsList.go
+++ b/sip/header/AllowEventsList.go
@@ -59,6 +59,7 @@ func (this *AllowEventsList) GetMethods() *list.List {
  */
 
 func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException error) {
+	replacement := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allowEvents := NewAllowEvents()
 		if str, ok := e.Value.(string); ok {
@@ -69,8 +70,10 @@ func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException erro
 			return errors.New("ParseException: the eventType parameter is not string")
 		}
 
-		this.PushBack(allowEvents)
+		replacement.PushBack(allowEvents)
 	}
+	this.Init()
+	this.PushBackList(replacement)
 
 	return nil
 }
diff --git a/sip/header/AllowList.go b/sip/header/AllowList.go
index 753297b..d7a13dd 100644
--- a/sip/header/AllowList.go
+++ b/sip/header/AllowList.go
@@ -60,6 +60,7 @@ func (this *AllowList) GetMethods() *list.List {
 
 func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 
+	replacement := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allow := NewAllow()
 		if str, ok := e.Value.(string); ok {
@@ -70,7 +71,9 @@ func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 			return errors.New("ParseException: the method parameter is not string")
 		}
 
-		this.PushBack(allow)
+		replacement.PushBack(allow)
 	}
+	this.Init()
+	this.PushBackList(replacement)
 	return nil
 }
-- 
2.43.0


From f31c0cd1fd5832aa242ecebb0f14e8a68bef6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 050/140] fix: an empty Accept-Language list has a default
 first and last value instead of a panic

---
 sip/header/AcceptLanguageList.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index 863acf5..c6aa884 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -18,18 +18,16 @@ func NewAcceptLanguageList() *AcceptLanguageList {
 }
 
 func (this *AcceptLanguageList) GetFirst() Header {
-	retval := this.SIPHeaderList.Front().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Front(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
 }
 
 func (this *AcceptLanguageList) GetLast() Header {
-	retval := this.SIPHeaderList.Back().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Back(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
-- 
2.43.0


From 96a2f31863c10a5ec0158623331030e12499a9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:27 +0000
Subject: [PATCH 051/140] fix: an absent challenge parameter is empty instead
 of a panic, and parameters set after clearing are comma-separated

---
 sip/header/Challenge.go | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 9d76bf5..a95c84d 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
@@ -152,6 +152,7 @@ func (this *Challenge) RemoveParameter(name string) bool {
  */
 func (this *Challenge) RemoveParameters() {
 	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.SetSeparator(core.SIPSeparatorNames_COMMA)
 }
 
 /** Set the specified parameter
-- 
2.43.0


From e2a940ba2c2b0f2a94e0dd7e59fa8f07bc6fd205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:28 +0000
Subject: [PATCH 052/140] fix: replacing a quoted authentication parameter
 refuses a text that begins with a quote, as setting it does

---
 sip/header/AuthenticationImpl.go     | 3 +++
 sip/header/AuthenticationInfoImpl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 4cae129..478f45f 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -67,6 +67,9 @@ func (this *Authentication) SetParameter(name, value string) error {
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
+		if nv.IsValueQuoted() && strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
 		nv.SetValue(value)
 	}
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 1e2e428..1850918 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -212,6 +212,9 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 		}
 		this.parameters.SetNameValue(nv)
 	} else {
+		if nv.IsValueQuoted() && strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
 		nv.SetValue(value)
 	}
 
-- 
2.43.0


From 1a56787eafbbaa472557a0e137d5a5abc50d51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:31 +0000
Subject: [PATCH 053/140] fix: header lists refuse an empty header and values
 with no comma between them

---
 sip/parser/AlertInfoParser.go       | 6 ++++++
 sip/parser/CallInfoParser.go        | 6 ++++++
 sip/parser/ContentEncodingParser.go | 6 ++++++
 sip/parser/ContentLanguageParser.go | 6 ++++++
 sip/parser/ErrorInfoParser.go       | 6 ++++++
 sip/parser/InReplyToParser.go       | 7 +++++++
 sip/parser/ProxyRequireParser.go    | 6 ++++++
 sip/parser/RequireParser.go         | 6 ++++++
 sip/parser/SupportedParser.go       | 3 +++
 sip/parser/UnsupportedParser.go     | 6 ++++++
 sip/parser/WarningParser.go         | 6 ++++++
 11 files changed, 64 insertions(+)

diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 65b01d5..2a3d3f1 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -54,6 +54,9 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
@@ -102,6 +105,9 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			alertInfoList.PushBack(alertInfo)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return alertInfoList, nil
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 68412e2..6015205 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -46,6 +46,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
@@ -96,6 +99,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			callInfoList.PushBack(callInfo)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return callInfoList, nil
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index fbc3e48..0598f83 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -43,6 +43,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
@@ -77,6 +80,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return contentEncodingList, nil
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index 7d92952..9eb0106 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -43,6 +43,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
@@ -74,6 +77,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 			lexer.SPorHT()
 			contentLanguageList.PushBack(cl)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return contentLanguageList, nil
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 18c3b9b..7d8d4e9 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -48,6 +48,9 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
@@ -98,6 +101,9 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			errorInfoList.PushBack(errorInfo)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return errorInfoList, nil
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index af18d99..d2a1efa 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -42,6 +42,9 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
@@ -100,8 +103,12 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 				}
 			}
 
+			lexer.SPorHT()
 			inReplyToList.PushBack(inReplyTo)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return inReplyToList, nil
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 139a8a7..dde6f33 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -42,6 +42,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
@@ -79,6 +82,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 			proxyRequireList.PushBack(r)
 		}
 
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return proxyRequireList, nil
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index ed81abc..4590c43 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -42,6 +42,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
@@ -79,6 +82,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 			requireList.PushBack(r)
 		}
 
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return requireList, nil
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 2a61f62..f552387 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -79,6 +79,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 			supportedList.PushBack(supported)
 		}
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return supportedList, nil
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index 8317100..d1dcd7b 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -42,6 +42,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
 		unsupported := header.NewUnsupported()
@@ -80,6 +83,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 			unsupportedList.PushBack(unsupported)
 		}
 
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return unsupportedList, nil
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 98d6c82..d3b0509 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -43,6 +43,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
@@ -126,6 +129,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			warningList.PushBack(warning)
 		}
 
+		if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return warningList, nil
-- 
2.43.0


From 5dcb568e5883c181521b6922a7f1ca13034d5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 054/140] fix: a Retry-After header's comment, duration and
 parameters are read completely or refused

---
 sip/parser/RetryAfterParser.go | 54 ++++++++++++----------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 85e8158..ee512d7 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strconv"
+
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 )
@@ -53,50 +55,30 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
+			return nil, ParseException
+		}
 		retryAfter.SetComment(comment)
 	}
 	lexer.SPorHT()
 
-	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		if _, ParseException = lexer.Match(';'); ParseException != nil {
+	parametersParser := NewParametersParserFromLexer(lexer)
+	if ParseException = parametersParser.Parse(retryAfter); ParseException != nil {
+		return nil, ParseException
+	}
+	if retryAfter.HasParameter(header.ParameterNames_DURATION) {
+		var duration int
+		if duration, ParseException = strconv.Atoi(retryAfter.GetParameter(header.ParameterNames_DURATION)); ParseException != nil {
 			return nil, ParseException
 		}
-		lexer.SPorHT()
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-			return nil, ParseException
+		if duration < 0 {
+			return nil, this.CreateParseException("invalid duration")
 		}
-		token := lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if value == "duration" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
+	}
 
-			var duration int
-			if duration, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
-				return nil, ParseException
-			}
-		} else {
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			if ParseException = retryAfter.SetParameter(value, secondValue); ParseException != nil {
-				return nil, ParseException
-			}
-		}
-		lexer.SPorHT()
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
 	}
 
 	return retryAfter, nil
-- 
2.43.0


From b3e0ffe2664c4459fc1c1cc3b804aea766d5a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 055/140] fix: a Subscription-State header's parameters are
 read completely, after any white space, or refused

---
 sip/parser/SubscriptionStateParser.go | 86 ++++++++-------------------
 1 file changed, 25 insertions(+), 61 deletions(-)

diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index b6055e7..9da1584 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -55,82 +55,46 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 
+	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var nv *core.NameValue
+		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if strings.ToLower(value) == "reason" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-			if ParseException = subscriptionState.SetReasonCode(value); ParseException != nil {
-				return nil, ParseException
-			}
-		} else if strings.ToLower(value) == "expires" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
+		value := nv.GetValue().(string)
+		switch strings.ToLower(nv.GetName()) {
+		case "reason":
+			ParseException = subscriptionState.SetReasonCode(value)
+		case "expires":
 			var expires int
-			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
-				return nil, ParseException
-			}
-			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
-				return nil, ParseException
-			}
-		} else if strings.ToLower(value) == "retry-after" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
+			if expires, ParseException = strconv.Atoi(value); ParseException == nil {
+				ParseException = subscriptionState.SetExpires(expires)
 			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
+		case "retry-after":
 			var retryAfter int
-			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
-				return nil, ParseException
+			if retryAfter, ParseException = strconv.Atoi(value); ParseException == nil {
+				ParseException = subscriptionState.SetRetryAfter(retryAfter)
 			}
-			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
-				return nil, ParseException
-			}
-		} else {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			if ParseException = subscriptionState.SetParameter(value, secondValue); ParseException != nil {
-				return nil, ParseException
+		default:
+			if nv.IsValueQuoted() {
+				subscriptionState.SetQuotedParameter(nv.GetName(), value)
+			} else {
+				ParseException = subscriptionState.SetParameter(nv.GetName(), value)
 			}
 		}
-
+		if ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 	}
 
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return subscriptionState, nil
 }
-- 
2.43.0


From 3b710bd8e6930adeca2757bab73d8e095947d1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 056/140] fix: white space around the slash of a media type is
 accepted, and text after an Accept header refused

---
 sip/parser/AcceptParser.go      | 8 ++++++++
 sip/parser/ContentTypeParser.go | 1 +
 2 files changed, 9 insertions(+)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 4c22943..b3664dc 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -60,9 +60,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
@@ -88,9 +90,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match('/'); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
 		}
@@ -103,5 +107,9 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		acceptList.PushBack(accept)
 
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
+
 	return acceptList, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 9cf2138..553c206 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -45,6 +45,7 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 607ee18b0b5bda21e96355defa60b8696d8436d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 057/140] fix: white space after an Expires value is accepted

---
 sip/parser/ExpiresParser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index f940f17..8a34986 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -46,6 +46,7 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
-- 
2.43.0


From 7eada40af58f2c98149cf344beef60e3c1e52fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 058/140] fix: white space before the colon is no part of an
 extension header's name

---
 sip/parser/HeaderParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index f571d79..90a454e 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -59,6 +59,9 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	if name, ParseException = lexer.GetNextTokenByDelim(':'); ParseException != nil {
 		return nil, ParseException
 	}
+	if name = strings.TrimSpace(name); name == "" {
+		return nil, this.CreateParseException("empty header name")
+	}
 	lexer.ConsumeK(1)
 	body := strings.TrimSpace(lexer.GetLine())
 
-- 
2.43.0


From 3c641897c16015045332bfa9e6af9551097ef3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 059/140] fix: Accept-Encoding and Accept-Language keep every
 parameter, after any white space, and refuse what follows a value

---
 sip/parser/AcceptEncodingParser.go | 31 ++++++++++----------------
 sip/parser/AcceptLanguageParser.go | 35 ++++++++++--------------------
 2 files changed, 22 insertions(+), 44 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index c6841f8..5f0e052 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -71,6 +71,7 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		acceptEncoding := header.NewAcceptEncoding()
 		acceptEncodingList.PushBack(acceptEncoding)
 	} else {
+		parametersParser := NewParametersParserFromLexer(lexer)
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
@@ -83,32 +84,17 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				}
 			}
 
-			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				if _, ParseException = lexer.Match(';'); ParseException != nil {
-					return nil, ParseException
-				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match('q'); ParseException != nil {
-					return nil, ParseException
-				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match('='); ParseException != nil {
-					return nil, ParseException
-				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-					return nil, ParseException
-				}
-				value := lexer.GetNextToken()
-
+			if ParseException = parametersParser.Parse(acceptEncoding); ParseException != nil {
+				return nil, ParseException
+			}
+			if acceptEncoding.HasQValue() {
 				var qv float64
-				if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
+				if qv, ParseException = strconv.ParseFloat(acceptEncoding.GetParameter(header.ParameterNames_Q), 32); ParseException != nil {
 					return nil, ParseException
 				}
 				if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
 					return nil, ParseException
 				}
-				lexer.SPorHT()
 			}
 
 			acceptEncodingList.PushBack(acceptEncoding)
@@ -117,6 +103,11 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 					return nil, ParseException
 				}
 				lexer.SPorHT()
+				if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+					return nil, this.CreateParseException("value expected")
+				}
+			} else if ch != '\n' {
+				return nil, this.CreateParseException("unexpected char")
 			}
 
 		}
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 016a372..bb7d26d 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -60,6 +60,7 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		return nil, ParseException
 	}
 
+	parametersParser := NewParametersParserFromLexer(lexer)
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
@@ -71,34 +72,17 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
-		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			if _, ParseException = lexer.Match(';'); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('q'); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			value := lexer.GetNextToken()
-
+		if ParseException = parametersParser.Parse(acceptLanguage); ParseException != nil {
+			return nil, ParseException
+		}
+		if acceptLanguage.HasQValue() {
 			var qv float64
-			if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
+			if qv, ParseException = strconv.ParseFloat(acceptLanguage.GetParameter(header.ParameterNames_Q), 32); ParseException != nil {
 				return nil, ParseException
 			}
-
 			if ParseException = acceptLanguage.SetQValue(float32(qv)); ParseException != nil {
 				return nil, ParseException
 			}
-
-			lexer.SPorHT()
 		}
 
 		acceptLanguageList.PushBack(acceptLanguage)
@@ -107,8 +91,11 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-		} else {
-			lexer.SPorHT()
+			if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+				return nil, this.CreateParseException("value expected")
+			}
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
 		}
 	}
 
-- 
2.43.0


From 91ea002c1e32a19641c8134fbafaa85747d2bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:59 +0000
Subject: [PATCH 060/140] fix: a Reason header refuses an empty list and values
 with no comma between them

---
 sip/parser/ReasonParser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index 5962792..fd44155 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -42,6 +42,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	lexer.SPorHT()
+	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+		return nil, this.CreateParseException("empty header")
+	}
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
@@ -62,8 +65,11 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 				return nil, ParseException
 			}
 			lexer.SPorHT()
-		} else {
-			lexer.SPorHT()
+			if ch, _ = lexer.LookAheadK(0); ch == '\n' {
+				return nil, this.CreateParseException("value expected")
+			}
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
 		}
 
 	}
-- 
2.43.0


From 7a440b702d857def42d5c520033f6837a710f13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 061/140] fix: a quality value that is no number is refused

---
 sip/header/AcceptEncodingImpl.go | 2 +-
 sip/header/AcceptImpl.go         | 2 +-
 sip/header/AcceptLanguageImpl.go | 2 +-
 sip/header/ContactImpl.go        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 9007b4f..1b35f2d 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -138,7 +138,7 @@ func (this *AcceptEncoding) RemoveQValue() {
  *
  */
 func (this *AcceptEncoding) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 8fc1a99..e198607 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -174,7 +174,7 @@ func (this *Accept) RemoveQValue() {
  *
  */
 func (this *Accept) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 91769a6..7b76310 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -150,7 +150,7 @@ func (this *AcceptLanguage) RemoveQValue() {
  *
  */
 func (this *AcceptLanguage) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 78fd68f..701e171 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -193,7 +193,7 @@ func (this *Contact) RemoveQValue() {
  *
  */
 func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
-- 
2.43.0


From 193a8589582dccbc8ef806517a09fff2d92ac055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:01 +0000
Subject: [PATCH 062/140] fix: a Contact or Accept quality value or a negative
 Contact expiry out of range is refused by the parser

---
 sip/parser/AcceptParser.go     | 10 ++++++++++
 sip/parser/ContactParser.go    | 11 ++++++++++-
 sip/parser/ParametersParser.go | 15 +++++++++++++++
 3 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index b3664dc..a66c7fa 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -75,6 +75,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
 		return nil, ParseException
 	}
+	if accept.HasQValue() {
+		if ParseException = this.CheckQValue(accept.GetParameter(header.ParameterNames_Q)); ParseException != nil {
+			return nil, ParseException
+		}
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
@@ -104,6 +109,11 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
 			return nil, ParseException
 		}
+		if accept.HasQValue() {
+			if ParseException = this.CheckQValue(accept.GetParameter(header.ParameterNames_Q)); ParseException != nil {
+				return nil, ParseException
+			}
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 0cc344c..1d3e13e 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -47,7 +47,16 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 			}
 
 			if contact.HasParameter(header.ParameterNames_EXPIRES) {
-				if _, ParseException = strconv.Atoi(contact.GetParameter(header.ParameterNames_EXPIRES)); ParseException != nil {
+				var expires int
+				if expires, ParseException = strconv.Atoi(contact.GetParameter(header.ParameterNames_EXPIRES)); ParseException != nil {
+					return nil, ParseException
+				}
+				if expires < 0 {
+					return nil, this.CreateParseException("invalid expires")
+				}
+			}
+			if contact.HasParameter(header.ParameterNames_Q) {
+				if ParseException = this.CheckQValue(contact.GetParameter(header.ParameterNames_Q)); ParseException != nil {
 					return nil, ParseException
 				}
 			}
diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index 651c530..173ef02 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -1,6 +1,8 @@
 package parser
 
 import (
+	"strconv"
+
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 )
@@ -68,3 +70,16 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 	}
 	return nil
 }
+
+/** Check the text of a quality value.
+ */
+func (this *ParametersParser) CheckQValue(q string) (ParseException error) {
+	var qv float64
+	if qv, ParseException = strconv.ParseFloat(q, 32); ParseException != nil {
+		return ParseException
+	}
+	if !(qv >= 0.0 && qv <= 1.0) {
+		return this.CreateParseException("qvalue out of range!")
+	}
+	return nil
+}
-- 
2.43.0


From fe7b8faaa889151b8ebc729e738af990b01d2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:40 +0000
Subject: [PATCH 063/140] fix: a Warning header's agent may have a port, and
 its text is required between quotes

---
 sip/parser/WarningParser.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index d3b0509..025760e 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -67,17 +67,16 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-			return nil, ParseException
-		}
-		token = lexer.GetNextToken()
-		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+		if ParseException = warning.SetAgent(this.agent()); ParseException != nil {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
 
 		// Parsing the text
 		var text string
+		if ch, _ = lexer.LookAheadK(0); ch != '"' {
+			return nil, this.CreateParseException("quoted text expected")
+		}
 		if text, ParseException = lexer.QuotedString(); ParseException != nil {
 			return nil, ParseException
 		}
@@ -110,16 +109,15 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			tok = lexer.GetNextToken()
-			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
+			if ParseException = warning.SetAgent(this.agent()); ParseException != nil {
 				return nil, ParseException
 			}
 			lexer.SPorHT()
 
 			// Parsing the text
+			if ch, _ = lexer.LookAheadK(0); ch != '"' {
+				return nil, this.CreateParseException("quoted text expected")
+			}
 			if text, ParseException = lexer.QuotedString(); ParseException != nil {
 				return nil, ParseException
 			}
@@ -136,3 +134,15 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	return warningList, nil
 }
+
+// agent reads a host, with or without a port, or a pseudonym: all up to the
+// next white space.
+func (this *WarningParser) agent() string {
+	lexer := this.GetLexer()
+	var agent []byte
+	for ch, err := lexer.LookAheadK(0); err == nil && ch != ' ' && ch != '\t' && ch != '\n' && ch != '"' && ch != ','; ch, err = lexer.LookAheadK(0) {
+		agent = append(agent, ch)
+		lexer.ConsumeK(1)
+	}
+	return string(agent)
+}
-- 
2.43.0


From 2063c1c534f1bdba6c802a3bfa83192963952b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:41 +0000
Subject: [PATCH 064/140] fix: the leading zeros of a Timestamp's fraction
 count, and text after it is refused

---
 sip/parser/TimeStampParser.go | 66 ++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 26de1f8..a763af5 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -38,7 +38,6 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
 	var ch byte
-	var firstNumber, secondNumber int
 
 	lexer := this.GetLexer()
 	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
@@ -48,54 +47,49 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
-	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	var ts float32
+	if ts, ParseException = this.seconds(); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = timeStamp.SetTimeStamp(ts); ParseException != nil {
 		return nil, ParseException
 	}
 
-	var ts float64
-	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		if _, ParseException = lexer.Match('.'); ParseException != nil {
+	lexer.SPorHT()
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+		if ts, ParseException = this.seconds(); ParseException != nil {
 			return nil, ParseException
 		}
-
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
+		if ParseException = timeStamp.SetDelay(ts); ParseException != nil {
 			return nil, ParseException
 		}
-
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
-	} else {
-		ts = float64(firstNumber)
+		lexer.SPorHT()
 	}
 
-	if ParseException = timeStamp.SetTimeStamp(float32(ts)); ParseException != nil {
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
 
-	lexer.SPorHT()
-	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
-		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
-			return nil, ParseException
-		}
-
-		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			if _, ParseException = lexer.Match('.'); ParseException != nil {
-				return nil, ParseException
-			}
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
-		} else {
-			ts = float64(firstNumber)
-		}
+	return timeStamp, nil
+}
 
-		if ParseException = timeStamp.SetDelay(float32(ts)); ParseException != nil {
-			return nil, ParseException
+// seconds reads a number of seconds with or without a fraction, whose leading
+// zeros count.
+func (this *TimeStampParser) seconds() (ts float32, ParseException error) {
+	lexer := this.GetLexer()
+	start := lexer.MarkInputPosition()
+	if _, ParseException = lexer.Number(); ParseException != nil {
+		return -1, ParseException
+	}
+	if ch, err := lexer.LookAheadK(0); err == nil && ch == '.' {
+		lexer.ConsumeK(1)
+		if _, ParseException = lexer.Number(); ParseException != nil {
+			return -1, ParseException
 		}
 	}
-
-	return timeStamp, nil
+	var value float64
+	if value, ParseException = strconv.ParseFloat(lexer.GetBuffer()[start:lexer.MarkInputPosition()], 32); ParseException != nil {
+		return -1, ParseException
+	}
+	return float32(value), nil
 }
-- 
2.43.0


From 244832bf06b976bf81492f6239d90cee82032be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:11 +0000
Subject: [PATCH 065/140] fix: a Server or User-Agent header keeps its whole
 text, split only at slashes outside comments

---
 sip/parser/ServerParser.go    | 57 ++++++++++++++++++++++++-----------
 sip/parser/UserAgentParser.go | 24 ++++-----------
 2 files changed, 45 insertions(+), 36 deletions(-)

diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 7dcac9a..6c58b05 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -48,25 +48,46 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			server.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				server.AddProductToken(tok)
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				server.AddProductToken(tok)
-			}
-		}
+	var tokens []string
+	if tokens, ParseException = splitProduct(strings.TrimSpace(lexer.GetRest())); ParseException != nil {
+		return nil, ParseException
+	}
+	for _, tok := range tokens {
+		server.AddProductToken(tok)
 	}
 
 	return server, nil
 }
+
+// splitProduct splits the text of a Server or User-Agent header at each slash
+// outside its comments.
+func splitProduct(text string) (tokens []string, ParseException error) {
+	start, depth := 0, 0
+	for i := 0; i < len(text); i++ {
+		switch ch := text[i]; {
+		case ch == '\n':
+			return nil, errors.New("ParseException: unexpected end of line")
+		case ch == '\\' && depth > 0:
+			i++
+		case ch == '(':
+			depth++
+		case ch == ')':
+			if depth--; depth < 0 {
+				return nil, errors.New("ParseException: unexpected )")
+			}
+		case ch == '/' && depth == 0:
+			tokens = append(tokens, text[start:i])
+			start = i + 1
+		}
+	}
+	if depth > 0 {
+		return nil, errors.New("ParseException: unclosed comment")
+	}
+	tokens = append(tokens, text[start:])
+	for _, tok := range tokens {
+		if strings.TrimSpace(tok) == "" {
+			return nil, errors.New("ParseException: empty product")
+		}
+	}
+	return tokens, nil
+}
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index 0147937..429ec45 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -49,24 +49,12 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			userAgent.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				userAgent.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				userAgent.AddProductToken(tok)
-			}
-		}
+	var tokens []string
+	if tokens, ParseException = splitProduct(strings.TrimSpace(lexer.GetRest())); ParseException != nil {
+		return nil, ParseException
+	}
+	for _, tok := range tokens {
+		userAgent.AddProductToken(tok)
 	}
 
 	return userAgent, nil
-- 
2.43.0


From 0f5ab3df0841644ebabdf878b51b3926eb3c1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 066/140] fix: a Via comment is read before as well as after
 the parameters, and an unclosed one refused

---
 sip/parser/ViaParser.go | 40 ++++++++++------------------------------
 1 file changed, 10 insertions(+), 30 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index a04b66e..a500b1a 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -88,7 +87,16 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	var la byte
-	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
+	for la, _ = lexer.LookAheadK(0); la == ';' || la == '(' && !v.HasComment(); la, _ = lexer.LookAheadK(0) {
+		if la == '(' {
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return ParseException
+			}
+			v.SetComment(comment)
+			lexer.SPorHT()
+			continue
+		}
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
 			return ParseException
 		}
@@ -105,34 +113,6 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 		lexer.SPorHT()
 	}
 
-	if la, _ = lexer.LookAheadK(0); la == '(' {
-		lexer.SelectLexer("charLexer")
-		lexer.ConsumeK(1)
-
-		var comment bytes.Buffer
-		for {
-			ch, _ := lexer.LookAheadK(0)
-			if ch == ')' {
-				lexer.ConsumeK(1)
-				break
-			} else if ch == '\\' {
-				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
-			}
-		}
-		v.SetComment(comment.String())
-	}
-
 	return nil
 
 }
-- 
2.43.0


From 612900bde827cfcae8ad64905534936446d06e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:50 +0000
Subject: [PATCH 067/140] fix: a Via received parameter ends at white space or
 at the next Via

---
 sip/parser/ViaParser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index a500b1a..1cd0ba8 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -140,7 +140,14 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			var received []byte
+			for la, err := lexer.LookAheadK(0); err == nil && la != ';' && la != ',' && la != '(' && la != '\n' && la != ' ' && la != '\t'; la, err = lexer.LookAheadK(0) {
+				received = append(received, la)
+				lexer.ConsumeK(1)
+			}
+			if str = string(received); str == "" {
+				return nil, this.CreateParseException("empty received parameter")
+			}
 		} else {
 			if la, _ = lexer.LookAheadK(0); la == '"' {
 				if str, ParseException = lexer.QuotedString(); ParseException != nil {
-- 
2.43.0


From 33a38a2baf6652c1fc6e499fa1efbfa9340f4919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 068/140] fix: Via values with no comma between them are
 refused

---
 sip/parser/ViaParser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1cd0ba8..631391c 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -198,8 +198,7 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 		if la, _ := lexer.LookAheadK(0); la == ',' {
 			lexer.ConsumeK(1) // Consume the comma
 			lexer.SPorHT()    // Ignore space after.
-		}
-		if la, _ := lexer.LookAheadK(0); la == '\n' {
+		} else {
 			break
 		}
 	}
-- 
2.43.0


From e560e423640de1f65a302dcbb22ce88369f57274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 069/140] fix: a telephone URI is read with all its parameters
 or refused

---
 sip/parser/URLParser.go | 57 +++++++++++++++++++++++++++++++----------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..b8b82c3 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -105,6 +105,9 @@ func (this *URLParser) UriParam() (nv *core.NameValue, ParseException error) {
 	if pname, ParseException = this.ParamNameOrValue(); ParseException != nil {
 		return nil, ParseException
 	}
+	if pname == "" {
+		return nil, this.CreateParseException("parameter name expected")
+	}
 	next, _ := this.GetLexer().LookAheadK(0)
 	if next == '=' {
 		this.GetLexer().ConsumeK(1)
@@ -275,6 +278,9 @@ func (this *URLParser) Base_phone_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexpected " + string(w))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("phone number expected")
+	}
 	return retval.String(), nil
 }
 
@@ -298,6 +304,9 @@ func (this *URLParser) Local_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexepcted " + string(la))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("phone number expected")
+	}
 	return retval.String(), nil
 }
 
@@ -312,14 +321,17 @@ func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, Pars
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		tn, ParseException = this.Global_phone_number()
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		tn, ParseException = this.Local_phone_number()
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
+	if ParseException != nil {
+		return nil, ParseException
+	}
 
 	return tn, nil
 }
@@ -328,14 +340,22 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(true)
 
-	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	if _, ParseException = this.GetLexer().Match(core.CORELEXER_PLUS); ParseException != nil {
+		return nil, ParseException
+	}
+	var b string
+	if b, ParseException = this.Base_phone_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -345,14 +365,20 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	var b string
+	if b, ParseException = this.Local_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
-		tok, _ := this.GetLexer().PeekNextToken()
-		switch tok.GetTokenType() {
-		case TokenTypes_SEMICOLON:
+		tok, _ := this.GetLexer().LookAheadK(0)
+		switch tok {
+		case ';':
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -364,12 +390,13 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 	var nv *core.NameValue
 	nvList := core.NewNameValueList("tel_parameters")
 	for {
-		if nv, ParseException = this.NameValue('='); ParseException != nil {
+		if nv, ParseException = this.UriParam(); ParseException != nil {
 			return nil, ParseException
 		}
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
@@ -382,8 +409,12 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
  *@return a parsed tel url structure.
  */
 func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException error) {
-	this.GetLexer().Match(TokenTypes_TEL)
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(TokenTypes_TEL); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	var tn *address.TelephoneNumber
 	if tn, ParseException = this.ParseTelephoneNumber(); ParseException != nil {
-- 
2.43.0


From 82684974a4f3801a7f1539f13bbd3e0958d66f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 070/140] fix: the user and password of a SIP URI end at its
 own @, and a URI without a host is refused

---
 sip/parser/URLParser.go | 48 ++++++++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index b8b82c3..484d12e 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
-	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -426,6 +425,24 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 
 }
 
+/** Whether a user part comes before the host: an '@' follows, with
+ * nothing before it that neither a user nor a password may hold.
+ */
+func (this *URLParser) HasUserInfo() bool {
+	for k := 0; ; k++ {
+		la, err := this.GetLexer().LookAheadK(k)
+		if err != nil {
+			return false
+		}
+		if la == '@' {
+			return true
+		}
+		if !this.IsUnreserved(la) && !this.IsUserUnreserved(la) && la != ':' && la != '%' {
+			return false
+		}
+	}
+}
+
 /** Parse and return a structure for a SIP URL.
  *@return a URL structure for a SIP url.
  *@throws ParsException if there was a problem parsing.
@@ -438,18 +455,25 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	this.GetLexer().Match(':')
 	retval.SetScheme(core.SIPTransportNames_SIP)
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
+	if !this.HasUserInfo() {
 		// hostPort
 		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
+		var hp *core.HostPort
+		if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
+			return nil, ParseException
+		}
 		retval.SetHostPort(hp)
 	} else {
 		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
+		user, _ := this.User()
+		if user == "" {
+			return nil, this.CreateParseException("user expected")
+		}
+		if la, _ := this.GetLexer().LookAheadK(0); la != ':' {
 			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
+			if _, ParseException = this.GetLexer().Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
 			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
 			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
 				return nil, ParseException
@@ -457,11 +481,14 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 			retval.SetUser(user)
 			retval.SetHostPort(hp)
 		} else {
-			user, _ := this.User()
 			// name:password@hostPort
-			this.GetLexer().Match(':')
+			if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+				return nil, ParseException
+			}
 			password, _ := this.Password()
-			this.GetLexer().Match('@')
+			if _, ParseException = this.GetLexer().Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
 			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
 			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
 				return nil, ParseException
@@ -593,6 +620,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From a94962a96634f300fcb89ff2d0f8b795c7907087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 071/140] fix: a URI without a scheme is refused

---
 sip/parser/URLParser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 484d12e..9e84243 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -234,6 +234,9 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	vect, _ := this.GetLexer().PeekNextTokenK(2)
 	t1 := vect[0]
 	t2 := vect[1]
+	if t1 == nil || t2 == nil {
+		return nil, this.CreateParseException("URI expected")
+	}
 
 	if t1.GetTokenType() == TokenTypes_SIP {
 		if t2.GetTokenType() == ':' {
@@ -253,7 +256,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("URI scheme expected")
+		}
+		retval = uri
 	}
 
 	return retval, nil
-- 
2.43.0


From a9cf71b0cb366c43cfe0612a112c2c8b068648b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 072/140] fix: a SIP URI header without a name or with a bad
 escape is refused instead of read for ever

---
 sip/parser/URLParser.go | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 9e84243..b37d4d0 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -521,9 +521,12 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			var parms *core.NameValue
+			if parms, ParseException = this.Qheader(); ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
 			} else {
 				this.GetLexer().ConsumeK(1)
@@ -546,9 +549,19 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
-	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	var name, value string
+	if name, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
+	if name == "" {
+		return nil, this.CreateParseException("header name expected")
+	}
+	if _, ParseException = this.GetLexer().Match('='); ParseException != nil {
+		return nil, ParseException
+	}
+	if value, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
 	return core.NewNameValue(name, value), nil
 
 }
@@ -560,13 +573,16 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 		// Look for a character that can terminate a URL.
 		if la == '+' || la == '?' || la == ':' ||
 			la == '[' || la == ']' || la == '/' || la == '$' ||
-			la == '_' || la == '-' || la == '"' || la == '!' ||
+			la == '_' || la == '-' || la == '"' || la == '!' || la == '\'' ||
 			la == '~' || la == '*' || la == '.' || la == '(' ||
 			la == ')' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			var str string
+			if str, ParseException = this.Escaped(); ParseException != nil {
+				return "", ParseException
+			}
 			retval.WriteString(str)
 		} else {
 			break
-- 
2.43.0


From f0c00ccceb79e307ddb1424b956c69ae65b67a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 073/140] fix: the URL scanner moves past what it reads, and
 keeps an escape whole

---
 sip/parser/URLParser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index b37d4d0..8ebed6a 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -198,7 +198,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -607,7 +607,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
-- 
2.43.0


From d1ee9b95ca81cc5e3b3de825830fb4e5d8be5611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:03 +0000
Subject: [PATCH 074/140] fix: a sips URI is a SIP URI

---
 sip/parser/URLParser.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 8ebed6a..8fbcd03 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -238,7 +239,7 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		return nil, this.CreateParseException("URI expected")
 	}
 
-	if t1.GetTokenType() == TokenTypes_SIP {
+	if t1.GetTokenType() == TokenTypes_SIP || strings.ToLower(t1.GetTokenValue()) == core.SIPTransportNames_SIPS {
 		if t2.GetTokenType() == ':' {
 			if retval, ParseException = this.SipURL(); ParseException != nil {
 				return nil, ParseException
@@ -458,9 +459,15 @@ func (this *URLParser) HasUserInfo() bool {
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
-	this.GetLexer().Match(':')
-	retval.SetScheme(core.SIPTransportNames_SIP)
+	if _, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = retval.SetScheme(this.GetLexer().GetNextToken().GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if !this.HasUserInfo() {
 		// hostPort
-- 
2.43.0


From 1883765bc11224efd7be2fe8bba555e5e111569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:01 +0000
Subject: [PATCH 075/140] fix: the parameters of a From or To header after
 white space are kept

---
 sip/parser/FromParser.go | 3 +++
 sip/parser/ToParser.go   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index 05ab4cb..5721e68 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -48,6 +48,9 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 			sipUri, _ := from.GetAddress().GetURI().(*address.SipURIImpl)
 			parms := sipUri.GetUriParms()
 			if parms != nil && parms.Len() > 0 {
+				for e := from.GetParameters().Front(); e != nil; e = e.Next() {
+					parms.SetNameValue(e.Value.(*core.NameValue))
+				}
 				from.SetParameters(parms)
 				sipUri.RemoveUriParms()
 			}
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index ab82e89..e6bdeff 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -46,6 +46,9 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 			sipUri, _ := to.GetAddress().GetURI().(*address.SipURIImpl)
 			parms := sipUri.GetUriParms()
 			if parms != nil && parms.Len() > 0 {
+				for e := to.GetParameters().Front(); e != nil; e = e.Next() {
+					parms.SetNameValue(e.Value.(*core.NameValue))
+				}
 				to.SetParameters(parms)
 				sipUri.RemoveUriParms()
 			}
-- 
2.43.0


From 1d1e3603fd137fb385a098ef85c3629e37dfccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:27 +0000
Subject: [PATCH 076/140] fix: text after a Reply-To header is refused

---
 sip/parser/ReplyToParser.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index 4d238e0..0217538 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -43,7 +43,13 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
-	ParseException = this.AddressParametersParser.Parse(replyTo)
+	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException != nil {
+		return nil, ParseException
+	}
+
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
-	return replyTo, ParseException
+	return replyTo, nil
 }
-- 
2.43.0


From bb9c29ab9f722b4bfe0aac2f97cabbbc7b349d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 077/140] fix: a Route URI with parameters or headers is
 encoded between angle brackets

---
 sip/header/RouteImpl.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..7922a6c 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"strings"
 )
 
 /**
@@ -74,7 +75,12 @@ func (this *Route) String() string {
  */
 func (this *Route) EncodeBody() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(this.addr.String())
+	encoded := this.addr.String()
+	if addr, ok := this.addr.(*address.AddressImpl); ok && addr.GetAddressType() == address.ADDRESS_SPEC &&
+		strings.ContainsAny(encoded, ";?,") {
+		encoded = core.SIPSeparatorNames_LESS_THAN + encoded + core.SIPSeparatorNames_GREATER_THAN
+	}
+	encoding.WriteString(encoded)
 	if this.parameters != nil && this.parameters.Len() > 0 {
 		encoding.WriteString(core.SIPSeparatorNames_SEMICOLON)
 		encoding.WriteString(this.parameters.String())
-- 
2.43.0


From 83f4be8a17cc8c7ddc6c35fd37978e145e6672f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:44 +0000
Subject: [PATCH 078/140] fix: copying a Via or Contact header or list gives an
 independent copy instead of a panic

---
 sip/address/AddressImpl.go | 12 ++++++++++++
 sip/header/ContactImpl.go  | 13 +++++++++++++
 sip/header/ViaImpl.go      | 18 ++++++++++++++++++
 3 files changed, 43 insertions(+)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..3199f08 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -287,3 +287,15 @@ func (this *AddressImpl) SetUser(user string) {
 func (this *AddressImpl) SetWildCardFlag() {
 	this.addressType = WILD_CARD
 }
+
+/** A copy of this address that shares nothing with it.
+ */
+func (this *AddressImpl) Clone() interface{} {
+	retval := NewAddressImpl()
+	retval.addressType = this.addressType
+	retval.displayName = this.displayName
+	if this.address != nil {
+		retval.address = this.address.Clone().(URI)
+	}
+	return retval
+}
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 701e171..b06f277 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -199,3 +199,16 @@ func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
 	return nil
 }
+
+/** A copy of this Contact that shares nothing with it.
+ */
+func (this *Contact) Clone() interface{} {
+	retval := NewContact()
+	retval.headerName = this.headerName
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	retval.wildCardFlag = this.wildCardFlag
+	if addr, ok := this.addr.(*address.AddressImpl); ok && addr != nil {
+		retval.addr = addr.Clone().(*address.AddressImpl)
+	}
+	return retval
+}
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 381eee1..c544157 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -467,3 +467,21 @@ func (this *Via) SetBranch(branch string) (ParseException error) {
 	this.SetParameter(ParameterNames_BRANCH, branch)
 	return nil
 }
+
+/** A copy of this Via that shares nothing with it.
+ */
+func (this *Via) Clone() interface{} {
+	retval := NewVia()
+	retval.headerName = this.headerName
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	retval.sentProtocol = nil
+	if this.sentProtocol != nil {
+		protocol := *this.sentProtocol
+		retval.sentProtocol = &protocol
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	retval.comment = this.comment
+	return retval
+}
-- 
2.43.0


From bceb596718b6f6be7a691e0fbcd053646c47269b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:00 +0000
Subject: [PATCH 079/140] fix: the maddr and ttl of a SIP URI are kept as text
 instead of a panic, and ttl may be zero or unset

---
 sip/address/SipURIImpl.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..ca1aa87 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -505,12 +505,11 @@ func (this *SipURIImpl) SetQheaders(parms *core.NameValueList) {
  */
 func (this *SipURIImpl) SetMAddr(mAddr string) {
 	nameValue := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	host := &core.Host{}
-	host.SetAddress(mAddr)
+	host := core.NewHost(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(host.String())
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host.String())
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
@@ -734,11 +733,11 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
  * @return the value of the <code>ttl</code> parameter
  */
 func (this *SipURIImpl) GetTTLParam() int {
-	ttl := this.uriParms.GetValue("ttl")
-	if ttl != nil {
-		return ttl.(int)
+	ttl, err := strconv.Atoi(this.GetParameter("ttl"))
+	if err != nil {
+		return -1
 	}
-	return -1
+	return ttl
 }
 
 /** Returns the value of the "transport" parameter, or null if this is not
@@ -898,13 +897,13 @@ func (this *SipURIImpl) SetSecure(secure bool) {
  * @param ttl - new value of the <code>ttl</code> parameter
  */
 func (this *SipURIImpl) SetTTLParam(ttl int) error {
-	if ttl <= 0 {
+	if ttl < -1 {
 		return errors.New("IllegalArgumentException: Bad ttl value")
 	}
-	if this.uriParms != nil {
-		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
-		this.uriParms.AddNameValue(nv)
+	if ttl == -1 { // not set
+		this.RemoveTTL()
+	} else {
+		this.uriParms.SetNameAndValue("ttl", strconv.Itoa(ttl))
 	}
 
 	return nil
-- 
2.43.0


From 9f3a3bca6fca17a888eb1f89851e6012c7449274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:02 +0000
Subject: [PATCH 080/140] fix: setting a parameter of a SIP URI replaces it in
 place instead of adding or moving it

---
 sip/address/SipURIImpl.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index ca1aa87..6c44325 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -489,7 +489,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameValue(nv)
 }
 
 /** Set the qheaders member
@@ -521,15 +521,14 @@ func (this *SipURIImpl) SetMAddr(mAddr string) {
  * @param  userParam - new value String value of the method parameter
  */
 func (this *SipURIImpl) SetUserParam(usertype string) {
-	this.uriParms.Delete(core.SIPTransportNames_USER)
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_USER, usertype)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_USER, usertype)
 }
 
 /** set the Method
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
@@ -579,7 +578,7 @@ func (this *SipURIImpl) SetQHeader(nameValue *core.NameValue) {
  *@param nameValue - parameter to set.
  */
 func (this *SipURIImpl) SetUriParameter(nameValue *core.NameValue) {
-	this.uriParms.PushBack(nameValue)
+	this.uriParms.SetNameValue(nameValue)
 }
 
 /** Return true if the transport parameter is defined.
@@ -873,8 +872,7 @@ func (this *SipURIImpl) SetParameter(name, value string) {
 		}
 	}
 	nv := core.NewNameValue(name, value)
-	this.uriParms.Delete(name)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameValue(nv)
 }
 
 /** Sets the scheme of this URI to sip or sips depending on whether the
-- 
2.43.0


From 6cdab391939817e99707039bfe738b580141a7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:04 +0000
Subject: [PATCH 081/140] fix: the transport of a SIP URI may be other than udp
 and tcp

---
 sip/address/SipURIImpl.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 6c44325..a0c9a6c 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -921,15 +921,8 @@ func (this *SipURIImpl) SetTransportParam(transport string) error {
 	if transport == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	if strings.ToUpper(transport) == "UDP" ||
-		strings.ToUpper(transport) == "TCP" {
-		nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
-		this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
-		this.uriParms.AddNameValue(nv)
-		return nil
-	} else {
-		return errors.New("ParseException: bad transport " + transport)
-	}
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
+	return nil
 }
 
 /** Returns the user part of this SipURI, or null if it is not Set.
-- 
2.43.0


From dad7b49a503898bedadf6a1485cf56f8ea260a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:06 +0000
Subject: [PATCH 082/140] fix: a SIP URI parameter without a value is present

---
 sip/address/SipURIImpl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index a0c9a6c..21acfea 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -451,7 +451,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.HasParameter(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
@@ -564,7 +564,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -814,7 +814,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.HasLrParam() {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
-- 
2.43.0


From cbc328d26777dedac6970cee18f61a814ad6e8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:28 +0000
Subject: [PATCH 083/140] fix: an absent user, host or parameter of a SIP URI
 is empty instead of a panic

---
 sip/address/SipURIImpl.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 21acfea..76519a0 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -174,8 +174,11 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
-	host := this.authority.GetHost().String()
+	user := this.GetUser()
+	host := this.GetHost()
+	if user == "" {
+		return host
+	}
 	return user + core.SIPSeparatorNames_AT + host
 }
 
@@ -184,12 +187,9 @@ func (this *SipURIImpl) GetUserAtHost() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHostPort() string {
-	var user string
-	if this.authority.GetUserInfo() != nil {
-		user = this.authority.GetUserInfo().GetUser()
-	}
-	host := this.authority.GetHost().String()
-	port := this.authority.GetPort()
+	user := this.GetUser()
+	host := this.GetHost()
+	port := this.GetPort()
 	// If port not set assign the default.
 	var s bytes.Buffer
 	if user != "" {
@@ -219,7 +219,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +251,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -318,6 +318,9 @@ func (this *SipURIImpl) GetPort() int {
 * @return the host portion of the url.
  */
 func (this *SipURIImpl) GetHost() string {
+	if this.authority == nil || this.authority.GetHost() == nil {
+		return ""
+	}
 	return this.authority.GetHost().String()
 }
 
@@ -348,7 +351,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -410,7 +413,9 @@ func (this *SipURIImpl) RemoveUserType() {
  *Remove the port setting.
  */
 func (this *SipURIImpl) RemovePort() {
-	this.authority.RemovePort()
+	if this.authority != nil {
+		this.authority.RemovePort()
+	}
 }
 
 /**
@@ -441,7 +446,9 @@ func (this *SipURIImpl) SetUser(uname string) {
 /** Remove the user.
  */
 func (this *SipURIImpl) RemoveUser() {
-	this.authority.RemoveUserInfo()
+	if this.authority != nil {
+		this.authority.RemoveUserInfo()
+	}
 }
 
 /** Set the default parameters for this URI.
@@ -746,7 +753,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
@@ -759,6 +766,9 @@ func (this *SipURIImpl) GetTransportParam() string {
  * @return the value of the <code>userParam</code> of the SipURI
  */
 func (this *SipURIImpl) GetUser() string {
+	if this.authority == nil {
+		return ""
+	}
 	return this.authority.GetUser()
 }
 
-- 
2.43.0


From fb9d5ebc3a00e4f0b2aaf62ea950dc5056e5cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:30 +0000
Subject: [PATCH 084/140] fix: the headers set on a SIP URI after clearing them
 are joined with &

---
 sip/address/SipURIImpl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 76519a0..456fe31 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -398,6 +399,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
-- 
2.43.0


From 7e6d03c8eb8e3c489e998a8934a844bfc2806bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:32 +0000
Subject: [PATCH 085/140] fix: setting a parameter of a telephone number
 replaces it, and an absent one or number is empty instead of a panic

---
 sip/address/TelURLImpl.go     |  1 +
 sip/address/TelphoneNumber.go | 12 ++++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..0097586 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.parms.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,14 +57,14 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.parms.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
  * @return boolean
  */
 func (this *TelephoneNumber) HasPostDial() bool {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL) != nil
+	return this.HasParm(core.SIPTransportNames_POSTDIAL)
 }
 
 /** return true if this header has parameters.
@@ -124,7 +124,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
 	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /** set the specified parameter
@@ -133,7 +133,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
 
 /**
@@ -214,5 +214,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
 	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameValue(nv)
 }
-- 
2.43.0


From 062537b3a67744251e75021191c2f47088b6b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 086/140] fix: an address answers for its SIP URI: user, host,
 port and kind

---
 sip/address/AddressImpl.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 3199f08..22f5d95 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -78,7 +78,7 @@ func (this *AddressImpl) GetHostPort() (hp *core.HostPort, RuntimeException erro
  */
 func (this *AddressImpl) GetPort() (int, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetPort(), nil
+		return sipuri.GetPort(), nil
 	}
 	return -1, errors.New("RuntimeException: address is not a SipURIImpl")
 }
@@ -92,7 +92,7 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
 	}
 	return this.address.String()
 }
@@ -103,7 +103,7 @@ func (this *AddressImpl) GetUserAtHostPort() string {
  */
 func (this *AddressImpl) GetHost() (string, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetHost().GetHostName(), nil
+		return sipuri.GetHost(), nil
 	}
 
 	return "", errors.New("RuntimeException: address is not a SipURIImpl")
@@ -241,8 +241,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
-	return ok
+	return this.address != nil && this.address.IsSipURI()
 }
 
 /** Returns the URI address of this Address. The type of URI can be
-- 
2.43.0


From d55c9aa07046d9df152e4554114fb68b00279a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:28 +0000
Subject: [PATCH 087/140] fix: a URI other than SIP and tel keeps its text from
 an = on

---
 sip/parser/URLParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 8fbcd03..a55636e 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -49,6 +49,7 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
@@ -127,6 +128,7 @@ func (this *URLParser) IsReserved(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
-- 
2.43.0


From b7ddf6b889aad4f56699efb064a8475376467264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 088/140] fix: an absent From, To, Call-ID, CSeq, Max-Forwards
 or Content-Length is nil, not an interface holding nil

---
 sip/message/SIPMessage.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..72657d3 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -862,6 +862,9 @@ func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -933,6 +936,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -956,6 +962,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -1019,6 +1028,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1068,6 +1080,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1085,6 +1100,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
-- 
2.43.0


From 1c12f9865c11b7ef943373be34935c54cc17926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 089/140] fix: asking a message for a header or header list it
 does not have gives nil instead of a panic

---
 sip/message/SIPMessage.go | 48 ++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 72657d3..a1f0683 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -855,7 +855,8 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return h
 }
 
 /** Get the from header.
@@ -873,7 +874,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return h
 }
 
 /**
@@ -881,7 +883,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return h
 }
 
 /**
@@ -889,7 +892,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return h
 }
 
 /** Get an iterator to the list of vial headers.
@@ -954,7 +958,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return h
 }
 
 /**
@@ -980,7 +985,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return h
 }
 
 /** Set the min expires header.
@@ -996,7 +1002,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return h
 }
 
 /**
@@ -1004,7 +1011,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return h
 }
 
 /**
@@ -1012,7 +1020,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return h
 }
 
 /**
@@ -1020,7 +1029,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return h
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1072,7 +1082,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return h
 }
 
 /**
@@ -1348,7 +1359,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	shl, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return shl
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1557,7 +1569,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return h
 }
 
 /** Get the content encoding header.
@@ -1565,7 +1578,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1573,7 +1587,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return h
 }
 
 /** Get the exipres header.
@@ -1581,7 +1596,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return h
 }
 
 /** Set the expiresHeader
-- 
2.43.0


From 997e2c0d6735c373997b3bae837a64125b3ca632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 090/140] fix: a header list put on top of another keeps its
 order, and one joined with itself ends

---
 sip/header/SIPHeaderList.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..ee7b947 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -78,12 +78,12 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 	}
 
 	if !topFlag {
-		for e := shl.Front(); e != nil; e = e.Next() {
+		for e, n := shl.Front(), shl.Len(); n > 0; e, n = e.Next(), n-1 {
 			this.PushBack(e.Value.(Header))
 		}
 	} else {
 		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		for e, n := shl.Back(), shl.Len(); n > 0; e, n = e.Prev(), n-1 {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From 853136a83757a6e0ebdf6903d47f5bf40026f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:46 +0000
Subject: [PATCH 091/140] fix: a header that may have several values is
 attached as a list of one, so that more can follow

---
 sip/message/ListMap.go    | 69 +++++++++++++++++++++++++++++++++++++++
 sip/message/SIPMessage.go |  4 +++
 2 files changed, 73 insertions(+)
 create mode 100644 sip/message/ListMap.go

diff --git a/sip/message/ListMap.go b/sip/message/ListMap.go
new file mode 100644
index 0000000..58f2e9c
--- /dev/null
+++ b/sip/message/ListMap.go
@@ -0,0 +1,69 @@
+package message
+
+import (
+	"github.com/use-go/gosips/sip/header"
+)
+
+/** Headers that may have several values are kept in a list of their kind.
+ *
+ *@param h is a header.
+ *@return the list of that kind holding h only, nil if the header has one
+ * value only or is such a list itself.
+ */
+func asHeaderList(h header.Header) header.SIPHeaderLister {
+	var l header.SIPHeaderLister
+	switch h.(type) {
+	case *header.Accept:
+		l = header.NewAcceptList()
+	case *header.AcceptEncoding:
+		l = header.NewAcceptEncodingList()
+	case *header.AcceptLanguage:
+		l = header.NewAcceptLanguageList()
+	case *header.AlertInfo:
+		l = header.NewAlertInfoList()
+	case *header.Allow:
+		l = header.NewAllowList()
+	case *header.AllowEvents:
+		l = header.NewAllowEventsList()
+	case *header.CallInfo:
+		l = header.NewCallInfoList()
+	case *header.Contact:
+		l = header.NewContactList()
+	case *header.ContentEncoding:
+		l = header.NewContentEncodingList()
+	case *header.ContentLanguage:
+		l = header.NewContentLanguageList()
+	case *header.ErrorInfo:
+		l = header.NewErrorInfoList()
+	case *header.InReplyTo:
+		l = header.NewInReplyToList()
+	case *header.ProxyAuthenticate:
+		l = header.NewProxyAuthenticateList()
+	case *header.ProxyRequire:
+		l = header.NewProxyRequireList()
+	case *header.Reason:
+		l = header.NewReasonList()
+	case *header.RecordRoute:
+		l = header.NewRecordRouteList()
+	case *header.Require:
+		l = header.NewRequireList()
+	case *header.Route:
+		l = header.NewRouteList()
+	case *header.Supported:
+		l = header.NewSupportedList()
+	case *header.Unsupported:
+		l = header.NewUnsupportedList()
+	case *header.Via:
+		l = header.NewViaList()
+	case *header.WWWAuthenticate:
+		l = header.NewWWWAuthenticateList()
+	case *header.Warning:
+		l = header.NewWarningList()
+	case *header.Extension:
+		l = header.NewExtensionHeaderList(h.GetName())
+	default:
+		return nil
+	}
+	l.PushBack(h)
+	return l
+}
diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index a1f0683..2b03f5c 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -599,6 +599,10 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
+	if l := asHeaderList(h); l != nil {
+		h = l
+	}
+
 	if replaceFlag {
 		delete(this.nameTable, strings.ToLower(h.GetName()))
 	} else {
-- 
2.43.0


From 8fdb5fcec313c5dba05f8e5d3c6561abe0381aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:47 +0000
Subject: [PATCH 092/140] fix: attaching a header in place of another removes
 the other from the message

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2b03f5c..500d3ac 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -604,7 +604,7 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 	}
 
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
-- 
2.43.0


From fb0e777833fd11b2d2e9acc2a7871bfa74f0939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 093/140] fix: removing the last value of a header removes its
 name

---
 sip/message/SIPMessage.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 500d3ac..523b095 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -688,6 +688,7 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
+			delete(this.nameTable, strings.ToLower(headerName))
 			for li := this.headers.Front(); li != nil; li = li.Next() {
 				sipHeader := li.Value.(header.Header)
 				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-- 
2.43.0


From 5f42abbce277a3bb0a9668715da6cac48102d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:37 +0000
Subject: [PATCH 094/140] fix: an empty header list is not attached, and no
 value is taken from one

---
 sip/message/SIPMessage.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 523b095..d8a2bc4 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -602,12 +602,16 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 	if l := asHeaderList(h); l != nil {
 		h = l
 	}
+	if hl, ok := h.(header.SIPHeaderLister); ok && hl.Len() == 0 {
+		return nil
+	}
 
 	if replaceFlag {
 		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
-			if _, ok := h.(header.SIPHeaderLister); !ok {
+			_, isList := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
+			if _, ok := h.(header.SIPHeaderLister); !ok || !isList {
 				if cl, ok := h.(*header.ContentLength); ok {
 					this.contentLengthHeader.SetContentLength(cl.GetContentLength())
 				}
@@ -849,6 +853,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
@@ -933,7 +940,7 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	if this.GetViaHeaders() == nil || this.GetViaHeaders().Len() == 0 {
 		return nil
 	} else {
 		return this.GetViaHeaders().Front().Value.(*header.Via)
-- 
2.43.0


From d131b21d278ce3a3dda7bbd680ad197f7d769d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:06 +0000
Subject: [PATCH 095/140] fix: a message whose Content-Length was removed is
 encoded, and has one again once content is set

---
 sip/message/SIPMessage.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index d8a2bc4..991d79b 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -358,7 +358,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -1129,6 +1132,16 @@ func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
 	return this.contentLengthHeader
 }
 
+/** Set the number of bytes of the body, in a new Content-Length header if
+ * the message has none.
+ */
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(0), false)
+	}
+	this.contentLengthHeader.SetContentLength(length)
+}
+
 /**
  * Get the message body as a string.
  *	If the message contains a content type header with a specified
@@ -1231,7 +1244,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1268,7 +1281,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1301,7 +1314,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1313,7 +1326,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1326,7 +1339,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1342,7 +1355,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1642,7 +1655,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
-- 
2.43.0


From 169d2f45dd1be60025998c773364899ac12804bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:34 +0000
Subject: [PATCH 096/140] fix: content set in one form takes the place of
 content set before in another

---
 sip/message/SIPMessage.go | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 991d79b..4e7d3ac 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1258,33 +1258,15 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header.ContentTypeHeader) { //throws ParseException {
 	//if content == nil) throw new NullPointerException("nil content");
 	this.SetHeader(contentTypeHeader)
-	length := -1
 	if s, ok := content.(string); ok {
-		this.messageContent = s
-		length = len(s)
+		this.SetMessageContent(s)
 	} else if b, ok := content.([]byte); ok {
-		this.messageContentBytes = b
-		length = len(b)
+		this.SetMessageContentFromByte(b)
 	} else {
 		panic("Don't support GenericObject")
 		//this.messageContentObject = content
 		//length = len(content.(core.GenericObject).String())
 	}
-
-	//try {
-
-	//           if (content instanceof String )
-	//               length = ((String)content).length();
-	//           else if (content instanceof byte[])
-	//               length = ((byte[])content).length;
-	//    else
-	// length = content.toString().length();
-
-	if length != -1 {
-		this.setContentLength(length)
-	}
-	// } catch (InvalidArgumentException ex) {}
-
 }
 
 /** Get the content of the header.
-- 
2.43.0


From 5e03b1a0bf76086181004438830b9c3cc6776b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:35 +0000
Subject: [PATCH 097/140] fix: a message whose body is empty has no content

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 4e7d3ac..b29eccb 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -839,7 +839,7 @@ func (this *SIPMessage) GetTransactionId() string {
 /** Return true if this message has a body.
  */
 func (this *SIPMessage) HasContent() bool {
-	return this.messageContent != "" || this.messageContentBytes != nil
+	return this.messageContent != "" || len(this.messageContentBytes) > 0
 }
 
 /**Return an iterator for the list of headers in this message.
-- 
2.43.0


From e6a9814a23bdee3ba79c30bc72ee068a949568b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:11 +0000
Subject: [PATCH 098/140] fix: a response as text ends with its body, as it
 does as bytes

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..51b96b5 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -323,7 +323,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From c1586bfff9aac36343045ad8f9d9db3a8bb64a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:15 +0000
Subject: [PATCH 099/140] fix: a request whose request line has no method and
 that has no CSeq is encoded without one

---
 sip/message/SIPRequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..b8ece3e 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -175,7 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.cSeqHeader
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
-- 
2.43.0


From 3b2897c50e83d720102b48ba87c117efc671b72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 100/140] fix: a request as bytes takes an absent method from
 its CSeq, as it does as text

---
 sip/message/SIPRequest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index b8ece3e..f4d5ee2 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -425,6 +425,7 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 func (this *SIPRequest) EncodeAsBytes() []byte {
 	var rlbytes []byte
 	if this.requestLine != nil {
+		this.SetRequestLineDefaults()
 		// try {
 		rlbytes = []byte(this.requestLine.String()) //.GetBytes("UTF-8");
 		//   } catch (UnsupportedEncodingException ex) {
-- 
2.43.0


From e67ffcc387f9c1c4f8df65c88ba24a9a14f7d73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 101/140] fix: only a branch that begins with the magic cookie
 is a transaction identifier

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index b29eccb..e0b3547 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -795,7 +795,7 @@ func (this *SIPMessage) GetTransactionId() string {
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
 	if topVia != nil && topVia.GetBranch() != "" &&
-		strings.Contains(strings.ToUpper(topVia.GetBranch()),
+		strings.HasPrefix(strings.ToUpper(topVia.GetBranch()),
 			strings.ToUpper(header.SIPConstants_BRANCH_MAGIC_COOKIE)) {
 		// Bis 09 compatible branch assignment algorithm.
 		// implies that the branch id can be used as a transaction
-- 
2.43.0


From f5034b88a733437dbeb723bfd2a6d3633dd45290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:18 +0000
Subject: [PATCH 102/140] fix: the sequence number and the default port are
 numbers in a transaction identifier

---
 sip/message/SIPMessage.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index e0b3547..cc6bc90 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"container/list"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -816,13 +817,13 @@ func (this *SIPMessage) GetTransactionId() string {
 		retval.WriteString(hpTo + ":")
 		cid := this.callIdHeader.GetCallId()
 		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+		retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
 		retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		if topVia != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString("5060")
 			}
 		}
 		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-- 
2.43.0


From e8bf9b0641854c42a27cca1e04a0743018b99488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 103/140] fix: a transaction identifier made of message fields
 keeps all of them

---
 sip/message/SIPMessage.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index cc6bc90..30e47fb 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -827,11 +827,7 @@ func (this *SIPMessage) GetTransactionId() string {
 			}
 		}
 		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-		if len(hc) < 32 {
-			return hc
-		} else {
-			return hc[len(hc)-32 : len(hc)]
-		}
+		return hc
 	}
 	// Convert to lower case -- bug fix as a result of a bug report
 	// from Chris Mills of Nortel Networks.
-- 
2.43.0


From d6a64229187cedb2283c8cc75efe8551bb360755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:20 +0000
Subject: [PATCH 104/140] fix: a message that lacks Via, From, To, Call-ID or
 CSeq has a transaction identifier all the same

---
 sip/message/SIPMessage.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 30e47fb..b096ba7 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -788,10 +788,7 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  *	the same computed transaction identifier).
  */
 func (this *SIPMessage) GetTransactionId() string {
-	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia := this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
@@ -806,19 +803,25 @@ func (this *SIPMessage) GetTransactionId() string {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
 		var retval bytes.Buffer
-		from := this.GetFrom().(*header.From)
-		to := this.GetTo().(*header.To)
-		hpFrom := from.GetUserAtHostPort()
-		retval.WriteString(hpFrom + ":")
-		if from.HasTag() {
-			retval.WriteString(from.GetTag() + ":")
+		if from := this.fromHeader; from != nil {
+			hpFrom := from.GetUserAtHostPort()
+			retval.WriteString(hpFrom + ":")
+			if from.HasTag() {
+				retval.WriteString(from.GetTag() + ":")
+			}
+		}
+		if to := this.toHeader; to != nil {
+			hpTo := to.GetUserAtHostPort()
+			retval.WriteString(hpTo + ":")
+		}
+		if this.callIdHeader != nil {
+			cid := this.callIdHeader.GetCallId()
+			retval.WriteString(cid + ":")
+		}
+		if this.cSeqHeader != nil {
+			retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
+			retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		}
-		hpTo := to.GetUserAtHostPort()
-		retval.WriteString(hpTo + ":")
-		cid := this.callIdHeader.GetCallId()
-		retval.WriteString(cid + ":")
-		retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
-		retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		if topVia != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
-- 
2.43.0


From 2d6660598563246f17e09d6deb4e5fbca2ef55ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:21 +0000
Subject: [PATCH 105/140] fix: a message that lacks From, To or Call-ID has no
 dialog identifier, instead of a panic

---
 sip/message/SIPRequest.go  | 6 ++++++
 sip/message/SIPResponse.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index f4d5ee2..659cd2b 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -340,6 +340,9 @@ func (this *SIPRequest) GetMessageAsEncodedStrings() *list.List {
 // *	and Set to false if this is the UAC
 // */
 func (this *SIPRequest) GetDialogId(isServer bool) string {
+	if this.callIdHeader == nil || this.fromHeader == nil || this.toHeader == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
@@ -379,6 +382,9 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 // /** Get a dialog id given the remote tag.
 // */
 func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
+	if this.callIdHeader == nil || this.fromHeader == nil || this.toHeader == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 51b96b5..afcdbac 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -477,6 +477,9 @@ func (this *SIPResponse) EncodeAsBytes() []byte {
 //     * and Set to false if this is the UAC
 //     */
 func (this *SIPResponse) GetDialogId(isServer bool) string {
+	if this.callIdHeader == nil || this.fromHeader == nil || this.toHeader == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
@@ -513,6 +516,9 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 }
 
 func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
+	if this.callIdHeader == nil || this.fromHeader == nil || this.toHeader == nil {
+		return ""
+	}
 	cid := this.GetCallId()
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
-- 
2.43.0


From 91149cff1a693a05dfcfdbc6dbc270bd4c884435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 106/140] fix: a refused call identifier leaves a message
 without Call-ID as it was

---
 sip/message/SIPMessage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index b096ba7..5a7f058 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1073,7 +1073,10 @@ func (this *SIPMessage) SetCallId(callId header.CallIdHeader) {
  */
 func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.ParseException {
 	if this.callIdHeader == nil {
-		c, _ := header.NewCallID(callId)
+		c, err := header.NewCallID(callId)
+		if err != nil {
+			return
+		}
 		this.SetHeader(c)
 	}
 	this.callIdHeader.SetCallId(callId)
-- 
2.43.0


From a0f8759b09a050d31ab989c2cdf92f01d0abf4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:29 +0000
Subject: [PATCH 107/140] fix: asking a message for its sequence number, call
 identifier or Via host gives nothing instead of a panic when it has none

---
 sip/message/SIPMessage.go | 8 +++++++-
 sip/message/SIPRequest.go | 9 ++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 5a7f058..68da99d 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -822,7 +822,7 @@ func (this *SIPMessage) GetTransactionId() string {
 			retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
 			retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		}
-		if topVia != nil {
+		if topVia != nil && topVia.GetSentBy() != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":")
@@ -965,6 +965,9 @@ func (this *SIPMessage) GetCSeq() header.CSeqHeader {
  * @return the sequence number.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return -1
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -1091,6 +1094,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 659cd2b..59db7dd 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -845,7 +845,10 @@ func (this *SIPRequest) CreateACKRequest() *SIPRequest {
 * header.
  */
 func (this *SIPRequest) GetViaHost() string {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
+	via := this.GetTopmostVia()
+	if via == nil {
+		return ""
+	}
 	return via.GetHost()
 }
 
@@ -856,8 +859,8 @@ func (this *SIPRequest) GetViaHost() string {
 *  no port indicated).
  */
 func (this *SIPRequest) GetViaPort() int {
-	via := this.GetViaHeaders().Front().Value.(*header.Via)
-	if via.HasPort() {
+	via := this.GetTopmostVia()
+	if via != nil && via.HasPort() {
 		return via.GetPort()
 	} else {
 		return 5060
-- 
2.43.0


From b5dc5b87af3e27e36453c0cd77892433ca26384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:30 +0000
Subject: [PATCH 108/140] fix: the header names of a message are names, in the
 order of its encoding

---
 sip/message/SIPMessage.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 68da99d..51a9bd4 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1539,15 +1539,18 @@ func (this *SIPMessage) GetUnrecognizedHeaders() *list.List {
  * in the same order as are present in the message.
  */
 func (this *SIPMessage) GetHeaderNames() *list.List {
-	return this.headers
-	// ListIterator li = this.headers.listIterator();
-	// LinkedList retval  = new LinkedList();
-	// while (li.hasNext()) {
-	//     SIPHeader sipHeader = (SIPHeader) li.next();
-	//     String name = sipHeader.GetName();
-	//     retval.add(name);
-	// }
-	// return retval.listIterator();
+	retval := list.New()
+	for li := this.headers.Front(); li != nil; li = li.Next() {
+		sipHeader := li.Value.(header.Header)
+		if _, ok := sipHeader.(*header.ContentLength); !ok {
+			retval.PushBack(sipHeader.GetName())
+		}
+	}
+	// Content-Length is encoded after all other headers.
+	if this.contentLengthHeader != nil {
+		retval.PushBack(this.contentLengthHeader.GetName())
+	}
+	return retval
 }
 
 /** Compare for equality.
-- 
2.43.0


From 7644b4c2d8615f7473a092634464cfbf398c43bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:32 +0000
Subject: [PATCH 109/140] fix: a From made of a To, or a To of a From, shares
 nothing with it

---
 sip/header/AddressParametersImpl.go |  9 +++++++++
 sip/header/FromImpl.go              | 13 +++++++++++--
 sip/header/ToImpl.go                | 13 +++++++++++--
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/sip/header/AddressParametersImpl.go b/sip/header/AddressParametersImpl.go
index fd35d41..9943534 100644
--- a/sip/header/AddressParametersImpl.go
+++ b/sip/header/AddressParametersImpl.go
@@ -37,3 +37,12 @@ func (this *AddressParameters) GetAddress() address.Address {
 func (this *AddressParameters) SetAddress(addr address.Address) {
 	this.addr = addr
 }
+
+/** A copy of an address that shares nothing with it.
+ */
+func cloneAddress(addr address.Address) address.Address {
+	if a, ok := addr.(*address.AddressImpl); ok && a != nil {
+		return a.Clone().(*address.AddressImpl)
+	}
+	return addr
+}
diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..303aaca 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -31,8 +31,17 @@ func (this *From) super(name string) {
  */
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
-	this.addr = to.addr
-	this.parameters = to.parameters
+	this.addr = cloneAddress(to.addr)
+	this.parameters = to.parameters.Clone().(*core.NameValueList)
+}
+
+/** A copy of this header that shares nothing with it.
+ */
+func (this *From) Clone() interface{} {
+	retval := NewFrom()
+	retval.addr = cloneAddress(this.addr)
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	return retval
 }
 
 /**
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..018fa5b 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -31,8 +31,17 @@ func (this *To) super(name string) {
  */
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
-	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.addr = cloneAddress(from.addr)
+	this.parameters = from.parameters.Clone().(*core.NameValueList)
+}
+
+/** A copy of this header that shares nothing with it.
+ */
+func (this *To) Clone() interface{} {
+	retval := NewTo()
+	retval.addr = cloneAddress(this.addr)
+	retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	return retval
 }
 
 /**
-- 
2.43.0


From cc41e8d1e507d9461e173c00e2b8cc6bc1a9e3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 110/140] fix: creating a CANCEL or an ACK leaves the request
 as it was

---
 sip/header/CSeqImpl.go    |  7 +++++++
 sip/header/RequestLine.go | 10 ++++++++++
 sip/message/SIPRequest.go | 20 ++++++++++----------
 3 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/sip/header/CSeqImpl.go b/sip/header/CSeqImpl.go
index f2baa1d..b0ee232 100644
--- a/sip/header/CSeqImpl.go
+++ b/sip/header/CSeqImpl.go
@@ -129,3 +129,10 @@ func (this *CSeq) SetMethod(meth string) (ParseException error) {
 func (this *CSeq) GetSequenceNumber() int {
 	return this.seqno
 }
+
+/** A copy of this header.
+ */
+func (this *CSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
diff --git a/sip/header/RequestLine.go b/sip/header/RequestLine.go
index d05c040..cde564b 100644
--- a/sip/header/RequestLine.go
+++ b/sip/header/RequestLine.go
@@ -198,3 +198,13 @@ func (this *RequestLine) GetVersionMinor() string {
 //     return retval;
 
 // }
+
+/** A copy of this request line that shares nothing with it.
+ */
+func (this *RequestLine) Clone() interface{} {
+	retval := *this
+	if this.uri != nil {
+		retval.uri = this.uri.Clone().(address.URI)
+	}
+	return &retval
+}
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 59db7dd..314acfc 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -580,7 +580,9 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -603,7 +605,7 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 			 **/
 			//nextHeader = (ViaList) ((ViaList) nextHeader).clone();
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
-			//CSeq cseq = (CSeq) nextHeader.clone();
+			cseq = cseq.Clone().(*header.CSeq)
 			//try{
 			cseq.SetMethod(CANCEL)
 			//}
@@ -636,7 +638,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
@@ -649,14 +653,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// Remove proxy auth header.
 			// Assigned by the Dialog if necessary.
 			continue
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
 			// Adding content is responsibility of user.
-			//nextHeader = nextHeader.(*header.ContentLength)
-			//try{
-			cl.SetContentLength(0)
-			nextHeader = cl
-			//}
-			//catch(InvalidArgumentException e){}
+			continue
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
 			// Content type header is removed since
 			// content length is 0. Bug fix from
@@ -670,6 +669,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// MUST be equal to "ACK".
 			//nextHeader = nextHeader.(*header.CSeq)
 			//try{
+			cseq = cseq.Clone().(*header.CSeq)
 			cseq.SetMethod(ACK)
 			nextHeader = cseq
 			//catch(ParseException e){}
-- 
2.43.0


From 06a1870539a7db5338aec627f41d0a1934216bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:11 +0000
Subject: [PATCH 111/140] fix: creating a BYE, an ACK or another request from a
 request takes the given request line and leaves the original as it was

---
 sip/message/SIPRequest.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 314acfc..ecc9ce8 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -743,20 +743,20 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
-			// CSeq newCseq = (CSeq) nextHeader.clone();
+			newCseq = newCseq.Clone().(*header.CSeq)
 			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			newCseq.SetMethod(requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			via := vl.Front().Value.(*header.Via).Clone().(*header.Via)
 			via.RemoveParameter("branch")
 			nextHeader = via
 			// Cancel and ACK preserve the branch ID.
@@ -767,7 +767,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				from.RemoveTag()
 				nextHeader = from
 			} else {
-				//to2 := to.Clone().(*To)
+				to = to.Clone().(*header.To)
 				to.RemoveTag()
 				nextHeader = to
 			}
@@ -778,18 +778,12 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				to.RemoveTag()
 				nextHeader = to
 			} else {
-				//from2 := from.Clone().(*From)
+				from = from.Clone().(*header.From)
 				from.RemoveTag()
 				nextHeader = from
 			}
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
-			//ContentLength cl  =
-			//	(ContentLength) nextHeader.clone();
-			//try{
-			cl.SetContentLength(0)
-			//}
-			//catch(InvalidArgumentException e){}
-			nextHeader = cl
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
+			continue
 		} else {
 			_, ok1 := nextHeader.(*header.CallID)
 			_, ok2 := nextHeader.(*header.MaxForwards)
@@ -821,7 +815,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.requestLine.Clone().(*header.RequestLine)
 	requestLine.SetMethod("BYE")
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
@@ -833,7 +827,7 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.requestLine.Clone().(*header.RequestLine)
 	requestLine.SetMethod(ACK)
 	return this.CreateSIPRequest(requestLine, false)
 }
-- 
2.43.0


From 76d3fb72debfd369c0b68dc34f98138c6764bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 112/140] fix: a header list belongs in a request or a response
 if its elements do

---
 sip/message/SIPMessage.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 51a9bd4..58535d3 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -73,6 +73,10 @@ func (this *SIPMessage) super() {
  */
 func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
 	var ok bool
+	if hl, ok := sipHeader.(header.SIPHeaderLister); ok && hl.Len() > 0 {
+		// A list is where its elements are.
+		sipHeader = hl.Front().Value.(header.Header)
+	}
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
 	}
@@ -116,6 +120,10 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
  */
 func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
 	var ok bool
+	if hl, ok := sipHeader.(header.SIPHeaderLister); ok && hl.Len() > 0 {
+		// A list is where its elements are.
+		sipHeader = hl.Front().Value.(header.Header)
+	}
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
 	}
-- 
2.43.0


From ffb1f6bf2cd2374d061afe07d241727d62bda12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:40 +0000
Subject: [PATCH 113/140] fix: a request created from a response without Via,
 or with a body, is right

---
 sip/message/SIPResponse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index afcdbac..a7316b5 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -572,7 +572,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia() != nil && this.GetTopmostVia().GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
 		via.SetBranch(this.GetTopmostVia().GetBranch())
@@ -596,6 +596,10 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			// The body is not copied.
+			continue
+		}
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
-- 
2.43.0


From 00167a4ca2d35a0e90a8373c1c985cef8ccd411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:51 +0000
Subject: [PATCH 114/140] fix: a status line is encoded with its own version

---
 sip/header/StatusLine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/StatusLine.go b/sip/header/StatusLine.go
index 353146f..957699d 100644
--- a/sip/header/StatusLine.go
+++ b/sip/header/StatusLine.go
@@ -78,7 +78,7 @@ func (this *StatusLine) SetMatchStatusClass(flag bool) {
  */
 func (this *StatusLine) String() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(SIPConstants_SIP_VERSION_STRING + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
+	encoding.WriteString(this.sipVersion + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
 	if this.reasonPhrase != "" {
 		encoding.WriteString(this.reasonPhrase)
 	}
-- 
2.43.0


From 993c195a62aad04d0602aeee088243470437f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:53 +0000
Subject: [PATCH 115/140] fix: the reason phrases of 421 and 488 are spelled
 right

---
 sip/message/SIPResponse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index a7316b5..8ac81c6 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -116,7 +116,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Bad extension"
 
 	case EXTENSION_REQUIRED:
-		retval = "Etension Required"
+		retval = "Extension Required"
 
 	case INTERVAL_TOO_BRIEF:
 		retval = "Interval too brief"
@@ -143,7 +143,7 @@ func (this *SIPResponse) GetReasonPhraseFromInt(rc int) string {
 		retval = "Request Terminated"
 
 	case NOT_ACCEPTABLE_HERE:
-		retval = "Not Accpetable here"
+		retval = "Not acceptable here"
 
 	case BAD_EVENT:
 		retval = "Bad Event"
-- 
2.43.0


From 81af5264e6b3b216c13d1661fc6f975bb0087b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:54 +0000
Subject: [PATCH 116/140] fix: a message without start line can be given a
 version or a status and be asked for them

---
 sip/message/SIPRequest.go  |  6 ++++++
 sip/message/SIPResponse.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index ecc9ce8..37afee2 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -883,6 +883,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 	//throws ParseException {
 	//if (sipVersion == nil || !sipVersion.equals("SIP/2.0"))
 	//	throw new ParseException ("sipVersion" , 0);
+	if this.requestLine == nil {
+		this.requestLine = header.NewRequestLine()
+	}
 	this.requestLine.SetSIPVersion(sipVersion)
 }
 
@@ -891,6 +894,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 8ac81c6..54f318c 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -220,6 +220,9 @@ func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 //     *@return the status code of the status line.
 //     */
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
@@ -259,7 +262,7 @@ func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 //     *@return true if this is a final response.
 //     */
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
 //    /**
@@ -632,9 +635,15 @@ func (this *SIPResponse) GetFirstLine() string {
 }
 
 func (this *SIPResponse) SetSIPVersion(sipVersion string) {
+	if this.statusLine == nil {
+		this.statusLine = header.NewStatusLine()
+	}
 	this.statusLine.SetSipVersion(sipVersion)
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From 1abe24c606f4d5a3f64e091865d282aff06b7055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 117/140] fix: the header section of a message ends at its
 first empty line, whatever its line ends, and a message without one is
 refused

---
 sip/parser/StringMsgParser.go | 93 +++++++----------------------------
 1 file changed, 17 insertions(+), 76 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..8c29229 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -182,30 +181,21 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	}
 
 	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
-		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
+	// The header section ends at the first empty line.
+	f := -1
+	for k := s; k < len(msgBuffer) && f < 0; k++ {
+		if msgBuffer[k] == '\n' {
+			e := k + 1
+			for e < len(msgBuffer) && msgBuffer[e] == '\r' {
+				e++
+			}
+			if e < len(msgBuffer) && msgBuffer[e] == '\n' {
+				f = e + 1
 			}
 		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
-			return nil, errors.New("ParseException: Message not terminated")
-		}
+	}
+	if f < 0 {
+		return nil, errors.New("ParseException: Message not terminated")
 	}
 
 	// Encode the body as a UTF-8 string.
@@ -213,66 +203,17 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	messageString = string(msgBuffer[s:f]) //, "UTF-8");
 
 	this.bufferPointer = f
-	message := []byte(messageString)
-	length := len(message)
 	// Get rid of CR to make it uniform for the parser.
-	for k := 0; k < length; k++ {
-		if message[k] == '\r' {
-			copy(message[k:length-1], message[k+1:length])
-			length--
-		}
-	}
-
-	// The following can be written more efficiently in a single pass
-	// but it is somewhat tricky.
-	tokenizer := core.NewStringTokenizer(string(message[:length]))
-	var cooked_message bytes.Buffer
-
-	for tokenizer.HasMoreChars() {
-		nexttok := tokenizer.NextToken()
-		// Ignore blank lines with leading spaces or tabs.
-		if strings.TrimSpace(nexttok) == "" {
-			cooked_message.WriteString("\n")
-		} else {
-			cooked_message.WriteString(nexttok)
-		}
-	}
-
-	message1 := cooked_message.String()
-	length = strings.Index(message1, "\n\n") + 2
+	cooked_message := strings.Replace(messageString, "\r", "", -1)
 
 	// Handle continuations - look for a space or a tab at the start
 	// of the line and append it to the previous line.
-	var cooked_message1 bytes.Buffer
-	for k := 0; k < length-1; {
-		if message1[k] == '\n' {
-			if message1[k+1] == '\t' || message1[k+1] == ' ' {
-				k++
-				k++
-				if k == length {
-					break
-				} else {
-					continue
-				}
-			} else {
-				cooked_message1.WriteByte(message1[k])
-			}
-
-			if message1[k+1] == '\n' {
-				cooked_message1.WriteByte('\n')
-			}
-		} else {
-			cooked_message1.WriteByte(message1[k])
-		}
-		k++
-	}
-	cooked_message1.WriteString("\n\n")
-	cooked_message1.WriteString(message1[length:])
+	cooked_message = strings.Replace(cooked_message, "\n\t", "", -1)
+	cooked_message = strings.Replace(cooked_message, "\n ", "", -1)
 
 	// Separate the string out into substrings for
 	// error reporting.
-	this.currentMessage = cooked_message1.String()
-
+	this.currentMessage = cooked_message + "\n\n"
 	sipmsg, err := this.ParseMessage(this.currentMessage)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 5878b8a34545eae319a744ca796e6d6fdea28386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:56 +0000
Subject: [PATCH 118/140] fix: what the exception listener lets pass is left
 out of the message

---
 sip/parser/StringMsgParser.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 8c29229..54da1ed 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -300,7 +300,9 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				return nil, err
 			}
 		}
-		sipmsg.(*message.SIPRequest).SetRequestLine(rl)
+		if rl != nil {
+			sipmsg.(*message.SIPRequest).SetRequestLine(rl)
+		}
 	} else {
 		sipmsg = message.NewSIPResponse()
 		var sl *header.StatusLine
@@ -313,7 +315,9 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				return nil, err
 			}
 		}
-		sipmsg.(*message.SIPResponse).SetStatusLine(sl)
+		if sl != nil {
+			sipmsg.(*message.SIPResponse).SetStatusLine(sl)
+		}
 	}
 
 	for i := 1; i < len(this.messageHeaders); i++ {
@@ -328,6 +332,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -339,6 +344,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -346,7 +352,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 
 		if _, ok := sipmsg.(*message.SIPRequest); ok {
 			if cseq, present := sipHeader.(*header.CSeq); present {
-				if cseq.GetMethod() != sipmsg.(*message.SIPRequest).GetMethod() {
+				if rl := sipmsg.(*message.SIPRequest).GetRequestLine(); rl != nil && cseq.GetMethod() != rl.GetMethod() {
 					return nil, errors.New("Start Line and CSeq Method Mismatch")
 				}
 			}
-- 
2.43.0


From cc8aebfd38a5ed30ad0bde350327d2ff0b3e4b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 119/140] fix: parsing a URL of any scheme on its own gives the
 URL or an error

---
 sip/parser/StringMsgParser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 54da1ed..4fc2383 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -418,7 +418,13 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
 	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	if err != nil {
+		return nil, err
+	}
+	if impl, ok := sipuri.(*address.SipURIImpl); ok {
+		return impl, nil
+	}
+	return nil, errors.New("ParseException: not a SIP URL")
 }
 
 /**
@@ -427,9 +433,8 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  * @return A parsed URI structure
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
-	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+func (this *StringMsgParser) ParseUrl(url string) (address.URI, error) {
+	return NewURLParser(url).Parse()
 }
 
 /**
-- 
2.43.0


From d65d4474876a92ecc0e60d4d0761d9e3a52546b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 120/140] fix: parsing a header on its own gives the header or
 an error

---
 sip/parser/StringMsgParser.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 4fc2383..c6e799b 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
@@ -443,36 +444,35 @@ func (this *StringMsgParser) ParseUrl(url string) (address.URI, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
 	// Handle line folding.
-	var nmessage string
+	var nmessage bytes.Buffer
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
 		if i < len(h)-1 && (h[i] == '\n' && (h[i+1] == '\t' || h[i+1] == ' ')) {
-			nmessage += " "
+			nmessage.WriteString(" ")
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage.WriteByte(h[i])
 		}
 	}
 
-	nmessage += "\n"
+	nmessage.WriteString("\n")
 
 	var hp Parser
-	if hp, err = CreateParser(nmessage); err != nil {
+	if hp, err = CreateParser(nmessage.String()); err != nil {
 		return nil, err
 	}
 
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From 5d90deca34fe6d3e07f0e5ac8a0e79a3faa921ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:39 +0000
Subject: [PATCH 121/140] fix: a request whose method is not in capitals can be
 parsed from its own encoding

---
 sip/parser/StringMsgParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index c6e799b..1de1ca2 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -353,7 +353,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 
 		if _, ok := sipmsg.(*message.SIPRequest); ok {
 			if cseq, present := sipHeader.(*header.CSeq); present {
-				if rl := sipmsg.(*message.SIPRequest).GetRequestLine(); rl != nil && cseq.GetMethod() != rl.GetMethod() {
+				if rl := sipmsg.(*message.SIPRequest).GetRequestLine(); rl != nil && !strings.EqualFold(cseq.GetMethod(), rl.GetMethod()) {
 					return nil, errors.New("Start Line and CSeq Method Mismatch")
 				}
 			}
-- 
2.43.0


From 7647e696442c1cdf5959b774cb551dad3bce0bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 122/140] fix: AddHeader puts a Via on top

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 58535d3..acccad5 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1493,7 +1493,7 @@ func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
 	sh := sipHeader.(header.Header)
 	//try {
-	if _, ok := sipHeader.(header.ViaHeader); ok {
+	if _, ok := sipHeader.(*header.Via); ok {
 		this.AttachHeader3(sh, false, true)
 	} else {
 		this.AttachHeader3(sh, false, false)
-- 
2.43.0


From d17e481e0cfb3b7d6149c9efcd34ef7a6107d109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 123/140] fix: a request can be made from a response for the
 library's own URIs

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 54f318c..3731c9d 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -570,7 +570,7 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 //     * request.
 //     */
 
-func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Via, cseq *header.CSeq) *SIPRequest {
+func (this *SIPResponse) CreateRequest(requestURI address.URI, via *header.Via, cseq *header.CSeq) *SIPRequest {
 	newRequest := NewSIPRequest()
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
-- 
2.43.0


From 82ed8f12e4c12f78265ac77de410a569477e8c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 124/140] fix: the compact names of Event, Allow-Events and
 Refer-To are understood

---
 core/ParameterNames.go      | 2 ++
 sip/parser/ParserFactory.go | 2 ++
 sip/parser/SIPLexer.go      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/core/ParameterNames.go b/core/ParameterNames.go
index 0833e80..0f88288 100644
--- a/core/ParameterNames.go
+++ b/core/ParameterNames.go
@@ -87,6 +87,8 @@ const SIPHeaderNames_S = "S"
 const SIPHeaderNames_T = "T"
 const SIPHeaderNames_V = "V"
 const SIPHeaderNames_R = "R"
+const SIPHeaderNames_O = "O"
+const SIPHeaderNames_U = "U"
 
 const SIPMethodNames_INVITE = "INVITE"
 const SIPMethodNames_ACK = "ACK"
diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..b941ffd 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -145,6 +145,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAlertInfoParser(line)
 	case strings.ToLower(core.SIPHeaderNames_ACCEPT):
 		parser = NewAcceptParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
 	default:
diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1cf7eea..1487caa 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -132,6 +132,8 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_T), TokenTypes_TO)
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_V), TokenTypes_VIA)
 			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_R), TokenTypes_REFER_TO)
+			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_O), TokenTypes_EVENT)
+			this.AddKeyword(strings.ToUpper(core.SIPHeaderNames_U), TokenTypes_ALLOW_EVENTS)
 		} else if lexerName == "status_lineLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
 		} else if lexerName == "request_lineLexer" {
-- 
2.43.0


From 073c897d82aca4e8b235f1ecb55bcb3e06878472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:06 +0000
Subject: [PATCH 125/140] fix: an unquoted display name holds no comma

---
 sip/parser/AddressParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index a9cd619..f975051 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -77,6 +77,10 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			// a comma separates values: it is no part of an unquoted name
+			if strings.Contains(name, ",") {
+				return nil, this.CreateParseException("unexpected comma in display name")
+			}
 		}
 		addr.SetDisplayName(strings.TrimSpace(name))
 		if _, ParseException = lexer.Match('<'); ParseException != nil {
-- 
2.43.0


From 63c45710ec673fae7aef868fb016c821296c1156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:22 +0000
Subject: [PATCH 126/140] fix: a Via parameter may be an IPv6 reference

---
 sip/parser/ViaParser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 631391c..d595f33 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -154,6 +154,11 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 					return nil, ParseException
 				}
 				quoted = true
+			} else if la == '[' {
+				// an IPv6 reference, as in maddr
+				if str, ParseException = core.NewHostNameParserFromLexer(lexer).Ipv6Reference(); ParseException != nil {
+					return nil, ParseException
+				}
 			} else {
 				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
 					return nil, ParseException
-- 
2.43.0


From be1f61fce0f81256670bdb66f047e8b9c78be40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 127/140] fix: In-Reply-To takes every character of a Call-ID

---
 sip/parser/InReplyToParser.go | 50 ++++++++++-------------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index d2a1efa..d183d4b 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strings"
 )
 
 /** SIPParser for InReplyTo header.
@@ -49,26 +50,9 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		if ParseException = inReplyTo.SetCallId(this.callId()); ParseException != nil {
 			return nil, ParseException
 		}
-		token := lexer.GetNextToken()
-		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			if _, ParseException = lexer.Match('@'); ParseException != nil {
-				return nil, ParseException
-			}
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secToken := lexer.GetNextToken()
-			if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
-				return nil, ParseException
-			}
-		} else {
-			if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
-				return nil, ParseException
-			}
-		}
 
 		lexer.SPorHT()
 
@@ -82,26 +66,9 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 			inReplyTo = header.NewInReplyTo()
 
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			if ParseException = inReplyTo.SetCallId(this.callId()); ParseException != nil {
 				return nil, ParseException
 			}
-			token = lexer.GetNextToken()
-			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				if _, ParseException = lexer.Match('@'); ParseException != nil {
-					return nil, ParseException
-				}
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-					return nil, ParseException
-				}
-				secToken := lexer.GetNextToken()
-				if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" + secToken.GetTokenValue()); ParseException != nil {
-					return nil, ParseException
-				}
-			} else {
-				if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
-					return nil, ParseException
-				}
-			}
 
 			lexer.SPorHT()
 			inReplyToList.PushBack(inReplyTo)
@@ -113,3 +80,14 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	return inReplyToList, nil
 }
+
+// callId reads the characters of a Call-ID, which are not only those of a token
+func (this *InReplyToParser) callId() string {
+	lexer := this.GetLexer()
+	var id []byte
+	for ch, err := lexer.LookAheadK(0); err == nil && !strings.ContainsRune(" \t\r\n,;\x00", rune(ch)); ch, err = lexer.LookAheadK(0) {
+		id = append(id, ch)
+		lexer.ConsumeK(1)
+	}
+	return string(id)
+}
-- 
2.43.0


From baf33897c34c3790460e8f8259002e28a0fc9b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:36 +0000
Subject: [PATCH 128/140] fix: a Warning keeps an empty text

---
 sip/header/WarningImpl.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/sip/header/WarningImpl.go b/sip/header/WarningImpl.go
index 3e70275..9c0411f 100644
--- a/sip/header/WarningImpl.go
+++ b/sip/header/WarningImpl.go
@@ -47,12 +47,9 @@ func (this *Warning) String() string {
  *@return the string encoding of the header value.
  */
 func (this *Warning) EncodeBody() string {
-	if this.text != "" {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
-			core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
-	} else {
-		return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent
-	}
+	// the text stands there even when it is empty
+	return strconv.Itoa(this.code) + core.SIPSeparatorNames_SP + this.agent +
+		core.SIPSeparatorNames_SP + core.SIPSeparatorNames_DOUBLE_QUOTE + this.text + core.SIPSeparatorNames_DOUBLE_QUOTE
 }
 
 /**
-- 
2.43.0


From ba3e3ba400763ac292b074950ff9ace1025395f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:27 +0000
Subject: [PATCH 129/140] fix: the defaults of a request are filled in

---
 sip/message/SIPRequest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 37afee2..d884e7d 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -159,7 +159,7 @@ func (this *SIPRequest) SetDefaults() {
 		return
 	}
 	if method == REGISTER || method == INVITE {
-		if sipUri, ok := u.(address.SipURI); ok {
+		if sipUri, ok := u.(*address.SipURIImpl); ok {
 			//SipURIImpl sipUri = (SipURIImpl)  u;
 			sipUri.SetUserParam(DEFAULT_USER)
 			// try {
-- 
2.43.0


From 582212c38b1a4899a17559d996162f74bea6cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:54 +0000
Subject: [PATCH 130/140] fix: a wild card is the only Contact

---
 sip/parser/ContactParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 1d3e13e..1f24cd8 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -61,6 +61,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 				}
 			}
 		}
+		if retval.Len() > 0 && (contact.GetAddress().IsWildcard() || retval.Front().Value.(*header.Contact).GetAddress().IsWildcard()) {
+			return nil, this.CreateParseException("a wild card must be alone")
+		}
 		retval.AddContact(contact)
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-- 
2.43.0


From 135471a26d73d2854a1ab3f0bc586b935e6177db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 131/140] fix: a URI with an empty user name encodes without
 user information, not with a bare @ that cannot be parsed

---
 sip/address/Authority.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/Authority.go b/sip/address/Authority.go
index ed83b7b..77211b7 100644
--- a/sip/address/Authority.go
+++ b/sip/address/Authority.go
@@ -39,7 +39,7 @@ func (this *Authority) Clone() interface{} {
  * @return encoded string (does the same thing as toString)
  */
 func (this *Authority) String() string {
-	if this.userInfo != nil && this.hostPort != nil {
+	if this.userInfo != nil && this.userInfo.GetUser() != "" && this.hostPort != nil {
 		return this.userInfo.String() + core.SIPSeparatorNames_AT + this.hostPort.String()
 	} else if this.hostPort != nil {
 		return this.hostPort.String()
-- 
2.43.0


From e64715931b6a73a1ef7e10a2ddc6b09e5d29961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:21 +0000
Subject: [PATCH 132/140] fix: an Expires value from 2^31 to 2^32-1 is within
 what the header allows and is parsed, not refused

---
 sip/parser/ExpiresParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index 8a34986..5a0fc5e 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -51,7 +51,7 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
+	if delta, ParseException = strconv.ParseInt(nextId, 10, 64); ParseException != nil {
 		return nil, ParseException
 	}
 	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
-- 
2.43.0


From 857cc3850ec48e79bad5233b79a864df533f5a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 133/140] fix: white space around the colon before the port of
 a Via is skipped, not refused

---
 sip/parser/ViaParser.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index d595f33..f88b81f 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -77,16 +77,30 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// sent-By
 	hnp := core.NewHostNameParserFromLexer(this.GetLexer())
 
-	var hostPort *core.HostPort
-	if hostPort, ParseException = hnp.GetHostPort(); ParseException != nil {
+	var host *core.Host
+	if host, ParseException = hnp.GetHost(); ParseException != nil {
 		return ParseException
 	}
-	v.SetSentBy(hostPort)
+	hostPort := core.NewHostPort()
+	hostPort.SetHost(host)
 
 	// Ignore blanks
 	lexer.SPorHT()
 
 	var la byte
+	// white space may stand around the colon
+	if la, _ = lexer.LookAheadK(0); la == ':' {
+		lexer.ConsumeK(1)
+		lexer.SPorHT()
+		var port int
+		if port, ParseException = lexer.Number(); ParseException != nil {
+			return ParseException
+		}
+		hostPort.SetPort(port)
+		lexer.SPorHT()
+	}
+	v.SetSentBy(hostPort)
+
 	for la, _ = lexer.LookAheadK(0); la == ';' || la == '(' && !v.HasComment(); la, _ = lexer.LookAheadK(0) {
 		if la == '(' {
 			var comment string
-- 
2.43.0


From c9a76a5456070b97b75710298f5216648a845ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 134/140] fix: a single header with CRLF line ends, folded or
 at its end, is parsed as with bare LF

---
 sip/parser/StringMsgParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 1de1ca2..c2b026f 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -447,7 +447,8 @@ func (this *StringMsgParser) ParseUrl(url string) (address.URI, error) {
 func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
-	h += "\n\n"
+	// Get rid of CR to make it uniform for the parser.
+	h = strings.Replace(h, "\r", "", -1) + "\n\n"
 	// Handle line folding.
 	var nmessage bytes.Buffer
 	//counter := 0
-- 
2.43.0


From f1f2902ea6ae8c6356b5457455ea000c9842dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 135/140] fix: a comment within a comment is read to its own
 end, not refused

---
 core/CoreLexer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 1becc89..3657905 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -403,11 +403,18 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 		return "", err
 	}
 	coreLexer.ConsumeK(1)
+	depth := 0 // comments may be nested
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
 			break
 		}
-		if next == ')' {
+		if next == '(' {
+			depth++
+			retval.WriteByte(next)
+		} else if next == ')' && depth > 0 {
+			depth--
+			retval.WriteByte(next)
+		} else if next == ')' {
 			break
 			// } else if next == 0 { //'\0' {
 			// 	return "", errors.New("ParseException: unexpected EOL")
-- 
2.43.0


From ff6315740eafa1207712414fa628919071a63298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 136/140] fix: a Timestamp whose seconds end in a point, or
 whose delay starts with one, is parsed, not refused

---
 sip/parser/TimeStampParser.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index a763af5..1c87f85 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -48,6 +48,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	var ts float32
+	if ch, _ = lexer.LookAheadK(0); ch == '.' {
+		return nil, this.CreateParseException("the time stamp starts with a digit")
+	}
 	if ts, ParseException = this.seconds(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -55,8 +58,10 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
+	// the delay is set off by white space
+	end := lexer.MarkInputPosition()
 	lexer.SPorHT()
-	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
+	if ch, _ = lexer.LookAheadK(0); ch != '\n' && lexer.MarkInputPosition() > end {
 		if ts, ParseException = this.seconds(); ParseException != nil {
 			return nil, ParseException
 		}
@@ -73,19 +78,17 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	return timeStamp, nil
 }
 
-// seconds reads a number of seconds with or without a fraction, whose leading
-// zeros count.
+// seconds reads a number of seconds with or without a point, before and behind
+// which the digits may be left out, but not both.
 func (this *TimeStampParser) seconds() (ts float32, ParseException error) {
 	lexer := this.GetLexer()
 	start := lexer.MarkInputPosition()
-	if _, ParseException = lexer.Number(); ParseException != nil {
-		return -1, ParseException
-	}
-	if ch, err := lexer.LookAheadK(0); err == nil && ch == '.' {
-		lexer.ConsumeK(1)
-		if _, ParseException = lexer.Number(); ParseException != nil {
-			return -1, ParseException
+	dots := 0
+	for ch, err := lexer.LookAheadK(0); err == nil && (ch >= '0' && ch <= '9' || ch == '.' && dots == 0); ch, err = lexer.LookAheadK(0) {
+		if ch == '.' {
+			dots++
 		}
+		lexer.ConsumeK(1)
 	}
 	var value float64
 	if value, ParseException = strconv.ParseFloat(lexer.GetBuffer()[start:lexer.MarkInputPosition()], 32); ParseException != nil {
-- 
2.43.0


From 873c0ee9ed135c12151160eaf9bb1a36074a64fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 137/140] fix: a Content-Length near the largest number is
 answered by an error, not a panic

---
 sip/parser/StringMsgParser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index c2b026f..faf0e63 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -223,9 +223,8 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
-- 
2.43.0


From cfd6032939b308436bf6a897792a3053487e6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 138/140] fix: a Contact that is a wild card says so

---
 sip/header/ContactImpl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index b06f277..249a26b 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -82,7 +82,8 @@ func (this *Contact) GetContactList() *ContactList {
  * @return boolean
  */
 func (this *Contact) GetWildCardFlag() bool {
-	return this.wildCardFlag
+	addr, ok := this.addr.(*address.AddressImpl)
+	return this.wildCardFlag || ok && addr != nil && addr.IsWildcard()
 }
 
 /** get the address field.
-- 
2.43.0


From fe5516433d1e4d30c8594d9cf89340898d889001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 139/140] fix: RTP headers can be made by several goroutines at
 once

---
 rtp/rtp.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 50a6a17..b6ba025 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -2,6 +2,7 @@ package rtp
 
 import (
 	"errors"
+	"sync"
 	"unsafe"
 )
 
@@ -84,11 +85,12 @@ func NewRTPHeaderFromBytes(packetbytes []byte) (*RTPHeader, error) {
 const INT_SIZE int = int(unsafe.Sizeof(0))
 
 var (
-	bigEndian = int(-1)
+	bigEndian     = int(-1)
+	bigEndianOnce sync.Once
 )
 
 func CheckEndian() {
-	if bigEndian == -1 {
+	bigEndianOnce.Do(func() {
 		var i int = 0x1
 		bs := (*[INT_SIZE]byte)(unsafe.Pointer(&i))
 		if bs[0] == 0 {
@@ -96,7 +98,7 @@ func CheckEndian() {
 		} else {
 			bigEndian = 0
 		}
-	}
+	})
 }
 
 /* helper, read a big-endian 16 bit int from memory */
-- 
2.43.0


From c02b489b2c37ec868fd78b70fde598374a1d3e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:40 +0000
Subject: [PATCH 140/140] fix: the blanks at the ends of a quoted display name
 are part of it

---
 sip/parser/AddressParser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index f975051..b43e904 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -73,6 +73,7 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 				return nil, ParseException
 			}
 			lexer.SPorHT()
+			addr.SetDisplayName(name)
 		} else {
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
@@ -81,8 +82,8 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if strings.Contains(name, ",") {
 				return nil, this.CreateParseException("unexpected comma in display name")
 			}
+			addr.SetDisplayName(strings.TrimSpace(name))
 		}
-		addr.SetDisplayName(strings.TrimSpace(name))
 		if _, ParseException = lexer.Match('<'); ParseException != nil {
 			return nil, ParseException
 		}
-- 
2.43.0

