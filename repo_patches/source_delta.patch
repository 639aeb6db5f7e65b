From ebe8fc7a9346678b4f095d6188cb425051a31dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 01/46] fix: RTP header parses all four CSRC count bits

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..2df6a7f 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From 7055a52e2e912ae6ff81c1201f0d156ca15984b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 02/46] fix: RTP header encodes all four bytes of each CSRC

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 2df6a7f..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From 5d4f5a2a5a96b78727ce4f1a441b4270e14a89a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 03/46] fix: RTP header extension allocates its words and does
 not wrap at 16384 words

---
 rtp/rtp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,7 +231,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -243,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From d691c022c3f6d2f92aa171197b1e390c6c467ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 04/46] fix: RTP header bit layout does not depend on the host
 byte order

---
 rtp/rtp.go | 52 ++++++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 50a6a17..c65a149 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -116,25 +116,15 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp header size")
 	}
 
-	if bigEndian == 1 {
-		this.version = (packetbytes[0] >> RTP_HEADER_V_POS) & RTP_HEADER_V_MSK
-		this.padding = (packetbytes[0] >> RTP_HEADER_P_POS) & RTP_HEADER_P_MSK
-		this.extension = (packetbytes[0] >> RTP_HEADER_X_POS) & RTP_HEADER_X_MSK
-		this.csrccount = (packetbytes[0] >> RTP_HEADER_CC_POS) & RTP_HEADER_CC_MSK
-		this.marker = (packetbytes[1] >> RTP_HEADER_M_POS) & RTP_HEADER_M_MSK
-		this.payloadtype = (packetbytes[1] >> RTP_HEADER_PT_POS) & RTP_HEADER_PT_MSK
-		//log.Printf("BigEndian[%v]. RTP Version:%v, PT:%v", packetbytes[0:12], this.version, this.payloadtype)
-	} else {
-		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
-		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
-		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
-		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
-		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
-		//this.header_size = 12 + 4 * this.csrccount
-		//this.payload_size = len(packetbytes) - this.header_size
-		//log.Printf("LittleEndian[%v]. RTP Version:%v, PT:%v", packetbytes[0:12], this.version, this.payloadtype)
-	}
+	this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
+	this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
+	this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
+	this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
+	this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
+	this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
+	//this.header_size = 12 + 4 * this.csrccount
+	//this.payload_size = len(packetbytes) - this.header_size
+	//log.Printf("LittleEndian[%v]. RTP Version:%v, PT:%v", packetbytes[0:12], this.version, this.payloadtype)
 
 	this.sequencenumber = uint16(packetbytes[2])<<8 | uint16(packetbytes[3])
 	this.timestamp = uint32(packetbytes[4])<<24 | uint32(packetbytes[5])<<16 | uint32(packetbytes[6])<<8 | uint32(packetbytes[7])
@@ -158,23 +148,13 @@ func (this *RTPHeader) Encode() []byte {
 	var packetbytes []byte
 	packetbytes = make([]byte, SIZEOF_RTPHEADER+int(this.csrccount)*4)
 
-	if bigEndian == 1 {
-		packetbytes[0] = ((this.version & RTP_HEADER_V_MSK) << RTP_HEADER_V_POS) |
-			((this.padding & RTP_HEADER_P_MSK) << RTP_HEADER_P_POS) |
-			((this.extension & RTP_HEADER_X_MSK) << RTP_HEADER_X_POS) |
-			((this.csrccount & RTP_HEADER_CC_MSK) << RTP_HEADER_CC_POS)
-
-		packetbytes[1] = ((this.marker & RTP_HEADER_M_MSK) << RTP_HEADER_M_POS) |
-			((this.payloadtype & RTP_HEADER_PT_MSK) << RTP_HEADER_PT_POS)
-	} else {
-		packetbytes[0] = ((this.csrccount & RTP_HEADER_CC_MSK) << 0) |
-			((this.extension & RTP_HEADER_X_MSK) << 4) |
-			((this.padding & RTP_HEADER_P_MSK) << 5) |
-			((this.version & RTP_HEADER_V_MSK) << 6)
-
-		packetbytes[1] = ((this.payloadtype & RTP_HEADER_PT_MSK) << 0) |
-			((this.marker & RTP_HEADER_M_MSK) << 7)
-	}
+	packetbytes[0] = ((this.csrccount & RTP_HEADER_CC_MSK) << 0) |
+		((this.extension & RTP_HEADER_X_MSK) << 4) |
+		((this.padding & RTP_HEADER_P_MSK) << 5) |
+		((this.version & RTP_HEADER_V_MSK) << 6)
+
+	packetbytes[1] = ((this.payloadtype & RTP_HEADER_PT_MSK) << 0) |
+		((this.marker & RTP_HEADER_M_MSK) << 7)
 
 	packetbytes[2] = byte((this.sequencenumber >> 8) & 0xFF)
 	packetbytes[3] = byte(this.sequencenumber & 0xFF)
-- 
2.43.0


From 96e3466cba7e2b5353c1e67d3d8aacb414a8cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 05/46] fix: a parsed RTP packet carries its payload; a padding
 count of zero is rejected

---
 rtp/rtppacket.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..4df4d80 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -76,7 +76,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 
 	if rp.header.padding != 0 { // adjust payload length to take padding into account
 		numpadbytes = int(rp.packet[len(rp.packet)-1]) // last byte contains number of padding bytes
-		if numpadbytes > len(rp.packet)-payloadoffset {
+		if numpadbytes == 0 || numpadbytes > len(rp.packet)-payloadoffset {
 			return errors.New("invalid padding.")
 		}
 	} else {
@@ -87,6 +87,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 	if payloadlength < 0 {
 		return errors.New("invalid payload length.")
 	}
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
 
 	return nil
 }
-- 
2.43.0


From 8690a880dc2c2b37ce21dac5a9a98831b485d9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 06/46] fix: RTCP APP name is four bytes, application data ends
 before the padding, empty packets do not panic

---
 rtp/rtcpapppacket.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..5fe47db 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
@@ -74,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -85,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
-- 
2.43.0


From ab20c51a9ff59f8d039c1ccdeff479c58d195014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:41 +0000
Subject: [PATCH 07/46] fix: RTCP BYE reason data ends with the declared
 reason, empty packets do not panic

---
 rtp/rtcpbyepacket.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..8842fd4 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if byelen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
@@ -113,7 +116,7 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+int(reasonlen)]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From 824f9ee33cfff6aa5309691ebaca6d99e738f422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 08/46] fix: token look-ahead reports the end of the text
 instead of returning nil tokens

---
 core/CoreLexer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..694c294 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,7 +175,8 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
+			var nextChar byte
+			nextChar, err = coreLexer.GetNextChar()
 			if err != nil {
 				break
 			}
-- 
2.43.0


From c962ab9fdc07caec4030b8b480f42753af7dfaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 09/46] fix: a host built from an IPv6 address is encoded in
 brackets

---
 core/Host.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..2c97c14 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -39,8 +39,9 @@ func NewHost(hname string) *Host {
 	host.hostname = hname
 	if host.isIPv6Address(hname) {
 		host.addressType = IPV6ADDRESS
+	} else {
+		host.addressType = IPV4ADDRESS
 	}
-	host.addressType = IPV4ADDRESS
 
 	return host
 }
-- 
2.43.0


From ba407a288225a839a2ca816e6836ad2a91f05b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 10/46] fix: an ignored empty host name leaves the address type
 of the host alone

---
 core/Host.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index 2c97c14..c1c55b3 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -129,14 +129,14 @@ func (host *Host) GetIpAddress() string {
  * @param h String to set
  */
 func (host *Host) SetHostName(hname string) {
-	host.inetAddress = nil
-	if host.isIPv6Address(hname) {
-		host.addressType = IPV6ADDRESS
-	} else {
-		host.addressType = HOSTNAME
-	}
 	// Null check bug fix sent in by jpaulo@ipb.pt
 	if hname != "" {
+		host.inetAddress = nil
+		if host.isIPv6Address(hname) {
+			host.addressType = IPV6ADDRESS
+		} else {
+			host.addressType = HOSTNAME
+		}
 		host.hostname = strings.ToLower(strings.TrimSpace(hname))
 	}
 }
@@ -145,13 +145,13 @@ func (host *Host) SetHostName(hname string) {
  *@param address is the address string to set.
  */
 func (host *Host) SetHostAddress(address string) {
-	host.inetAddress = nil
-	if host.isIPv6Address(address) {
-		host.addressType = IPV6ADDRESS
-	} else {
-		host.addressType = IPV4ADDRESS
-	}
 	if address != "" {
+		host.inetAddress = nil
+		if host.isIPv6Address(address) {
+			host.addressType = IPV6ADDRESS
+		} else {
+			host.addressType = IPV4ADDRESS
+		}
 		host.hostname = strings.TrimSpace(address)
 	}
 }
-- 
2.43.0


From 3c06a8320eca6ea67c4af908f840721121976934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 11/46] fix: a cloned parameter list keeps its pairs

---
 core/NameValueList.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..117add5 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -255,11 +255,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From 9035cd69c698c01bb836e15e74488851db472923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 12/46] fix: concatenating parameter lists adds the pairs, not
 the list elements

---
 core/NameValueList.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 117add5..9f4d073 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -49,14 +49,18 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 	if !topFlag {
 		//nameValueList.PushBackList(nvl)
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
+			nameValueList.PushBack(e.Value)
 		}
 	} else {
 		//nameValueList.PushFrontList(nvl)
 		// add given items to the end of the list.
 		first := nameValueList.Front()
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
+			if first == nil {
+				nameValueList.PushBack(e.Value)
+			} else {
+				nameValueList.InsertBefore(e.Value, first)
+			}
 		}
 	}
 }
-- 
2.43.0


From 696d632feeb84b49c347fe0c03721844cbdd4d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 13/46] fix: parameter names are looked up in any letter case

---
 core/NameValueList.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 9f4d073..6eaad61 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -206,7 +207,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -230,7 +231,7 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 func (nameValueList *NameValueList) Delete(name string) bool {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
 			return true
 		}
-- 
2.43.0


From 658476e0c247db48189a2c890271873e11f49fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 14/46] fix: an unterminated quoted parameter value is an error

---
 core/CoreParser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..bd771a9 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,7 +53,9 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
-- 
2.43.0


From 02c4cc17be60982a86b2a4775eae6a40c9d118d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:20 +0000
Subject: [PATCH 15/46] fix: a rejected call identifier leaves the stored one
 unchanged

---
 sip/header/CallIdImpl.go     | 8 ++++++--
 sip/header/CallIdentifier.go | 8 +++++---
 sip/header/InReplyToImpl.go  | 8 ++++++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..1323e3c 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,8 +97,12 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
-	return ParseException
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callIdentifier = callIdentifier
+	return nil
 }
 
 /**
diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..621a2c5 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,13 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		localId := cid[0:index]
+		host := cid[index+1 : len(cid)]
+		if localId == "" || host == "" {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = localId
+		this.host = host
 	}
 
 	return nil
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..0dd3d30 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,8 +38,12 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
-	return ParseException
+	cid, ParseException := NewCallIdentifier(callId)
+	if ParseException != nil {
+		return ParseException
+	}
+	this.callId = cid
+	return nil
 }
 
 /**
-- 
2.43.0


From 579e7c6a8d6e90b3cbd2d7e2e3a70fba59b06ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 16/46] fix: an In-Reply-To header without call identifier is
 encoded without panic

---
 sip/header/InReplyToImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 0dd3d30..6c161d7 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -70,5 +70,5 @@ func (this *InReplyTo) String() string {
  * @return String
  */
 func (this *InReplyTo) EncodeBody() string {
-	return this.callId.String()
+	return this.GetCallId()
 }
-- 
2.43.0


From e8bad47361acf77075d020f13007ae2e40541046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 17/46] fix: Max-Forwards is never decremented below zero

---
 sip/header/MaxForwardsImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..cde07c4 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -72,8 +72,9 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: max forwards has reached zero")
 	}
+	this.maxForwards--
 	return nil
 }
-- 
2.43.0


From 8815c5cf871b8bcc5e4f38225435c1179c388a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 18/46] fix: reading the value of an absent header parameter
 does not panic

---
 sip/header/ParametersImpl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..e0916fd 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,8 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	value, _ := this.parameters.GetValue(name).(string)
+	return value
 }
 
 /**
-- 
2.43.0


From a586b47f94306c2452b75a1c8b3c51d2dab71f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:56 +0000
Subject: [PATCH 19/46] fix: Via.GetMaddr returns the host of the maddr
 parameter

---
 sip/header/ViaImpl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..e78087b 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,11 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	maddr := this.GetParameter(ParameterNames_MADDR)
+	if maddr == "" {
+		return nil
+	}
+	return core.NewHost(maddr)
 }
 
 /** port of the Via Header.
-- 
2.43.0


From 0bd99ee595dbfc5581aacd1e7a56d592b19df9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 20/46] fix: removing the port of a Via keeps its host

---
 sip/header/ViaImpl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index e78087b..ca72671 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -139,7 +139,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
-- 
2.43.0


From cea1591c0cab41742fc7d9fab400e85864d33eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:00 +0000
Subject: [PATCH 21/46] fix: Contact.SetExpires replaces the expires parameter
 and rejects negative values

---
 sip/header/ContactImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..7c37c58 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,8 +113,10 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is <0")
+	}
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
-- 
2.43.0


From 414adab100b6eeee76b54541486b78d57e3def48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 22/46] fix: Reason.SetCause and SetText replace the parameter,
 negative causes are rejected

---
 sip/header/ReasonImpl.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..720a5fc 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"bytes"
+	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
 )
@@ -36,8 +37,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
-	return nil
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: the cause parameter is <0")
+	}
+	return this.SetParameter(ParameterNames_CAUSE, strconv.Itoa(cause))
 }
 
 /** Set the protocol
@@ -63,8 +66,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
-	return nil
+	return this.SetParameter(ParameterNames_TEXT, text)
 }
 
 /** Get the text.
-- 
2.43.0


From fe3e566ec77ab34078603e8c9bfccdbbdb3be3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 23/46] fix: a Retry-After of zero is encoded

---
 sip/header/RetryAfterImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
-- 
2.43.0


From a86af304fc2913fa2945d53ac9c8afb5b143e953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:06 +0000
Subject: [PATCH 24/46] fix: a status line is encoded with its own SIP version

---
 sip/header/StatusLine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/StatusLine.go b/sip/header/StatusLine.go
index 353146f..957699d 100644
--- a/sip/header/StatusLine.go
+++ b/sip/header/StatusLine.go
@@ -78,7 +78,7 @@ func (this *StatusLine) SetMatchStatusClass(flag bool) {
  */
 func (this *StatusLine) String() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(SIPConstants_SIP_VERSION_STRING + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
+	encoding.WriteString(this.sipVersion + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
 	if this.reasonPhrase != "" {
 		encoding.WriteString(this.reasonPhrase)
 	}
-- 
2.43.0


From a61abeafcaaa77035afcf3d8a9302d8211121ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 25/46] fix: the nonce count is read as the hexadecimal number
 it is written as, larger counts are rejected

---
 sip/header/AuthenticationImpl.go     | 5 ++++-
 sip/header/AuthenticationInfoImpl.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..82627a7 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -373,7 +373,7 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseInt(s, 16, 64)
 	return int(nCount)
 }
 
@@ -386,6 +386,9 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 		return errors.New("ParseException: bad value")
 	}
 
+	if uint64(nonceCount) > 0xffffffff {
+		return errors.New("ParseException: bad value")
+	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
 
 	base := "00000000"
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..2cbf4fc 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -87,7 +87,7 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, _ := strconv.ParseInt(s, 16, 64)
 	return int(nCount)
 }
 
@@ -148,6 +148,9 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 	if nonceCount < 0 {
 		return errors.New("ParseException: bad value")
 	}
+	if uint64(nonceCount) > 0xffffffff {
+		return errors.New("ParseException: bad value")
+	}
 	nc := strconv.FormatUint(uint64(nonceCount), 16)
 
 	base := "00000000"
-- 
2.43.0


From f073a6b2fb6b0b0b1158323772b398bacc86d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:21 +0000
Subject: [PATCH 26/46] fix: authentication setters report a rejected parameter
 value

---
 sip/header/AuthenticationImpl.go     | 27 +++++++++------------------
 sip/header/AuthenticationInfoImpl.go | 15 +++++----------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 82627a7..e4245a2 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -134,8 +134,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -163,8 +162,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -222,8 +220,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -250,8 +247,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -278,8 +274,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -306,8 +301,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -358,8 +352,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -393,8 +386,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -415,8 +407,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 2cbf4fc..8107797 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -119,8 +119,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -132,8 +131,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -155,8 +153,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -168,8 +165,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -183,8 +179,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From a98f85aa7a859b0184d4bc098ba0205c3f0f3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:55 +0000
Subject: [PATCH 27/46] fix: AuthenticationInfo.SetResponse sets the parameter
 GetResponse reads

---
 sip/header/AuthenticationInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 8107797..379549b 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -179,7 +179,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	return this.SetParameter(ParameterNames_RESPONSE, response)
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From ffb17a3fe5aeb475a5d52d3ee59956b7925b121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 28/46] fix: removing white space keeps non-ASCII text

---
 sip/message/Utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/Utils.go b/sip/message/Utils.go
index 92306ad..1f288da 100644
--- a/sip/message/Utils.go
+++ b/sip/message/Utils.go
@@ -57,7 +57,7 @@ func ReduceString(input string) string {
 		if newString[i] == ' ' || newString[i] == '\t' {
 			continue
 		} else {
-			retval += string(newString[i])
+			retval += newString[i : i+1]
 		}
 	}
 	return retval
-- 
2.43.0


From fee2c3da53f902df173d62f8a57835d0ada83966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 29/46] fix: the ttl and maddr parameters of a URI are kept as
 text and can be encoded

---
 sip/address/SipURIImpl.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..de3fc6c 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -505,12 +505,10 @@ func (this *SipURIImpl) SetQheaders(parms *core.NameValueList) {
  */
 func (this *SipURIImpl) SetMAddr(mAddr string) {
 	nameValue := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	host := &core.Host{}
-	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(mAddr)
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, mAddr)
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
@@ -734,11 +732,11 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
  * @return the value of the <code>ttl</code> parameter
  */
 func (this *SipURIImpl) GetTTLParam() int {
-	ttl := this.uriParms.GetValue("ttl")
-	if ttl != nil {
-		return ttl.(int)
+	ttl, err := strconv.Atoi(this.uriParms.GetParameter("ttl"))
+	if err != nil {
+		return -1
 	}
-	return -1
+	return ttl
 }
 
 /** Returns the value of the "transport" parameter, or null if this is not
@@ -903,7 +901,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
-- 
2.43.0


From a14b5cad936e3ed7be7618daf1572b5430a6a341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 30/46] fix: reading an absent URI parameter does not panic

---
 sip/address/SipURIImpl.go     | 14 +++++---------
 sip/address/TelphoneNumber.go |  4 ++--
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index de3fc6c..4dc0f05 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -219,7 +219,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.uriParms.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +251,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.uriParms.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -348,7 +348,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.uriParms.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -675,11 +675,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.uriParms.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -746,7 +742,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  */
 func (this *SipURIImpl) GetTransportParam() string {
 	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
+		return this.uriParms.GetParameter(core.SIPTransportNames_TRANSPORT)
 	}
 	return ""
 }
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..65b4bf5 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.parms.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,7 +57,7 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.parms.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
-- 
2.43.0


From bf23702780a9855099a14a51d2f074525b98ce85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:24 +0000
Subject: [PATCH 31/46] fix: reading or removing the user, host or port of a
 URI without authority does not panic

---
 sip/address/SipURIImpl.go | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 4dc0f05..cfc1481 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -174,9 +174,11 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
-	host := this.authority.GetHost().String()
-	return user + core.SIPSeparatorNames_AT + host
+	user := this.GetUser()
+	if user == "" {
+		return this.GetHost()
+	}
+	return user + core.SIPSeparatorNames_AT + this.GetHost()
 }
 
 /**
@@ -184,12 +186,9 @@ func (this *SipURIImpl) GetUserAtHost() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHostPort() string {
-	var user string
-	if this.authority.GetUserInfo() != nil {
-		user = this.authority.GetUserInfo().GetUser()
-	}
-	host := this.authority.GetHost().String()
-	port := this.authority.GetPort()
+	user := this.GetUser()
+	host := this.GetHost()
+	port := this.GetPort()
 	// If port not set assign the default.
 	var s bytes.Buffer
 	if user != "" {
@@ -318,6 +317,9 @@ func (this *SipURIImpl) GetPort() int {
 * @return the host portion of the url.
  */
 func (this *SipURIImpl) GetHost() string {
+	if this.authority == nil || this.authority.GetHost() == nil {
+		return ""
+	}
 	return this.authority.GetHost().String()
 }
 
@@ -410,7 +412,9 @@ func (this *SipURIImpl) RemoveUserType() {
  *Remove the port setting.
  */
 func (this *SipURIImpl) RemovePort() {
-	this.authority.RemovePort()
+	if this.authority != nil {
+		this.authority.RemovePort()
+	}
 }
 
 /**
@@ -441,7 +445,9 @@ func (this *SipURIImpl) SetUser(uname string) {
 /** Remove the user.
  */
 func (this *SipURIImpl) RemoveUser() {
-	this.authority.RemoveUserInfo()
+	if this.authority != nil {
+		this.authority.RemoveUserInfo()
+	}
 }
 
 /** Set the default parameters for this URI.
@@ -755,6 +761,9 @@ func (this *SipURIImpl) GetTransportParam() string {
  * @return the value of the <code>userParam</code> of the SipURI
  */
 func (this *SipURIImpl) GetUser() string {
+	if this.authority == nil {
+		return ""
+	}
 	return this.authority.GetUser()
 }
 
-- 
2.43.0


From 38895bf189d07fc8918e2eb6d2c11f716a13ed29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:25 +0000
Subject: [PATCH 32/46] fix: URI headers set after removing all headers are
 joined with &

---
 sip/address/SipURIImpl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index cfc1481..cf4a4a2 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -397,6 +398,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
  */
 func (this *SipURIImpl) RemoveHeaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
-- 
2.43.0


From 71ac0d9c91ffdeb9720fa571962c4c53caf9ecb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:28 +0000
Subject: [PATCH 33/46] fix: a URI parameter without value counts as present

---
 sip/address/SipURIImpl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index cf4a4a2..a91ec2c 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -459,7 +459,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.uriParms.HasNameValue(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
@@ -572,7 +572,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -795,7 +795,7 @@ func (this *SipURIImpl) IsSipURI() bool {
  * @param value - a String specifying the header value
  */
 func (this *SipURIImpl) SetHeader(name, value string) {
-	if this.qheaders.GetValue(name) == nil {
+	if !this.qheaders.HasNameValue(name) {
 		nv := core.NewNameValue(name, value)
 		this.qheaders.AddNameValue(nv)
 	} else {
@@ -821,7 +821,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.uriParms.HasNameValue("lr") {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
-- 
2.43.0


From c1ae425365361befade3dd0fd670eebfec577abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:29 +0000
Subject: [PATCH 34/46] fix: setting a URI or telephone parameter replaces the
 earlier value

---
 sip/address/SipURIImpl.go     | 7 +++----
 sip/address/TelphoneNumber.go | 9 +++------
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index a91ec2c..cecfc54 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -496,8 +496,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
          * @param value value of the parameter to set.
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
-	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameAndValue(name, value)
 }
 
 /** Set the qheaders member
@@ -536,7 +535,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
@@ -586,7 +585,7 @@ func (this *SipURIImpl) SetQHeader(nameValue *core.NameValue) {
  *@param nameValue - parameter to set.
  */
 func (this *SipURIImpl) SetUriParameter(nameValue *core.NameValue) {
-	this.uriParms.PushBack(nameValue)
+	this.uriParms.SetNameValue(nameValue)
 }
 
 /** Return true if the transport parameter is defined.
diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 65b4bf5..1f0a75d 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -123,8 +123,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  * @param p String to set
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
-	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameAndValue(core.SIPTransportNames_POSTDIAL, p)
 }
 
 /** set the specified parameter
@@ -132,8 +131,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  * @param value Object to set
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
-	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameAndValue(name, value)
 }
 
 /**
@@ -213,6 +211,5 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 }
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
-	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameAndValue(name, value)
 }
-- 
2.43.0


From 4b0a8c79aa58ff81a795fe45babc4f7d54655746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:32 +0000
Subject: [PATCH 35/46] fix: an address reports user, host, port and kind of
 its SIP URI

---
 sip/address/AddressImpl.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..158aed4 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -78,7 +78,7 @@ func (this *AddressImpl) GetHostPort() (hp *core.HostPort, RuntimeException erro
  */
 func (this *AddressImpl) GetPort() (int, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetPort(), nil
+		return sipuri.GetPort(), nil
 	}
 	return -1, errors.New("RuntimeException: address is not a SipURIImpl")
 }
@@ -92,7 +92,7 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
 	}
 	return this.address.String()
 }
@@ -103,7 +103,10 @@ func (this *AddressImpl) GetUserAtHostPort() string {
  */
 func (this *AddressImpl) GetHost() (string, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetHost().GetHostName(), nil
+		if hp := sipuri.GetHostPort(); hp != nil && hp.GetHost() != nil {
+			return hp.GetHost().GetHostName(), nil
+		}
+		return "", nil
 	}
 
 	return "", errors.New("RuntimeException: address is not a SipURIImpl")
@@ -241,7 +244,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
+	_, ok := this.address.(*SipURIImpl)
 	return ok
 }
 
-- 
2.43.0


From 33f4511cb93043f5e99cf8ad1127cafd72d00df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:07 +0000
Subject: [PATCH 36/46] fix: the header table and the header list of a message
 stay in step

Attaching with the replace flag left the old header in the list, removing the last
element of a header list left the empty list in the table, and attaching a list twice,
or where a single header was attached, did not end or panicked.
---
 sip/message/SIPMessage.go | 44 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 25 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..789ddd2 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -600,11 +600,11 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 	}
 
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
-				if cl, ok := h.(*header.ContentLength); ok {
+				if cl, ok := h.(*header.ContentLength); ok && this.contentLengthHeader != nil {
 					this.contentLengthHeader.SetContentLength(cl.GetContentLength())
 				}
 				// Just ignore duplicate header.
@@ -613,31 +613,19 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		}
 	}
 
-	originalHeader := this.GetHeader(h.GetName())
-
-	// Delete the original sh from our list structure.
-	if originalHeader != nil {
-		for li := this.headers.Front(); li != nil; li = li.Next() {
-			next := li.Value.(header.Header)
-			if next == originalHeader {
-				this.headers.Remove(li)
-			}
-		}
-	}
-
-	if this.GetHeader(h.GetName()) == nil {
+	original, present := this.nameTable[strings.ToLower(h.GetName())]
+	if !present {
 		this.nameTable[strings.ToLower(h.GetName())] = h
 		this.headers.PushBack(h)
 	} else {
 		if hs, ok := h.(header.SIPHeaderLister); ok {
-			hdrlist := this.nameTable[strings.ToLower(h.GetName())].(header.SIPHeaderLister)
-			if hdrlist != nil {
+			hdrlist, ok := original.(header.SIPHeaderLister)
+			if !ok {
+				return errors.New("SIPDuplicateHeaderException: " + h.GetName())
+			}
+			if hdrlist != hs {
 				hdrlist.Concatenate(hs, top)
-			} else {
-				this.nameTable[strings.ToLower(h.GetName())] = h
 			}
-		} else {
-			this.nameTable[strings.ToLower(h.GetName())] = h
 		}
 	}
 
@@ -676,14 +664,17 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 
 	if hdrList, ok := toRemove.(header.SIPHeaderLister); ok {
 		if top {
-			first := hdrList.Front()
-			hdrList.Remove(first)
+			if first := hdrList.Front(); first != nil {
+				hdrList.Remove(first)
+			}
 		} else {
-			last := hdrList.Back()
-			hdrList.Remove(last)
+			if last := hdrList.Back(); last != nil {
+				hdrList.Remove(last)
+			}
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
+			delete(this.nameTable, strings.ToLower(headerName))
 			for li := this.headers.Front(); li != nil; li = li.Next() {
 				sipHeader := li.Value.(header.Header)
 				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
@@ -844,6 +835,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
-- 
2.43.0


From d16e5e618efe5a6580f605e37900c3cc6e2201fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:09 +0000
Subject: [PATCH 37/46] fix: headers put at the top of a header list keep their
 order

---
 sip/header/SIPHeaderList.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..283fc19 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -82,8 +82,8 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 			this.PushBack(e.Value.(Header))
 		}
 	} else {
-		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		//add given items to the top of the list, keeping their order.
+		for e := shl.Back(); e != nil; e = e.Prev() {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From 7f2bed913ba1ce17e45ef53c6c0db8a49732a8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:30 +0000
Subject: [PATCH 38/46] fix: asking a message for an absent header gives nil

The getters panicked on the type assertion, or returned an interface holding a nil
pointer that never compared equal to nil, so CheckHeaders accepted messages without
the mandatory headers.
---
 sip/message/SIPMessage.go | 68 +++++++++++++++++++++++++++++----------
 sip/message/SIPRequest.go |  2 +-
 2 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 789ddd2..57a10e9 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -767,7 +767,7 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  */
 func (this *SIPMessage) GetTransactionId() string {
 	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
+	if viaList := this.GetViaHeaders(); viaList != nil && viaList.Len() > 0 {
 		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
 	}
 	// Have specified a branch Identifier so we can use it to identify
@@ -849,13 +849,17 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return h
 }
 
 /** Get the from header.
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -864,7 +868,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return h
 }
 
 /**
@@ -872,7 +877,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return h
 }
 
 /**
@@ -880,7 +886,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return h
 }
 
 /** Get an iterator to the list of vial headers.
@@ -927,6 +934,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -942,7 +952,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return h
 }
 
 /**
@@ -950,6 +961,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -965,7 +979,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return h
 }
 
 /** Set the min expires header.
@@ -981,7 +996,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return h
 }
 
 /**
@@ -989,7 +1005,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return h
 }
 
 /**
@@ -997,7 +1014,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return h
 }
 
 /**
@@ -1005,7 +1023,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return h
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1013,6 +1032,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1054,7 +1076,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	h, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return h
 }
 
 /**
@@ -1062,6 +1085,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1079,6 +1105,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
@@ -1324,7 +1353,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	h, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return h
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1533,7 +1563,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return h
 }
 
 /** Get the content encoding header.
@@ -1541,7 +1572,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1549,7 +1581,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return h
 }
 
 /** Get the exipres header.
@@ -1557,7 +1590,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return h
 }
 
 /** Set the expiresHeader
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..b8ece3e 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -175,7 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.cSeqHeader
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
-- 
2.43.0


From 27177bae9fc195584b585b6d6d8b79742f4a1021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 39/46] fix: Content-Length and the encoded body follow the
 content that was set

SetContent left the other representation of an earlier body in place, content could
not be set once the Content-Length header had been removed, and an encoded response
ended with an extra line break after its body.
---
 sip/message/SIPMessage.go  | 32 ++++++++++++++++++++++++--------
 sip/message/SIPResponse.go |  2 +-
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 57a10e9..c8ba659 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -358,7 +358,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
+	if this.contentLengthHeader != nil {
+		encoding.WriteString(this.contentLengthHeader.String())
+	}
+	encoding.WriteString(core.SIPSeparatorNames_NEWLINE)
 
 	if this.messageContentObject != nil {
 		mbody := this.GetContent()
@@ -1213,7 +1216,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1230,9 +1233,13 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
+		this.messageContentObject = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
+		this.messageContent = ""
 		this.messageContentBytes = b
+		this.messageContentObject = nil
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
@@ -1250,7 +1257,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1283,7 +1290,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1295,7 +1302,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1308,7 +1315,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1324,10 +1331,19 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
+// setContentLength sets the length in the Content-Length header, attaching one if it has been removed.
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(length), true)
+		return
+	}
+	this.contentLengthHeader.SetContentLength(length)
+}
+
 /** Get a SIP header or Header list given its name.
  *@param headerName is the name of the header to Get.
  *@return a header or header list that contians the retrieved header.
@@ -1624,7 +1640,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..51b96b5 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -323,7 +323,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From f6a56df31dbddbeed7e35e921c1867df27b579af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 40/46] fix: deriving a message leaves the original message
 unchanged

CANCEL, ACK and BYE requests shared and modified the request line, CSeq, Via, To, From
and Content-Length of the request they were made from, an ACK lost its Via list, and a
request made from a response took over the Content-Length of the response.
---
 sip/header/FromImpl.go     | 14 ++++++-
 sip/header/RequestLine.go  |  8 ++++
 sip/header/ToImpl.go       | 14 ++++++-
 sip/header/ViaImpl.go      | 20 ++++++++++
 sip/message/SIPRequest.go  | 77 +++++++++++++++-----------------------
 sip/message/SIPResponse.go | 11 ++++--
 6 files changed, 92 insertions(+), 52 deletions(-)

diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..52b85dc 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -23,6 +23,18 @@ func NewFrom() *From {
 	return this
 }
 
+/** Make a copy of this header with parameters of its own; the address is shared.
+ */
+func (this *From) Clone() interface{} {
+	retval := NewFrom()
+	retval.headerName = this.headerName
+	retval.addr = this.addr
+	if this.parameters != nil {
+		retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	}
+	return retval
+}
+
 func (this *From) super(name string) {
 	this.AddressParameters.super(name)
 }
@@ -32,7 +44,7 @@ func (this *From) super(name string) {
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
 	this.addr = to.addr
-	this.parameters = to.parameters
+	this.parameters = to.parameters.Clone().(*core.NameValueList)
 }
 
 /**
diff --git a/sip/header/RequestLine.go b/sip/header/RequestLine.go
index d05c040..1ff3418 100644
--- a/sip/header/RequestLine.go
+++ b/sip/header/RequestLine.go
@@ -42,6 +42,14 @@ func NewRequestLineFromString(requestURI address.URI, method string) *RequestLin
 	return this
 }
 
+/** Make a copy of this request line; the URI is shared.
+ */
+func (this *RequestLine) Clone() interface{} {
+	retval := NewRequestLineFromString(this.uri, this.method)
+	retval.sipVersion = this.sipVersion
+	return retval
+}
+
 /** Set the SIP version.
 *@param sipVersion -- the SIP version to Set.
  */
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..b691332 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -23,6 +23,18 @@ func NewTo() *To {
 	return this
 }
 
+/** Make a copy of this header with parameters of its own; the address is shared.
+ */
+func (this *To) Clone() interface{} {
+	retval := NewTo()
+	retval.headerName = this.headerName
+	retval.addr = this.addr
+	if this.parameters != nil {
+		retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	}
+	return retval
+}
+
 func (this *To) super(name string) {
 	this.AddressParameters.super(name)
 }
@@ -32,7 +44,7 @@ func (this *To) super(name string) {
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
 	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.SetParameters(from.parameters.Clone().(*core.NameValueList))
 }
 
 /**
diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index ca72671..dcf2314 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -38,6 +38,26 @@ func NewVia() *Via {
 	return this
 }
 
+/** Make a copy of this header that shares nothing with it.
+ */
+func (this *Via) Clone() interface{} {
+	retval := NewVia()
+	retval.headerName = this.headerName
+	retval.comment = this.comment
+	if this.sentProtocol != nil {
+		*retval.sentProtocol = *this.sentProtocol
+	} else {
+		retval.sentProtocol = nil
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	if this.parameters != nil {
+		retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	}
+	return retval
+}
+
 func (this *Via) super(name string) {
 	this.Parameters.super(name)
 	this.sentProtocol = NewProtocol()
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index b8ece3e..55e447e 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -573,7 +573,9 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -596,12 +598,7 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 			 **/
 			//nextHeader = (ViaList) ((ViaList) nextHeader).clone();
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
-			//CSeq cseq = (CSeq) nextHeader.clone();
-			//try{
-			cseq.SetMethod(CANCEL)
-			//}
-			//catch(ParseException e){}
-			nextHeader = cseq
+			nextHeader = header.NewCSeq(cseq.GetSequenceNumber(), CANCEL)
 		}
 		//try {
 		newRequest.AttachHeader2(nextHeader, false)
@@ -629,7 +626,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
@@ -642,14 +641,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// Remove proxy auth header.
 			// Assigned by the Dialog if necessary.
 			continue
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
 			// Adding content is responsibility of user.
-			//nextHeader = nextHeader.(*header.ContentLength)
-			//try{
-			cl.SetContentLength(0)
-			nextHeader = cl
-			//}
-			//catch(InvalidArgumentException e){}
+			continue
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
 			// Content type header is removed since
 			// content length is 0. Bug fix from
@@ -661,12 +655,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// sequence number as was present in the
 			// original request, but the method parameter
 			// MUST be equal to "ACK".
-			//nextHeader = nextHeader.(*header.CSeq)
-			//try{
-			cseq.SetMethod(ACK)
-			nextHeader = cseq
-			//catch(ParseException e){}
-			// = cseq;
+			nextHeader = header.NewCSeq(cseq.GetSequenceNumber(), ACK)
 		} else if _, ok := nextHeader.(*header.To); ok {
 			if responseToHeader != nil {
 				nextHeader = responseToHeader
@@ -680,7 +669,9 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// field of the original
 			// request.
 
-			nextHeader = vl.Front().Value.(header.Header)
+			viaList := header.NewViaList()
+			viaList.PushBack(vl.Front().Value.(*header.Via))
+			nextHeader = viaList
 		} else {
 			//nextHeader = (SIPHeader) nextHeader.clone();
 		}
@@ -736,22 +727,19 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
-			// CSeq newCseq = (CSeq) nextHeader.clone();
-			nextHeader = newCseq
-			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
-			//}
-			//catch(ParseException e){}
+			nextHeader = header.NewCSeq(newCseq.GetSequenceNumber(), requestLine.GetMethod())
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			via := vl.Front().Value.(*header.Via).Clone().(*header.Via)
 			via.RemoveParameter("branch")
-			nextHeader = via
+			viaList := header.NewViaList()
+			viaList.PushBack(via)
+			nextHeader = viaList
 			// Cancel and ACK preserve the branch ID.
 		} else if to, ok := nextHeader.(*header.To); ok {
 			if switchHeaders {
@@ -760,9 +748,9 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				from.RemoveTag()
 				nextHeader = from
 			} else {
-				//to2 := to.Clone().(*To)
-				to.RemoveTag()
-				nextHeader = to
+				to2 := to.Clone().(*header.To)
+				to2.RemoveTag()
+				nextHeader = to2
 			}
 		} else if from, ok := nextHeader.(*header.From); ok {
 			if switchHeaders {
@@ -771,18 +759,13 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				to.RemoveTag()
 				nextHeader = to
 			} else {
-				//from2 := from.Clone().(*From)
-				from.RemoveTag()
-				nextHeader = from
+				from2 := from.Clone().(*header.From)
+				from2.RemoveTag()
+				nextHeader = from2
 			}
-		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
-			//ContentLength cl  =
-			//	(ContentLength) nextHeader.clone();
-			//try{
-			cl.SetContentLength(0)
-			//}
-			//catch(InvalidArgumentException e){}
-			nextHeader = cl
+		} else if _, ok := nextHeader.(*header.ContentLength); ok {
+			// The new request has no content.
+			continue
 		} else {
 			_, ok1 := nextHeader.(*header.CallID)
 			_, ok2 := nextHeader.(*header.MaxForwards)
@@ -814,7 +797,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.requestLine.Clone().(*header.RequestLine)
 	requestLine.SetMethod("BYE")
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
@@ -826,7 +809,7 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.requestLine.Clone().(*header.RequestLine)
 	requestLine.SetMethod(ACK)
 	return this.CreateSIPRequest(requestLine, false)
 }
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 51b96b5..326fd8e 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -566,13 +566,15 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	if topVia := this.GetTopmostVia(); (method == "ACK" || method == "CANCEL") && topVia != nil && topVia.GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
-		via.SetBranch(this.GetTopmostVia().GetBranch())
+		via.SetBranch(topVia.GetBranch())
 		//} catch (ParseException ex) {}
 	}
-	newRequest.SetHeader(via)
+	viaList := header.NewViaList()
+	viaList.PushBack(via)
+	newRequest.SetHeader(viaList)
 	newRequest.SetHeader(cseq)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
@@ -590,6 +592,9 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			continue
+		}
 		if _, ok := nextHeader.(*header.RecordRouteList); ok {
 			continue
 		}
-- 
2.43.0


From 18c60b899cac3a6b131a3851ce1b4f3afbc5c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:24 +0000
Subject: [PATCH 41/46] fix: the topmost Via of a message with an empty Via
 list is nil

---
 sip/message/SIPMessage.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index c8ba659..49e3a7c 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -925,11 +925,11 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	viaList := this.GetViaHeaders()
+	if viaList == nil || viaList.Len() == 0 {
 		return nil
-	} else {
-		return this.GetViaHeaders().Front().Value.(*header.Via)
 	}
+	return viaList.Front().Value.(*header.Via)
 }
 
 /**
-- 
2.43.0


From 705cb3a38048823056e91671e943ccfbcbda5ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 42/46] fix: a malformed call identifier leaves a message
 without Call-ID as it is

---
 sip/message/SIPMessage.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 49e3a7c..f60dd89 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1055,7 +1055,10 @@ func (this *SIPMessage) SetCallId(callId header.CallIdHeader) {
  */
 func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.ParseException {
 	if this.callIdHeader == nil {
-		c, _ := header.NewCallID(callId)
+		c, err := header.NewCallID(callId)
+		if err != nil {
+			return
+		}
 		this.SetHeader(c)
 	}
 	this.callIdHeader.SetCallId(callId)
-- 
2.43.0


From 5f8ffab11d0f14871f761b1a8d85d2259e6f3f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 43/46] fix: URL parser reports malformed URLs instead of
 panicking or looping

---
 sip/parser/URLParser.go | 76 ++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..d6b831c 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -196,7 +196,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
@@ -233,8 +233,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	t1 := vect[0]
 	t2 := vect[1]
 
+	if t1 == nil {
+		return nil, this.CreateParseException("unexpected end of URI")
+	}
 	if t1.GetTokenType() == TokenTypes_SIP {
-		if t2.GetTokenType() == ':' {
+		if t2 != nil && t2.GetTokenType() == ':' {
 			if retval, ParseException = this.SipURL(); ParseException != nil {
 				return nil, ParseException
 			}
@@ -242,7 +245,7 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 			return nil, this.CreateParseException("Expecting ':'")
 		}
 	} else if t1.GetTokenType() == TokenTypes_TEL {
-		if t2.GetTokenType() == ':' {
+		if t2 != nil && t2.GetTokenType() == ':' {
 			if retval, ParseException = this.TelURL(); ParseException != nil {
 				return nil, ParseException
 			}
@@ -251,7 +254,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("bad URI")
+		}
+		retval = uri
 	}
 
 	return retval, nil
@@ -312,16 +319,16 @@ func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, Pars
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
+		tn, ParseException = this.Global_phone_number()
 	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		tn, ParseException = this.Local_phone_number()
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
 
-	return tn, nil
+	return tn, ParseException
 }
 
 func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, ParseException error) {
@@ -329,13 +336,19 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 	tn.SetGlobal(true)
 
 	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	b, ParseException := this.Base_phone_number()
+	if ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			nv, ParseException := this.Tel_parameters()
+			if ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -345,14 +358,20 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	b, ParseException := this.Local_number()
+	if ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().PeekNextToken()
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			nv, ParseException := this.Tel_parameters()
+			if ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -370,6 +389,7 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
@@ -411,7 +431,10 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if n := strings.Index(buffer, "@"); n == -1 {
 		// hostPort
 		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
+		hp, ParseException := hnp.GetHostPort()
+		if ParseException != nil {
+			return nil, ParseException
+		}
 		retval.SetHostPort(hp)
 	} else {
 		var hp *core.HostPort
@@ -456,9 +479,12 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
 		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+			parms, ParseException := this.Qheader()
+			if ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
 			} else {
 				this.GetLexer().ConsumeK(1)
@@ -469,8 +495,8 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 }
 
 func (this *URLParser) PeekScheme() (s string, ParseException error) {
-	tokens, _ := this.GetLexer().PeekNextTokenK(1)
-	if len(tokens) == 0 {
+	tokens, ParseException := this.GetLexer().PeekNextTokenK(1)
+	if ParseException != nil {
 		return "", nil
 	}
 	scheme := tokens[0].GetTokenValue()
@@ -481,9 +507,15 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
+	name, ParseException := this.GetLexer().GetNextTokenByDelim('=')
+	if ParseException != nil {
+		return nil, ParseException
+	}
 	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	value, ParseException := this.Hvalue()
+	if ParseException != nil {
+		return nil, ParseException
+	}
 	return core.NewNameValue(name, value), nil
 
 }
@@ -501,7 +533,10 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			str, ParseException := this.Escaped()
+			if ParseException != nil {
+				return "", ParseException
+			}
 			retval.WriteString(str)
 		} else {
 			break
@@ -526,7 +561,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
@@ -562,6 +597,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From 1a9942980c7b30488f0afdd3a613141a5206d38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 44/46] fix: header parsers report missing tokens, schemes and
 unterminated comments

---
 sip/header/AlertInfoImpl.go            |  4 +--
 sip/header/CallInfoImpl.go             |  4 +--
 sip/parser/AcceptEncodingParser.go     |  8 ++++--
 sip/parser/AcceptLanguageParser.go     |  8 ++++--
 sip/parser/AcceptParser.go             | 16 +++++++++---
 sip/parser/AllowEventsParser.go        |  8 ++++--
 sip/parser/AllowParser.go              |  8 ++++--
 sip/parser/ChallengeParser.go          |  4 ++-
 sip/parser/ContentDispositionParser.go |  4 ++-
 sip/parser/ContentEncodingParser.go    |  8 ++++--
 sip/parser/ContentLanguageParser.go    |  8 ++++--
 sip/parser/ContentTypeParser.go        |  8 ++++--
 sip/parser/EventParser.go              |  4 ++-
 sip/parser/InReplyToParser.go          | 16 +++++++++---
 sip/parser/PriorityParser.go           |  4 ++-
 sip/parser/ProxyRequireParser.go       |  8 ++++--
 sip/parser/RAckParser.go               |  4 ++-
 sip/parser/ReasonParser.go             |  4 ++-
 sip/parser/RecordRouteParser.go        |  4 ++-
 sip/parser/RequireParser.go            |  8 ++++--
 sip/parser/RetryAfterParser.go         |  8 ++++--
 sip/parser/RouteParser.go              |  4 ++-
 sip/parser/ServerParser.go             |  7 ++++--
 sip/parser/SubscriptionStateParser.go  | 24 +++++++++++++-----
 sip/parser/SupportedParser.go          |  8 ++++--
 sip/parser/UnsupportedParser.go        |  8 ++++--
 sip/parser/UserAgentParser.go          |  7 ++++--
 sip/parser/ViaParser.go                | 34 ++++++++++++++++++--------
 sip/parser/WarningParser.go            | 16 +++++++++---
 29 files changed, 188 insertions(+), 68 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..dbf11c9 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -53,7 +53,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..15f65fc 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -80,5 +80,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..d9a18df 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -72,7 +72,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				acceptEncoding.SetEncoding(value.GetTokenValue())
 			}
@@ -84,7 +86,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				lexer.SPorHT()
 				lexer.Match('=')
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..07d6f3d 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -62,7 +62,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
@@ -74,7 +76,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			lexer.SPorHT()
 			lexer.Match('=')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..e9451f3 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -53,11 +53,15 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
 	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
@@ -71,11 +75,15 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
 		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..73eab1d 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -46,7 +46,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allowEvents.SetEventType(token.GetTokenValue())
 
@@ -58,7 +60,9 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allowEvents.SetEventType(token.GetTokenValue())
 
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..2e73776 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -46,7 +46,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	allow.SetMethod(token.GetTokenValue())
 
@@ -57,7 +59,9 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		allow.SetMethod(token.GetTokenValue())
 
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..b733f9e 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..fcbb284 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -42,7 +42,9 @@ func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
 	cd.SetDispositionType(token.GetTokenValue())
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..1338237 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -46,7 +46,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetEncoding(token.GetTokenValue())
@@ -58,7 +60,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			cl = header.NewContentEncoding()
 			lexer.Match(',')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetEncoding(token.GetTokenValue())
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..42aa736 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -46,7 +46,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -58,7 +60,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 			cl = header.NewContentLanguage()
 			lexer.Match(',')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..6554d98 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -30,14 +30,18 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	this.HeaderName(TokenTypes_CONTENT_TYPE)
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
 	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..96796cb 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -40,7 +40,9 @@ func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..56ff7b4 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -44,11 +44,15 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
 			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
 			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 				secToken.GetTokenValue())
@@ -66,11 +70,15 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
 				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
 				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
 					secToken.GetTokenValue())
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..8cfa0c5 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -42,7 +42,9 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
 	priority.SetPriority(token.GetTokenValue())
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..9aa9c20 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -45,7 +45,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -59,7 +61,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..5688791 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -52,7 +52,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	}
 	rack.SetCSeqNumber(number)
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	rack.SetMethod(token.GetTokenValue())
 
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..03f7dfd 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -42,7 +42,9 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..7a23280 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -41,7 +41,9 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..c47eb90 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -45,7 +45,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		r.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -59,7 +61,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			r.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..f16ad1d 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -57,7 +57,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
@@ -73,7 +75,9 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 			lexer.Match('=')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..b715cad 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -42,7 +42,9 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..270be16 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -48,7 +48,10 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 	//  mandatory token: product[/product-version] | (comment)
 	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
 		if ch == '(' {
-			comment, _ := lexer.Comment()
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return nil, ParseException
+			}
 			server.AddProductToken("(" + comment + ")")
 		} else {
 			var tok string
@@ -58,7 +61,7 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 				server.AddProductToken(tok)
 				break
 			} else {
-				if tok[len(tok)-1] == '\n' {
+				if strings.HasSuffix(tok, "\n") {
 					tok = strings.TrimSpace(tok)
 				}
 				server.AddProductToken(tok)
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..93eeb38 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -45,27 +45,35 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	subscriptionState.SetState(token.GetTokenValue())
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		lexer.Match(';')
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
 			lexer.Match('=')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 			subscriptionState.SetReasonCode(value)
 		} else if strings.ToLower(value) == "expires" {
 			lexer.Match('=')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -77,7 +85,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		} else if strings.ToLower(value) == "retry-after" {
 			lexer.Match('=')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -89,7 +99,9 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		} else {
 			lexer.Match('=')
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..c68e1b3 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -46,7 +46,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		supported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -60,7 +62,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			supported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..789edce 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -46,7 +46,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		unsupported.SetOptionTag(token.GetTokenValue())
 		lexer.SPorHT()
@@ -60,7 +62,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			unsupported.SetOptionTag(token.GetTokenValue())
 			lexer.SPorHT()
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..e722e36 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -49,7 +49,10 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 	//  mandatory token: product[/product-version] | (comment)
 	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
 		if ch == '(' {
-			comment, _ := lexer.Comment()
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return nil, ParseException
+			}
 			userAgent.AddProductToken("(" + comment + ")")
 		} else {
 			var tok string
@@ -59,7 +62,7 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 				userAgent.AddProductToken(strings.TrimSpace(tok))
 				break
 			} else {
-				if tok[len(tok)-1] == '\n' {
+				if strings.HasSuffix(tok, "\n") {
 					tok = strings.TrimSpace(tok)
 				}
 				userAgent.AddProductToken(tok)
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..8144b78 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,7 +32,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -42,7 +44,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// consume the "/"
 	lexer.Match('/')
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -53,7 +57,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// We consume the "/"
 	lexer.Match('/')
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -99,17 +105,21 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 		var comment bytes.Buffer
 		for {
-			ch, _ := lexer.LookAheadK(0)
+			ch, ParseException := lexer.LookAheadK(0)
+			if ParseException != nil {
+				return ParseException
+			}
 			if ch == ')' {
 				lexer.ConsumeK(1)
 				break
 			} else if ch == '\\' {
 				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
+				comment.WriteByte(ch)
 				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
+				if ch, ParseException = lexer.LookAheadK(0); ParseException != nil {
+					return ParseException
+				}
+				comment.WriteByte(ch)
 				lexer.ConsumeK(1)
 			} else if ch == '\n' {
 				break
@@ -130,7 +140,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -154,7 +166,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..492ee0d 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -46,7 +46,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,7 +62,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		warning.SetAgent(token.GetTokenValue())
 		lexer.SPorHT()
@@ -82,7 +86,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
@@ -93,7 +99,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
 			warning.SetAgent(tok.GetTokenValue())
 			lexer.SPorHT()
-- 
2.43.0


From ba1ae641b57203042fb1c0dab6198632da1d6fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 45/46] fix: message parser finds the first empty line and
 rejects bad lengths and URLs without panicking

---
 sip/parser/StringMsgParser.go | 64 +++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..052a5be 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -182,30 +182,19 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	}
 
 	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
-		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
+	f := -1
+	for k := s; k < len(msgBuffer)-1 && f < 0; k++ {
+		// the first empty line ends the headers
+		if msgBuffer[k] == '\n' {
+			if msgBuffer[k+1] == '\n' {
+				f = k + 2
+			} else if k < len(msgBuffer)-2 && msgBuffer[k+1] == '\r' && msgBuffer[k+2] == '\n' {
+				f = k + 3
 			}
 		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
-			return nil, errors.New("ParseException: Message not terminated")
-		}
+	}
+	if f < 0 {
+		return nil, errors.New("ParseException: Message not terminated")
 	}
 
 	// Encode the body as a UTF-8 string.
@@ -281,9 +270,8 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
 		this.contentLength = sipmsg.GetContentLength().GetContentLength()
 
-		endIndex := this.bufferPointer + this.contentLength
 		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
+		if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
 			return nil, errors.New("Content Length Larger Than Message")
 		}
 
@@ -387,6 +375,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -398,6 +387,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 					return nil, err
 				}
+				continue
 			} else {
 				return nil, err
 			}
@@ -471,7 +461,14 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
 	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	if err != nil {
+		return nil, err
+	}
+	uri, ok := sipuri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: unexpected URI scheme")
+	}
+	return uri, nil
 }
 
 /**
@@ -482,7 +479,14 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
 	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+	if err != nil {
+		return nil, err
+	}
+	uri, ok := guri.(*address.URIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: unexpected URI scheme")
+	}
+	return uri, nil
 }
 
 /**
@@ -491,7 +495,7 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
 	var err error
 
 	h += "\n\n"
@@ -500,7 +504,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 	//counter := 0
 	// eat leading spaces and carriage returns (necessary??)
 	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
+	for i < len(h) && (h[i] == '\n' || h[i] == '\t' || h[i] == ' ') {
 		i++
 	}
 	for ; i < len(h); i++ {
@@ -508,7 +512,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 			nmessage += " "
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage += h[i : i+1]
 		}
 	}
 
@@ -520,7 +524,7 @@ func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error)
 	}
 
 	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return shp, err
 }
 
 /**
-- 
2.43.0


From deb413e170fd749e2196500c2e9e27b5678195da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 46/46] fix: compact form r selects the Refer-To parser

---
 sip/parser/ParserFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..819b50b 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -147,6 +147,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAcceptParser(line)
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
+	case "r":
+		parser = NewReferToParser(line)
 	default:
 		// Just generate a generic SIPHeader. We define
 		// parsers only for the above.
-- 
2.43.0

