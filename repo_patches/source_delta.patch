From 9721c07763f4034442d958711cc7aeb14c5b1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:54 +0000
Subject: [PATCH 001/152] fix: write each byte of a CSRC identifier at its own
 offset

---
 rtp/rtp.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 0760ec3..e932a2d 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -191,9 +191,9 @@ func (this *RTPHeader) Encode() []byte {
 
 	for i := uint8(0); i < this.csrccount; i++ {
 		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 24) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 16) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 8) & 0xFF)
-		packetbytes[SIZEOF_RTPHEADER+i*4+0] = byte((this.csrc[i] >> 0) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+1] = byte((this.csrc[i] >> 16) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+2] = byte((this.csrc[i] >> 8) & 0xFF)
+		packetbytes[SIZEOF_RTPHEADER+i*4+3] = byte((this.csrc[i] >> 0) & 0xFF)
 	}
 
 	return packetbytes
-- 
2.43.0


From 0b36776f3dd7f998e493994ce85e9d8825b63643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:57 +0000
Subject: [PATCH 002/152] fix: read all four bits of the CSRC count

---
 rtp/rtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index e932a2d..95bead3 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -128,7 +128,7 @@ func (this *RTPHeader) Parse(packetbytes []byte) error {
 		this.version = (packetbytes[0] >> 6) & RTP_HEADER_V_MSK
 		this.padding = (packetbytes[0] >> 5) & RTP_HEADER_P_MSK
 		this.extension = (packetbytes[0] >> 4) & RTP_HEADER_X_MSK
-		this.csrccount = packetbytes[0] & 0x07
+		this.csrccount = packetbytes[0] & RTP_HEADER_CC_MSK
 		this.marker = (packetbytes[1] >> 7) & RTP_HEADER_M_MSK
 		this.payloadtype = packetbytes[1] & RTP_HEADER_PT_MSK
 		//this.header_size = 12 + 4 * this.csrccount
-- 
2.43.0


From d9f34dce4c4efe5784fff89119fa31891c0e48d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:59 +0000
Subject: [PATCH 003/152] fix: allocate the words of a received header
 extension, and count its bytes in an int

---
 rtp/rtp.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 95bead3..50a6a17 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -231,7 +231,8 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 		return errors.New("invalid rtp extendsion header size. error id/length")
 	}
 
-	for i := uint16(0); i < this.length; i++ {
+	this.data = make([]uint32, this.length)
+	for i := 0; i < int(this.length); i++ {
 		this.data[i] = uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+0])<<24 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+1])<<16 |
 			uint32(packetbytes[SIZEOF_RTPEXTENSION+i*4+2])<<8 |
@@ -243,14 +244,14 @@ func (this *RTPExtension) Parse(packetbytes []byte) error {
 
 func (this *RTPExtension) Encode() []byte {
 	var packetbytes []byte
-	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+this.length*4)
+	packetbytes = make([]byte, SIZEOF_RTPEXTENSION+int(this.length)*4)
 
 	packetbytes[0] = byte((this.id >> 8) & 0xFF)
 	packetbytes[1] = byte((this.id >> 0) & 0xFF)
 	packetbytes[2] = byte((this.length >> 8) & 0xFF)
 	packetbytes[3] = byte((this.length >> 0) & 0xFF)
 
-	for i := uint16(0); i < this.length; i++ {
+	for i := 0; i < int(this.length); i++ {
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+0] = byte(this.data[i]>>24) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+1] = byte(this.data[i]>>16) & 0xFF
 		packetbytes[SIZEOF_RTPEXTENSION+i*4+2] = byte(this.data[i]>>8) & 0xFF
-- 
2.43.0


From cd1bb59158a75cf5dfff06acce9417771c92c030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 004/152] fix: give a received RTP packet its payload

---
 rtp/rtppacket.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rtp/rtppacket.go b/rtp/rtppacket.go
index a02a771..d7fe7a6 100644
--- a/rtp/rtppacket.go
+++ b/rtp/rtppacket.go
@@ -87,6 +87,7 @@ func (rp *RTPPacket) ParseRawPacket(rawpack *RawPacket) error {
 	if payloadlength < 0 {
 		return errors.New("invalid payload length.")
 	}
+	rp.payload = rp.packet[payloadoffset : payloadoffset+payloadlength]
 
 	return nil
 }
-- 
2.43.0


From f70fd379824aa23823349560271f4812e3c21458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 005/152] fix: an RTCP BYE or APP packet shorter than its
 header is of unknown format

---
 rtp/rtcpapppacket.go | 3 +++
 rtp/rtcpbyepacket.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 6fba17f..505a1f4 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -22,6 +22,9 @@ func NewRTCPAPPPacket(data []byte, datalen int) *RTCPAPPPacket {
 	this.knownformat = false
 
 	this.appdatalen = datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := this.data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index c994ce7..36107dd 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -23,6 +23,9 @@ func NewRTCPBYEPacket(data []byte, datalen int) *RTCPBYEPacket {
 
 	this.reasonoffset = 0
 	byelen := datalen
+	if datalen < SIZEOF_RTCPHEADER {
+		return this
+	}
 	if ((this.data[0] >> RTCP_HEADER_P_POS) & RTCP_HEADER_P_MSK) != 0 {
 		padcount := data[datalen-1]
 		if (padcount & 0x03) != 0 { // not a multiple of four! (see rfc 3550 p 37)
-- 
2.43.0


From 484f07a04d88148096bfd752426bccda8972f7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:07 +0000
Subject: [PATCH 006/152] fix: RTCP APP name and data and BYE reason end where
 their fields end

---
 rtp/rtcpapppacket.go | 4 ++--
 rtp/rtcpbyepacket.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rtp/rtcpapppacket.go b/rtp/rtcpapppacket.go
index 505a1f4..5fe47db 100644
--- a/rtp/rtcpapppacket.go
+++ b/rtp/rtcpapppacket.go
@@ -77,7 +77,7 @@ func (this *RTCPAPPPacket) GetName() []byte {
 		return nil
 	}
 
-	return this.data[SIZEOF_RTCPHEADER+4:] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
+	return this.data[SIZEOF_RTCPHEADER+4 : SIZEOF_RTCPHEADER+4*2] //(data+sizeof(RTCPCommonHeader)+sizeof(uint32_t));
 }
 
 /** Returns a pointer to the actual data. */
@@ -88,7 +88,7 @@ func (this *RTCPAPPPacket) GetAPPData() []byte {
 	if this.appdatalen == 0 {
 		return nil
 	}
-	return this.data[SIZEOF_RTCPHEADER+4*2:]
+	return this.data[SIZEOF_RTCPHEADER+4*2 : SIZEOF_RTCPHEADER+4*2+this.appdatalen]
 }
 
 /** Returns the length of the actual data. */
diff --git a/rtp/rtcpbyepacket.go b/rtp/rtcpbyepacket.go
index 36107dd..2c96f2e 100644
--- a/rtp/rtcpbyepacket.go
+++ b/rtp/rtcpbyepacket.go
@@ -116,7 +116,7 @@ func (this *RTCPBYEPacket) GetReasonData() []byte {
 	if reasonlen == 0 {
 		return nil
 	}
-	return this.data[this.reasonoffset+1:]
+	return this.data[this.reasonoffset+1 : this.reasonoffset+1+int(reasonlen)]
 }
 
 func (this *RTCPBYEPacket) Dump() {
-- 
2.43.0


From 4d11a28b3db16c9c0f67648b70668f0576aa0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:10 +0000
Subject: [PATCH 007/152] fix: a cloned IPAddress has its own bytes

---
 rtp/ipaddress.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 7af517d..94ef77f 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -69,7 +69,7 @@ func (this *IPAddress) IsFromSameHost(addr Address) bool {
 }
 
 func (this *IPAddress) Clone() Address {
-	return &IPAddress{ip: this.ip, port: this.port}
+	return &IPAddress{ip: append(net.IP(nil), this.ip...), port: this.port}
 }
 
 func (this *IPAddress) String() string {
-- 
2.43.0


From 4838b2ca11a2c00186eefd61abf1d6c2c7d82fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 008/152] fix: a host is classified as name, IPv4 or IPv6
 address by its text

---
 core/Host.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index c12eb69..144c57d 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -37,14 +37,22 @@ func NewHost(hname string) *Host {
 	host := &Host{}
 
 	host.hostname = hname
-	if host.isIPv6Address(hname) {
-		host.addressType = IPV6ADDRESS
-	}
-	host.addressType = IPV4ADDRESS
+	host.addressType = host.typeOf(hname)
 
 	return host
 }
 
+// typeOf tells a host name, an IPv4 address and an IPv6 address apart.
+func (host *Host) typeOf(name string) int {
+	if host.isIPv6Address(name) {
+		return IPV6ADDRESS
+	}
+	if net.ParseIP(strings.TrimSpace(name)) != nil {
+		return IPV4ADDRESS
+	}
+	return HOSTNAME
+}
+
 /** constructor
  * @param name String to set
  * @param addrType int to set
@@ -113,7 +121,9 @@ func (host *Host) GetIpAddress() string {
 		if host.inetAddress == nil {
 			host.inetAddress = net.ParseIP(host.hostname)
 		}
-		rawIpAddress = host.inetAddress.String() //getHostAddress();
+		if host.inetAddress != nil {
+			rawIpAddress = host.inetAddress.String() //getHostAddress();
+		}
 		//} catch (UnknownHostException ex) {
 		//    dbgPrint("Could not resolve hostname " + ex);
 		//}
@@ -129,11 +139,7 @@ func (host *Host) GetIpAddress() string {
  */
 func (host *Host) SetHostName(hname string) {
 	host.inetAddress = nil
-	if host.isIPv6Address(hname) {
-		host.addressType = IPV6ADDRESS
-	} else {
-		host.addressType = HOSTNAME
-	}
+	host.addressType = host.typeOf(hname)
 	// Null check bug fix sent in by jpaulo@ipb.pt
 	if hname != "" {
 		host.hostname = strings.ToLower(strings.TrimSpace(hname))
-- 
2.43.0


From 50d4ec3f826ba06e29e5a85a759feeca4c1ed356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:03 +0000
Subject: [PATCH 009/152] fix: peeking past the end of the buffer is an error
 and leaves the position alone

---
 core/CoreLexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index d98986b..8b8fa20 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -175,8 +175,8 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 				tok.tokenType = CORELEXER_ID
 			}
 		} else {
-			nextChar, err := coreLexer.GetNextChar()
-			if err != nil {
+			var nextChar byte
+			if nextChar, err = coreLexer.GetNextChar(); err != nil {
 				break
 			}
 			tok.tokenValue += string(nextChar)
-- 
2.43.0


From ff24a4b809f06916c238878e32bd4ef3bac53ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:08 +0000
Subject: [PATCH 010/152] fix: a token of one byte has that byte as its value

---
 core/CoreLexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 8b8fa20..07ed4e4 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -179,7 +179,7 @@ func (coreLexer *CoreLexer) PeekNextTokenK(ntokens int) ([]*Token, error) {
 			if nextChar, err = coreLexer.GetNextChar(); err != nil {
 				break
 			}
-			tok.tokenValue += string(nextChar)
+			tok.tokenValue += string([]byte{nextChar})
 			if coreLexer.IsAlpha(nextChar) {
 				tok.tokenType = CORELEXER_ALPHA
 			} else if coreLexer.IsDigit(nextChar) {
@@ -254,7 +254,7 @@ func (coreLexer *CoreLexer) Match(tok int) (t *Token, ParseException error) {
 		}
 		if next == ch {
 			coreLexer.currentMatch = &Token{}
-			coreLexer.currentMatch.tokenValue = string(ch)
+			coreLexer.currentMatch.tokenValue = string([]byte{ch})
 			coreLexer.currentMatch.tokenType = tok
 			coreLexer.ConsumeK(1)
 		} else {
-- 
2.43.0


From 95ab675c3996a5df7fdba7e3e5c7004b25394b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:12 +0000
Subject: [PATCH 011/152] fix: a quoted string or comment that does not start
 is an error

---
 core/CoreLexer.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 07ed4e4..34ae337 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -359,9 +359,12 @@ func (coreLexer *CoreLexer) QuotedString() (s string, err error) {
 	var retval bytes.Buffer
 	var next byte
 
-	if next, err = coreLexer.LookAheadK(0); next != '"' || err != nil {
+	if next, err = coreLexer.LookAheadK(0); err != nil {
 		return "", err
 	}
+	if next != '"' {
+		return "", errors.New("ParseException: quoted string expected")
+	}
 	coreLexer.ConsumeK(1)
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
@@ -388,9 +391,12 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 	var retval bytes.Buffer
 	var next byte
 
-	if next, err = coreLexer.LookAheadK(0); next != '(' || err != nil {
+	if next, err = coreLexer.LookAheadK(0); err != nil {
 		return "", err
 	}
+	if next != '(' {
+		return "", errors.New("ParseException: comment expected")
+	}
 	coreLexer.ConsumeK(1)
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
-- 
2.43.0


From bdb2ea7c8a41ddd8520f24a36d76ae4f8aa2ba59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 012/152] fix: a comment may hold nested comments

---
 core/CoreLexer.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/CoreLexer.go b/core/CoreLexer.go
index 34ae337..b151bbd 100644
--- a/core/CoreLexer.go
+++ b/core/CoreLexer.go
@@ -398,11 +398,17 @@ func (coreLexer *CoreLexer) Comment() (s string, err error) {
 		return "", errors.New("ParseException: comment expected")
 	}
 	coreLexer.ConsumeK(1)
+	depth := 1
 	for {
 		if next, err = coreLexer.GetNextChar(); err != nil {
 			break
 		}
-		if next == ')' {
+		if next == '(' {
+			depth++
+		} else if next == ')' {
+			depth--
+		}
+		if depth == 0 {
 			break
 			// } else if next == 0 { //'\0' {
 			// 	return "", errors.New("ParseException: unexpected EOL")
-- 
2.43.0


From d694a44522d10a28b36c2af3ca253d55a0e46433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:22 +0000
Subject: [PATCH 013/152] fix: an unterminated quoted value of a parameter is
 an error

---
 core/CoreParser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/CoreParser.go b/core/CoreParser.go
index 7aa0595..bd771a9 100644
--- a/core/CoreParser.go
+++ b/core/CoreParser.go
@@ -53,7 +53,9 @@ func (coreParser *CoreParser) NameValue(separator byte) (nv *NameValue, ParseExc
 		var str string
 
 		if la, err = coreParser.lexer.LookAheadK(0); la == '"' && err == nil {
-			str, _ = coreParser.lexer.QuotedString()
+			if str, ParseException = coreParser.lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
 			quoted = true
 		} else {
 			if _, ParseException = coreParser.lexer.Match(CORELEXER_ID); ParseException != nil {
-- 
2.43.0


From 531a453ac8a1fc3320bb33fad285027fe3dca7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:28 +0000
Subject: [PATCH 014/152] fix: a cloned parameter list keeps its parameters

---
 core/NameValueList.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 0115bb7..117add5 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -255,11 +255,10 @@ func (nameValueList *NameValueList) Clone() interface{} {
 	retval.stringRep = nameValueList.stringRep
 	retval.separator = nameValueList.separator
 
-	li := list.New()
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
 		nnv := nv.Clone().(*NameValue)
-		li.PushBack(nnv)
+		retval.PushBack(nnv)
 	}
 
 	return retval
-- 
2.43.0


From e4737e51483733b3550d7086fdeb63fbc8cd6aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:34 +0000
Subject: [PATCH 015/152] fix: concatenating parameter lists adds the
 parameters, not the list elements

---
 core/NameValueList.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 117add5..3c2eeb7 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -49,14 +49,13 @@ func (nameValueList *NameValueList) Concatenate(nvl *NameValueList, topFlag bool
 	if !topFlag {
 		//nameValueList.PushBackList(nvl)
 		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.PushBack(e)
+			nameValueList.PushBack(e.Value)
 		}
 	} else {
 		//nameValueList.PushFrontList(nvl)
-		// add given items to the end of the list.
-		first := nameValueList.Front()
-		for e := nvl.Front(); e != nil; e = e.Next() {
-		    nameValueList.InsertBefore(e, first)
+		// add given items to the front of the list.
+		for e := nvl.Back(); e != nil; e = e.Prev() {
+			nameValueList.PushFront(e.Value)
 		}
 	}
 }
-- 
2.43.0


From 4251d7164f1c40291ad8cc10628e8d72cbc34b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:39 +0000
Subject: [PATCH 016/152] fix: parameter names compare without regard to letter
 case

---
 core/NameValueList.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/NameValueList.go b/core/NameValueList.go
index 3c2eeb7..6508427 100644
--- a/core/NameValueList.go
+++ b/core/NameValueList.go
@@ -3,6 +3,7 @@ package core
 import (
 	"bytes"
 	"container/list"
+	"strings"
 )
 
 /**
@@ -201,7 +202,7 @@ func (nameValueList *NameValueList) GetValue(name string) interface{} {
 func (nameValueList *NameValueList) GetNameValue(name string) *NameValue {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			return nv
 		}
 	}
@@ -225,7 +226,7 @@ func (nameValueList *NameValueList) HasNameValue(name string) bool {
 func (nameValueList *NameValueList) Delete(name string) bool {
 	for e := nameValueList.Front(); e != nil; e = e.Next() {
 		nv := e.Value.(*NameValue)
-		if nv.GetName() == name {
+		if strings.EqualFold(nv.GetName(), name) {
 			nameValueList.Remove(e)
 			return true
 		}
-- 
2.43.0


From fba155706b8be3f7788e86daf5d7b82cd46c0afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:07 +0000
Subject: [PATCH 017/152] fix: the user@host:port of an address with a SIP URI
 is the URI's

---
 sip/address/AddressImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 83ae069..88de689 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -92,7 +92,7 @@ func (this *AddressImpl) GetPort() (int, error) {
  */
 func (this *AddressImpl) GetUserAtHostPort() string {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		sipuri.GetUserAtHostPort()
+		return sipuri.GetUserAtHostPort()
 	}
 	return this.address.String()
 }
-- 
2.43.0


From a1445b7f8367c6aeca0a741b1b8fb3c3bd92a300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:12 +0000
Subject: [PATCH 018/152] fix: an address with a SIP URI is a SIP address

---
 sip/address/AddressImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 88de689..d874a2d 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -241,7 +241,7 @@ func (this *AddressImpl) RemoveDisplayName() {
  *
  */
 func (this *AddressImpl) IsSIPAddress() bool {
-	_, ok := this.address.(SipURI)
+	_, ok := this.address.(*SipURIImpl)
 	return ok
 }
 
-- 
2.43.0


From a32a29c365e38779d7e38077b9620eee52cd1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 019/152] fix: parts that an address's URI lacks read as absent

---
 sip/address/AddressImpl.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index d874a2d..158aed4 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -78,7 +78,7 @@ func (this *AddressImpl) GetHostPort() (hp *core.HostPort, RuntimeException erro
  */
 func (this *AddressImpl) GetPort() (int, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetPort(), nil
+		return sipuri.GetPort(), nil
 	}
 	return -1, errors.New("RuntimeException: address is not a SipURIImpl")
 }
@@ -103,7 +103,10 @@ func (this *AddressImpl) GetUserAtHostPort() string {
  */
 func (this *AddressImpl) GetHost() (string, error) {
 	if sipuri, ok := this.address.(*SipURIImpl); ok {
-		return sipuri.GetHostPort().GetHost().GetHostName(), nil
+		if hp := sipuri.GetHostPort(); hp != nil && hp.GetHost() != nil {
+			return hp.GetHost().GetHostName(), nil
+		}
+		return "", nil
 	}
 
 	return "", errors.New("RuntimeException: address is not a SipURIImpl")
-- 
2.43.0


From 338fc283f85e85f5f9ce3835f63248b443be65b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:22 +0000
Subject: [PATCH 020/152] fix: parts that a SIP URI lacks read as absent

---
 sip/address/SipURIImpl.go | 47 +++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 075e3a3..6bb484d 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -174,8 +174,11 @@ func (this *SipURIImpl) String() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHost() string {
-	user := this.authority.GetUserInfo().GetUser()
-	host := this.authority.GetHost().String()
+	user := this.GetUser()
+	host := this.GetHost()
+	if user == "" {
+		return host
+	}
 	return user + core.SIPSeparatorNames_AT + host
 }
 
@@ -184,12 +187,9 @@ func (this *SipURIImpl) GetUserAtHost() string {
  * @return user@host portion of the uri (null if none exists).
  */
 func (this *SipURIImpl) GetUserAtHostPort() string {
-	var user string
-	if this.authority.GetUserInfo() != nil {
-		user = this.authority.GetUserInfo().GetUser()
-	}
-	host := this.authority.GetHost().String()
-	port := this.authority.GetPort()
+	user := this.GetUser()
+	host := this.GetHost()
+	port := this.GetPort()
 	// If port not set assign the default.
 	var s bytes.Buffer
 	if user != "" {
@@ -219,7 +219,7 @@ func (this *SipURIImpl) GetParm(parmname string) interface{} {
  * @return Method parameter.
  */
 func (this *SipURIImpl) GetMethod() string {
-	return this.GetParm(core.SIPTransportNames_METHOD).(string)
+	return this.GetParameter(core.SIPTransportNames_METHOD)
 }
 
 /**
@@ -251,7 +251,7 @@ func (this *SipURIImpl) GetQheaders() *core.NameValueList {
  * @return User parameter (user= phone or user=ip).
  */
 func (this *SipURIImpl) GetUserType() string {
-	return this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	return this.GetParameter(core.SIPTransportNames_USER)
 }
 
 /**
@@ -318,6 +318,9 @@ func (this *SipURIImpl) GetPort() int {
 * @return the host portion of the url.
  */
 func (this *SipURIImpl) GetHost() string {
+	if this.authority == nil || this.authority.GetHost() == nil {
+		return ""
+	}
 	return this.authority.GetHost().String()
 }
 
@@ -348,7 +351,7 @@ func (this *SipURIImpl) GetHost() string {
  * @return true if the user is a telephone subscriber.
  */
 func (this *SipURIImpl) IsUserTelephoneSubscriber() bool {
-	usrtype := this.uriParms.GetValue(core.SIPTransportNames_USER).(string)
+	usrtype := this.GetParameter(core.SIPTransportNames_USER)
 	if usrtype == "" {
 		return false
 	}
@@ -410,7 +413,9 @@ func (this *SipURIImpl) RemoveUserType() {
  *Remove the port setting.
  */
 func (this *SipURIImpl) RemovePort() {
-	this.authority.RemovePort()
+	if this.authority != nil {
+		this.authority.RemovePort()
+	}
 }
 
 /**
@@ -441,7 +446,9 @@ func (this *SipURIImpl) SetUser(uname string) {
 /** Remove the user.
  */
 func (this *SipURIImpl) RemoveUser() {
-	this.authority.RemoveUserInfo()
+	if this.authority != nil {
+		this.authority.RemoveUserInfo()
+	}
 }
 
 /** Set the default parameters for this URI.
@@ -677,11 +684,7 @@ func (this *SipURIImpl) GetLrParam() string {
  * @return the value of the <code>maddr</code> parameter
  */
 func (this *SipURIImpl) GetMAddrParam() string {
-	maddr := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	if maddr == nil {
-		return ""
-	}
-	return maddr.GetValue().(string)
+	return this.GetParameter(core.SIPTransportNames_MADDR)
 }
 
 /** Returns the value of the <code>method</code> parameter, or null if this
@@ -747,10 +750,7 @@ func (this *SipURIImpl) GetTTLParam() int {
  * @return the transport paramter of the SipURI
  */
 func (this *SipURIImpl) GetTransportParam() string {
-	if this.uriParms != nil {
-		return this.uriParms.GetValue(core.SIPTransportNames_TRANSPORT).(string)
-	}
-	return ""
+	return this.GetParameter(core.SIPTransportNames_TRANSPORT)
 }
 
 /** Returns the value of the <code>userParam</code>,
@@ -761,6 +761,9 @@ func (this *SipURIImpl) GetTransportParam() string {
  * @return the value of the <code>userParam</code> of the SipURI
  */
 func (this *SipURIImpl) GetUser() string {
+	if this.authority == nil {
+		return ""
+	}
 	return this.authority.GetUser()
 }
 
-- 
2.43.0


From f3673aedd46c7793a82849552279ec92c7ad44a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:27 +0000
Subject: [PATCH 021/152] fix: the ttl of a SIP URI is kept as text

---
 sip/address/SipURIImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 6bb484d..1594bb8 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -739,7 +739,9 @@ func (this *SipURIImpl) GetParameterNames() *list.List {
 func (this *SipURIImpl) GetTTLParam() int {
 	ttl := this.uriParms.GetValue("ttl")
 	if ttl != nil {
-		return ttl.(int)
+		if n, err := strconv.Atoi(ttl.(string)); err == nil {
+			return n
+		}
 	}
 	return -1
 }
@@ -906,7 +908,7 @@ func (this *SipURIImpl) SetTTLParam(ttl int) error {
 	}
 	if this.uriParms != nil {
 		this.uriParms.Delete("ttl")
-		nv := core.NewNameValue("ttl", ttl)
+		nv := core.NewNameValue("ttl", strconv.Itoa(ttl))
 		this.uriParms.AddNameValue(nv)
 	}
 
-- 
2.43.0


From 49d1def19987f61728f1c04f9b27ea25bae12a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:32 +0000
Subject: [PATCH 022/152] fix: the maddr of a SIP URI is kept as text

---
 sip/address/SipURIImpl.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 1594bb8..3c0d207 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -512,12 +512,10 @@ func (this *SipURIImpl) SetQheaders(parms *core.NameValueList) {
  */
 func (this *SipURIImpl) SetMAddr(mAddr string) {
 	nameValue := this.uriParms.GetNameValue(core.SIPTransportNames_MADDR)
-	host := &core.Host{}
-	host.SetAddress(mAddr)
 	if nameValue != nil {
-		nameValue.SetValue(host)
+		nameValue.SetValue(mAddr)
 	} else {
-		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, host)
+		nameValue = core.NewNameValue(core.SIPTransportNames_MADDR, mAddr)
 		this.uriParms.AddNameValue(nameValue)
 	}
 }
-- 
2.43.0


From f5ec166860ab1482cc5c1e23cb5be07875569c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:37 +0000
Subject: [PATCH 023/152] fix: setting a parameter of a SIP URI replaces its
 former value

---
 sip/address/SipURIImpl.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 3c0d207..c6a372d 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -495,8 +495,7 @@ func (this *SipURIImpl) SetUriParms(parms *core.NameValueList) {
          * @param value value of the parameter to set.
 */
 func (this *SipURIImpl) SetUriParm(name string, value interface{}) {
-	nv := core.NewNameValue(name, value)
-	this.uriParms.AddNameValue(nv)
+	this.uriParms.SetNameAndValue(name, value)
 }
 
 /** Set the qheaders member
@@ -535,7 +534,7 @@ func (this *SipURIImpl) SetUserParam(usertype string) {
  * @param method method parameter
  */
 func (this *SipURIImpl) SetMethod(method string) {
-	this.uriParms.AddNameAndValue(core.SIPTransportNames_METHOD, method)
+	this.uriParms.SetNameAndValue(core.SIPTransportNames_METHOD, method)
 }
 
 /**
-- 
2.43.0


From 98599805e4dd603beb182a55f3f5e22f802b2bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:43 +0000
Subject: [PATCH 024/152] fix: removing all headers of a SIP URI keeps their
 separator

---
 sip/address/SipURIImpl.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index c6a372d..982a93e 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -93,6 +93,7 @@ func (this *SipURIImpl) GetAuthority() *Authority {
  */
 func (this *SipURIImpl) ClearQheaders() {
 	this.qheaders = core.NewNameValueList("qheaders")
+	this.qheaders.SetSeparator("&")
 }
 
 /**
@@ -397,7 +398,7 @@ func (this *SipURIImpl) RemoveHeader(name string) {
 /** Remove all headers.
  */
 func (this *SipURIImpl) RemoveHeaders() {
-	this.qheaders = core.NewNameValueList("qheaders")
+	this.ClearQheaders()
 }
 
 /**
-- 
2.43.0


From 0b3f428109157f39f303e8c65d95275e296c9ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 025/152] fix: a flag parameter of a SIP URI is present

---
 sip/address/SipURIImpl.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 982a93e..734ab10 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -459,7 +459,7 @@ func (this *SipURIImpl) RemoveUser() {
  * @param value value of the parameter to set.
  */
 func (this *SipURIImpl) SetDefaultParm(name string, value interface{}) {
-	if this.uriParms.GetValue(name) == nil {
+	if !this.HasParameter(name) {
 		nv := core.NewNameValue(name, value)
 		this.uriParms.AddNameValue(nv)
 	}
@@ -571,7 +571,7 @@ func (this *SipURIImpl) SetPort(p int) {
  * @return a boolean indicating whether the parameter exists.
  */
 func (this *SipURIImpl) HasParameter(name string) bool {
-	return this.uriParms.GetValue(name) != nil
+	return this.uriParms.HasNameValue(name)
 }
 
 /** Set the query header when provided as a name-value pair.
@@ -819,7 +819,7 @@ func (this *SipURIImpl) SetHostString(host string) {
  * pre-existing route Set.
  */
 func (this *SipURIImpl) SetLrParam() {
-	if this.uriParms.GetValue("lr") != nil {
+	if this.HasLrParam() {
 		return
 	}
 	nv := core.NewNameValue("lr", nil)
-- 
2.43.0


From b4eb5d8dfca94bcec69c4bd4d15b3293772143e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:53 +0000
Subject: [PATCH 026/152] fix: an empty value makes a parameter of a SIP URI a
 flag

---
 sip/address/SipURIImpl.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index 734ab10..ce00e7c 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -876,9 +876,11 @@ func (this *SipURIImpl) SetParameter(name, value string) {
 			return
 		}
 	}
-	nv := core.NewNameValue(name, value)
-	this.uriParms.Delete(name)
-	this.uriParms.AddNameValue(nv)
+	if value == "" {
+		this.uriParms.SetNameAndValue(name, nil)
+	} else {
+		this.uriParms.SetNameAndValue(name, value)
+	}
 }
 
 /** Sets the scheme of this URI to sip or sips depending on whether the
-- 
2.43.0


From 45ea948ec37913982c5f4ac4390a27dd468ff535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:59 +0000
Subject: [PATCH 027/152] fix: a SIP URI may name any transport

---
 sip/address/SipURIImpl.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/sip/address/SipURIImpl.go b/sip/address/SipURIImpl.go
index ce00e7c..077c07e 100644
--- a/sip/address/SipURIImpl.go
+++ b/sip/address/SipURIImpl.go
@@ -929,15 +929,10 @@ func (this *SipURIImpl) SetTransportParam(transport string) error {
 	if transport == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	if strings.ToUpper(transport) == "UDP" ||
-		strings.ToUpper(transport) == "TCP" {
-		nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
-		this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
-		this.uriParms.AddNameValue(nv)
-		return nil
-	} else {
-		return errors.New("ParseException: bad transport " + transport)
-	}
+	nv := core.NewNameValue(core.SIPTransportNames_TRANSPORT, strings.ToLower(transport))
+	this.uriParms.Delete(core.SIPTransportNames_TRANSPORT)
+	this.uriParms.AddNameValue(nv)
+	return nil
 }
 
 /** Returns the user part of this SipURI, or null if it is not Set.
-- 
2.43.0


From 1de1d4ecc5f06bb052bc08f925ec6c367db6ecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 028/152] fix: a telephone number without post-dial or
 subaddress reads them as empty

---
 sip/address/TelphoneNumber.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index 0f5bcca..a329ceb 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -49,7 +49,7 @@ func (this *TelephoneNumber) GetPhoneNumber() string {
  * @return String
  */
 func (this *TelephoneNumber) GetPostDial() string {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL).(string)
+	return this.GetParameter(core.SIPTransportNames_POSTDIAL)
 }
 
 /**
@@ -57,14 +57,14 @@ func (this *TelephoneNumber) GetPostDial() string {
  * @return String
  */
 func (this *TelephoneNumber) GetIsdnSubaddress() string {
-	return this.parms.GetValue(core.SIPTransportNames_ISUB).(string)
+	return this.GetParameter(core.SIPTransportNames_ISUB)
 }
 
 /** returns true if th PostDial field exists
  * @return boolean
  */
 func (this *TelephoneNumber) HasPostDial() bool {
-	return this.parms.GetValue(core.SIPTransportNames_POSTDIAL) != nil
+	return this.HasParm(core.SIPTransportNames_POSTDIAL)
 }
 
 /** return true if this header has parameters.
-- 
2.43.0


From 239d59082e05fed52083715be46d5ab12412c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:09 +0000
Subject: [PATCH 029/152] fix: setting a parameter of a telephone number
 replaces its former value

---
 sip/address/TelphoneNumber.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/address/TelphoneNumber.go b/sip/address/TelphoneNumber.go
index a329ceb..ce59092 100644
--- a/sip/address/TelphoneNumber.go
+++ b/sip/address/TelphoneNumber.go
@@ -123,8 +123,7 @@ func (this *TelephoneNumber) SetGlobal(g bool) {
  * @param p String to set
  */
 func (this *TelephoneNumber) SetPostDial(p string) {
-	nv := core.NewNameValue(core.SIPTransportNames_POSTDIAL, p)
-	this.parms.AddNameValue(nv)
+	this.SetParm(core.SIPTransportNames_POSTDIAL, p)
 }
 
 /** set the specified parameter
@@ -132,8 +131,7 @@ func (this *TelephoneNumber) SetPostDial(p string) {
  * @param value Object to set
  */
 func (this *TelephoneNumber) SetParm(name string, value interface{}) {
-	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	this.parms.SetNameAndValue(name, value)
 }
 
 /**
@@ -213,6 +211,9 @@ func (this *TelephoneNumber) RemoveParameter(parameter string) {
 }
 
 func (this *TelephoneNumber) SetParameter(name, value string) {
-	nv := core.NewNameValue(name, value)
-	this.parms.AddNameValue(nv)
+	if value == "" {
+		this.SetParm(name, nil)
+	} else {
+		this.SetParm(name, value)
+	}
 }
-- 
2.43.0


From b6b38f933e6b0099b94207f1bd268d356f7b824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:14 +0000
Subject: [PATCH 030/152] fix: a new tel URL has a telephone number to set

---
 sip/address/TelURLImpl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/address/TelURLImpl.go b/sip/address/TelURLImpl.go
index 0e88a76..cff99d7 100644
--- a/sip/address/TelURLImpl.go
+++ b/sip/address/TelURLImpl.go
@@ -19,6 +19,7 @@ func NewTelURLImpl() *TelURLImpl {
 	this := &TelURLImpl{}
 
 	this.scheme = "tel"
+	this.telephoneNumber = NewTelephoneNumber()
 
 	return this
 }
-- 
2.43.0


From cd6f33f771c0ee3c4b32b9ed7424a2b5ff99dc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 031/152] fix: text that is not a URI is a parse error

---
 sip/parser/URLParser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed56f36..088a612 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -229,7 +229,10 @@ func (this *URLParser) UricString() string {
  */
 func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	var retval address.URI
-	vect, _ := this.GetLexer().PeekNextTokenK(2)
+	vect, err := this.GetLexer().PeekNextTokenK(2)
+	if err != nil {
+		return nil, this.CreateParseException("URI expected")
+	}
 	t1 := vect[0]
 	t2 := vect[1]
 
@@ -251,7 +254,11 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 		}
 	} else {
 		urlString := this.UricString()
-		retval = address.NewURIImpl(urlString)
+		uri := address.NewURIImpl(urlString)
+		if uri == nil {
+			return nil, this.CreateParseException("URI expected")
+		}
+		retval = uri
 	}
 
 	return retval, nil
-- 
2.43.0


From f81565ad75137ef277dcc9acaaaacbec4bf7f14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:26 +0000
Subject: [PATCH 032/152] fix: parse sips URIs

---
 sip/parser/SIPLexer.go  |  1 +
 sip/parser/SIPParser.go |  1 +
 sip/parser/URLParser.go | 16 ++++++++++++----
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/sip/parser/SIPLexer.go b/sip/parser/SIPLexer.go
index 1cf7eea..5ffea6c 100644
--- a/sip/parser/SIPLexer.go
+++ b/sip/parser/SIPLexer.go
@@ -139,6 +139,7 @@ func (this *SIPLexer) SelectLexer(lexerName string) {
 		} else if lexerName == "sip_urlLexer" {
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_TEL), TokenTypes_TEL)
 			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIP), TokenTypes_SIP)
+			this.AddKeyword(strings.ToUpper(core.SIPTransportNames_SIPS), TokenTypes_SIPS)
 		}
 	} /*else{
 		println("this.CurrentLexer() != nil");
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 145ab94..2dcf366 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -76,6 +76,7 @@ const TokenTypes_EVENT = TokenTypes_START + 63
 const TokenTypes_AUTHENTICATION_INFO = TokenTypes_START + 64
 const TokenTypes_ALLOW_EVENTS = TokenTypes_START + 65
 const TokenTypes_REFER_TO = TokenTypes_START + 66
+const TokenTypes_SIPS = TokenTypes_START + 67
 const TokenTypes_ALPHA = core.CORELEXER_ALPHA
 const TokenTypes_DIGIT = core.CORELEXER_DIGIT
 const TokenTypes_ID = core.CORELEXER_ID
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 088a612..5e83e15 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -236,7 +236,7 @@ func (this *URLParser) UriReference() (url address.URI, ParseException error) {
 	t1 := vect[0]
 	t2 := vect[1]
 
-	if t1.GetTokenType() == TokenTypes_SIP {
+	if t1.GetTokenType() == TokenTypes_SIP || t1.GetTokenType() == TokenTypes_SIPS {
 		if t2.GetTokenType() == ':' {
 			if retval, ParseException = this.SipURL(); ParseException != nil {
 				return nil, ParseException
@@ -410,9 +410,17 @@ func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException erro
 func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException error) {
 	retval := address.NewSipURIImpl()
 
-	this.GetLexer().Match(TokenTypes_SIP)
-	this.GetLexer().Match(':')
-	retval.SetScheme(core.SIPTransportNames_SIP)
+	scheme, err := this.GetLexer().PeekNextToken()
+	if err != nil || (scheme.GetTokenType() != TokenTypes_SIP && scheme.GetTokenType() != TokenTypes_SIPS) {
+		return nil, this.CreateParseException("Expecting sip or sips")
+	}
+	this.GetLexer().Match(scheme.GetTokenType())
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = retval.SetScheme(scheme.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	buffer := this.GetLexer().GetRest()
 	if n := strings.Index(buffer, "@"); n == -1 {
-- 
2.43.0


From 972582a4cfc47f15e7f167c0be1121b900b855ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 033/152] fix: the user part of a SIP URI is told by the URI,
 not by what follows it

---
 sip/parser/URLParser.go | 56 ++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 32 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 5e83e15..dd51ab7 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
-	"strings"
 )
 
 /** SIPParser For SIP and Tel URLs. Other kinds of URL's are handled by the
@@ -422,39 +421,31 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 		return nil, ParseException
 	}
 
-	buffer := this.GetLexer().GetRest()
-	if n := strings.Index(buffer, "@"); n == -1 {
-		// hostPort
-		hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-		hp, _ := hnp.GetHostPort()
-		retval.SetHostPort(hp)
-	} else {
-		var hp *core.HostPort
-		if n = strings.Index(buffer, ":"); n == -1 {
-			// name@hostPort
-			user, _ := this.User()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetHostPort(hp)
-		} else {
-			user, _ := this.User()
-			// name:password@hostPort
-			this.GetLexer().Match(':')
-			password, _ := this.Password()
-			this.GetLexer().Match('@')
-			hnp := core.NewHostNameParserFromLexer(this.GetLexer())
-			if hp, ParseException = hnp.GetHostPort(); ParseException != nil {
-				return nil, ParseException
-			}
-			retval.SetUser(user)
-			retval.SetUserPassword(password)
-			retval.SetHostPort(hp)
+	// user@hostPort or user:password@hostPort
+	mark := this.GetLexer().MarkInputPosition()
+	var user, password string
+	if user, ParseException = this.User(); ParseException != nil {
+		return nil, ParseException
+	}
+	if la, _ := this.GetLexer().LookAheadK(0); la == ':' {
+		this.GetLexer().ConsumeK(1)
+		if password, ParseException = this.Password(); ParseException != nil {
+			return nil, ParseException
 		}
 	}
+	if la, _ := this.GetLexer().LookAheadK(0); la == '@' && user != "" {
+		this.GetLexer().ConsumeK(1)
+		retval.SetUser(user)
+		retval.SetUserPassword(password)
+	} else {
+		// hostPort
+		this.GetLexer().RewindInputPosition(mark)
+	}
+	var hp *core.HostPort
+	if hp, ParseException = core.NewHostNameParserFromLexer(this.GetLexer()).GetHostPort(); ParseException != nil {
+		return nil, ParseException
+	}
+	retval.SetHostPort(hp)
 	this.GetLexer().SelectLexer("charLexer")
 	for this.GetLexer().HasMoreChars() {
 		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
@@ -577,6 +568,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
 			esc := this.GetLexer().NCharAsString(3)
+			this.GetLexer().ConsumeK(3)
 			retval.WriteString(esc)
 		} else {
 			break
-- 
2.43.0


From d9825d31ef230817014af0f724c10e1d985137d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 034/152] fix: an escape in a path segment is read as it is
 written

---
 sip/parser/URLParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index dd51ab7..f9a33f1 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -195,7 +195,7 @@ func (this *URLParser) Uric() string {
 func (this *URLParser) UricNoSlash() string {
 	la, _ := this.GetLexer().LookAheadK(0)
 	if this.IsEscaped() {
-		retval := this.GetLexer().CharAsString(3)
+		retval := this.GetLexer().NCharAsString(3)
 		this.GetLexer().ConsumeK(3)
 		return retval
 	} else if this.IsUnreserved(la) {
-- 
2.43.0


From 63cf3ce9761d8749ee1a74948e38188c4336a3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:38 +0000
Subject: [PATCH 035/152] fix: scanning a URL string moves forward

---
 sip/parser/URLParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index f9a33f1..f42dd96 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -532,7 +532,7 @@ func (this *URLParser) UrlString() (s string, ParseException error) {
 			la == '>' || la == '<' {
 			break
 		}
-		this.GetLexer().ConsumeK(0)
+		this.GetLexer().ConsumeK(1)
 		retval.WriteByte(la)
 	}
 	return retval.String(), nil
-- 
2.43.0


From c1748ad1f9de38089130d0ec7a570f8c1b751a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 036/152] fix: '=' is a reserved character of URIs

---
 sip/parser/URLParser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index f42dd96..de4d100 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -48,6 +48,7 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
@@ -123,6 +124,7 @@ func (this *URLParser) IsReserved(next byte) bool {
 		next == ':' ||
 		next == '@' ||
 		next == '&' ||
+		next == '=' ||
 		next == '+' ||
 		next == '$' ||
 		next == ','
-- 
2.43.0


From aa659d9027a491a5c536a423f2fc621003f56613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 037/152] fix: malformed headers and parameters of a SIP URI
 are parse errors

---
 sip/parser/URLParser.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index de4d100..20652a4 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -105,6 +105,9 @@ func (this *URLParser) UriParam() (nv *core.NameValue, ParseException error) {
 	if pname, ParseException = this.ParamNameOrValue(); ParseException != nil {
 		return nil, ParseException
 	}
+	if pname == "" {
+		return nil, this.CreateParseException("parameter name expected")
+	}
 	next, _ := this.GetLexer().LookAheadK(0)
 	if next == '=' {
 		this.GetLexer().ConsumeK(1)
@@ -463,14 +466,16 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 
 	if la, _ := this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la == '?' {
 		this.GetLexer().ConsumeK(1)
-		for this.GetLexer().HasMoreChars() {
-			parms, _ := this.Qheader()
+		for {
+			var parms *core.NameValue
+			if parms, ParseException = this.Qheader(); ParseException != nil {
+				return nil, ParseException
+			}
 			retval.SetQHeader(parms)
-			if la, _ = this.GetLexer().LookAheadK(0); this.GetLexer().HasMoreChars() && la != '&' {
+			if la, _ = this.GetLexer().LookAheadK(0); la != '&' {
 				break
-			} else {
-				this.GetLexer().ConsumeK(1)
 			}
+			this.GetLexer().ConsumeK(1)
 		}
 	}
 	return retval, nil
@@ -489,9 +494,19 @@ func (this *URLParser) PeekScheme() (s string, ParseException error) {
  * after the ?).
  */
 func (this *URLParser) Qheader() (nv *core.NameValue, ParseException error) {
-	name, _ := this.GetLexer().GetNextTokenByDelim('=')
-	this.GetLexer().ConsumeK(1)
-	value, _ := this.Hvalue()
+	var name, value string
+	if name, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
+	if name == "" {
+		return nil, this.CreateParseException("header name expected")
+	}
+	if _, ParseException = this.GetLexer().Match('='); ParseException != nil {
+		return nil, ParseException
+	}
+	if value, ParseException = this.Hvalue(); ParseException != nil {
+		return nil, ParseException
+	}
 	return core.NewNameValue(name, value), nil
 
 }
@@ -505,11 +520,14 @@ func (this *URLParser) Hvalue() (s string, ParseException error) {
 			la == '[' || la == ']' || la == '/' || la == '$' ||
 			la == '_' || la == '-' || la == '"' || la == '!' ||
 			la == '~' || la == '*' || la == '.' || la == '(' ||
-			la == ')' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
+			la == ')' || la == '\'' || this.GetLexer().IsAlpha(la) || this.GetLexer().IsDigit(la) {
 			this.GetLexer().ConsumeK(1)
 			retval.WriteByte(la)
 		} else if la == '%' {
-			str, _ := this.Escaped()
+			var str string
+			if str, ParseException = this.Escaped(); ParseException != nil {
+				return "", ParseException
+			}
 			retval.WriteString(str)
 		} else {
 			break
-- 
2.43.0


From d24ad1fb955a5a114420e0d2e1864953951c17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 038/152] fix: parse all parameters of a tel URL, and report
 malformed ones

---
 sip/parser/URLParser.go | 49 +++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index 20652a4..d06d5dd 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -286,6 +286,9 @@ func (this *URLParser) Base_phone_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexpected " + string(w))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("phone number expected")
+	}
 	return retval.String(), nil
 }
 
@@ -317,36 +320,40 @@ func (this *URLParser) Local_number() (s string, ParseException error) {
  *@return the parsed telephone number.
  */
 func (this *URLParser) ParseTelephoneNumber() (tn *address.TelephoneNumber, ParseException error) {
-	tn = address.NewTelephoneNumber()
-
 	this.GetLexer().SelectLexer("charLexer")
 
 	c, _ := this.GetLexer().LookAheadK(0)
 	if c == '+' {
-		tn, _ = this.Global_phone_number()
-	} else if this.GetLexer().IsAlpha(c) || this.GetLexer().IsDigit(c) ||
+		return this.Global_phone_number()
+	} else if this.GetLexer().IsDigit(c) ||
 		c == '-' || c == '*' || c == '.' ||
 		c == '(' || c == ')' || c == '#' {
-		tn, _ = this.Local_phone_number()
+		return this.Local_phone_number()
 	} else {
 		return nil, this.CreateParseException("unexpected char " + string(c))
 	}
-
-	return tn, nil
 }
 
 func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(true)
 
-	this.GetLexer().Match(core.CORELEXER_PLUS)
-	b, _ := this.Base_phone_number()
+	if _, ParseException = this.GetLexer().Match(core.CORELEXER_PLUS); ParseException != nil {
+		return nil, ParseException
+	}
+	var b string
+	if b, ParseException = this.Base_phone_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		}
 	}
@@ -356,14 +363,20 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseException error) {
 	tn = address.NewTelephoneNumber()
 	tn.SetGlobal(false)
-	b, _ := this.Local_number()
+	var b string
+	if b, ParseException = this.Local_number(); ParseException != nil {
+		return nil, ParseException
+	}
 	tn.SetPhoneNumber(b)
 	if this.GetLexer().HasMoreChars() {
 		tok, _ := this.GetLexer().PeekNextToken()
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
 			this.GetLexer().ConsumeK(1)
-			nv, _ := this.Tel_parameters()
+			var nv *core.NameValueList
+			if nv, ParseException = this.Tel_parameters(); ParseException != nil {
+				return nil, ParseException
+			}
 			tn.SetParameters(nv)
 		default:
 		}
@@ -378,9 +391,13 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
+		if nv.GetValue() == "" && !nv.IsValueQuoted() {
+			nv.SetValue(nil)
+		}
 		nvList.AddNameValue(nv)
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
+			this.GetLexer().ConsumeK(1)
 			continue
 		} else {
 			break
@@ -393,8 +410,12 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
  *@return a parsed tel url structure.
  */
 func (this *URLParser) TelURL() (telUrl *address.TelURLImpl, ParseException error) {
-	this.GetLexer().Match(TokenTypes_TEL)
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(TokenTypes_TEL); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	var tn *address.TelephoneNumber
 	if tn, ParseException = this.ParseTelephoneNumber(); ParseException != nil {
-- 
2.43.0


From 22320981f16e97d50d9942d604e7784b122f17b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:10 +0000
Subject: [PATCH 039/152] fix: an empty local phone number is a parse error

---
 sip/parser/URLParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index d06d5dd..cb2eeb5 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -312,6 +312,9 @@ func (this *URLParser) Local_number() (s string, ParseException error) {
 			return "", this.CreateParseException("unexepcted " + string(la))
 		}
 	}
+	if lc == 0 {
+		return "", this.CreateParseException("phone number expected")
+	}
 	return retval.String(), nil
 }
 
-- 
2.43.0


From e76f271d07b045d1a3c3a8bd0ee0fd17e4f1b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:14 +0000
Subject: [PATCH 040/152] fix: missing angle brackets and stray white space in
 addresses

---
 sip/parser/AddressParser.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index ee6cfc6..9d04abe 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -58,7 +58,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	} else {
 		addr = address.NewAddressImpl()
@@ -69,13 +71,16 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 				return nil, ParseException
 			}
 			lexer.SPorHT()
+			addr.SetDisplayName(name)
 		} else {
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			addr.SetDisplayName(strings.TrimSpace(name))
+		}
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
 		}
-		addr.SetDisplayName(strings.TrimSpace(name))
-		lexer.Match('<')
 		lexer.SPorHT()
 		uriParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
@@ -84,7 +89,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 		addr.SetAddressType(address.NAME_ADDR)
 		addr.SetURI(uri)
 		lexer.SPorHT()
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		return addr, nil
 	}
 }
@@ -92,6 +99,7 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 func (this *AddressParser) Address() (retval *address.AddressImpl, ParseException error) {
 	var ch byte
 	lexer := this.GetLexer()
+	lexer.SPorHT()
 	k := 0
 	for lexer.HasMoreChars() {
 		if ch, ParseException = lexer.LookAheadK(k); ch == '<' ||
-- 
2.43.0


From bc7e018379b2691734f9b2b51e82879f36008767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:35 +0000
Subject: [PATCH 041/152] fix: parameters after an addr-spec in Reply-To and
 Refer-To belong to the header, as in From and To

---
 sip/parser/AddressParametersParser.go | 17 +++++++++++++++++
 sip/parser/FromParser.go              | 14 +-------------
 sip/parser/ReferToParser.go           |  1 +
 sip/parser/ReplyToParser.go           |  7 +++++--
 sip/parser/ToParser.go                | 14 +-------------
 5 files changed, 25 insertions(+), 28 deletions(-)

diff --git a/sip/parser/AddressParametersParser.go b/sip/parser/AddressParametersParser.go
index 624ec6e..2338b5f 100644
--- a/sip/parser/AddressParametersParser.go
+++ b/sip/parser/AddressParametersParser.go
@@ -32,6 +32,23 @@ func (this *AddressParametersParser) superFromLexer(lexer core.Lexer) {
 	this.ParametersParser.superFromLexer(lexer)
 }
 
+// addrSpecParameters gives a header the parameters of its address when that is
+// a URI without angle brackets (RFC 3261 section 20).
+func (this *AddressParametersParser) addrSpecParameters(h header.AddressParametersHeader) {
+	addr, ok := h.GetAddress().(*address.AddressImpl)
+	if !ok || addr.GetAddressType() != address.ADDRESS_SPEC {
+		return
+	}
+	sipUri, ok := addr.GetURI().(*address.SipURIImpl)
+	if !ok || sipUri.GetUriParms() == nil || sipUri.GetUriParms().Len() == 0 {
+		return
+	}
+	parms := sipUri.GetUriParms()
+	parms.Concatenate(h.GetParameters(), false)
+	h.SetParameters(parms)
+	sipUri.RemoveUriParms()
+}
+
 func (this *AddressParametersParser) Parse(addressParametersHeader header.AddressParametersHeader) (ParseException error) {
 	addressParser := NewAddressParserFromLexer(this.GetLexer())
 	var addr *address.AddressImpl
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index c7aa786..6cfb3cd 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -37,18 +36,7 @@ func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	this.GetLexer().Match('\n')
-	addr := from.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if from.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := from.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				from.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
-	}
+	this.addrSpecParameters(from)
 
 	return from, nil
 }
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 7985945..8138e32 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -34,5 +34,6 @@ func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	lexer.Match('\n')
+	this.addrSpecParameters(referTo)
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index b6e0a60..98d9185 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -41,7 +41,10 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
-	ParseException = this.AddressParametersParser.Parse(replyTo)
+	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException != nil {
+		return nil, ParseException
+	}
+	this.addrSpecParameters(replyTo)
 
-	return replyTo, ParseException
+	return replyTo, nil
 }
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index 92d7c93..e698681 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -2,7 +2,6 @@ package parser
 
 import (
 	"github.com/use-go/gosips/core"
-	"github.com/use-go/gosips/sip/address"
 	"github.com/use-go/gosips/sip/header"
 )
 
@@ -35,17 +34,6 @@ func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	}
 
 	this.GetLexer().Match('\n')
-	addr := to.GetAddress().(*address.AddressImpl)
-	if addr.GetAddressType() == address.ADDRESS_SPEC {
-		// the parameters are header parameters.
-		if to.GetAddress().GetURI().IsSipURI() {
-			sipUri, _ := to.GetAddress().GetURI().(*address.SipURIImpl)
-			parms := sipUri.GetUriParms()
-			if parms != nil && parms.Len() > 0 {
-				to.SetParameters(parms)
-				sipUri.RemoveUriParms()
-			}
-		}
-	}
+	this.addrSpecParameters(to)
 	return to, nil
 }
-- 
2.43.0


From 4b4975d01a5605c73a1e3afd3958664a1a258f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:39 +0000
Subject: [PATCH 042/152] fix: a URI without angle brackets ends before ';',
 '?' or ','

---
 sip/parser/AddressParser.go |  1 +
 sip/parser/URLParser.go     | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index 9d04abe..0c7a52e 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -123,6 +123,7 @@ func (this *AddressParser) Address() (retval *address.AddressImpl, ParseExceptio
 		ch == '/' {
 		retval = address.NewAddressImpl()
 		uriParser := NewURLParserFromLexer(lexer)
+		uriParser.addrSpec = true
 
 		var uri address.URI
 		if uri, ParseException = uriParser.UriReference(); ParseException != nil {
diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index cb2eeb5..ed5714f 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -10,6 +10,10 @@ import (
  */
 type URLParser struct {
 	SIPParser
+
+	// The URI stands without angle brackets: ';', '?' and ',' end its user
+	// part, a tel URL and a URI that is not a SIP one (RFC 3261 section 20).
+	addrSpec bool
 }
 
 func NewURLParser(url string) *URLParser {
@@ -54,6 +58,11 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ','
 }
 
+// endsAddrSpec tells whether a character ends a URI without angle brackets.
+func (this *URLParser) endsAddrSpec(la byte) bool {
+	return this.addrSpec && (la == ';' || la == '?' || la == ',')
+}
+
 func (this *URLParser) IsUserUnreserved(la byte) bool {
 	return la == '&' ||
 		la == '=' ||
@@ -185,7 +194,7 @@ func (this *URLParser) Uric() string {
 	if this.IsUnreserved(la) {
 		this.GetLexer().ConsumeK(1)
 		return this.GetLexer().CharAsString(la)
-	} else if this.IsReserved(la) {
+	} else if this.IsReserved(la) && !this.endsAddrSpec(la) {
 		this.GetLexer().ConsumeK(1)
 		return this.GetLexer().CharAsString(la)
 	} else if this.IsEscaped() {
@@ -349,7 +358,7 @@ func (this *URLParser) Global_phone_number() (tn *address.TelephoneNumber, Parse
 		return nil, ParseException
 	}
 	tn.SetPhoneNumber(b)
-	if this.GetLexer().HasMoreChars() {
+	if this.GetLexer().HasMoreChars() && !this.addrSpec {
 		tok, _ := this.GetLexer().LookAheadK(0)
 		if tok == ';' {
 			this.GetLexer().ConsumeK(1)
@@ -371,7 +380,7 @@ func (this *URLParser) Local_phone_number() (tn *address.TelephoneNumber, ParseE
 		return nil, ParseException
 	}
 	tn.SetPhoneNumber(b)
-	if this.GetLexer().HasMoreChars() {
+	if this.GetLexer().HasMoreChars() && !this.addrSpec {
 		tok, _ := this.GetLexer().PeekNextToken()
 		switch tok.GetTokenType() {
 		case TokenTypes_SEMICOLON:
@@ -588,7 +597,7 @@ func (this *URLParser) User() (s string, ParseException error) {
 		la, _ := this.GetLexer().LookAheadK(0)
 
 		if this.IsUnreserved(la) ||
-			this.IsUserUnreserved(la) {
+			this.IsUserUnreserved(la) && !this.endsAddrSpec(la) {
 			retval.WriteByte(la)
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
@@ -607,7 +616,7 @@ func (this *URLParser) Password() (s string, ParseException error) {
 	for {
 		la, _ := this.GetLexer().LookAheadK(0)
 		if this.IsUnreserved(la) || la == '&' || la == '=' ||
-			la == '+' || la == '$' || la == ',' {
+			la == '+' || la == '$' || la == ',' && !this.addrSpec {
 			retval.WriteByte(la)
 			this.GetLexer().ConsumeK(1)
 		} else if this.IsEscaped() {
-- 
2.43.0


From 94e8017270bc65312a3a259d20d8ce6f2d139d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:09 +0000
Subject: [PATCH 043/152] fix: ParseSIPUrl and ParseUrl return an error or the
 URI

---
 sip/parser/StringMsgParser.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 6e02cad..f86a05b 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -470,8 +470,15 @@ func (this *StringMsgParser) ParSetelephoneNumber(telephone_number string) (*add
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error) {
-	sipuri, err := NewURLParser(url).Parse()
-	return sipuri.(*address.SipURIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	sipuri, ok := uri.(*address.SipURIImpl)
+	if !ok {
+		return nil, errors.New("ParseException: not a SIP URL " + url)
+	}
+	return sipuri, nil
 }
 
 /**
@@ -481,8 +488,14 @@ func (this *StringMsgParser) ParseSIPUrl(url string) (*address.SipURIImpl, error
  * @exception ParseException  if there was an error parsing the message.
  */
 func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
-	guri, err := NewURLParser(url).Parse()
-	return guri.(*address.URIImpl), err
+	uri, err := NewURLParser(url).Parse()
+	if err != nil {
+		return nil, err
+	}
+	if guri, ok := uri.(*address.URIImpl); ok {
+		return guri, nil
+	}
+	return address.NewURIImpl(uri.String()), nil
 }
 
 /**
-- 
2.43.0


From 73202a4e503b6b37a2e13ec68d98ec961e6d1bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:23 +0000
Subject: [PATCH 044/152] fix: header parsers return the errors of the lexer,
 of other parsers and of setters

---
 sip/parser/AcceptEncodingParser.go     | 32 +++++++++----
 sip/parser/AcceptLanguageParser.go     | 28 ++++++++---
 sip/parser/AcceptParser.go             | 40 ++++++++++++----
 sip/parser/AlertInfoParser.go          | 24 +++++++---
 sip/parser/AllowEventsParser.go        | 28 ++++++++---
 sip/parser/AllowParser.go              | 28 ++++++++---
 sip/parser/AuthenticationInfoParser.go | 12 +++--
 sip/parser/AuthorizationParser.go      |  4 +-
 sip/parser/CSeqParser.go               |  8 +++-
 sip/parser/CallIdParser.go             |  4 +-
 sip/parser/CallInfoParser.go           | 32 +++++++++----
 sip/parser/ChallengeParser.go          |  8 +++-
 sip/parser/ContactParser.go            | 12 +++--
 sip/parser/ContentDispositionParser.go | 16 +++++--
 sip/parser/ContentEncodingParser.go    | 24 +++++++---
 sip/parser/ContentLanguageParser.go    | 16 +++++--
 sip/parser/ContentLengthParser.go      |  8 +++-
 sip/parser/ContentTypeParser.go        | 20 ++++++--
 sip/parser/DateParser.go               |  4 +-
 sip/parser/ErrorInfoParser.go          | 24 +++++++---
 sip/parser/EventParser.go              | 16 +++++--
 sip/parser/ExpiresParser.go            | 12 +++--
 sip/parser/FromParser.go               |  8 +++-
 sip/parser/HeaderParser.go             |  7 ++-
 sip/parser/InReplyToParser.go          | 52 +++++++++++++++------
 sip/parser/MaxForwardsParser.go        |  8 +++-
 sip/parser/MimeVersionParser.go        | 20 ++++++--
 sip/parser/MinExpiresParser.go         | 12 +++--
 sip/parser/OrganizationParser.go       |  4 +-
 sip/parser/PriorityParser.go           | 16 +++++--
 sip/parser/ProxyAuthenticateParser.go  |  4 +-
 sip/parser/ProxyAuthorizationParser.go |  4 +-
 sip/parser/ProxyRequireParser.go       | 24 +++++++---
 sip/parser/RAckParser.go               | 24 +++++++---
 sip/parser/RSeqParser.go               | 12 +++--
 sip/parser/ReasonParser.go             | 16 +++++--
 sip/parser/RecordRouteParser.go        | 12 +++--
 sip/parser/ReferToParser.go            |  8 +++-
 sip/parser/ReplyToParser.go            |  4 +-
 sip/parser/RequireParser.go            | 24 +++++++---
 sip/parser/RetryAfterParser.go         | 36 +++++++++++----
 sip/parser/RouteParser.go              | 12 +++--
 sip/parser/ServerParser.go             |  4 +-
 sip/parser/SubjectParser.go            |  4 +-
 sip/parser/SubscriptionStateParser.go  | 64 +++++++++++++++++++-------
 sip/parser/SupportedParser.go          | 24 +++++++---
 sip/parser/TimeStampParser.go          | 20 ++++++--
 sip/parser/ToParser.go                 |  8 +++-
 sip/parser/UnsupportedParser.go        | 24 +++++++---
 sip/parser/UserAgentParser.go          |  4 +-
 sip/parser/ViaParser.go                | 44 +++++++++++++-----
 sip/parser/WWWAuthenticateParser.go    |  4 +-
 sip/parser/WarningParser.go            | 44 +++++++++++++-----
 53 files changed, 711 insertions(+), 240 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 896aa62..c6841f8 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -62,7 +62,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// empty body is fine for this header.
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
@@ -72,19 +74,31 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
-				acceptEncoding.SetEncoding(value.GetTokenValue())
+				if ParseException = acceptEncoding.SetEncoding(value.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			}
 
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				lexer.Match(';')
+				if _, ParseException = lexer.Match(';'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('q')
+				if _, ParseException = lexer.Match('q'); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match('=')
+				if _, ParseException = lexer.Match('='); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 
 				var qv float64
@@ -99,7 +113,9 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 
 			acceptEncodingList.PushBack(acceptEncoding)
 			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				lexer.Match(',')
+				if _, ParseException = lexer.Match(','); ParseException != nil {
+					return nil, ParseException
+				}
 				lexer.SPorHT()
 			}
 
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index cab954d..016a372 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -56,25 +56,37 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(';')
+			if _, ParseException = lexer.Match(';'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('q')
+			if _, ParseException = lexer.Match('q'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			value := lexer.GetNextToken()
 
 			var qv float64
@@ -91,7 +103,9 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 
 		acceptLanguageList.PushBack(acceptLanguage)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 705d87d..4c22943 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -47,39 +47,59 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ACCEPT)
+	if ParseException = this.HeaderName(TokenTypes_ACCEPT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	accept := header.NewAccept()
 	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	accept.SetContentType(token.GetTokenValue())
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token = lexer.GetNextToken()
 	accept.SetContentSubType(token.GetTokenValue())
 	lexer.SPorHT()
 
-	this.ParametersParser.Parse(accept)
+	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+		return nil, ParseException
+	}
 	acceptList.PushBack(accept)
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		accept = header.NewAccept()
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
-		lexer.Match('/')
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match('/'); ParseException != nil {
+			return nil, ParseException
+		}
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
 		lexer.SPorHT()
-		this.ParametersParser.Parse(accept)
+		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
+			return nil, ParseException
+		}
 		acceptList.PushBack(accept)
 
 	}
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 59550d3..65b01d5 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -50,20 +50,26 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALERT_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ALERT_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		alertInfo := header.NewAlertInfo()
 		alertInfo.SetHeaderName(core.SIPHeaderNames_ALERT_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		alertInfo.SetAlertInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
@@ -72,17 +78,23 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 		alertInfoList.PushBack(alertInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			alertInfo = header.NewAlertInfo()
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			alertInfo.SetAlertInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(alertInfo); ParseException != nil {
diff --git a/sip/parser/AllowEventsParser.go b/sip/parser/AllowEventsParser.go
index f22555b..8b31670 100644
--- a/sip/parser/AllowEventsParser.go
+++ b/sip/parser/AllowEventsParser.go
@@ -40,33 +40,47 @@ func (this *AllowEventsParser) Parse() (sh header.Header, ParseException error)
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW_EVENTS)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW_EVENTS); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEvents := header.NewAllowEvents()
 	allowEvents.SetHeaderName(core.SIPHeaderNames_ALLOW_EVENTS)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	allowEvents.SetEventType(token.GetTokenValue())
+	if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowEventsList.PushBack(allowEvents)
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allowEvents = header.NewAllowEvents()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
-		allowEvents.SetEventType(token.GetTokenValue())
+		if ParseException = allowEvents.SetEventType(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowEventsList.PushBack(allowEvents)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowEventsList, nil
 }
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index 395c987..c2e9772 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -40,32 +40,46 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 	var ch byte
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ALLOW)
+	if ParseException = this.HeaderName(TokenTypes_ALLOW); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allow := header.NewAllow()
 	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	allow.SetMethod(token.GetTokenValue())
+	if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	allowList.PushBack(allow)
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		allow = header.NewAllow()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
-		allow.SetMethod(token.GetTokenValue())
+		if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		allowList.PushBack(allow)
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return allowList, nil
 }
diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index 3959051..ed7bcfb 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -39,7 +39,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 	var ch byte
 	var nv *core.NameValue
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_AUTHENTICATION_INFO)
+	if ParseException = this.HeaderName(TokenTypes_AUTHENTICATION_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	authenticationInfo := header.NewAuthenticationInfo()
 	authenticationInfo.SetHeaderName(core.SIPHeaderNames_AUTHENTICATION_INFO)
@@ -53,7 +55,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
@@ -64,7 +68,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return authenticationInfo, nil
 }
diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index ef04392..038cecc 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -34,7 +34,9 @@ func NewAuthorizationParserFromLexer(lexer core.Lexer) *AuthorizationParser {
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	auth := header.NewAuthorization()
 	ParseException = this.ChallengeParser.Parse(auth)
 	return auth, ParseException
diff --git a/sip/parser/CSeqParser.go b/sip/parser/CSeqParser.go
index 8f3c5fa..6c8f02f 100644
--- a/sip/parser/CSeqParser.go
+++ b/sip/parser/CSeqParser.go
@@ -31,7 +31,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_CSEQ)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	var number int
@@ -45,7 +47,9 @@ func (this *CSeqParser) Parse() (sh header.Header, ParseException error) {
 	}
 	//c.SetMethod(m);
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	c := header.NewCSeq(number, method)
 
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index afc7375..647c7bb 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -46,7 +46,9 @@ func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_CALL_ID)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	rest := strings.TrimSpace(lexer.GetRest())
 
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index a798f87..68412e2 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -42,42 +42,58 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CALL_INFO)
+	if ParseException = this.HeaderName(TokenTypes_CALL_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		callInfo := header.NewCallInfo()
 		callInfo.SetHeaderName(core.SIPHeaderNames_CALL_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		callInfo.SetInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
-		this.ParametersParser.Parse(callInfo)
+		if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+			return nil, ParseException
+		}
 		callInfoList.PushBack(callInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			callInfo = header.NewCallInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			callInfo.SetInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
-			this.ParametersParser.Parse(callInfo)
+			if ParseException = this.ParametersParser.Parse(callInfo); ParseException != nil {
+				return nil, ParseException
+			}
 			callInfoList.PushBack(callInfo)
 		}
 	}
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index 4b273c4..fd00ced 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -59,7 +59,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	lexer := this.GetLexer()
 	// the Scheme:
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	h.SetScheme(t.GetTokenValue())
@@ -73,7 +75,9 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
 			break
 		}
-		lexer.Match(',')
+		if _, ParseException = lexer.Match(','); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 	}
 	return nil
diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index b7bb1e8..0cc344c 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -31,11 +31,15 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	// past the header name and the colon.
 	lexer := this.GetLexer()
 	var la byte
-	this.HeaderName(TokenTypes_CONTACT)
+	if ParseException = this.HeaderName(TokenTypes_CONTACT); ParseException != nil {
+		return nil, ParseException
+	}
 	for {
 		contact := header.NewContact()
 		if la, _ = lexer.LookAheadK(0); la == '*' {
-			lexer.Match('*')
+			if _, ParseException = lexer.Match('*'); ParseException != nil {
+				return nil, ParseException
+			}
 			contact.SetWildCardFlag(true)
 		} else {
 			if ParseException = this.AddressParametersParser.Parse(contact); ParseException != nil {
@@ -51,7 +55,9 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 		retval.AddContact(contact)
 		lexer.SPorHT()
 		if la, _ = lexer.LookAheadK(0); la == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if la, _ = lexer.LookAheadK(0); la == '\n' {
 			break
diff --git a/sip/parser/ContentDispositionParser.go b/sip/parser/ContentDispositionParser.go
index 018d5a0..e9e9ccf 100644
--- a/sip/parser/ContentDispositionParser.go
+++ b/sip/parser/ContentDispositionParser.go
@@ -36,23 +36,31 @@ func NewContentDispositionParserFromLexer(lexer core.Lexer) *ContentDispositionP
  */
 func (this *ContentDispositionParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_DISPOSITION)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_DISPOSITION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	cd := header.NewContentDisposition()
 	cd.SetHeaderName(core.SIPHeaderNames_CONTENT_DISPOSITION)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 
 	token := lexer.GetNextToken()
-	cd.SetDispositionType(token.GetTokenValue())
+	if ParseException = cd.SetDispositionType(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if ParseException = this.ParametersParser.Parse(cd); ParseException != nil {
 		return nil, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return cd, nil
 }
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index 558b19f..fbc3e48 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -39,29 +39,41 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_ENCODING)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_ENCODING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentEncoding()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_ENCODING)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
-		cl.SetEncoding(token.GetTokenValue())
+		if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 
 		lexer.SPorHT()
 		contentEncodingList.PushBack(cl)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentEncoding()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
-			cl.SetEncoding(token.GetTokenValue())
+			if ParseException = cl.SetEncoding(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index aa526aa..7d92952 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -39,14 +39,18 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LANGUAGE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LANGUAGE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		cl := header.NewContentLanguage()
 		cl.SetHeaderName(core.SIPHeaderNames_CONTENT_LANGUAGE)
 
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 
 		token := lexer.GetNextToken()
 		cl.SetContentLanguage(token.GetTokenValue())
@@ -56,9 +60,13 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 			cl = header.NewContentLanguage()
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 			token = lexer.GetNextToken()
 			cl.SetContentLanguage(token.GetTokenValue())
diff --git a/sip/parser/ContentLengthParser.go b/sip/parser/ContentLengthParser.go
index eb1ffbf..6207c1f 100644
--- a/sip/parser/ContentLengthParser.go
+++ b/sip/parser/ContentLengthParser.go
@@ -27,7 +27,9 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 	var number int
 	contentLength := header.NewContentLength()
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_LENGTH)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_LENGTH); ParseException != nil {
+		return nil, ParseException
+	}
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
@@ -35,6 +37,8 @@ func (this *ContentLengthParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	return contentLength, nil
 }
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index d298c81..1ac6ab2 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -27,24 +27,34 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	contentType := header.NewContentType()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_CONTENT_TYPE)
+	if ParseException = this.HeaderName(TokenTypes_CONTENT_TYPE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// The type:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	t := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentType(t.GetTokenValue())
 
 	// The sub-type:
-	lexer.Match('/')
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	subType := lexer.GetNextToken()
 	lexer.SPorHT()
 	contentType.SetContentSubType(subType.GetTokenValue())
 	if ParseException = this.ParametersParser.Parse(contentType); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentType, nil
 }
diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index e216dc6..abcda2e 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -36,7 +36,9 @@ func NewDateParserFromLexer(lexer core.Lexer) *DateParser {
  */
 func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_DATE)
+	if ParseException = this.HeaderName(TokenTypes_DATE); ParseException != nil {
+		return nil, ParseException
+	}
 	var t time.Time
 	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
 		return nil, ParseException
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 12350e0..18c3b9b 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -44,20 +44,26 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 	var uri address.URI
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ERROR_INFO)
+	if ParseException = this.HeaderName(TokenTypes_ERROR_INFO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		errorInfo := header.NewErrorInfo()
 		errorInfo.SetHeaderName(core.SIPHeaderNames_ERROR_INFO)
 
 		lexer.SPorHT()
-		lexer.Match('<')
+		if _, ParseException = lexer.Match('<'); ParseException != nil {
+			return nil, ParseException
+		}
 		urlParser := NewURLParserFromLexer(lexer)
 		if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 			return nil, ParseException
 		}
 		errorInfo.SetErrorInfo(uri)
-		lexer.Match('>')
+		if _, ParseException = lexer.Match('>'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
@@ -66,19 +72,25 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 		errorInfoList.PushBack(errorInfo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			errorInfo = header.NewErrorInfo()
 
 			lexer.SPorHT()
-			lexer.Match('<')
+			if _, ParseException = lexer.Match('<'); ParseException != nil {
+				return nil, ParseException
+			}
 			urlParser = NewURLParserFromLexer(lexer)
 			if uri, ParseException = urlParser.UriReference(); ParseException != nil {
 				return nil, ParseException
 			}
 			errorInfo.SetErrorInfo(uri)
-			lexer.Match('>')
+			if _, ParseException = lexer.Match('>'); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			if ParseException = this.ParametersParser.Parse(errorInfo); ParseException != nil {
diff --git a/sip/parser/EventParser.go b/sip/parser/EventParser.go
index e3a5375..d1798d3 100644
--- a/sip/parser/EventParser.go
+++ b/sip/parser/EventParser.go
@@ -36,21 +36,29 @@ func NewEventParserFromLexer(lexer core.Lexer) *EventParser {
  */
 func (this *EventParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_EVENT)
+	if ParseException = this.HeaderName(TokenTypes_EVENT); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 
 	event := header.NewEvent()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 	value := token.GetTokenValue()
 
-	event.SetEventType(value)
+	if ParseException = event.SetEventType(value); ParseException != nil {
+		return nil, ParseException
+	}
 	if ParseException = this.ParametersParser.Parse(event); ParseException != nil {
 		return nil, ParseException
 	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return event, nil
 }
diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index a2b8443..8ed5911 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -39,14 +39,20 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_EXPIRES)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	var delta int64
 	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
 		return nil, ParseException
 	}
-	expires.SetExpires(int(delta))
+	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
+		return nil, ParseException
+	}
 	return expires, ParseException
 }
diff --git a/sip/parser/FromParser.go b/sip/parser/FromParser.go
index 6cfb3cd..8e0f801 100644
--- a/sip/parser/FromParser.go
+++ b/sip/parser/FromParser.go
@@ -29,13 +29,17 @@ func NewFromParserFromLexer(lexer core.Lexer) *FromParser {
 
 func (this *FromParser) Parse() (sh header.Header, ParseException error) {
 	from := header.NewFrom()
-	this.HeaderName(TokenTypes_FROM)
+	if ParseException = this.HeaderName(TokenTypes_FROM); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(from); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	this.addrSpecParameters(from)
 
 	return from, nil
diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index e10bf88..93ada27 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -70,9 +70,12 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 
 /** Parse the header name until the colon  and chew WS after that.
  */
-func (this *HeaderParser) HeaderName(tok int) {
+func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
 	this.GetLexer().Match(tok)
 	this.GetLexer().SPorHT()
-	this.GetLexer().Match(':')
+	if _, ParseException = this.GetLexer().Match(':'); ParseException != nil {
+		return ParseException
+	}
 	this.GetLexer().SPorHT()
+	return nil
 }
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index e28bba5..10afd53 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -38,22 +38,34 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_IN_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_IN_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		inReplyTo := header.NewInReplyTo()
 		inReplyTo.SetHeaderName(core.SIPHeaderNames_IN_REPLY_TO)
 
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		if ch, _ = lexer.LookAheadK(0); ch == '@' {
-			lexer.Match('@')
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match('@'); ParseException != nil {
+				return nil, ParseException
+			}
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secToken := lexer.GetNextToken()
-			inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-				secToken.GetTokenValue())
+			if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" +
+				secToken.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
-			inReplyTo.SetCallId(token.GetTokenValue())
+			if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 		}
 
 		lexer.SPorHT()
@@ -61,21 +73,33 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 		inReplyToList.PushBack(inReplyTo)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			inReplyTo = header.NewInReplyTo()
 
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			if ch, _ = lexer.LookAheadK(0); ch == '@' {
-				lexer.Match('@')
-				lexer.Match(TokenTypes_ID)
+				if _, ParseException = lexer.Match('@'); ParseException != nil {
+					return nil, ParseException
+				}
+				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				secToken := lexer.GetNextToken()
-				inReplyTo.SetCallId(token.GetTokenValue() + "@" +
-					secToken.GetTokenValue())
+				if ParseException = inReplyTo.SetCallId(token.GetTokenValue() + "@" +
+					secToken.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			} else {
-				inReplyTo.SetCallId(token.GetTokenValue())
+				if ParseException = inReplyTo.SetCallId(token.GetTokenValue()); ParseException != nil {
+					return nil, ParseException
+				}
 			}
 
 			inReplyToList.PushBack(inReplyTo)
diff --git a/sip/parser/MaxForwardsParser.go b/sip/parser/MaxForwardsParser.go
index ed4bd0b..42d8d5b 100644
--- a/sip/parser/MaxForwardsParser.go
+++ b/sip/parser/MaxForwardsParser.go
@@ -28,7 +28,9 @@ func (this *MaxForwardsParser) super(hname string) {
 
 func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error) {
 	contentLength := header.NewMaxForwards()
-	this.HeaderName(TokenTypes_MAX_FORWARDS)
+	if ParseException = this.HeaderName(TokenTypes_MAX_FORWARDS); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer := this.GetLexer()
 
 	var number int
@@ -39,7 +41,9 @@ func (this *MaxForwardsParser) Parse() (sh header.Header, ParseException error)
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return contentLength, nil
 }
diff --git a/sip/parser/MimeVersionParser.go b/sip/parser/MimeVersionParser.go
index 6b74bfb..5d0e7f6 100644
--- a/sip/parser/MimeVersionParser.go
+++ b/sip/parser/MimeVersionParser.go
@@ -37,7 +37,9 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	mimeVersion := header.NewMimeVersion()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIME_VERSION)
+	if ParseException = this.HeaderName(TokenTypes_MIME_VERSION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	mimeVersion.SetHeaderName(core.SIPHeaderNames_MIME_VERSION)
 
@@ -45,16 +47,24 @@ func (this *MimeVersionParser) Parse() (sh header.Header, ParseException error)
 	if majorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMajorVersion(majorVersion)
-	lexer.Match('.')
+	if ParseException = mimeVersion.SetMajorVersion(majorVersion); ParseException != nil {
+		return nil, ParseException
+	}
+	if _, ParseException = lexer.Match('.'); ParseException != nil {
+		return nil, ParseException
+	}
 	if minorVersion, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	mimeVersion.SetMinorVersion(minorVersion)
+	if ParseException = mimeVersion.SetMinorVersion(minorVersion); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return mimeVersion, nil
 }
diff --git a/sip/parser/MinExpiresParser.go b/sip/parser/MinExpiresParser.go
index 05c5f54..396c0a9 100644
--- a/sip/parser/MinExpiresParser.go
+++ b/sip/parser/MinExpiresParser.go
@@ -37,7 +37,9 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 	minExpires := header.NewMinExpires()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_MIN_EXPIRES)
+	if ParseException = this.HeaderName(TokenTypes_MIN_EXPIRES); ParseException != nil {
+		return nil, ParseException
+	}
 
 	minExpires.SetHeaderName(core.SIPHeaderNames_MIN_EXPIRES)
 
@@ -46,11 +48,15 @@ func (this *MinExpiresParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	minExpires.SetExpires(number)
+	if ParseException = minExpires.SetExpires(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return minExpires, nil
 }
diff --git a/sip/parser/OrganizationParser.go b/sip/parser/OrganizationParser.go
index bf0403b..0cda863 100644
--- a/sip/parser/OrganizationParser.go
+++ b/sip/parser/OrganizationParser.go
@@ -38,7 +38,9 @@ func (this *OrganizationParser) Parse() (sh header.Header, ParseException error)
 	organization := header.NewOrganization()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_ORGANIZATION)
+	if ParseException = this.HeaderName(TokenTypes_ORGANIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 
 	organization.SetHeaderName(core.SIPHeaderNames_ORGANIZATION)
 
diff --git a/sip/parser/PriorityParser.go b/sip/parser/PriorityParser.go
index 9c672be..255a91b 100644
--- a/sip/parser/PriorityParser.go
+++ b/sip/parser/PriorityParser.go
@@ -37,18 +37,26 @@ func (this *PriorityParser) Parse() (sh header.Header, ParseException error) {
 	priority := header.NewPriority()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PRIORITY)
+	if ParseException = this.HeaderName(TokenTypes_PRIORITY); ParseException != nil {
+		return nil, ParseException
+	}
 
 	priority.SetHeaderName(core.SIPHeaderNames_PRIORITY)
 
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
 
-	priority.SetPriority(token.GetTokenValue())
+	if ParseException = priority.SetPriority(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return priority, nil
 }
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index cf27453..d47b616 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthenticateParserFromLexer(lexer core.Lexer) *ProxyAuthenticatePar
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
 	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
 	return proxyAuthenticate, ParseException
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index 88fc298..e5592ac 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -34,7 +34,9 @@ func NewProxyAuthorizationParserFromLexer(lexer core.Lexer) *ProxyAuthorizationP
  * @throws ParseException if the message does not respect the spec.
  */
 func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_PROXY_AUTHORIZATION)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_AUTHORIZATION); ParseException != nil {
+		return nil, ParseException
+	}
 	proxyAuth := header.NewProxyAuthorization()
 	ParseException = this.ChallengeParser.Parse(proxyAuth)
 	return proxyAuth, ParseException
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 69fbaec..139a8a7 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -38,30 +38,42 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_PROXY_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_PROXY_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewProxyRequire()
 		r.SetHeaderName(core.SIPHeaderNames_PROXY_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		r.SetOptionTag(token.GetTokenValue())
+		if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		proxyRequireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewProxyRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			r.SetOptionTag(token.GetTokenValue())
+			if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			proxyRequireList.PushBack(r)
diff --git a/sip/parser/RAckParser.go b/sip/parser/RAckParser.go
index b0adc17..478006a 100644
--- a/sip/parser/RAckParser.go
+++ b/sip/parser/RAckParser.go
@@ -37,7 +37,9 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	rack := header.NewRAck()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RACK)
+	if ParseException = this.HeaderName(TokenTypes_RACK); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rack.SetHeaderName(core.SIPHeaderNames_RACK)
 
@@ -45,19 +47,29 @@ func (this *RAckParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetRSeqNumber(number)
+	if ParseException = rack.SetRSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rack.SetCSeqNumber(number)
+	if ParseException = rack.SetCSeqNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	rack.SetMethod(token.GetTokenValue())
+	if ParseException = rack.SetMethod(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rack, nil
 }
diff --git a/sip/parser/RSeqParser.go b/sip/parser/RSeqParser.go
index ae7f2aa..ecd4888 100644
--- a/sip/parser/RSeqParser.go
+++ b/sip/parser/RSeqParser.go
@@ -37,7 +37,9 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	rseq := header.NewRSeq()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RSEQ)
+	if ParseException = this.HeaderName(TokenTypes_RSEQ); ParseException != nil {
+		return nil, ParseException
+	}
 
 	rseq.SetHeaderName(core.SIPHeaderNames_RSEQ)
 
@@ -45,10 +47,14 @@ func (this *RSeqParser) Parse() (sh header.Header, ParseException error) {
 	if number, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	rseq.SetSequenceNumber(number)
+	if ParseException = rseq.SetSequenceNumber(number); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return rseq, nil
 }
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index c6ae3d8..5962792 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -38,21 +38,29 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REASON)
+	if ParseException = this.HeaderName(TokenTypes_REASON); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		reason := header.NewReason()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 
-		reason.SetProtocol(value)
+		if ParseException = reason.SetProtocol(value); ParseException != nil {
+			return nil, ParseException
+		}
 		if ParseException = this.ParametersParser.Parse(reason); ParseException != nil {
 			return nil, ParseException
 		}
 		reasonList.PushBack(reason)
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else {
 			lexer.SPorHT()
diff --git a/sip/parser/RecordRouteParser.go b/sip/parser/RecordRouteParser.go
index f6e07b3..454c4d7 100644
--- a/sip/parser/RecordRouteParser.go
+++ b/sip/parser/RecordRouteParser.go
@@ -37,15 +37,21 @@ func (this *RecordRouteParser) Parse() (sh header.Header, ParseException error)
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_RECORD_ROUTE)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		recordRoute := header.NewRecordRoute()
-		this.AddressParametersParser.Parse(recordRoute)
+		if ParseException = this.AddressParametersParser.Parse(recordRoute); ParseException != nil {
+			return nil, ParseException
+		}
 		recordRouteList.PushBack(recordRoute)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ReferToParser.go b/sip/parser/ReferToParser.go
index 8138e32..5401603 100644
--- a/sip/parser/ReferToParser.go
+++ b/sip/parser/ReferToParser.go
@@ -28,12 +28,16 @@ func NewReferToParserFromLexer(lexer core.Lexer) *ReferToParser {
 
 func (this *ReferToParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REFER_TO)
+	if ParseException = this.HeaderName(TokenTypes_REFER_TO); ParseException != nil {
+		return nil, ParseException
+	}
 	referTo := header.NewReferTo()
 	if ParseException = this.AddressParametersParser.Parse(referTo); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	this.addrSpecParameters(referTo)
 	return referTo, nil
 }
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index 98d9185..e47ab3e 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -37,7 +37,9 @@ func NewReplyToParserFromLexer(lexer core.Lexer) *ReplyToParser {
 func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 	replyTo := header.NewReplyTo()
 
-	this.HeaderName(TokenTypes_REPLY_TO)
+	if ParseException = this.HeaderName(TokenTypes_REPLY_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	replyTo.SetHeaderName(core.SIPHeaderNames_REPLY_TO)
 
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index d740287..ed81abc 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -38,30 +38,42 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_REQUIRE)
+	if ParseException = this.HeaderName(TokenTypes_REQUIRE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		r := header.NewRequire()
 		r.SetHeaderName(core.SIPHeaderNames_REQUIRE)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		r.SetOptionTag(token.GetTokenValue())
+		if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		requireList.PushBack(r)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			r = header.NewRequire()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			r.SetOptionTag(token.GetTokenValue())
+			if ParseException = r.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			requireList.PushBack(r)
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index e865ef4..2a3f564 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -38,42 +38,60 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_RETRY_AFTER)
+	if ParseException = this.HeaderName(TokenTypes_RETRY_AFTER); ParseException != nil {
+		return nil, ParseException
+	}
 
 	// mandatory delatseconds:
 	var ds int
 	if ds, ParseException = lexer.Number(); ParseException != nil {
 		return nil, ParseException
 	}
-	retryAfter.SetRetryAfter(ds)
+	if ParseException = retryAfter.SetRetryAfter(ds); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
 		comment, _ := lexer.Comment()
-		retryAfter.SetComment(comment)
+		if ParseException = retryAfter.SetComment(comment); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 	lexer.SPorHT()
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if value == "duration" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			var duration int
 			if duration, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
-			retryAfter.SetDuration(duration)
+			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
 			lexer.SPorHT()
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			retryAfter.SetParameter(value, secondValue)
diff --git a/sip/parser/RouteParser.go b/sip/parser/RouteParser.go
index 03a8258..e850e13 100644
--- a/sip/parser/RouteParser.go
+++ b/sip/parser/RouteParser.go
@@ -38,15 +38,21 @@ func (this *RouteParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 	lexer.Match(TokenTypes_ROUTE)
 	lexer.SPorHT()
-	lexer.Match(':')
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
 	lexer.SPorHT()
 	for {
 		route := header.NewRoute()
-		this.AddressParametersParser.Parse(route)
+		if ParseException = this.AddressParametersParser.Parse(route); ParseException != nil {
+			return nil, ParseException
+		}
 		routeList.PushBack(route)
 		lexer.SPorHT()
 		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 		} else if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 			break
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 911d84d..7dcac9a 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -40,7 +40,9 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SERVER)
+	if ParseException = this.HeaderName(TokenTypes_SERVER); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
diff --git a/sip/parser/SubjectParser.go b/sip/parser/SubjectParser.go
index b160f0f..aca0684 100644
--- a/sip/parser/SubjectParser.go
+++ b/sip/parser/SubjectParser.go
@@ -38,7 +38,9 @@ func (this *SubjectParser) Parse() (sh header.Header, ParseException error) {
 	subject := header.NewSubject()
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBJECT)
+	if ParseException = this.HeaderName(TokenTypes_SUBJECT); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 
diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 02848ee..2088a28 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -40,32 +40,52 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUBSCRIPTION_STATE)
+	if ParseException = this.HeaderName(TokenTypes_SUBSCRIPTION_STATE); ParseException != nil {
+		return nil, ParseException
+	}
 
 	subscriptionState.SetHeaderName(core.SIPHeaderNames_SUBSCRIPTION_STATE)
 
 	// State:
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	token := lexer.GetNextToken()
-	subscriptionState.SetState(token.GetTokenValue())
+	if ParseException = subscriptionState.SetState(token.GetTokenValue()); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
 		value := token.GetTokenValue()
 		if strings.ToLower(value) == "reason" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
-			subscriptionState.SetReasonCode(value)
+			if ParseException = subscriptionState.SetReasonCode(value); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "expires" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -73,11 +93,17 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetExpires(expires)
+			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
+				return nil, ParseException
+			}
 		} else if strings.ToLower(value) == "retry-after" {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
 			value = token.GetTokenValue()
 
@@ -85,11 +111,17 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
 				return nil, ParseException
 			}
-			subscriptionState.SetRetryAfter(retryAfter)
+			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
+				return nil, ParseException
+			}
 		} else {
-			lexer.Match('=')
+			if _, ParseException = lexer.Match('='); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			secondToken := lexer.GetNextToken()
 			secondValue := secondToken.GetTokenValue()
 			subscriptionState.SetParameter(value, secondValue)
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 893f2ab..2a61f62 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -38,7 +38,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_SUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_SUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,23 +48,33 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 		supported.SetHeaderName(core.SIPHeaderNames_SUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		supported.SetOptionTag(token.GetTokenValue())
+		if ParseException = supported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		supportedList.PushBack(supported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supported = header.NewSupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			supported.SetOptionTag(token.GetTokenValue())
+			if ParseException = supported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			supportedList.PushBack(supported)
diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index d0a505c..26de1f8 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -41,7 +41,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	var firstNumber, secondNumber int
 
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_TIMESTAMP)
+	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
+		return nil, ParseException
+	}
 
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
@@ -52,7 +54,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 
 	var ts float64
 	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		lexer.Match('.')
+		if _, ParseException = lexer.Match('.'); ParseException != nil {
+			return nil, ParseException
+		}
 
 		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
@@ -64,7 +68,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		ts = float64(firstNumber)
 	}
 
-	timeStamp.SetTimeStamp(float32(ts))
+	if ParseException = timeStamp.SetTimeStamp(float32(ts)); ParseException != nil {
+		return nil, ParseException
+	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
@@ -73,7 +79,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 		}
 
 		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			lexer.Match('.')
+			if _, ParseException = lexer.Match('.'); ParseException != nil {
+				return nil, ParseException
+			}
 			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
 				return nil, ParseException
 			}
@@ -84,7 +92,9 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 			ts = float64(firstNumber)
 		}
 
-		timeStamp.SetDelay(float32(ts))
+		if ParseException = timeStamp.SetDelay(float32(ts)); ParseException != nil {
+			return nil, ParseException
+		}
 	}
 
 	return timeStamp, nil
diff --git a/sip/parser/ToParser.go b/sip/parser/ToParser.go
index e698681..7c6e8fb 100644
--- a/sip/parser/ToParser.go
+++ b/sip/parser/ToParser.go
@@ -27,13 +27,17 @@ func NewToParserFromLexer(lexer core.Lexer) *ToParser {
 
 func (this *ToParser) Parse() (sh header.Header, ParseException error) {
 	to := header.NewTo()
-	this.HeaderName(TokenTypes_TO)
+	if ParseException = this.HeaderName(TokenTypes_TO); ParseException != nil {
+		return nil, ParseException
+	}
 
 	if ParseException = this.AddressParametersParser.Parse(to); ParseException != nil {
 		return nil, ParseException
 	}
 
-	this.GetLexer().Match('\n')
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	this.addrSpecParameters(to)
 	return to, nil
 }
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index b5d2080..8317100 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -38,7 +38,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_UNSUPPORTED)
+	if ParseException = this.HeaderName(TokenTypes_UNSUPPORTED); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		lexer.SPorHT()
@@ -46,23 +48,33 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 		unsupported.SetHeaderName(core.SIPHeaderNames_UNSUPPORTED)
 
 		// Parsing the option tag
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
-		unsupported.SetOptionTag(token.GetTokenValue())
+		if ParseException = unsupported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		unsupportedList.PushBack(unsupported)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupported = header.NewUnsupported()
 
 			// Parsing the option tag
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			token = lexer.GetNextToken()
-			unsupported.SetOptionTag(token.GetTokenValue())
+			if ParseException = unsupported.SetOptionTag(token.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			unsupportedList.PushBack(unsupported)
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index ff56946..0147937 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -41,7 +41,9 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_USER_AGENT)
+	if ParseException = this.HeaderName(TokenTypes_USER_AGENT); ParseException != nil {
+		return nil, ParseException
+	}
 	if ch, _ = lexer.LookAheadK(0); ch == '\n' {
 		return nil, errors.New("empty header")
 	}
diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 1885fac..e050f70 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -32,7 +32,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var protocolName, protocolVersion *core.Token
 	// The protocol
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 
 	if protocolName = lexer.GetNextToken(); protocolName.GetTokenValue() != "SIP" {
 		return this.CreateParseException("Protcoal Not Supported error")
@@ -40,9 +42,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	lexer.SPorHT()
 	// consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 	if protocolVersion = lexer.GetNextToken(); protocolVersion.GetTokenValue() != "2.0" {
 		return this.CreateParseException("Version Not Supported error")
@@ -51,9 +57,13 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	lexer.SPorHT()
 
 	// We consume the "/"
-	lexer.Match('/')
+	if _, ParseException = lexer.Match('/'); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
-	lexer.Match(TokenTypes_ID)
+	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		return ParseException
+	}
 	lexer.SPorHT()
 
 	transport := lexer.GetNextToken()
@@ -79,7 +89,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 
 	var la byte
 	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
-		lexer.Match(';')
+		if _, ParseException = lexer.Match(';'); ParseException != nil {
+			return ParseException
+		}
 		lexer.SPorHT()
 
 		var nameValue *core.NameValue
@@ -130,7 +142,9 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
  */
 func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	lexer := this.GetLexer()
-	lexer.Match(core.CORELEXER_ID)
+	if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+		return nil, ParseException
+	}
 	name := lexer.GetNextToken()
 
 	// eat white space.
@@ -154,7 +168,9 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 				}
 				quoted = true
 			} else {
-				lexer.Match(core.CORELEXER_ID)
+				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+					return nil, ParseException
+				}
 				value := lexer.GetNextToken()
 				str = value.GetTokenValue()
 			}
@@ -176,9 +192,11 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 
 	// The first via header.
 	lexer.Match(TokenTypes_VIA)
-	lexer.SPorHT()   // ignore blanks
-	lexer.Match(':') // expect a colon.
-	lexer.SPorHT()   // ingore blanks.
+	lexer.SPorHT() // ignore blanks
+	if _, ParseException = lexer.Match(':'); ParseException != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT() // ingore blanks.
 
 	for {
 		v := header.NewVia()
@@ -195,7 +213,9 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 			break
 		}
 	}
-	lexer.Match('\n')
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return viaList, nil
 }
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index d9e0327..429a1cc 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -34,7 +34,9 @@ func NewWWWAuthenticateParserFromLexer(lexer core.Lexer) *WWWAuthenticateParser
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException error) {
-	this.HeaderName(TokenTypes_WWW_AUTHENTICATE)
+	if ParseException = this.HeaderName(TokenTypes_WWW_AUTHENTICATE); ParseException != nil {
+		return nil, ParseException
+	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
 	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
 	return wwwAuthenticate, ParseException
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 9326331..94b26b6 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -39,14 +39,18 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 	var ch byte
 	lexer := this.GetLexer()
-	this.HeaderName(TokenTypes_WARNING)
+	if ParseException = this.HeaderName(TokenTypes_WARNING); ParseException != nil {
+		return nil, ParseException
+	}
 
 	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token := lexer.GetNextToken()
 
 		var code int
@@ -60,9 +64,13 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent
-		lexer.Match(TokenTypes_ID)
+		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+			return nil, ParseException
+		}
 		token = lexer.GetNextToken()
-		warning.SetAgent(token.GetTokenValue())
+		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		// Parsing the text
@@ -70,39 +78,53 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		if text, ParseException = lexer.QuotedString(); ParseException != nil {
 			return nil, ParseException
 		}
-		warning.SetText(text)
+		if ParseException = warning.SetText(text); ParseException != nil {
+			return nil, ParseException
+		}
 		lexer.SPorHT()
 
 		warningList.PushBack(warning)
 
 		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			lexer.Match(',')
+			if _, ParseException = lexer.Match(','); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warning = header.NewWarning()
 
 			// Parsing the 3digits code
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok := lexer.GetNextToken()
 
 			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetCode(code)
+			if ParseException = warning.SetCode(code); ParseException != nil {
+				return nil, ParseException
+			}
 
 			lexer.SPorHT()
 
 			// Parsing the agent
-			lexer.Match(TokenTypes_ID)
+			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				return nil, ParseException
+			}
 			tok = lexer.GetNextToken()
-			warning.SetAgent(tok.GetTokenValue())
+			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			// Parsing the text
 			if text, ParseException = lexer.QuotedString(); ParseException != nil {
 				return nil, ParseException
 			}
-			warning.SetText(text)
+			if ParseException = warning.SetText(text); ParseException != nil {
+				return nil, ParseException
+			}
 			lexer.SPorHT()
 
 			warningList.PushBack(warning)
-- 
2.43.0


From 69bc2eee4c2111504470ebd2ea3ac12264e2b1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:24 +0000
Subject: [PATCH 045/152] fix: list header parsers require a comma between
 elements and the end of the line after them

---
 sip/parser/AcceptEncodingParser.go  | 52 +++++++++++++--------------
 sip/parser/AcceptLanguageParser.go  | 54 +++++++++++++----------------
 sip/parser/AcceptParser.go          | 50 +++++++++-----------------
 sip/parser/AlertInfoParser.go       |  3 ++
 sip/parser/AllowParser.go           | 35 +++++++------------
 sip/parser/CallInfoParser.go        |  3 ++
 sip/parser/ContentEncodingParser.go |  3 ++
 sip/parser/ContentLanguageParser.go |  3 ++
 sip/parser/ContentTypeParser.go     |  1 +
 sip/parser/ErrorInfoParser.go       |  3 ++
 sip/parser/InReplyToParser.go       |  4 +++
 sip/parser/ProxyRequireParser.go    |  3 ++
 sip/parser/ReasonParser.go          | 15 ++++----
 sip/parser/ReplyToParser.go         |  3 ++
 sip/parser/RequireParser.go         |  3 ++
 sip/parser/SupportedParser.go       |  3 ++
 sip/parser/UnsupportedParser.go     |  3 ++
 sip/parser/WarningParser.go         |  3 ++
 18 files changed, 125 insertions(+), 119 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index c6841f8..4fa3564 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -4,6 +4,7 @@ import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -71,7 +72,8 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 		acceptEncoding := header.NewAcceptEncoding()
 		acceptEncodingList.PushBack(acceptEncoding)
 	} else {
-		for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+		ch, _ = lexer.LookAheadK(0)
+		for more := ch != '\n'; more; {
 			acceptEncoding := header.NewAcceptEncoding()
 			if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
 				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
@@ -83,43 +85,41 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				}
 			}
 
+			lexer.SPorHT()
+
 			for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-				if _, ParseException = lexer.Match(';'); ParseException != nil {
-					return nil, ParseException
-				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match('q'); ParseException != nil {
-					return nil, ParseException
-				}
+				lexer.ConsumeK(1)
 				lexer.SPorHT()
-				if _, ParseException = lexer.Match('='); ParseException != nil {
-					return nil, ParseException
-				}
-				lexer.SPorHT()
-				if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+				var nv *core.NameValue
+				if nv, ParseException = this.NameValue('='); ParseException != nil {
 					return nil, ParseException
 				}
-				value := lexer.GetNextToken()
-
-				var qv float64
-				if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
-					return nil, ParseException
-				}
-				if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
-					return nil, ParseException
+				if strings.ToLower(nv.GetName()) == header.ParameterNames_Q {
+					var qv float64
+					if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
+						return nil, ParseException
+					}
+					if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
+						return nil, ParseException
+					}
+				} else if nv.IsValueQuoted() {
+					acceptEncoding.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+				} else {
+					acceptEncoding.SetParameter(nv.GetName(), nv.GetValue().(string))
 				}
 				lexer.SPorHT()
 			}
 
 			acceptEncodingList.PushBack(acceptEncoding)
-			if ch, _ = lexer.LookAheadK(0); ch == ',' {
-				if _, ParseException = lexer.Match(','); ParseException != nil {
-					return nil, ParseException
-				}
+
+			if more = ch == ','; more {
+				lexer.ConsumeK(1)
 				lexer.SPorHT()
+			} else if ch != '\n' {
+				return nil, this.CreateParseException("unexpected char")
 			}
-
 		}
 	}
+
 	return acceptEncodingList, nil
 }
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 016a372..54b269e 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -4,6 +4,7 @@ import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
+	"strings"
 )
 
 /**
@@ -60,7 +61,8 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	ch, _ = lexer.LookAheadK(0)
+	for more := ch != '\n'; more; {
 		acceptLanguage := header.NewAcceptLanguage()
 		acceptLanguage.SetHeaderName(core.SIPHeaderNames_ACCEPT_LANGUAGE)
 		if ch, _ = lexer.LookAheadK(0); ch != ';' { // Content-Coding:
@@ -71,44 +73,38 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			acceptLanguage.SetLanguageRange(value.GetTokenValue())
 		}
 
+		lexer.SPorHT()
+
 		for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
-			if _, ParseException = lexer.Match(';'); ParseException != nil {
-				return nil, ParseException
-			}
+			lexer.ConsumeK(1)
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match('q'); ParseException != nil {
+			var nv *core.NameValue
+			if nv, ParseException = this.NameValue('='); ParseException != nil {
 				return nil, ParseException
 			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
+			if strings.ToLower(nv.GetName()) == header.ParameterNames_Q {
+				var qv float64
+				if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
+					return nil, ParseException
+				}
+				if ParseException = acceptLanguage.SetQValue(float32(qv)); ParseException != nil {
+					return nil, ParseException
+				}
+			} else if nv.IsValueQuoted() {
+				acceptLanguage.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+			} else {
+				acceptLanguage.SetParameter(nv.GetName(), nv.GetValue().(string))
 			}
 			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			value := lexer.GetNextToken()
-
-			var qv float64
-			if qv, ParseException = strconv.ParseFloat(value.GetTokenValue(), 32); ParseException != nil {
-				return nil, ParseException
-			}
-
-			if ParseException = acceptLanguage.SetQValue(float32(qv)); ParseException != nil {
-				return nil, ParseException
-			}
-
-			lexer.SPorHT()
 		}
 
 		acceptLanguageList.PushBack(acceptLanguage)
-		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			if _, ParseException = lexer.Match(','); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-		} else {
+
+		if more = ch == ','; more {
+			lexer.ConsumeK(1)
 			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
 		}
 	}
 
diff --git a/sip/parser/AcceptParser.go b/sip/parser/AcceptParser.go
index 4c22943..bb35082 100644
--- a/sip/parser/AcceptParser.go
+++ b/sip/parser/AcceptParser.go
@@ -51,57 +51,41 @@ func (this *AcceptParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	accept := header.NewAccept()
-	accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
-
-	lexer.SPorHT()
-	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-		return nil, ParseException
-	}
-	token := lexer.GetNextToken()
-	accept.SetContentType(token.GetTokenValue())
-	if _, ParseException = lexer.Match('/'); ParseException != nil {
-		return nil, ParseException
-	}
-	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-		return nil, ParseException
-	}
-	token = lexer.GetNextToken()
-	accept.SetContentSubType(token.GetTokenValue())
-	lexer.SPorHT()
-
-	if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
-		return nil, ParseException
-	}
-	acceptList.PushBack(accept)
-
-	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		if _, ParseException = lexer.Match(','); ParseException != nil {
-			return nil, ParseException
-		}
-		lexer.SPorHT()
-
-		accept = header.NewAccept()
+	// empty body is fine for this header.
+	ch, _ = lexer.LookAheadK(0)
+	for more := ch != '\n'; more; {
+		accept := header.NewAccept()
+		accept.SetHeaderName(core.SIPHeaderNames_ACCEPT)
 
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
+		token := lexer.GetNextToken()
 		accept.SetContentType(token.GetTokenValue())
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match('/'); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
 		}
 		token = lexer.GetNextToken()
 		accept.SetContentSubType(token.GetTokenValue())
-		lexer.SPorHT()
+
 		if ParseException = this.ParametersParser.Parse(accept); ParseException != nil {
 			return nil, ParseException
 		}
 		acceptList.PushBack(accept)
 
+		ch, _ = lexer.LookAheadK(0)
+		if more = ch == ','; more {
+			lexer.ConsumeK(1)
+			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
+
 	return acceptList, nil
 }
diff --git a/sip/parser/AlertInfoParser.go b/sip/parser/AlertInfoParser.go
index 65b01d5..7837498 100644
--- a/sip/parser/AlertInfoParser.go
+++ b/sip/parser/AlertInfoParser.go
@@ -102,6 +102,9 @@ func (this *AlertInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			alertInfoList.PushBack(alertInfo)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return alertInfoList, nil
diff --git a/sip/parser/AllowParser.go b/sip/parser/AllowParser.go
index c2e9772..c636d6f 100644
--- a/sip/parser/AllowParser.go
+++ b/sip/parser/AllowParser.go
@@ -44,39 +44,28 @@ func (this *AllowParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	allow := header.NewAllow()
-	allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
+	// empty body is fine for this header.
+	ch, _ = lexer.LookAheadK(0)
+	for more := ch != '\n'; more; {
+		allow := header.NewAllow()
+		allow.SetHeaderName(core.SIPHeaderNames_ALLOW)
 
-	lexer.SPorHT()
-	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-		return nil, ParseException
-	}
-	token := lexer.GetNextToken()
-	if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
-		return nil, ParseException
-	}
-
-	allowList.PushBack(allow)
-	lexer.SPorHT()
-	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-		if _, ParseException = lexer.Match(','); ParseException != nil {
-			return nil, ParseException
-		}
-		lexer.SPorHT()
-
-		allow = header.NewAllow()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
+		token := lexer.GetNextToken()
 		if ParseException = allow.SetMethod(token.GetTokenValue()); ParseException != nil {
 			return nil, ParseException
 		}
-
 		allowList.PushBack(allow)
 		lexer.SPorHT()
+
+		ch, _ = lexer.LookAheadK(0)
+		if more = ch == ','; more {
+			lexer.ConsumeK(1)
+			lexer.SPorHT()
+		}
 	}
-	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/CallInfoParser.go b/sip/parser/CallInfoParser.go
index 68412e2..515fb2a 100644
--- a/sip/parser/CallInfoParser.go
+++ b/sip/parser/CallInfoParser.go
@@ -96,6 +96,9 @@ func (this *CallInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			callInfoList.PushBack(callInfo)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return callInfoList, nil
diff --git a/sip/parser/ContentEncodingParser.go b/sip/parser/ContentEncodingParser.go
index fbc3e48..f3078f2 100644
--- a/sip/parser/ContentEncodingParser.go
+++ b/sip/parser/ContentEncodingParser.go
@@ -77,6 +77,9 @@ func (this *ContentEncodingParser) Parse() (sh header.Header, ParseException err
 			lexer.SPorHT()
 			contentEncodingList.PushBack(cl)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return contentEncodingList, nil
diff --git a/sip/parser/ContentLanguageParser.go b/sip/parser/ContentLanguageParser.go
index 7d92952..983084a 100644
--- a/sip/parser/ContentLanguageParser.go
+++ b/sip/parser/ContentLanguageParser.go
@@ -74,6 +74,9 @@ func (this *ContentLanguageParser) Parse() (sh header.Header, ParseException err
 			lexer.SPorHT()
 			contentLanguageList.PushBack(cl)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return contentLanguageList, nil
diff --git a/sip/parser/ContentTypeParser.go b/sip/parser/ContentTypeParser.go
index 1ac6ab2..93e0800 100644
--- a/sip/parser/ContentTypeParser.go
+++ b/sip/parser/ContentTypeParser.go
@@ -43,6 +43,7 @@ func (this *ContentTypeParser) Parse() (sh header.Header, ParseException error)
 	if _, ParseException = lexer.Match('/'); ParseException != nil {
 		return nil, ParseException
 	}
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 		return nil, ParseException
 	}
diff --git a/sip/parser/ErrorInfoParser.go b/sip/parser/ErrorInfoParser.go
index 18c3b9b..d344318 100644
--- a/sip/parser/ErrorInfoParser.go
+++ b/sip/parser/ErrorInfoParser.go
@@ -98,6 +98,9 @@ func (this *ErrorInfoParser) Parse() (sh header.Header, ParseException error) {
 			}
 			errorInfoList.PushBack(errorInfo)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return errorInfoList, nil
diff --git a/sip/parser/InReplyToParser.go b/sip/parser/InReplyToParser.go
index 10afd53..74783bd 100644
--- a/sip/parser/InReplyToParser.go
+++ b/sip/parser/InReplyToParser.go
@@ -102,8 +102,12 @@ func (this *InReplyToParser) Parse() (sh header.Header, ParseException error) {
 				}
 			}
 
+			lexer.SPorHT()
 			inReplyToList.PushBack(inReplyTo)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return inReplyToList, nil
diff --git a/sip/parser/ProxyRequireParser.go b/sip/parser/ProxyRequireParser.go
index 139a8a7..97b3d3d 100644
--- a/sip/parser/ProxyRequireParser.go
+++ b/sip/parser/ProxyRequireParser.go
@@ -78,6 +78,9 @@ func (this *ProxyRequireParser) Parse() (sh header.Header, ParseException error)
 
 			proxyRequireList.PushBack(r)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 
 	}
 
diff --git a/sip/parser/ReasonParser.go b/sip/parser/ReasonParser.go
index 5962792..38754cb 100644
--- a/sip/parser/ReasonParser.go
+++ b/sip/parser/ReasonParser.go
@@ -42,7 +42,8 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	lexer.SPorHT()
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	ch, _ = lexer.LookAheadK(0)
+	for more := ch != '\n'; more; {
 		reason := header.NewReason()
 		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
 			return nil, ParseException
@@ -57,15 +58,13 @@ func (this *ReasonParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		reasonList.PushBack(reason)
-		if ch, _ = lexer.LookAheadK(0); ch == ',' {
-			if _, ParseException = lexer.Match(','); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-		} else {
+		ch, _ = lexer.LookAheadK(0)
+		if more = ch == ','; more {
+			lexer.ConsumeK(1)
 			lexer.SPorHT()
+		} else if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
 		}
-
 	}
 
 	return reasonList, nil
diff --git a/sip/parser/ReplyToParser.go b/sip/parser/ReplyToParser.go
index e47ab3e..d2cfc20 100644
--- a/sip/parser/ReplyToParser.go
+++ b/sip/parser/ReplyToParser.go
@@ -46,6 +46,9 @@ func (this *ReplyToParser) Parse() (sh header.Header, ParseException error) {
 	if ParseException = this.AddressParametersParser.Parse(replyTo); ParseException != nil {
 		return nil, ParseException
 	}
+	if _, ParseException = this.GetLexer().Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 	this.addrSpecParameters(replyTo)
 
 	return replyTo, nil
diff --git a/sip/parser/RequireParser.go b/sip/parser/RequireParser.go
index ed81abc..2c15bca 100644
--- a/sip/parser/RequireParser.go
+++ b/sip/parser/RequireParser.go
@@ -78,6 +78,9 @@ func (this *RequireParser) Parse() (sh header.Header, ParseException error) {
 
 			requireList.PushBack(r)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 
 	}
 
diff --git a/sip/parser/SupportedParser.go b/sip/parser/SupportedParser.go
index 2a61f62..069553c 100644
--- a/sip/parser/SupportedParser.go
+++ b/sip/parser/SupportedParser.go
@@ -79,6 +79,9 @@ func (this *SupportedParser) Parse() (sh header.Header, ParseException error) {
 
 			supportedList.PushBack(supported)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 	}
 
 	return supportedList, nil
diff --git a/sip/parser/UnsupportedParser.go b/sip/parser/UnsupportedParser.go
index 8317100..fc531dc 100644
--- a/sip/parser/UnsupportedParser.go
+++ b/sip/parser/UnsupportedParser.go
@@ -79,6 +79,9 @@ func (this *UnsupportedParser) Parse() (sh header.Header, ParseException error)
 
 			unsupportedList.PushBack(unsupported)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 
 	}
 
diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 94b26b6..56fd41a 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -129,6 +129,9 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 			warningList.PushBack(warning)
 		}
+		if ch != '\n' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 
 	}
 
-- 
2.43.0


From 67b3d79ce3a1611afaa81b21dab8228b8f6ea017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 046/152] fix: a comment before or after the parameters of a
 Via header is read, and a malformed one reported

---
 sip/parser/ViaParser.go | 45 ++++++++++++++---------------------------
 1 file changed, 15 insertions(+), 30 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index e050f70..2a0b522 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -87,8 +86,22 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 	// Ignore blanks
 	lexer.SPorHT()
 
+	// The comment may stand after the parameters or, as in the encoding of
+	// a Via header, before them.
 	var la byte
-	for la, _ = lexer.LookAheadK(0); la == ';'; la, _ = lexer.LookAheadK(0) {
+	for la, _ = lexer.LookAheadK(0); la == ';' || la == '('; la, _ = lexer.LookAheadK(0) {
+		if la == '(' {
+			if v.HasComment() {
+				return this.CreateParseException("more than one comment")
+			}
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return ParseException
+			}
+			v.SetComment(comment)
+			lexer.SPorHT()
+			continue
+		}
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
 			return ParseException
 		}
@@ -105,34 +118,6 @@ func (this *ViaParser) ParseVia(v *header.Via) (ParseException error) {
 		lexer.SPorHT()
 	}
 
-	if la, _ = lexer.LookAheadK(0); la == '(' {
-		lexer.SelectLexer("charLexer")
-		lexer.ConsumeK(1)
-
-		var comment bytes.Buffer
-		for {
-			ch, _ := lexer.LookAheadK(0)
-			if ch == ')' {
-				lexer.ConsumeK(1)
-				break
-			} else if ch == '\\' {
-				// Escaped character
-				tok := lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-				tok = lexer.GetNextToken()
-				comment.WriteString(tok.GetTokenValue())
-				lexer.ConsumeK(1)
-			} else if ch == '\n' {
-				break
-			} else {
-				comment.WriteByte(ch)
-				lexer.ConsumeK(1)
-			}
-		}
-		v.SetComment(comment.String())
-	}
-
 	return nil
 
 }
-- 
2.43.0


From 1817d8b650ae99f0a03dbbb02d80439dad78be49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 047/152] fix: an address in a parameter of a Via header ends
 where the parameter does

---
 sip/parser/ViaParser.go | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 2a0b522..0d1e650 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -142,23 +142,23 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 		lexer.ConsumeK(1)
 		lexer.SPorHT()
 		var str string
-		if strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
+		if la, _ = lexer.LookAheadK(0); la == '"' {
+			if str, ParseException = lexer.QuotedString(); ParseException != nil {
+				return nil, ParseException
+			}
+			quoted = true
+		} else if la == '[' || strings.ToLower(name.GetTokenValue()) == core.SIPParameters_RECEIVED {
 			// Allow for IPV6 Addresses.
 			// these could have : in them!
-			str = lexer.ByteStringNoSemicolon()
+			if str = this.address(); str == "" {
+				return nil, this.CreateParseException("address expected")
+			}
 		} else {
-			if la, _ = lexer.LookAheadK(0); la == '"' {
-				if str, ParseException = lexer.QuotedString(); ParseException != nil {
-					return nil, ParseException
-				}
-				quoted = true
-			} else {
-				if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
-					return nil, ParseException
-				}
-				value := lexer.GetNextToken()
-				str = value.GetTokenValue()
+			if _, ParseException = lexer.Match(core.CORELEXER_ID); ParseException != nil {
+				return nil, ParseException
 			}
+			value := lexer.GetNextToken()
+			str = value.GetTokenValue()
 		}
 		nv := core.NewNameValue(name.GetTokenValue(), str)
 		if quoted {
@@ -170,6 +170,21 @@ func (this *ViaParser) NameValue() (nv *core.NameValue, ParseException error) {
 	}
 }
 
+/** The characters of a host name or of an IPv4 or IPv6 address.
+ */
+func (this *ViaParser) address() string {
+	lexer := this.GetLexer()
+	start := lexer.GetPtr()
+	for {
+		la, err := lexer.LookAheadK(0)
+		if err != nil || strings.IndexByte(" \t\n;,()\"", la) >= 0 {
+			break
+		}
+		lexer.ConsumeK(1)
+	}
+	return lexer.GetBuffer()[start:lexer.GetPtr()]
+}
+
 func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 	lexer := this.GetLexer()
 
-- 
2.43.0


From ddd284a7122e0c8b7be3382fc18c43db29f3f144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:56 +0000
Subject: [PATCH 048/152] fix: the elements of a Via header are separated by
 commas

---
 sip/parser/ViaParser.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sip/parser/ViaParser.go b/sip/parser/ViaParser.go
index 0d1e650..fa4fb53 100644
--- a/sip/parser/ViaParser.go
+++ b/sip/parser/ViaParser.go
@@ -205,13 +205,11 @@ func (this *ViaParser) Parse() (sh header.Header, ParseException error) {
 		}
 		viaList.PushBack(v)
 		lexer.SPorHT() // eat whitespace.
-		if la, _ := lexer.LookAheadK(0); la == ',' {
-			lexer.ConsumeK(1) // Consume the comma
-			lexer.SPorHT()    // Ignore space after.
-		}
-		if la, _ := lexer.LookAheadK(0); la == '\n' {
+		if la, _ := lexer.LookAheadK(0); la != ',' {
 			break
 		}
+		lexer.ConsumeK(1) // Consume the comma
+		lexer.SPorHT()    // Ignore space after.
 	}
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
-- 
2.43.0


From 939d15d177427bb50bdd45256ac24f28f0b52df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 049/152] fix: Retry-After takes any comment and parameters,
 and reports what follows them

---
 sip/parser/HeaderParser.go     | 23 ++++++++++++++++++++
 sip/parser/RetryAfterParser.go | 39 ++++++++++++++--------------------
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index 93ada27..c796272 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strconv"
 	"strings"
 )
 
@@ -68,6 +69,28 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	return retval, nil
 }
 
+/** Parse a parameter. One without a value is a flag, with a nil value.
+ */
+func (this *HeaderParser) Parameter() (nv *core.NameValue, ParseException error) {
+	if nv, ParseException = this.NameValue('='); ParseException != nil {
+		return nil, ParseException
+	}
+	if nv.GetValue() == "" && !nv.IsValueQuoted() {
+		nv.SetValue(nil)
+	}
+	return nv, nil
+}
+
+/** The value of a parameter that is a number of seconds.
+ */
+func (this *HeaderParser) deltaSeconds(nv *core.NameValue) (seconds int, ParseException error) {
+	value, ok := nv.GetValue().(string)
+	if !ok || nv.IsValueQuoted() || strings.Trim(value, "0123456789") != "" {
+		return 0, this.CreateParseException(nv.GetName() + " is not a number of seconds")
+	}
+	return strconv.Atoi(value)
+}
+
 /** Parse the header name until the colon  and chew WS after that.
  */
 func (this *HeaderParser) HeaderName(tok int) (ParseException error) {
diff --git a/sip/parser/RetryAfterParser.go b/sip/parser/RetryAfterParser.go
index 2a3f564..baa4d63 100644
--- a/sip/parser/RetryAfterParser.go
+++ b/sip/parser/RetryAfterParser.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
+	"strings"
 )
 
 /** SIPParser for RetryAfter header.
@@ -53,10 +54,15 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch == '(' {
-		comment, _ := lexer.Comment()
-		if ParseException = retryAfter.SetComment(comment); ParseException != nil {
+		var comment string
+		if comment, ParseException = lexer.Comment(); ParseException != nil {
 			return nil, ParseException
 		}
+		if comment != "" {
+			if ParseException = retryAfter.SetComment(comment); ParseException != nil {
+				return nil, ParseException
+			}
+		}
 	}
 	lexer.SPorHT()
 
@@ -65,39 +71,26 @@ func (this *RetryAfterParser) Parse() (sh header.Header, ParseException error) {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var nv *core.NameValue
+		if nv, ParseException = this.Parameter(); ParseException != nil {
 			return nil, ParseException
 		}
-		token := lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if value == "duration" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-
+		if strings.EqualFold(nv.GetName(), header.ParameterNames_DURATION) {
 			var duration int
-			if duration, ParseException = lexer.Number(); ParseException != nil {
+			if duration, ParseException = this.deltaSeconds(nv); ParseException != nil {
 				return nil, ParseException
 			}
 			if ParseException = retryAfter.SetDuration(duration); ParseException != nil {
 				return nil, ParseException
 			}
 		} else {
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			retryAfter.SetParameter(value, secondValue)
+			retryAfter.GetParameters().SetNameValue(nv)
 		}
 		lexer.SPorHT()
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return retryAfter, nil
 }
-- 
2.43.0


From bdbbf805d5c08b935987be35c1a10ca4f239c64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 050/152] fix: Subscription-State takes any parameters, and
 reports what follows them

---
 sip/parser/SubscriptionStateParser.go | 68 +++++++--------------------
 1 file changed, 18 insertions(+), 50 deletions(-)

diff --git a/sip/parser/SubscriptionStateParser.go b/sip/parser/SubscriptionStateParser.go
index 2088a28..aad31b7 100644
--- a/sip/parser/SubscriptionStateParser.go
+++ b/sip/parser/SubscriptionStateParser.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
 	"strings"
 )
 
@@ -55,80 +54,49 @@ func (this *SubscriptionStateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 
+	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ';'; ch, _ = lexer.LookAheadK(0) {
 		if _, ParseException = lexer.Match(';'); ParseException != nil {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
+		var nv *core.NameValue
+		if nv, ParseException = this.Parameter(); ParseException != nil {
 			return nil, ParseException
 		}
-		token = lexer.GetNextToken()
-		value := token.GetTokenValue()
-		if strings.ToLower(value) == "reason" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-			if ParseException = subscriptionState.SetReasonCode(value); ParseException != nil {
-				return nil, ParseException
+		switch strings.ToLower(nv.GetName()) {
+		case "reason":
+			reason, ok := nv.GetValue().(string)
+			if !ok || nv.IsValueQuoted() {
+				return nil, this.CreateParseException("reason is not a token")
 			}
-		} else if strings.ToLower(value) == "expires" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
+			if ParseException = subscriptionState.SetReasonCode(reason); ParseException != nil {
 				return nil, ParseException
 			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
+		case "expires":
 			var expires int
-			if expires, ParseException = strconv.Atoi(value); ParseException != nil {
+			if expires, ParseException = this.deltaSeconds(nv); ParseException != nil {
 				return nil, ParseException
 			}
 			if ParseException = subscriptionState.SetExpires(expires); ParseException != nil {
 				return nil, ParseException
 			}
-		} else if strings.ToLower(value) == "retry-after" {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			token = lexer.GetNextToken()
-			value = token.GetTokenValue()
-
+		case "retry-after":
 			var retryAfter int
-			if retryAfter, ParseException = strconv.Atoi(value); ParseException != nil {
+			if retryAfter, ParseException = this.deltaSeconds(nv); ParseException != nil {
 				return nil, ParseException
 			}
 			if ParseException = subscriptionState.SetRetryAfter(retryAfter); ParseException != nil {
 				return nil, ParseException
 			}
-		} else {
-			if _, ParseException = lexer.Match('='); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			secondToken := lexer.GetNextToken()
-			secondValue := secondToken.GetTokenValue()
-			subscriptionState.SetParameter(value, secondValue)
+		default:
+			subscriptionState.GetParameters().SetNameValue(nv)
 		}
-
 		lexer.SPorHT()
 	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
+	}
 
 	return subscriptionState, nil
 }
-- 
2.43.0


From 4b6b3b262e0ea6003d2d1f8cc6200c190805c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:24 +0000
Subject: [PATCH 051/152] fix: a number of seconds in Subscription-State may be
 zero

---
 sip/header/SubscriptionStateImpl.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/SubscriptionStateImpl.go b/sip/header/SubscriptionStateImpl.go
index 5a379f6..cbf70a2 100644
--- a/sip/header/SubscriptionStateImpl.go
+++ b/sip/header/SubscriptionStateImpl.go
@@ -36,8 +36,8 @@ func NewSubscriptionState() *SubscriptionState {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetExpires(expires int) (InvalidArgumentException error) {
-	if expires <= 0 {
-		return errors.New("InvalidArgumentException: the expires parameter is <=0")
+	if expires < 0 {
+		return errors.New("InvalidArgumentException: the expires parameter is <0")
 	}
 	this.expires = expires
 	return nil
@@ -61,8 +61,8 @@ func (this *SubscriptionState) GetExpires() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *SubscriptionState) SetRetryAfter(retryAfter int) (InvalidArgumentException error) {
-	if retryAfter <= 0 {
-		return errors.New("InvalidArgumentException: the retryAfter parameter is <=0")
+	if retryAfter < 0 {
+		return errors.New("InvalidArgumentException: the retryAfter parameter is <0")
 	}
 	this.retryAfter = retryAfter
 	return nil
-- 
2.43.0


From c2e4bb569f50e816ac8a33c8db4bbba8790905c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 052/152] fix: a Retry-After of zero is encoded

---
 sip/header/RetryAfterImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/header/RetryAfterImpl.go b/sip/header/RetryAfterImpl.go
index a881890..a3858f6 100644
--- a/sip/header/RetryAfterImpl.go
+++ b/sip/header/RetryAfterImpl.go
@@ -39,9 +39,7 @@ func (this *RetryAfter) String() string {
  */
 func (this *RetryAfter) EncodeBody() string {
 	var encoding bytes.Buffer
-	if this.retryAfter != 0 {
-		encoding.WriteString(strconv.Itoa(this.retryAfter))
-	}
+	encoding.WriteString(strconv.Itoa(this.retryAfter))
 	if this.comment != "" {
 		encoding.WriteString(core.SIPSeparatorNames_SP + "(")
 		encoding.WriteString(this.comment)
-- 
2.43.0


From fa913d00307440a26072c6be032f138300432554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:08 +0000
Subject: [PATCH 053/152] fix: the fraction of a Timestamp keeps its leading
 zeros, and what follows the values is reported

---
 sip/parser/TimeStampParser.go | 62 ++++++++++++++---------------------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/sip/parser/TimeStampParser.go b/sip/parser/TimeStampParser.go
index 26de1f8..6de195a 100644
--- a/sip/parser/TimeStampParser.go
+++ b/sip/parser/TimeStampParser.go
@@ -30,6 +30,22 @@ func NewTimeStampParserFromLexer(lexer core.Lexer) *TimeStampParser {
 	return this
 }
 
+/** A number of seconds: digits, a dot and digits, where one of the two
+ *  may be missing.
+ */
+func (this *TimeStampParser) seconds() (n float32, ParseException error) {
+	lexer := this.GetLexer()
+	start := lexer.GetPtr()
+	for ch, _ := lexer.LookAheadK(0); lexer.IsDigit(ch) || ch == '.'; ch, _ = lexer.LookAheadK(0) {
+		lexer.ConsumeK(1)
+	}
+	var value float64
+	if value, ParseException = strconv.ParseFloat(lexer.GetBuffer()[start:lexer.GetPtr()], 32); ParseException != nil {
+		return 0, ParseException
+	}
+	return float32(value), nil
+}
+
 /** parse the String message
  * @return SIPHeader (TimeStamp object)
  * @throws SIPParseException if the message does not respect the spec.
@@ -38,7 +54,6 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp := header.NewTimeStamp()
 
 	var ch byte
-	var firstNumber, secondNumber int
 
 	lexer := this.GetLexer()
 	if ParseException = this.HeaderName(TokenTypes_TIMESTAMP); ParseException != nil {
@@ -48,53 +63,26 @@ func (this *TimeStampParser) Parse() (sh header.Header, ParseException error) {
 	timeStamp.SetHeaderName(core.SIPHeaderNames_TIMESTAMP)
 	lexer.SPorHT()
 
-	if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+	var ts float32
+	if ts, ParseException = this.seconds(); ParseException != nil {
 		return nil, ParseException
 	}
-
-	var ts float64
-	if ch, _ = lexer.LookAheadK(0); ch == '.' {
-		if _, ParseException = lexer.Match('.'); ParseException != nil {
-			return nil, ParseException
-		}
-
-		if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-			return nil, ParseException
-		}
-
-		s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-		ts, _ = strconv.ParseFloat(s, 32)
-	} else {
-		ts = float64(firstNumber)
-	}
-
-	if ParseException = timeStamp.SetTimeStamp(float32(ts)); ParseException != nil {
+	if ParseException = timeStamp.SetTimeStamp(ts); ParseException != nil {
 		return nil, ParseException
 	}
 
 	lexer.SPorHT()
 	if ch, _ = lexer.LookAheadK(0); ch != '\n' {
-		if firstNumber, ParseException = lexer.Number(); ParseException != nil {
+		if ts, ParseException = this.seconds(); ParseException != nil {
 			return nil, ParseException
 		}
-
-		if ch, _ = lexer.LookAheadK(0); ch == '.' {
-			if _, ParseException = lexer.Match('.'); ParseException != nil {
-				return nil, ParseException
-			}
-			if secondNumber, ParseException = lexer.Number(); ParseException != nil {
-				return nil, ParseException
-			}
-
-			s := strconv.Itoa(firstNumber) + "." + strconv.Itoa(secondNumber)
-			ts, _ = strconv.ParseFloat(s, 32)
-		} else {
-			ts = float64(firstNumber)
-		}
-
-		if ParseException = timeStamp.SetDelay(float32(ts)); ParseException != nil {
+		if ParseException = timeStamp.SetDelay(ts); ParseException != nil {
 			return nil, ParseException
 		}
+		lexer.SPorHT()
+	}
+	if _, ParseException = lexer.Match('\n'); ParseException != nil {
+		return nil, ParseException
 	}
 
 	return timeStamp, nil
-- 
2.43.0


From 2004330e9fc3d76460e5134a9370f9852898694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:12 +0000
Subject: [PATCH 054/152] fix: a Date header is read and written in GMT,
 whatever the local time zone

---
 sip/header/DateImpl.go   | 6 +++++-
 sip/parser/DateParser.go | 6 +-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 5c55b2d..657aafc 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -5,6 +5,10 @@ import (
 	"time"
 )
 
+/** The form of a SIP date, which is always in GMT.
+ */
+const Date_FORMAT = "Mon, 02 Jan 2006 15:04:05 GMT"
+
 /**
 * Date Header.
  */
@@ -33,7 +37,7 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
-	return this.date.Format(time.RFC1123)
+	return this.date.UTC().Format(Date_FORMAT)
 }
 
 /**
diff --git a/sip/parser/DateParser.go b/sip/parser/DateParser.go
index abcda2e..325e552 100644
--- a/sip/parser/DateParser.go
+++ b/sip/parser/DateParser.go
@@ -1,7 +1,6 @@
 package parser
 
 import (
-	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -40,12 +39,9 @@ func (this *DateParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 	var t time.Time
-	if t, ParseException = time.Parse(time.RFC1123, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
+	if t, ParseException = time.Parse(header.Date_FORMAT, strings.TrimSpace(lexer.GetRest())); ParseException != nil {
 		return nil, ParseException
 	}
-	if t.Location().String() != "GMT" {
-		return nil, errors.New("GMT is only acceptable time zone")
-	}
 	retval := header.NewDate()
 	retval.SetDate(&t)
 	return retval, nil
-- 
2.43.0


From ba7ee77ef51378088043ee49213c47ab9904fb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:31 +0000
Subject: [PATCH 055/152] fix: Expires takes white space after its value, and
 no sign before it

---
 sip/parser/ExpiresParser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/parser/ExpiresParser.go b/sip/parser/ExpiresParser.go
index 8ed5911..d7f4450 100644
--- a/sip/parser/ExpiresParser.go
+++ b/sip/parser/ExpiresParser.go
@@ -44,11 +44,12 @@ func (this *ExpiresParser) Parse() (sh header.Header, ParseException error) {
 	}
 	lexer.SPorHT()
 	nextId := lexer.GetNextId()
+	lexer.SPorHT()
 	if _, ParseException = lexer.Match('\n'); ParseException != nil {
 		return nil, ParseException
 	}
-	var delta int64
-	if delta, ParseException = strconv.ParseInt(nextId, 10, 32); ParseException != nil {
+	var delta uint64
+	if delta, ParseException = strconv.ParseUint(nextId, 10, 31); ParseException != nil {
 		return nil, ParseException
 	}
 	if ParseException = expires.SetExpires(int(delta)); ParseException != nil {
-- 
2.43.0


From e65faf03d1ce367dd59c7a3e9f9f8a86bd445986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 056/152] fix: the products and comments of Server and
 User-Agent are read as they are written

---
 sip/parser/HeaderParser.go    | 33 +++++++++++++++++++++++++++++++++
 sip/parser/ServerParser.go    | 28 ++++++++--------------------
 sip/parser/UserAgentParser.go | 28 ++++++++--------------------
 3 files changed, 49 insertions(+), 40 deletions(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index c796272..43d1bb9 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"container/list"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strconv"
@@ -69,6 +70,38 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	return retval, nil
 }
 
+/** The texts between the slashes of the rest of the line. Comments are kept
+ *  as they are, with the slashes in them.
+ */
+func (this *HeaderParser) Products() (products *list.List, ParseException error) {
+	lexer := this.GetLexer()
+	products = list.New()
+	product := ""
+	for {
+		ch, err := lexer.LookAheadK(0)
+		if err != nil || ch == '\n' {
+			break
+		}
+		if ch == '(' {
+			var comment string
+			if comment, ParseException = lexer.Comment(); ParseException != nil {
+				return nil, ParseException
+			}
+			product += "(" + comment + ")"
+			continue
+		}
+		if ch == '/' {
+			products.PushBack(strings.TrimSpace(product))
+			product = ""
+		} else {
+			product += lexer.CharAsString(ch)
+		}
+		lexer.ConsumeK(1)
+	}
+	products.PushBack(strings.TrimSpace(product))
+	return products, nil
+}
+
 /** Parse a parameter. One without a value is a flag, with a nil value.
  */
 func (this *HeaderParser) Parameter() (nv *core.NameValue, ParseException error) {
diff --git a/sip/parser/ServerParser.go b/sip/parser/ServerParser.go
index 7dcac9a..14d9149 100644
--- a/sip/parser/ServerParser.go
+++ b/sip/parser/ServerParser.go
@@ -1,10 +1,10 @@
 package parser
 
 import (
+	"container/list"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strings"
 )
 
 /** SIPParser for Server header.
@@ -47,25 +47,13 @@ func (this *ServerParser) Parse() (sh header.Header, ParseException error) {
 		return nil, errors.New("empty header")
 	}
 
-	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			server.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				server.AddProductToken(tok)
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				server.AddProductToken(tok)
-			}
-		}
+	// product[/product-version] | (comment)
+	var products *list.List
+	if products, ParseException = this.Products(); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = server.SetProduct(products); ParseException != nil {
+		return nil, ParseException
 	}
 
 	return server, nil
diff --git a/sip/parser/UserAgentParser.go b/sip/parser/UserAgentParser.go
index 0147937..760329b 100644
--- a/sip/parser/UserAgentParser.go
+++ b/sip/parser/UserAgentParser.go
@@ -1,10 +1,10 @@
 package parser
 
 import (
+	"container/list"
 	"errors"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strings"
 )
 
 /** SIPParser for UserAgent header.
@@ -48,25 +48,13 @@ func (this *UserAgentParser) Parse() (sh header.Header, ParseException error) {
 		return nil, errors.New("empty header")
 	}
 
-	//  mandatory token: product[/product-version] | (comment)
-	for ch, ParseException = lexer.LookAheadK(0); ch != '\n' && ParseException == nil; ch, ParseException = lexer.LookAheadK(0) {
-		if ch == '(' {
-			comment, _ := lexer.Comment()
-			userAgent.AddProductToken("(" + comment + ")")
-		} else {
-			var tok string
-			tok, ParseException = lexer.GetString('/')
-			if ParseException != nil {
-				tok = lexer.GetRest()
-				userAgent.AddProductToken(strings.TrimSpace(tok))
-				break
-			} else {
-				if tok[len(tok)-1] == '\n' {
-					tok = strings.TrimSpace(tok)
-				}
-				userAgent.AddProductToken(tok)
-			}
-		}
+	// product[/product-version] | (comment)
+	var products *list.List
+	if products, ParseException = this.Products(); ParseException != nil {
+		return nil, ParseException
+	}
+	if ParseException = userAgent.SetProduct(products); ParseException != nil {
+		return nil, ParseException
 	}
 
 	return userAgent, nil
-- 
2.43.0


From 86dfc973e6431053806a1aa4c1833767524936c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 057/152] fix: a header parser that fails returns no header

---
 sip/parser/AuthorizationParser.go      | 6 ++++--
 sip/parser/CallIdParser.go             | 5 ++++-
 sip/parser/ProxyAuthenticateParser.go  | 6 ++++--
 sip/parser/ProxyAuthorizationParser.go | 6 ++++--
 sip/parser/WWWAuthenticateParser.go    | 6 ++++--
 5 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/sip/parser/AuthorizationParser.go b/sip/parser/AuthorizationParser.go
index 038cecc..c60a0d7 100644
--- a/sip/parser/AuthorizationParser.go
+++ b/sip/parser/AuthorizationParser.go
@@ -38,6 +38,8 @@ func (this *AuthorizationParser) Parse() (sh header.Header, ParseException error
 		return nil, ParseException
 	}
 	auth := header.NewAuthorization()
-	ParseException = this.ChallengeParser.Parse(auth)
-	return auth, ParseException
+	if ParseException = this.ChallengeParser.Parse(auth); ParseException != nil {
+		return nil, ParseException
+	}
+	return auth, nil
 }
diff --git a/sip/parser/CallIdParser.go b/sip/parser/CallIdParser.go
index 647c7bb..dde6f26 100644
--- a/sip/parser/CallIdParser.go
+++ b/sip/parser/CallIdParser.go
@@ -54,5 +54,8 @@ func (this *CallIDParser) Parse() (sh header.Header, ParseException error) {
 
 	callID, ParseException := header.NewCallID(rest)
 
-	return callID, ParseException
+	if ParseException != nil {
+		return nil, ParseException
+	}
+	return callID, nil
 }
diff --git a/sip/parser/ProxyAuthenticateParser.go b/sip/parser/ProxyAuthenticateParser.go
index d47b616..b89d09d 100644
--- a/sip/parser/ProxyAuthenticateParser.go
+++ b/sip/parser/ProxyAuthenticateParser.go
@@ -38,6 +38,8 @@ func (this *ProxyAuthenticateParser) Parse() (sh header.Header, ParseException e
 		return nil, ParseException
 	}
 	proxyAuthenticate := header.NewProxyAuthenticate()
-	ParseException = this.ChallengeParser.Parse(proxyAuthenticate)
-	return proxyAuthenticate, ParseException
+	if ParseException = this.ChallengeParser.Parse(proxyAuthenticate); ParseException != nil {
+		return nil, ParseException
+	}
+	return proxyAuthenticate, nil
 }
diff --git a/sip/parser/ProxyAuthorizationParser.go b/sip/parser/ProxyAuthorizationParser.go
index e5592ac..358b72f 100644
--- a/sip/parser/ProxyAuthorizationParser.go
+++ b/sip/parser/ProxyAuthorizationParser.go
@@ -38,6 +38,8 @@ func (this *ProxyAuthorizationParser) Parse() (sh header.Header, ParseException
 		return nil, ParseException
 	}
 	proxyAuth := header.NewProxyAuthorization()
-	ParseException = this.ChallengeParser.Parse(proxyAuth)
-	return proxyAuth, ParseException
+	if ParseException = this.ChallengeParser.Parse(proxyAuth); ParseException != nil {
+		return nil, ParseException
+	}
+	return proxyAuth, nil
 }
diff --git a/sip/parser/WWWAuthenticateParser.go b/sip/parser/WWWAuthenticateParser.go
index 429a1cc..ed3c14e 100644
--- a/sip/parser/WWWAuthenticateParser.go
+++ b/sip/parser/WWWAuthenticateParser.go
@@ -38,6 +38,8 @@ func (this *WWWAuthenticateParser) Parse() (sh header.Header, ParseException err
 		return nil, ParseException
 	}
 	wwwAuthenticate := header.NewWWWAuthenticate()
-	ParseException = this.ChallengeParser.Parse(wwwAuthenticate)
-	return wwwAuthenticate, ParseException
+	if ParseException = this.ChallengeParser.Parse(wwwAuthenticate); ParseException != nil {
+		return nil, ParseException
+	}
+	return wwwAuthenticate, nil
 }
-- 
2.43.0


From eedefe84973e0ba5d64050350fc732ebb9810717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:15 +0000
Subject: [PATCH 058/152] fix: parameters of authentication headers have values
 and are separated by commas

---
 sip/parser/AuthenticationInfoParser.go | 22 +++++++++++++++-------
 sip/parser/ChallengeParser.go          | 16 ++++++++++------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/sip/parser/AuthenticationInfoParser.go b/sip/parser/AuthenticationInfoParser.go
index ed7bcfb..30571ab 100644
--- a/sip/parser/AuthenticationInfoParser.go
+++ b/sip/parser/AuthenticationInfoParser.go
@@ -31,13 +31,25 @@ func NewAuthenticationInfoParserFromLexer(lexer core.Lexer) *AuthenticationInfoP
 	return this
 }
 
+/** parse one parameter of the header
+ */
+func (this *AuthenticationInfoParser) authInfo(authenticationInfo *header.AuthenticationInfo) (ParseException error) {
+	var nv *core.NameValue
+	if nv, ParseException = this.NameValue('='); ParseException != nil {
+		return ParseException
+	}
+	if nv.GetValue() == "" && !nv.IsValueQuoted() {
+		return this.CreateParseException("value expected")
+	}
+	return authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
+}
+
 /** parse the AuthenticationInfo String header
  * @return Header (AuthenticationInfoList object)
  * @throws SIPParseException if the message does not respect the spec.
  */
 func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException error) {
 	var ch byte
-	var nv *core.NameValue
 	lexer := this.GetLexer()
 	if ParseException = this.HeaderName(TokenTypes_AUTHENTICATION_INFO); ParseException != nil {
 		return nil, ParseException
@@ -48,11 +60,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 
 	lexer.SPorHT()
 
-	if nv, ParseException = this.NameValue('='); ParseException != nil {
+	if ParseException = this.authInfo(authenticationInfo); ParseException != nil {
 		return nil, ParseException
 	}
-	authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
-
 	lexer.SPorHT()
 	for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
 		if _, ParseException = lexer.Match(','); ParseException != nil {
@@ -60,11 +70,9 @@ func (this *AuthenticationInfoParser) Parse() (sh header.Header, ParseException
 		}
 		lexer.SPorHT()
 
-		if nv, ParseException = this.NameValue('='); ParseException != nil {
+		if ParseException = this.authInfo(authenticationInfo); ParseException != nil {
 			return nil, ParseException
 		}
-		authenticationInfo.SetParameter(nv.GetName(), nv.GetValue().(string))
-
 		lexer.SPorHT()
 	}
 	lexer.SPorHT()
diff --git a/sip/parser/ChallengeParser.go b/sip/parser/ChallengeParser.go
index fd00ced..96b23c6 100644
--- a/sip/parser/ChallengeParser.go
+++ b/sip/parser/ChallengeParser.go
@@ -46,6 +46,9 @@ func (this *ChallengeParser) ParseParameter(h header.AuthorizationHeader) (Parse
 	if nv, ParseException = this.NameValue('='); ParseException != nil {
 		return ParseException
 	}
+	if nv.GetValue() == "" && !nv.IsValueQuoted() {
+		return this.CreateParseException("value expected")
+	}
 	ParseException = h.SetParameter(nv.GetName(), nv.GetValue().(string))
 	return ParseException
 }
@@ -67,18 +70,19 @@ func (this *ChallengeParser) Parse(h header.AuthorizationHeader) (ParseException
 	h.SetScheme(t.GetTokenValue())
 
 	// The parameters:
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	ch, _ = lexer.LookAheadK(0)
+	for more := ch != '\n'; more; {
 		if ParseException = this.ParseParameter(h); ParseException != nil {
 			return ParseException
 		}
 		lexer.SPorHT()
-		if ch, ParseException = lexer.LookAheadK(0); ch == '\n' || ParseException != nil { //||ch=='\0'
-			break
-		}
-		if _, ParseException = lexer.Match(','); ParseException != nil {
+		ch, _ = lexer.LookAheadK(0)
+		if more = ch == ','; more {
+			lexer.ConsumeK(1)
+			lexer.SPorHT()
+		} else if _, ParseException = lexer.Match('\n'); ParseException != nil {
 			return ParseException
 		}
-		lexer.SPorHT()
 	}
 	return nil
 }
-- 
2.43.0


From 028d9463adbe913fe4b7e8716f0919a9514f9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:53 +0000
Subject: [PATCH 059/152] fix: a parameter of an authentication header is
 quoted whenever its value has to be

---
 sip/header/AuthenticationImpl.go     | 57 ++++++++++++++++++----------
 sip/header/AuthenticationInfoImpl.go | 42 ++++++++++----------
 2 files changed, 58 insertions(+), 41 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 49a5481..b45220f 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -43,36 +43,53 @@ func (this *Authentication) SetParameter(name, value string) error {
 	if name == "" {
 		return errors.New("NullPointerException: null name")
 	}
-	nv := this.parameters.GetNameValue(strings.ToLower(name))
+	quoted := needsQuotes(value)
+	switch strings.ToLower(name) {
+	case ParameterNames_QOP,
+		ParameterNames_REALM,
+		ParameterNames_CNONCE,
+		ParameterNames_NONCE,
+		ParameterNames_USERNAME,
+		ParameterNames_DOMAIN,
+		ParameterNames_OPAQUE,
+		ParameterNames_NEXT_NONCE,
+		ParameterNames_URI,
+		ParameterNames_ALGORITHM,
+		ParameterNames_RESPONSE:
+		if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
+		quoted = true
+	}
+	nv := this.parameters.GetNameValue(name)
 	if nv == nil {
 		nv = core.NewNameValue(name, value)
-		if strings.ToLower(name) == (ParameterNames_QOP) ||
-			strings.ToLower(name) == (ParameterNames_REALM) ||
-			strings.ToLower(name) == (ParameterNames_CNONCE) ||
-			strings.ToLower(name) == (ParameterNames_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_USERNAME) ||
-			strings.ToLower(name) == (ParameterNames_DOMAIN) ||
-			strings.ToLower(name) == (ParameterNames_OPAQUE) ||
-			strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_URI) ||
-			strings.ToLower(name) == (ParameterNames_ALGORITHM) ||
-			strings.ToLower(name) == (ParameterNames_RESPONSE) {
-			//if value == "" {//TODO by LY
-			//	return errors.New("NullPointerException: null value")
-			//}
-			if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
-				return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
-			}
-			nv.SetQuotedValue()
-		}
 		this.parameters.SetNameValue(nv)
 	} else {
 		nv.SetValue(value)
 	}
+	if quoted {
+		nv.SetQuotedValue()
+	}
 
 	return nil
 }
 
+/** Whether a parameter value is neither a token nor quoted already.
+ */
+func needsQuotes(value string) bool {
+	if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+		return false
+	}
+	for i := 0; i < len(value); i++ {
+		c := value[i]
+		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-.!%*_+`'~", c) >= 0) {
+			return true
+		}
+	}
+	return value == ""
+}
+
 /** This is only used for the parser interface.
  *@param challenge -- the challenge from which the parameters are
  * extracted.
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 4daa226..5ac56b4 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -189,33 +189,33 @@ func (this *AuthenticationInfo) SetParameter(name, value string) error {
 		return errors.New("NullPointerException: null name")
 	}
 
-	nv := this.parameters.GetNameValue(strings.ToLower(name))
+	quoted := needsQuotes(value)
+	switch strings.ToLower(name) {
+	case ParameterNames_QOP,
+		ParameterNames_NEXT_NONCE,
+		ParameterNames_REALM,
+		ParameterNames_CNONCE,
+		ParameterNames_NONCE,
+		ParameterNames_OPAQUE,
+		ParameterNames_USERNAME,
+		ParameterNames_DOMAIN,
+		ParameterNames_ALGORITHM,
+		ParameterNames_RESPONSE_AUTH:
+		if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
+			return errors.New("ParseException: " + value + " : Unexpected DOUBLE_QUOTE")
+		}
+		quoted = true
+	}
+	nv := this.parameters.GetNameValue(name)
 	if nv == nil {
 		nv = core.NewNameValue(name, value)
-		if strings.ToLower(name) == (ParameterNames_QOP) ||
-			strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_REALM) ||
-			strings.ToLower(name) == (ParameterNames_CNONCE) ||
-			strings.ToLower(name) == (ParameterNames_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_OPAQUE) ||
-			strings.ToLower(name) == (ParameterNames_USERNAME) ||
-			strings.ToLower(name) == (ParameterNames_DOMAIN) ||
-			strings.ToLower(name) == (ParameterNames_NEXT_NONCE) ||
-			strings.ToLower(name) == (ParameterNames_ALGORITHM) ||
-			strings.ToLower(name) == (ParameterNames_RESPONSE_AUTH) {
-			//if value == "" {//TODO by LY
-			//	return errors.New("NullPointerException: null value")
-			//}
-			if strings.HasPrefix(value, core.SIPSeparatorNames_DOUBLE_QUOTE) {
-				return errors.New("ParseException: " +
-					value + " : Unexpected DOUBLE_QUOTE")
-			}
-			nv.SetQuotedValue()
-		}
 		this.parameters.SetNameValue(nv)
 	} else {
 		nv.SetValue(value)
 	}
+	if quoted {
+		nv.SetQuotedValue()
+	}
 
 	return nil
 }
-- 
2.43.0


From 9a9f0cc0a2eaeadf75335dd16769763f32504b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 060/152] fix: setters of authentication headers return the
 error of setting the parameter

---
 sip/header/AuthenticationImpl.go     | 27 +++++++++------------------
 sip/header/AuthenticationInfoImpl.go | 15 +++++----------
 2 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index b45220f..ee62b44 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -151,8 +151,7 @@ func (this *Authentication) SetRealm(realm string) (ParseException error) {
 	if realm == "" {
 		return errors.New("NullPointerException: The realm parameter is null")
 	}
-	this.SetParameter(ParameterNames_REALM, realm)
-	return nil
+	return this.SetParameter(ParameterNames_REALM, realm)
 }
 
 /**
@@ -180,8 +179,7 @@ func (this *Authentication) SetNonce(nonce string) (ParseException error) {
 	if nonce == "" {
 		return errors.New("NullPointerException: The nonce parameter is null")
 	}
-	this.SetParameter(ParameterNames_NONCE, nonce)
-	return nil
+	return this.SetParameter(ParameterNames_NONCE, nonce)
 }
 
 /**
@@ -239,8 +237,7 @@ func (this *Authentication) SetAlgorithm(algorithm string) (ParseException error
 	if algorithm == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_ALGORITHM, algorithm)
-	return nil
+	return this.SetParameter(ParameterNames_ALGORITHM, algorithm)
 }
 
 /**
@@ -267,8 +264,7 @@ func (this *Authentication) SetQop(qop string) (ParseException error) {
 	if qop == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /**
@@ -295,8 +291,7 @@ func (this *Authentication) SetOpaque(opaque string) (ParseException error) {
 	if opaque == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_OPAQUE, opaque)
-	return nil
+	return this.SetParameter(ParameterNames_OPAQUE, opaque)
 }
 
 /**
@@ -323,8 +318,7 @@ func (this *Authentication) SetDomain(domain string) (ParseException error) {
 	if domain == "" {
 		return errors.New("NullPointerException: null arg")
 	}
-	this.SetParameter(ParameterNames_DOMAIN, domain)
-	return nil
+	return this.SetParameter(ParameterNames_DOMAIN, domain)
 }
 
 /**
@@ -375,8 +369,7 @@ func (this *Authentication) IsStale() bool {
  * @param cnonce -- a nonce string.
  */
 func (this *Authentication) SetCNonce(cnonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cnonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cnonce)
 }
 
 /** Get the CNonce.
@@ -407,8 +400,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /**
@@ -429,8 +421,7 @@ func (this *Authentication) SetResponse(response string) (ParseException error)
 		return errors.New("NullPointerException: Null parameter")
 	}
 
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 /**
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 5ac56b4..53c9268 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -119,8 +119,7 @@ func (this *AuthenticationInfo) GetResponse() string {
  *
  */
 func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_CNONCE, cNonce)
-	return nil
+	return this.SetParameter(ParameterNames_CNONCE, cNonce)
 }
 
 /** Sets the NextNonce of the AuthenticationInfoHeader to the <var>nextNonce</var>
@@ -132,8 +131,7 @@ func (this *AuthenticationInfo) SetCNonce(cNonce string) (ParseException error)
  *
  */
 func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException error) {
-	this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
-	return nil
+	return this.SetParameter(ParameterNames_NEXT_NONCE, nextNonce)
 }
 
 /** Sets the Nonce Count of the AuthenticationInfoHeader to the <var>nonceCount</var>
@@ -152,8 +150,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
 
 	base := "00000000"
 	nc = base[0:8-len(nc)] + nc
-	this.SetParameter(ParameterNames_NC, nc)
-	return nil
+	return this.SetParameter(ParameterNames_NC, nc)
 }
 
 /** Sets the Qop value of the AuthenticationInfoHeader to the new
@@ -165,8 +162,7 @@ func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException er
  *
  */
 func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
-	this.SetParameter(ParameterNames_QOP, qop)
-	return nil
+	return this.SetParameter(ParameterNames_QOP, qop)
 }
 
 /** Sets the Response of the
@@ -180,8 +176,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	this.SetParameter(ParameterNames_RESPONSE, response)
-	return nil
+	return this.SetParameter(ParameterNames_RESPONSE, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From fae887dd2e5863e34a6c94249e81b7436f717c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 061/152] fix: the response of Authentication-Info is its
 rspauth parameter

---
 sip/header/AuthenticationInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 53c9268..3d652ae 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -176,7 +176,7 @@ func (this *AuthenticationInfo) SetQop(qop string) (ParseException error) {
  *
  */
 func (this *AuthenticationInfo) SetResponse(response string) (ParseException error) {
-	return this.SetParameter(ParameterNames_RESPONSE, response)
+	return this.SetParameter(ParameterNames_RESPONSE_AUTH, response)
 }
 
 func (this *AuthenticationInfo) SetParameter(name, value string) error {
-- 
2.43.0


From 6e28ceab5b6c3a0b25ddca89b757e8c1449518d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:09 +0000
Subject: [PATCH 062/152] fix: the nonce count is read as it is written, in
 hexadecimal, and is -1 when absent

---
 sip/header/AuthenticationImpl.go     | 14 ++++++++------
 sip/header/AuthenticationInfoImpl.go | 14 ++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index ee62b44..f8b2f2a 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -2,8 +2,10 @@ package header
 
 import (
 	"errors"
+	"fmt"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -383,7 +385,10 @@ func (this *Authentication) GetCNonce() string {
 func (this *Authentication) GetNonceCount() int {
 	//return this.GetParameterAsHexInt(ParameterNames_NC);
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseUint(s, 16, 32)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -392,14 +397,11 @@ func (this *Authentication) GetNonceCount() int {
  */
 
 func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || int64(nonceCount) > math.MaxUint32 {
 		return errors.New("ParseException: bad value")
 	}
 
-	nc := strconv.FormatUint(uint64(nonceCount), 16)
-
-	base := "00000000"
-	nc = base[0:8-len(nc)] + nc
+	nc := fmt.Sprintf("%08x", nonceCount)
 	return this.SetParameter(ParameterNames_NC, nc)
 }
 
diff --git a/sip/header/AuthenticationInfoImpl.go b/sip/header/AuthenticationInfoImpl.go
index 3d652ae..526c955 100644
--- a/sip/header/AuthenticationInfoImpl.go
+++ b/sip/header/AuthenticationInfoImpl.go
@@ -2,7 +2,9 @@ package header
 
 import (
 	"errors"
+	"fmt"
 	"github.com/use-go/gosips/core"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -87,7 +89,10 @@ func (this *AuthenticationInfo) GetNextNonce() string {
  */
 func (this *AuthenticationInfo) GetNonceCount() int {
 	s := this.GetParameter(ParameterNames_NONCE_COUNT)
-	nCount, _ := strconv.ParseInt(s, 10, 32)
+	nCount, err := strconv.ParseUint(s, 16, 32)
+	if err != nil {
+		return -1
+	}
 	return int(nCount)
 }
 
@@ -143,13 +148,10 @@ func (this *AuthenticationInfo) SetNextNonce(nextNonce string) (ParseException e
  *
  */
 func (this *AuthenticationInfo) SetNonceCount(nonceCount int) (ParseException error) {
-	if nonceCount < 0 {
+	if nonceCount < 0 || int64(nonceCount) > math.MaxUint32 {
 		return errors.New("ParseException: bad value")
 	}
-	nc := strconv.FormatUint(uint64(nonceCount), 16)
-
-	base := "00000000"
-	nc = base[0:8-len(nc)] + nc
+	nc := fmt.Sprintf("%08x", nonceCount)
 	return this.SetParameter(ParameterNames_NC, nc)
 }
 
-- 
2.43.0


From 25ad96db9785ed89c1a96cfa069fcd9aa2e5a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:15 +0000
Subject: [PATCH 063/152] fix: stale is true in any letter case

---
 sip/header/AuthenticationImpl.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index f8b2f2a..d5fcd68 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -359,11 +359,7 @@ func (this *Authentication) SetStale(stale bool) {
  */
 func (this *Authentication) IsStale() bool {
 	stale := this.GetParameter(ParameterNames_STALE)
-	if stale == "true" {
-		return true
-	} else {
-		return false
-	}
+	return strings.EqualFold(stale, "true")
 }
 
 /** Set the CNonce.
-- 
2.43.0


From a2506278944bb5508b05cbe69dc74ce7bb91bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 064/152] fix: an absent response or uri of an authentication
 header reads as absent

---
 sip/header/AuthenticationImpl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index d5fcd68..19a3fc6 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -223,6 +223,9 @@ func (this *Authentication) SetURI(uri address.URI) error {
  */
 func (this *Authentication) GetURI() address.URI {
 	url := this.GetParameter(ParameterNames_URI)
+	if url == "" {
+		return nil
+	}
 	return address.NewURIImpl(url)
 }
 
@@ -407,7 +410,7 @@ func (this *Authentication) SetNonceCount(nonceCount int) (ParseException error)
  * @return String response parameter value.
  */
 func (this *Authentication) GetResponse() string {
-	return this.GetParameterValue(ParameterNames_RESPONSE)
+	return this.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Set the Response.
-- 
2.43.0


From d59ef04c356c7dba4c67204dd7cc523f0e68c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 065/152] fix: reading the value of an absent parameter yields
 the empty value

---
 sip/header/ParametersImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ParametersImpl.go b/sip/header/ParametersImpl.go
index b674104..39002d7 100644
--- a/sip/header/ParametersImpl.go
+++ b/sip/header/ParametersImpl.go
@@ -114,7 +114,7 @@ func (this *Parameters) GetParameter(name string) string {
  *
  */
 func (this *Parameters) GetParameterValue(name string) string {
-	return this.parameters.GetValue(name).(string)
+	return this.parameters.GetParameter(name)
 }
 
 /**
-- 
2.43.0


From b66b7a3f1205e676a2ed92424d604c51e9828c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:30 +0000
Subject: [PATCH 066/152] fix: reading an absent parameter of a challenge
 yields the empty value

---
 sip/header/Challenge.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 806c057..b8d67f1 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -50,70 +50,70 @@ func (this *Challenge) GetAuthParams() *core.NameValueList {
  * @return String
  */
 func (this *Challenge) GetDomain() string {
-	return this.authParams.GetValue(ParameterNames_DOMAIN).(string)
+	return this.authParams.GetParameter(ParameterNames_DOMAIN)
 }
 
 /** Get the URI field
  * @return String
  */
 func (this *Challenge) GetURI() string {
-	return this.authParams.GetValue(ParameterNames_URI).(string)
+	return this.authParams.GetParameter(ParameterNames_URI)
 }
 
 /** Get the Opaque field
  * @return String
  */
 func (this *Challenge) GetOpaque() string {
-	return this.authParams.GetValue(ParameterNames_OPAQUE).(string)
+	return this.authParams.GetParameter(ParameterNames_OPAQUE)
 }
 
 /** Get QOP value
  * @return String
  */
 func (this *Challenge) GetQOP() string {
-	return this.authParams.GetValue(ParameterNames_QOP).(string)
+	return this.authParams.GetParameter(ParameterNames_QOP)
 }
 
 /** Get the Algorithm value.
  * @return String
  */
 func (this *Challenge) GetAlgorithm() string {
-	return this.authParams.GetValue(ParameterNames_ALGORITHM).(string)
+	return this.authParams.GetParameter(ParameterNames_ALGORITHM)
 }
 
 /** Get the State value.
  * @return String
  */
 func (this *Challenge) GetStale() string {
-	return this.authParams.GetValue(ParameterNames_STALE).(string)
+	return this.authParams.GetParameter(ParameterNames_STALE)
 }
 
 /** Get the Signature value.
  * @return String
  */
 func (this *Challenge) GetSignature() string {
-	return this.authParams.GetValue(ParameterNames_SIGNATURE).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNATURE)
 }
 
 /** Get the signedBy value.
  * @return String
  */
 func (this *Challenge) GetSignedBy() string {
-	return this.authParams.GetValue(ParameterNames_SIGNED_BY).(string)
+	return this.authParams.GetParameter(ParameterNames_SIGNED_BY)
 }
 
 /** Get the Response value.
  * @return String
  */
 func (this *Challenge) GetResponse() string {
-	return this.authParams.GetValue(ParameterNames_RESPONSE).(string)
+	return this.authParams.GetParameter(ParameterNames_RESPONSE)
 }
 
 /** Get the realm value.
  * @return String.
  */
 func (this *Challenge) GetRealm() string {
-	return this.authParams.GetValue(ParameterNames_REALM).(string)
+	return this.authParams.GetParameter(ParameterNames_REALM)
 }
 
 /** Get the specified parameter
@@ -121,7 +121,7 @@ func (this *Challenge) GetRealm() string {
  * @return String to Set
  */
 func (this *Challenge) GetParameter(name string) string {
-	return this.authParams.GetValue(name).(string)
+	return this.authParams.GetParameter(name)
 }
 
 /** boolean function
-- 
2.43.0


From 5f18c223194e2b41129aeb4460926fda72416c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:35 +0000
Subject: [PATCH 067/152] fix: a challenge keeps its comma when its parameters
 are removed, and one value per parameter

---
 sip/header/Challenge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index b8d67f1..99753ce 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -158,7 +158,7 @@ func (this *Challenge) RemoveParameters() {
  * @param nv NameValue to Set
  */
 func (this *Challenge) SetParameter(nv *core.NameValue) {
-	this.authParams.AddNameValue(nv)
+	this.authParams.SetNameValue(nv)
 }
 
 /**
-- 
2.43.0


From 1fe9750d1445e940bdd4c2c0dba9417a65ca32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:51 +0000
Subject: [PATCH 068/152] fix: removing the parameters of a challenge keeps
 their separator

---
 sip/header/Challenge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/Challenge.go b/sip/header/Challenge.go
index 99753ce..9fb3348 100644
--- a/sip/header/Challenge.go
+++ b/sip/header/Challenge.go
@@ -151,7 +151,7 @@ func (this *Challenge) RemoveParameter(name string) bool {
 /** remove all parameters
  */
 func (this *Challenge) RemoveParameters() {
-	this.authParams = core.NewNameValueList("authParams")
+	this.authParams.Init()
 }
 
 /** Set the specified parameter
-- 
2.43.0


From f57ec6b6486a152dab2ccc1535110d57c5bef819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:56 +0000
Subject: [PATCH 069/152] fix: an authentication header has its own copy of the
 parameters of a challenge

---
 sip/header/AuthenticationImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/AuthenticationImpl.go b/sip/header/AuthenticationImpl.go
index 19a3fc6..2ef60ae 100644
--- a/sip/header/AuthenticationImpl.go
+++ b/sip/header/AuthenticationImpl.go
@@ -98,7 +98,7 @@ func needsQuotes(value string) bool {
  */
 func (this *Authentication) SetChallenge(challenge Challenge) {
 	this.scheme = challenge.scheme
-	this.parameters = challenge.authParams
+	this.parameters = challenge.authParams.Clone().(*core.NameValueList)
 }
 
 func (this *Authentication) String() string {
-- 
2.43.0


From 42970d9710d3e200409f1d991da2bec7d306c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 070/152] fix: the header of a message ends at the first blank
 line, whatever its line ends and body

---
 sip/parser/StringMsgParser.go | 110 ++++++++--------------------------
 1 file changed, 24 insertions(+), 86 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index f86a05b..f84f061 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -165,6 +165,7 @@ func (this *StringMsgParser) IsBodyString() bool {
 func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.Message, error) {
 	this.bufferPointer = 0
 	this.bodyIsString = false
+	this.contentLength = 0
 
 	this.currentMessageBytes = msgBuffer
 	var s int
@@ -178,100 +179,37 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 	}
 
 	if s == len(msgBuffer) {
-		return nil, nil
+		return nil, errors.New("ParseException: Empty message")
 	}
 
-	// Find the end of the SIP message.
-	var f int
-	for f = s; f < len(msgBuffer)-4; f++ {
-		if msgBuffer[f] == '\r' &&
-			msgBuffer[f+1] == '\n' &&
-			msgBuffer[f+2] == '\r' &&
-			msgBuffer[f+3] == '\n' {
-			break
-		}
-	}
-	if f < len(msgBuffer) {
-		f += 4
-	} else {
-		// Could not find CRLFCRLF end of message so look for LFLF
-		for f = s; f < len(msgBuffer)-2; f++ {
-			if msgBuffer[f] == '\n' &&
-				msgBuffer[f+1] == '\n' {
-				break
-			}
-		}
-		if f < len(msgBuffer) {
-			f += 2
-		} else {
+	// Collect the lines up to the blank one that ends the header, whether
+	// they end with CRLF or LF. A line that starts with white space continues
+	// the one before it.
+	var cooked_message bytes.Buffer
+	f := s
+	for {
+		end := bytes.IndexByte(msgBuffer[f:], '\n')
+		if end < 0 {
 			return nil, errors.New("ParseException: Message not terminated")
 		}
-	}
-
-	// Encode the body as a UTF-8 string.
-	var messageString string
-	messageString = string(msgBuffer[s:f]) //, "UTF-8");
-
-	this.bufferPointer = f
-	message := []byte(messageString)
-	length := len(message)
-	// Get rid of CR to make it uniform for the parser.
-	for k := 0; k < length; k++ {
-		if message[k] == '\r' {
-			copy(message[k:length-1], message[k+1:length])
-			length--
-		}
-	}
-
-	// The following can be written more efficiently in a single pass
-	// but it is somewhat tricky.
-	tokenizer := core.NewStringTokenizer(string(message[:length]))
-	var cooked_message bytes.Buffer
-
-	for tokenizer.HasMoreChars() {
-		nexttok := tokenizer.NextToken()
-		// Ignore blank lines with leading spaces or tabs.
-		if strings.TrimSpace(nexttok) == "" {
-			cooked_message.WriteString("\n")
-		} else {
-			cooked_message.WriteString(nexttok)
+		// Bug reported by Will Sullin of Callcast: the carriage returns go.
+		line := strings.Replace(string(msgBuffer[f:f+end]), "\r", "", -1)
+		f += end + 1
+		if line == "" {
+			break
 		}
-	}
-
-	message1 := cooked_message.String()
-	length = strings.Index(message1, "\n\n") + 2
-
-	// Handle continuations - look for a space or a tab at the start
-	// of the line and append it to the previous line.
-	var cooked_message1 bytes.Buffer
-	for k := 0; k < length-1; {
-		if message1[k] == '\n' {
-			if message1[k+1] == '\t' || message1[k+1] == ' ' {
-				k++
-				k++
-				if k == length {
-					break
-				} else {
-					continue
-				}
-			} else {
-				cooked_message1.WriteByte(message1[k])
-			}
-
-			if message1[k+1] == '\n' {
-				cooked_message1.WriteByte('\n')
+		if cooked_message.Len() > 0 {
+			if line[0] == ' ' || line[0] == '\t' {
+				cooked_message.WriteString(line[1:])
+				continue
 			}
-		} else {
-			cooked_message1.WriteByte(message1[k])
+			cooked_message.WriteByte('\n')
 		}
-		k++
+		cooked_message.WriteString(line)
 	}
-	cooked_message1.WriteString("\n\n")
-	cooked_message1.WriteString(message1[length:])
-
-	// Separate the string out into substrings for
-	// error reporting.
-	this.currentMessage = cooked_message1.String()
+	cooked_message.WriteString("\n\n")
+	this.bufferPointer = f
+	this.currentMessage = cooked_message.String()
 
 	sipmsg, err := this.ParseMessage(this.currentMessage)
 	if err != nil {
-- 
2.43.0


From 62c292fca86f8a2a508b45e95aa81aae458deee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:17 +0000
Subject: [PATCH 071/152] fix: reading the rest of a message or its body reads
 the message as received

---
 sip/parser/StringMsgParser.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index f84f061..62cbd1d 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -70,19 +70,7 @@ func (this *StringMsgParser) GetMessageBody() string {
 	if this.contentLength == 0 {
 		return ""
 	} else {
-		endIndex := this.bufferPointer + this.contentLength
-		var body string
-		// guard against bad specifications.
-		if endIndex > len(this.currentMessage) {
-			endIndex = len(this.currentMessage)
-			body = this.currentMessage[this.bufferPointer:endIndex]
-			this.bufferPointer = endIndex
-		} else {
-			body = this.currentMessage[this.bufferPointer:endIndex]
-			this.bufferPointer = endIndex + 1
-		}
-		this.contentLength = 0
-		return body
+		return string(this.GetBodyAsBytes())
 	}
 
 }
@@ -113,9 +101,7 @@ func (this *StringMsgParser) GetBodyAsBytes() []byte {
  * you encounter an error.
  */
 func (this *StringMsgParser) ReadToEnd() string {
-	body := this.currentMessage[this.bufferPointer:]
-	this.bufferPointer += len(body)
-	return body
+	return string(this.ReadBytesToEnd())
 }
 
 /** Return tbe bytes to the end of the message.
-- 
2.43.0


From f5e1bdeaa791d619146aa71b32f1676ad991c794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:21 +0000
Subject: [PATCH 072/152] fix: without a Content-Length the body of a message
 is all that follows the header

---
 sip/parser/StringMsgParser.go | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 62cbd1d..75bbcde 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -46,6 +46,8 @@ type StringMsgParser struct {
 
 	contentLength int
 
+	hasContentLength bool // the message being parsed says how long its body is
+
 	debugFlag bool
 
 	currentLine int
@@ -202,17 +204,21 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
 		return nil, err
 	}
 
-	if this.readBody && sipmsg.GetContentLength() != nil && sipmsg.GetContentLength().GetContentLength() != 0 {
-		this.contentLength = sipmsg.GetContentLength().GetContentLength()
-
-		endIndex := this.bufferPointer + this.contentLength
-		// guard against bad specifications.
-		if endIndex > len(this.currentMessageBytes) {
-			return nil, errors.New("Content Length Larger Than Message")
+	if this.readBody {
+		var body []byte
+		if this.hasContentLength {
+			this.contentLength = sipmsg.GetContentLength().GetContentLength()
+			if this.contentLength > len(this.currentMessageBytes)-this.bufferPointer {
+				return nil, errors.New("Content Length Larger Than Message")
+			}
+			body = this.GetBodyAsBytes()
+		} else {
+			// The body is all that follows.
+			body = this.ReadBytesToEnd()
+		}
+		if len(body) > 0 {
+			sipmsg.SetMessageContentFromByte(body)
 		}
-
-		body := this.GetBodyAsBytes()
-		sipmsg.SetMessageContentFromByte(body)
 	}
 
 	return sipmsg, nil
@@ -251,6 +257,7 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 
 	tokenizer := core.NewStringTokenizer(currentMessage)
 	this.messageHeaders = make(map[int]string) // A list of headers for error reporting
+	this.hasContentLength = false
 
 	for tokenizer.HasMoreChars() {
 		nexttok := tokenizer.NextToken()
@@ -327,6 +334,10 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 			}
 		}
 
+		if _, ok := sipHeader.(*header.ContentLength); ok {
+			this.hasContentLength = true
+		}
+
 		if _, ok := sipmsg.(*message.SIPRequest); ok {
 			if cseq, present := sipHeader.(*header.CSeq); present {
 				if cseq.GetMethod() != sipmsg.(*message.SIPRequest).GetMethod() {
-- 
2.43.0


From d00021049506b8e56778eab302d7c9095adfb5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 073/152] fix: what a parse error listener lets pass is
 skipped, and it hears of CSeq mismatches

---
 sip/parser/StringMsgParser.go | 70 ++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 75bbcde..03937b3 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -279,72 +279,64 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 	this.currentHeader = this.messageHeaders[this.currentLine]
 	firstLine := this.currentHeader
 	if !strings.HasPrefix(firstLine, header.SIPConstants_SIP_VERSION_STRING) {
-		sipmsg = message.NewSIPRequest()
+		request := message.NewSIPRequest()
+		sipmsg = request
 		var rl *header.RequestLine
 		if rl, err = NewRequestLineParser(firstLine + "\n").Parse(); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, firstLine, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
+			if err = this.handleException(err, sipmsg, firstLine, currentMessage); err != nil {
 				return nil, err
 			}
+		} else {
+			request.SetRequestLine(rl)
 		}
-		sipmsg.(*message.SIPRequest).SetRequestLine(rl)
 	} else {
-		sipmsg = message.NewSIPResponse()
+		response := message.NewSIPResponse()
+		sipmsg = response
 		var sl *header.StatusLine
 		if sl, err = NewStatusLineParser(firstLine + "\n").Parse(); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, firstLine, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
+			if err = this.handleException(err, sipmsg, firstLine, currentMessage); err != nil {
 				return nil, err
 			}
+		} else {
+			response.SetStatusLine(sl)
 		}
-		sipmsg.(*message.SIPResponse).SetStatusLine(sl)
 	}
 
 	for i := 1; i < len(this.messageHeaders); i++ {
 		hdrstring := this.messageHeaders[i]
+		this.currentLine = i
+		this.currentHeader = hdrstring
 		if hdrstring == "" || strings.TrimSpace(hdrstring) == "" {
 			continue
 		}
 
+		var sipHeader header.Header
 		var hdrParser Parser
-		if hdrParser, err = CreateParser(hdrstring + "\n"); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
-				return nil, err
-			}
+		if hdrParser, err = CreateParser(hdrstring + "\n"); err == nil {
+			sipHeader, err = hdrParser.Parse()
 		}
-
-		var sipHeader header.Header
-		if sipHeader, err = hdrParser.Parse(); err != nil {
-			if this.parseExceptionListener != nil {
-				if err = this.parseExceptionListener.HandleException(err, sipmsg, hdrstring, currentMessage); err != nil {
-					return nil, err
-				}
-			} else {
+		if err != nil {
+			// The listener may let the message go without the header.
+			if err = this.handleException(err, sipmsg, hdrstring, currentMessage); err != nil {
 				return nil, err
 			}
+			continue
 		}
 
 		if _, ok := sipHeader.(*header.ContentLength); ok {
 			this.hasContentLength = true
 		}
 
-		if _, ok := sipmsg.(*message.SIPRequest); ok {
+		if request, ok := sipmsg.(*message.SIPRequest); ok {
 			if cseq, present := sipHeader.(*header.CSeq); present {
-				if cseq.GetMethod() != sipmsg.(*message.SIPRequest).GetMethod() {
-					return nil, errors.New("Start Line and CSeq Method Mismatch")
+				if request.GetRequestLine() != nil && cseq.GetMethod() != request.GetMethod() {
+					err = errors.New("Start Line and CSeq Method Mismatch")
+					if err = this.handleException(err, sipmsg, hdrstring, currentMessage); err != nil {
+						return nil, err
+					}
 				}
 			}
-			sipmsg.(*message.SIPRequest).AttachHeader2(sipHeader, false)
+			request.AttachHeader2(sipHeader, false)
 		} else {
 			sipmsg.(*message.SIPResponse).AttachHeader2(sipHeader, false)
 		}
@@ -352,6 +344,16 @@ func (this *StringMsgParser) ParseMessage(currentMessage string) (message.Messag
 	return sipmsg, nil
 }
 
+/** Hand a parse error to the listener, if there is one.
+ * @return nil if the listener lets the parse go on, or an error.
+ */
+func (this *StringMsgParser) handleException(err error, sipmsg message.Message, headerText string, messageText string) error {
+	if this.parseExceptionListener == nil {
+		return err
+	}
+	return this.parseExceptionListener.HandleException(err, sipmsg, headerText, messageText)
+}
+
 /**
  * Parse an address (nameaddr or address spec)  and return and address
  * structure.
-- 
2.43.0


From 869f6dc76f9f632d40e55e902f66b5dea71baecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:14 +0000
Subject: [PATCH 074/152] fix: parsing a single header returns it

---
 sip/parser/StringMsgParser.go | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 03937b3..3831e94 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -441,36 +441,27 @@ func (this *StringMsgParser) ParseUrl(url string) (*address.URIImpl, error) {
  * @return a SIPHeader structure.
  * @exception ParseException  if there was an error parsing the message.
  */
-func (this *StringMsgParser) ParseSIPHeader(h string) (*header.SIPHeader, error) {
-	var err error
+func (this *StringMsgParser) ParseSIPHeader(h string) (header.Header, error) {
+	// eat leading spaces and carriage returns (necessary??)
+	h = strings.TrimLeft(strings.Replace(h, "\r", "", -1), "\n\t ")
 
-	h += "\n\n"
 	// Handle line folding.
-	var nmessage string
-	//counter := 0
-	// eat leading spaces and carriage returns (necessary??)
-	i := 0
-	for h[i] == '\n' || h[i] == '\t' || h[i] == ' ' {
-		i++
-	}
-	for ; i < len(h); i++ {
+	var nmessage bytes.Buffer
+	for i := 0; i < len(h); i++ {
 		if i < len(h)-1 && (h[i] == '\n' && (h[i+1] == '\t' || h[i+1] == ' ')) {
-			nmessage += " "
+			nmessage.WriteByte(' ')
 			i++
 		} else {
-			nmessage += string(h[i])
+			nmessage.WriteByte(h[i])
 		}
 	}
+	nmessage.WriteString("\n\n\n")
 
-	nmessage += "\n"
-
-	var hp Parser
-	if hp, err = CreateParser(nmessage); err != nil {
+	hp, err := CreateParser(nmessage.String())
+	if err != nil {
 		return nil, err
 	}
-
-	shp, err := hp.Parse()
-	return shp.(*header.SIPHeader), err
+	return hp.Parse()
 }
 
 /**
-- 
2.43.0


From 464db16e69b45aaf297fba2e8607f5f8b9bf17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:43 +0000
Subject: [PATCH 075/152] fix: the parts of a request line are set apart, and
 nothing follows them

---
 sip/parser/RequestLineParser.go | 23 ++++++++++++++++++++---
 sip/parser/SIPParser.go         |  4 +++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/sip/parser/RequestLineParser.go b/sip/parser/RequestLineParser.go
index ce3b8bd..557ec85 100644
--- a/sip/parser/RequestLineParser.go
+++ b/sip/parser/RequestLineParser.go
@@ -36,14 +36,18 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 		return nil, ParseException
 	}
 
-	lexer.SPorHT()
+	if ParseException = this.space(); ParseException != nil {
+		return nil, ParseException
+	}
 	retval.SetMethod(m)
 	lexer.SelectLexer("sip_urlLexer")
 	urlParser := NewURLParserFromLexer(this.GetLexer())
 	if url, ParseException = urlParser.UriReference(); ParseException != nil {
 		return nil, ParseException
 	}
-	lexer.SPorHT()
+	if ParseException = this.space(); ParseException != nil {
+		return nil, ParseException
+	}
 	retval.SetUri(url)
 	lexer.SelectLexer("request_lineLexer")
 
@@ -52,7 +56,20 @@ func (this *RequestLineParser) Parse() (rl *header.RequestLine, ParseException e
 	}
 	retval.SetSipVersion(v)
 	lexer.SPorHT()
-	lexer.Match('\n')
+	if ch, err := lexer.LookAheadK(0); err == nil && ch != '\n' {
+		return nil, this.CreateParseException("Expecting the end of the request line")
+	}
 
 	return retval, nil
 }
+
+/** Skip the white space that separates two parts of the request line.
+ */
+func (this *RequestLineParser) space() (ParseException error) {
+	lexer := this.GetLexer()
+	if ch, _ := lexer.LookAheadK(0); ch != ' ' && ch != '\t' {
+		return this.CreateParseException("Expecting white space")
+	}
+	lexer.SPorHT()
+	return nil
+}
diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 2dcf366..1b70ee3 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -153,7 +153,9 @@ func (this *SIPParser) SipVersion() (s string, ParseException error) {
 	if tok.GetTokenValue() != "SIP" {
 		return "", this.CreateParseException("Expecting SIP")
 	}
-	this.GetLexer().Match('/')
+	if _, ParseException = this.GetLexer().Match('/'); ParseException != nil {
+		return "", this.CreateParseException("Expecting SIP/2.0")
+	}
 	if tok, ParseException = this.GetLexer().Match(TokenTypes_ID); ParseException != nil {
 		return "", this.CreateParseException("Expecting SIP/2.0")
 	}
-- 
2.43.0


From 0dc94c8c356c02a04f8478c376b7eca7a527e9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 076/152] fix: white space sets the status code apart from the
 reason phrase

---
 sip/parser/StatusLineParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/StatusLineParser.go b/sip/parser/StatusLineParser.go
index 3b8ecdc..bf3d12a 100644
--- a/sip/parser/StatusLineParser.go
+++ b/sip/parser/StatusLineParser.go
@@ -51,6 +51,9 @@ func (this *StatusLineParser) Parse() (sl *header.StatusLine, ParseException err
 		return nil, ParseException
 	}
 	retval.SetStatusCode(scode)
+	if ch, _ := lexer.LookAheadK(0); ch != ' ' && ch != '\t' && ch != '\n' {
+		return nil, this.CreateParseException("Expecting white space after the status code")
+	}
 	lexer.SPorHT()
 	rp := this.ReasonPhrase()
 	retval.SetReasonPhrase(rp)
-- 
2.43.0


From 3a1040a0158a78413304ec2afc90a2d035489165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 077/152] fix: the agent of a warning may have a port, and its
 code no sign

---
 sip/parser/WarningParser.go | 80 +++++++++----------------------------
 1 file changed, 19 insertions(+), 61 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 56fd41a..08db8d8 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -3,7 +3,7 @@ package parser
 import (
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
-	"strconv"
+	"strings"
 )
 
 /** SIPParser for Warning header.
@@ -43,32 +43,30 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		return nil, ParseException
 	}
 
-	for ch, _ = lexer.LookAheadK(0); ch != '\n'; ch, _ = lexer.LookAheadK(0) {
+	for {
 		warning := header.NewWarning()
 		warning.SetHeaderName(core.SIPHeaderNames_WARNING)
 
 		// Parsing the 3digits code
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-			return nil, ParseException
-		}
-		token := lexer.GetNextToken()
-
 		var code int
-		if code, ParseException = strconv.Atoi(token.GetTokenValue()); ParseException != nil {
+		if code, ParseException = lexer.Number(); ParseException != nil {
 			return nil, ParseException
 		}
 		if ParseException = warning.SetCode(code); ParseException != nil {
 			return nil, ParseException
 		}
-
+		if ch, _ = lexer.LookAheadK(0); ch != ' ' && ch != '\t' {
+			return nil, this.CreateParseException("unexpected char")
+		}
 		lexer.SPorHT()
 
-		// Parsing the agent
-		if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-			return nil, ParseException
+		// Parsing the agent: a host with or without port, or a pseudonym
+		agent := ""
+		for ch, _ = lexer.LookAheadK(0); strings.IndexByte("\x00 \t\n\",;()<>", ch) < 0; ch, _ = lexer.LookAheadK(0) {
+			agent += lexer.CharAsString(ch)
+			lexer.ConsumeK(1)
 		}
-		token = lexer.GetNextToken()
-		if ParseException = warning.SetAgent(token.GetTokenValue()); ParseException != nil {
+		if ParseException = warning.SetAgent(agent); ParseException != nil {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
@@ -85,54 +83,14 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 
 		warningList.PushBack(warning)
 
-		for ch, _ = lexer.LookAheadK(0); ch == ','; ch, _ = lexer.LookAheadK(0) {
-			if _, ParseException = lexer.Match(','); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-
-			warning = header.NewWarning()
-
-			// Parsing the 3digits code
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			tok := lexer.GetNextToken()
-
-			if code, ParseException = strconv.Atoi(tok.GetTokenValue()); ParseException != nil {
-				return nil, ParseException
-			}
-			if ParseException = warning.SetCode(code); ParseException != nil {
-				return nil, ParseException
-			}
-
-			lexer.SPorHT()
-
-			// Parsing the agent
-			if _, ParseException = lexer.Match(TokenTypes_ID); ParseException != nil {
-				return nil, ParseException
-			}
-			tok = lexer.GetNextToken()
-			if ParseException = warning.SetAgent(tok.GetTokenValue()); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-
-			// Parsing the text
-			if text, ParseException = lexer.QuotedString(); ParseException != nil {
-				return nil, ParseException
-			}
-			if ParseException = warning.SetText(text); ParseException != nil {
-				return nil, ParseException
-			}
-			lexer.SPorHT()
-
-			warningList.PushBack(warning)
+		if ch, _ = lexer.LookAheadK(0); ch != ',' {
+			break
 		}
-		if ch != '\n' {
-			return nil, this.CreateParseException("unexpected char")
-		}
-
+		lexer.ConsumeK(1)
+		lexer.SPorHT()
+	}
+	if ch != '\n' {
+		return nil, this.CreateParseException("unexpected char")
 	}
 
 	return warningList, nil
-- 
2.43.0


From 4cd20f96974fef0e9664e0d194891a599857eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 078/152] fix: Alert-Info and Call-Info take SIP URIs

---
 sip/header/AlertInfoImpl.go | 8 +++++---
 sip/header/CallInfoImpl.go  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/sip/header/AlertInfoImpl.go b/sip/header/AlertInfoImpl.go
index b72f2b4..2fb416d 100644
--- a/sip/header/AlertInfoImpl.go
+++ b/sip/header/AlertInfoImpl.go
@@ -14,7 +14,7 @@ type AlertInfo struct {
 
 	/** URI field
 	 */
-	uri *address.URIImpl
+	uri address.URI
 }
 
 /** Constructor
@@ -37,7 +37,9 @@ func (this *AlertInfo) String() string {
 func (this *AlertInfo) EncodeBody() string {
 	var encoding bytes.Buffer
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
-	encoding.WriteString(this.uri.String())
+	if this.uri != nil {
+		encoding.WriteString(this.uri.String())
+	}
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
 	if this.parameters != nil && this.parameters.Len() > 0 {
@@ -53,7 +55,7 @@ func (this *AlertInfo) EncodeBody() string {
  * @param u URI to set
  */
 func (this *AlertInfo) SetAlertInfo(uri address.URI) {
-	this.uri = uri.(*address.URIImpl)
+	this.uri = uri
 }
 
 /**
diff --git a/sip/header/CallInfoImpl.go b/sip/header/CallInfoImpl.go
index 11c4229..bd9d517 100644
--- a/sip/header/CallInfoImpl.go
+++ b/sip/header/CallInfoImpl.go
@@ -14,7 +14,7 @@ import (
 type CallInfo struct {
 	Parameters
 
-	info *address.URIImpl
+	info address.URI
 }
 
 /** Default constructor
@@ -39,7 +39,9 @@ func (this *CallInfo) EncodeBody() string {
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 
-	encoding.WriteString(this.info.String())
+	if this.info != nil {
+		encoding.WriteString(this.info.String())
+	}
 
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
@@ -80,5 +82,5 @@ func (this *CallInfo) SetPurpose(purpose string) error {
  * @param info is the URI to set.
  */
 func (this *CallInfo) SetInfo(info address.URI) {
-	this.info = info.(*address.URIImpl)
+	this.info = info
 }
-- 
2.43.0


From 0c70ad14872fdc37381c14637f0cd31206d7a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:11 +0000
Subject: [PATCH 079/152] fix: a q-value is a number

---
 sip/header/AcceptEncodingImpl.go | 2 +-
 sip/header/AcceptImpl.go         | 2 +-
 sip/header/AcceptLanguageImpl.go | 2 +-
 sip/header/ContactImpl.go        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/AcceptEncodingImpl.go b/sip/header/AcceptEncodingImpl.go
index 9007b4f..1b35f2d 100644
--- a/sip/header/AcceptEncodingImpl.go
+++ b/sip/header/AcceptEncodingImpl.go
@@ -138,7 +138,7 @@ func (this *AcceptEncoding) RemoveQValue() {
  *
  */
 func (this *AcceptEncoding) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptImpl.go b/sip/header/AcceptImpl.go
index 8fc1a99..e198607 100644
--- a/sip/header/AcceptImpl.go
+++ b/sip/header/AcceptImpl.go
@@ -174,7 +174,7 @@ func (this *Accept) RemoveQValue() {
  *
  */
 func (this *Accept) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/AcceptLanguageImpl.go b/sip/header/AcceptLanguageImpl.go
index 91769a6..7b76310 100644
--- a/sip/header/AcceptLanguageImpl.go
+++ b/sip/header/AcceptLanguageImpl.go
@@ -150,7 +150,7 @@ func (this *AcceptLanguage) RemoveQValue() {
  *
  */
 func (this *AcceptLanguage) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index 0303f49..d291057 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -191,7 +191,7 @@ func (this *Contact) RemoveQValue() {
  *
  */
 func (this *Contact) SetQValue(q float32) (InvalidArgumentException error) {
-	if q < 0.0 || q > 1.0 {
+	if !(q >= 0.0 && q <= 1.0) {
 		return errors.New("qvalue out of range!")
 	}
 	this.SetParameter(ParameterNames_Q, strconv.FormatFloat(float64(q), 'f', -1, 32))
-- 
2.43.0


From 6472b733a570461498c889910b010308a777a350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:16 +0000
Subject: [PATCH 080/152] fix: an Error-Info without a URI encodes without a
 panic

---
 sip/header/ErrorInfoImpl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index d966bad..260869b 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -47,7 +47,9 @@ func (this *ErrorInfo) EncodeBody() string {
 
 	encoding.WriteString(core.SIPSeparatorNames_LESS_THAN)
 
-	encoding.WriteString(this.errorInfo.String())
+	if this.errorInfo != nil {
+		encoding.WriteString(this.errorInfo.String())
+	}
 
 	encoding.WriteString(core.SIPSeparatorNames_GREATER_THAN)
 
-- 
2.43.0


From cfce32a2ec3eee904d03d0babd6681d6d607bb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:20 +0000
Subject: [PATCH 081/152] fix: r is the compact form of Refer-To

---
 sip/parser/ParserFactory.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/parser/ParserFactory.go b/sip/parser/ParserFactory.go
index ee14e16..578dff1 100644
--- a/sip/parser/ParserFactory.go
+++ b/sip/parser/ParserFactory.go
@@ -145,6 +145,8 @@ func CreateParser(line string) (parser Parser, ParseException error) {
 		parser = NewAlertInfoParser(line)
 	case strings.ToLower(core.SIPHeaderNames_ACCEPT):
 		parser = NewAcceptParser(line)
+	case "r":
+		fallthrough
 	case strings.ToLower(core.SIPHeaderNames_REFER_TO):
 		parser = NewReferToParser(line)
 	default:
-- 
2.43.0


From 1521bef40388b430736724bc21b13995c44c89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 082/152] fix: the encoding of a flag parameter of a header
 parses

---
 sip/parser/ParametersParser.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index e14e7ae..db5cf79 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -47,7 +47,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		// eat white space
 		lexer.SPorHT()
 
-		if nv, ParseException = this.NameValue('='); ParseException != nil {
+		if nv, ParseException = this.nameValue(); ParseException != nil {
 			return ParseException
 		}
 
@@ -66,3 +66,28 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 	}
 	return nil
 }
+
+/** Parse a parameter. Its value may be empty, as headers encode one that is a
+ *  flag.
+ */
+func (this *ParametersParser) nameValue() (nv *core.NameValue, ParseException error) {
+	lexer := this.GetLexer()
+	position := lexer.MarkInputPosition()
+	if nv, ParseException = this.NameValue('='); ParseException == nil {
+		return nv, nil
+	}
+	lexer.RewindInputPosition(position)
+	if _, err := lexer.Match(TokenTypes_ID); err != nil {
+		return nil, ParseException
+	}
+	name := lexer.GetNextToken().GetTokenValue()
+	lexer.SPorHT()
+	if _, err := lexer.Match('='); err != nil {
+		return nil, ParseException
+	}
+	lexer.SPorHT()
+	if ch, _ := lexer.LookAheadK(0); ch != ';' && ch != ',' && ch != '\n' {
+		return nil, ParseException
+	}
+	return core.NewNameValue(name, ""), nil
+}
-- 
2.43.0


From 5dcaa31fd9a23d154ad05466a33875604daf1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 083/152] fix: cloning a header or an address copies all of it

---
 sip/address/Address.go      |   5 +
 sip/address/AddressImpl.go  |  10 +
 sip/header/Clone.go         | 554 ++++++++++++++++++++++++++++++++++++
 sip/header/SIPHeaderList.go |   4 +-
 4 files changed, 570 insertions(+), 3 deletions(-)
 create mode 100644 sip/header/Clone.go

diff --git a/sip/address/Address.go b/sip/address/Address.go
index e66f8ea..ecf3e5d 100644
--- a/sip/address/Address.go
+++ b/sip/address/Address.go
@@ -53,6 +53,11 @@ type Address interface {
 	 */
 	String() string //ToString() string;
 
+	/**
+	 * Creates a deep copy of the Address.
+	 */
+	Clone() interface{}
+
 	/**
 	 * Indicates whether some other Object is "equal to" this Address.
 	 * The actual implementation class of a Address object must override
diff --git a/sip/address/AddressImpl.go b/sip/address/AddressImpl.go
index 158aed4..b05aa4f 100644
--- a/sip/address/AddressImpl.go
+++ b/sip/address/AddressImpl.go
@@ -290,3 +290,13 @@ func (this *AddressImpl) SetUser(user string) {
 func (this *AddressImpl) SetWildCardFlag() {
 	this.addressType = WILD_CARD
 }
+
+/** Make a deep copy of this address.
+ */
+func (this *AddressImpl) Clone() interface{} {
+	retval := *this
+	if this.address != nil {
+		retval.address = this.address.Clone().(URI)
+	}
+	return &retval
+}
diff --git a/sip/header/Clone.go b/sip/header/Clone.go
new file mode 100644
index 0000000..383eb94
--- /dev/null
+++ b/sip/header/Clone.go
@@ -0,0 +1,554 @@
+package header
+
+import (
+	"container/list"
+
+	"github.com/use-go/gosips/core"
+	"github.com/use-go/gosips/sip/address"
+)
+
+// The clones of headers: deep copies, as the Header interface has it. Each
+// type of header has its own, for the one of an embedded type would yield
+// only the embedded part.
+
+// copy yields a deep copy of the parameters.
+func (this *Parameters) copy() Parameters {
+	retval := *this
+	if this.parameters != nil {
+		retval.parameters = this.parameters.Clone().(*core.NameValueList)
+	}
+	return retval
+}
+
+// copy yields a deep copy of the address and the parameters.
+func (this *AddressParameters) copy() AddressParameters {
+	retval := AddressParameters{Parameters: this.Parameters.copy()}
+	if this.addr != nil {
+		retval.addr = this.addr.Clone().(address.Address)
+	}
+	return retval
+}
+
+// copyTo adds a deep copy of the elements to another list.
+func (this *SIPHeaderList) copyTo(other *SIPHeaderList) {
+	other.headerName = this.headerName
+	for e := this.Front(); e != nil; e = e.Next() {
+		if sh, ok := e.Value.(Header); ok {
+			other.PushBack(sh.Clone())
+		} else {
+			other.PushBack(e.Value)
+		}
+	}
+}
+
+// copyList yields a copy of a list of strings.
+func copyList(l *list.List) *list.List {
+	if l == nil {
+		return nil
+	}
+	retval := list.New()
+	retval.PushBackList(l)
+	return retval
+}
+
+// copyURI yields a deep copy of a URI.
+func copyURI(uri address.URI) address.URI {
+	if uri == nil {
+		return nil
+	}
+	return uri.Clone().(address.URI)
+}
+
+func (this *MediaRange) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Protocol) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *CallIdentifier) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Challenge) Clone() interface{} {
+	retval := *this
+	if this.authParams != nil {
+		retval.authParams = this.authParams.Clone().(*core.NameValueList)
+	}
+	return &retval
+}
+
+func (this *RequestLine) Clone() interface{} {
+	retval := *this
+	retval.uri = copyURI(this.uri)
+	return &retval
+}
+
+func (this *StatusLine) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Accept) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	if this.mediaRange != nil {
+		retval.mediaRange = this.mediaRange.Clone().(*MediaRange)
+	}
+	return &retval
+}
+
+func (this *AcceptEncoding) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *AcceptEncodingList) Clone() interface{} {
+	retval := &AcceptEncodingList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *AcceptLanguage) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *AcceptLanguageList) Clone() interface{} {
+	retval := &AcceptLanguageList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *AcceptList) Clone() interface{} {
+	retval := &AcceptList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *AlertInfo) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	retval.uri = copyURI(this.uri)
+	return &retval
+}
+
+func (this *AlertInfoList) Clone() interface{} {
+	retval := &AlertInfoList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Allow) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *AllowEvents) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *AllowEventsList) Clone() interface{} {
+	retval := &AllowEventsList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *AllowList) Clone() interface{} {
+	retval := &AllowList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Authentication) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *AuthenticationInfo) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *Authorization) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *CSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *CallID) Clone() interface{} {
+	retval := *this
+	if this.callIdentifier != nil {
+		retval.callIdentifier = this.callIdentifier.Clone().(*CallIdentifier)
+	}
+	return &retval
+}
+
+func (this *CallInfo) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	retval.info = copyURI(this.info)
+	return &retval
+}
+
+func (this *CallInfoList) Clone() interface{} {
+	retval := &CallInfoList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Contact) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *ContentDisposition) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *ContentEncoding) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentEncodingList) Clone() interface{} {
+	retval := &ContentEncodingList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *ContentLanguage) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentLanguageList) Clone() interface{} {
+	retval := &ContentLanguageList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *ContentLength) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ContentType) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	if this.mediaRange != nil {
+		retval.mediaRange = this.mediaRange.Clone().(*MediaRange)
+	}
+	return &retval
+}
+
+func (this *Date) Clone() interface{} {
+	retval := *this
+	if this.date != nil {
+		date := *this.date
+		retval.date = &date
+	}
+	return &retval
+}
+
+func (this *ErrorInfo) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	retval.errorInfo = copyURI(this.errorInfo)
+	return &retval
+}
+
+func (this *ErrorInfoList) Clone() interface{} {
+	retval := &ErrorInfoList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Event) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *Expires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Extension) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ExtensionHeaderList) Clone() interface{} {
+	retval := &ExtensionHeaderList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *From) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *InReplyTo) Clone() interface{} {
+	retval := *this
+	if this.callId != nil {
+		retval.callId = this.callId.Clone().(*CallIdentifier)
+	}
+	return &retval
+}
+
+func (this *InReplyToList) Clone() interface{} {
+	retval := &InReplyToList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *MaxForwards) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MimeVersion) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *MinExpires) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Organization) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Priority) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ProxyAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *ProxyAuthenticateList) Clone() interface{} {
+	retval := &ProxyAuthenticateList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *ProxyAuthorization) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *ProxyRequire) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *ProxyRequireList) Clone() interface{} {
+	retval := &ProxyRequireList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *RAck) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *RSeq) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *Reason) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *ReasonList) Clone() interface{} {
+	retval := &ReasonList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *RecordRoute) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *RecordRouteList) Clone() interface{} {
+	retval := &RecordRouteList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *ReferTo) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *ReplyTo) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *Require) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *RequireList) Clone() interface{} {
+	retval := &RequireList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *RetryAfter) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *Route) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *RouteList) Clone() interface{} {
+	retval := &RouteList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Server) Clone() interface{} {
+	retval := *this
+	retval.productTokens = copyList(this.productTokens)
+	return &retval
+}
+
+func (this *Subject) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *SubscriptionState) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *Supported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *SupportedList) Clone() interface{} {
+	retval := &SupportedList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *TimeStamp) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *To) Clone() interface{} {
+	retval := *this
+	retval.AddressParameters = this.AddressParameters.copy()
+	return &retval
+}
+
+func (this *Unsupported) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *UnsupportedList) Clone() interface{} {
+	retval := &UnsupportedList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *UserAgent) Clone() interface{} {
+	retval := *this
+	retval.productTokens = copyList(this.productTokens)
+	return &retval
+}
+
+func (this *Via) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	if this.sentProtocol != nil {
+		retval.sentProtocol = this.sentProtocol.Clone().(*Protocol)
+	}
+	if this.sentBy != nil {
+		retval.sentBy = this.sentBy.Clone().(*core.HostPort)
+	}
+	return &retval
+}
+
+func (this *WWWAuthenticate) Clone() interface{} {
+	retval := *this
+	retval.Parameters = this.Parameters.copy()
+	return &retval
+}
+
+func (this *WWWAuthenticateList) Clone() interface{} {
+	retval := &WWWAuthenticateList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Warning) Clone() interface{} {
+	retval := *this
+	return &retval
+}
+
+func (this *WarningList) Clone() interface{} {
+	retval := &WarningList{}
+	this.copyTo(&retval.SIPHeaderList)
+	return retval
+}
+
+func (this *Parameters) Clone() interface{} {
+	retval := this.copy()
+	return &retval
+}
+
+func (this *AddressParameters) Clone() interface{} {
+	retval := this.copy()
+	return &retval
+}
diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index a9b1376..4f79843 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -66,9 +66,7 @@ func (this *SIPHeaderList) super(hname string) {
  */
 func (this *SIPHeaderList) Clone() interface{} {
 	retval := &SIPHeaderList{}
-
-	retval.headerName = this.headerName
-
+	this.copyTo(retval)
 	return retval
 }
 
-- 
2.43.0


From 03f054c54d0cd9e4cb1ecefb1c21f777907cb7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:19 +0000
Subject: [PATCH 084/152] fix: the value of a header is the text after its name

---
 sip/header/Value.go | 641 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 641 insertions(+)
 create mode 100644 sip/header/Value.go

diff --git a/sip/header/Value.go b/sip/header/Value.go
new file mode 100644
index 0000000..69d9dac
--- /dev/null
+++ b/sip/header/Value.go
@@ -0,0 +1,641 @@
+package header
+
+import (
+	"strings"
+)
+
+// The values of headers: the text that follows the name and the colon. Each
+// type of header has its own, for the one of an embedded type would not know
+// the body.
+
+func (this *Accept) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Accept) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptEncoding) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptEncoding) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptEncodingList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptEncodingList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptLanguage) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptLanguage) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptLanguageList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptLanguageList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AcceptList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AddressParameters) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AddressParameters) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AlertInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AlertInfo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AlertInfoList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AlertInfoList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Allow) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Allow) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowEvents) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowEvents) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowEventsList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowEventsList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AllowList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Authentication) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Authentication) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AuthenticationInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *AuthenticationInfo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Authorization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Authorization) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CSeq) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CSeq) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallID) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallID) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallInfo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallInfoList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *CallInfoList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Contact) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Contact) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContactList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContactList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentDisposition) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentDisposition) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentEncoding) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentEncoding) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentEncodingList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentEncodingList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLanguage) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLanguage) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLanguageList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLanguageList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLength) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentLength) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentType) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ContentType) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Date) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Date) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ErrorInfo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ErrorInfo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ErrorInfoList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ErrorInfoList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Event) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Event) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Expires) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Expires) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ExtensionHeaderList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ExtensionHeaderList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *From) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *From) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *InReplyTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *InReplyTo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *InReplyToList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *InReplyToList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MaxForwards) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MaxForwards) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MimeVersion) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MimeVersion) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MinExpires) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *MinExpires) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Organization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Organization) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Parameters) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Parameters) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Priority) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Priority) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthenticate) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthenticate) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthenticateList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthenticateList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthorization) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyAuthorization) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyRequire) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyRequire) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyRequireList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ProxyRequireList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RAck) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RAck) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RSeq) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RSeq) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Reason) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Reason) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReasonList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReasonList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RecordRoute) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RecordRoute) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RecordRouteList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RecordRouteList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReferTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReferTo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReplyTo) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ReplyTo) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Require) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Require) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RequireList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RequireList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RetryAfter) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RetryAfter) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Route) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Route) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RouteList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *RouteList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SIPHeaderList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SIPHeaderList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Server) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Server) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Subject) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Subject) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SubscriptionState) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SubscriptionState) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Supported) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Supported) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SupportedList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *SupportedList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *TimeStamp) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *TimeStamp) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *To) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *To) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Unsupported) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Unsupported) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *UnsupportedList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *UnsupportedList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *UserAgent) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *UserAgent) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Via) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Via) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ViaList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *ViaList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WWWAuthenticate) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WWWAuthenticate) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WWWAuthenticateList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WWWAuthenticateList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Warning) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *Warning) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WarningList) GetHeaderValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
+
+func (this *WarningList) GetValue() string {
+	return strings.TrimSpace(this.EncodeBody())
+}
-- 
2.43.0


From 86bc503852bfdeebb0198293e16b39f228e0e8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 085/152] fix: the maddr of a Via can be read as a host

---
 sip/header/ViaImpl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 881c7d8..dd7fce9 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -111,7 +111,11 @@ func (this *Via) GetComment() string {
  * @return maddr parameter.
  */
 func (this *Via) GetMaddr() *core.Host {
-	return this.parameters.GetValue(ParameterNames_MADDR).(*core.Host)
+	maddr := this.GetMAddr()
+	if maddr == "" {
+		return nil
+	}
+	return core.NewHost(maddr)
 }
 
 /** port of the Via Header.
-- 
2.43.0


From 3f44eeb6b6b71a6e244fdd025780fbbcce95e4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:16 +0000
Subject: [PATCH 086/152] fix: removing the port of a Via leaves its host

---
 sip/header/ViaImpl.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index dd7fce9..5bc296d 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -139,7 +139,9 @@ func (this *Via) HasComment() bool {
 /** remove the port.
  */
 func (this *Via) RemovePort() {
-	this.sentBy = nil
+	if this.sentBy != nil {
+		this.sentBy.RemovePort()
+	}
 }
 
 /** remove the comment field.
-- 
2.43.0


From 2dd5d62e8427e412445381434d381305b398bafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:20 +0000
Subject: [PATCH 087/152] fix: the ttl of a Via is at most 255, and -1 when not
 set

---
 sip/header/ViaImpl.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 5bc296d..19b5fe3 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -360,7 +360,10 @@ func (this *Via) SetProtocol(protocol string) (ParseException error) {
  * @return the integer value of the <code>ttl</code> parameter
  */
 func (this *Via) GetTTL() int {
-	ttl, _ := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	ttl, err := strconv.Atoi(this.GetParameter(ParameterNames_TTL))
+	if err != nil {
+		return -1
+	}
 	return ttl
 }
 
@@ -373,8 +376,12 @@ func (this *Via) GetTTL() int {
  * greater than 255, excluding -1 the default not set value.
  */
 func (this *Via) SetTTL(ttl int) (InvalidArgumentException error) {
-	if ttl < 0 && ttl != -1 {
-		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0")
+	if ttl == -1 {
+		this.RemoveParameter(ParameterNames_TTL)
+		return nil
+	}
+	if ttl < 0 || ttl > 255 {
+		return errors.New("InvalidArgumentException: GoSIP Exception, Via, setTTL(), the ttl parameter is < 0 or > 255")
 	}
 	this.SetParameter(ParameterNames_TTL, strconv.Itoa(ttl))
 	return nil
-- 
2.43.0


From 61d016aade631109e3fb97e05f161cfd6abb32db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:25 +0000
Subject: [PATCH 088/152] fix: the transport of a Via can be set

---
 sip/header/ViaImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 19b5fe3..3064861 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -312,7 +312,7 @@ func (this *Via) GetTransport() string {
  * @throws ParseException which signals that an error has been reached
  * unexpectedly while parsing the transport value.
  */
-func (this *Via) setTransport(transport string) (ParseException error) {
+func (this *Via) SetTransport(transport string) (ParseException error) {
 	if transport == "" {
 		return errors.New("NullPointerException: GoSIP Exception, Via, setTransport(), the transport parameter is null.")
 	}
-- 
2.43.0


From 3b21ef72865b5ae93f5c28a5c43d08f0be5c4a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:30 +0000
Subject: [PATCH 089/152] fix: a Via without a protocol or sent-by encodes
 without a panic

---
 sip/header/ViaImpl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sip/header/ViaImpl.go b/sip/header/ViaImpl.go
index 3064861..8f3fdba 100644
--- a/sip/header/ViaImpl.go
+++ b/sip/header/ViaImpl.go
@@ -204,9 +204,13 @@ func (this *Via) String() string {
  */
 func (this *Via) EncodeBody() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(this.sentProtocol.String())
-	encoding.WriteString(core.SIPSeparatorNames_SP)
-	encoding.WriteString(this.sentBy.String())
+	if this.sentProtocol != nil {
+		encoding.WriteString(this.sentProtocol.String())
+		encoding.WriteString(core.SIPSeparatorNames_SP)
+	}
+	if this.sentBy != nil {
+		encoding.WriteString(this.sentBy.String())
+	}
 	// Add the default port if there is no port specified.
 	// if !this.sentBy.HasPort() {
 	// 	encoding.WriteString(core.SIPSeparatorNames_COLON)
-- 
2.43.0


From be1dfd49959b579f8f569543f7e2a5589fd6911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:21 +0000
Subject: [PATCH 090/152] fix: the value of a parsed header parameter does not
 include its quotes

---
 sip/parser/ParametersParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/ParametersParser.go b/sip/parser/ParametersParser.go
index db5cf79..d0bbfb7 100644
--- a/sip/parser/ParametersParser.go
+++ b/sip/parser/ParametersParser.go
@@ -52,7 +52,7 @@ func (this *ParametersParser) Parse(parametersHeader header.ParametersHeader) (P
 		}
 
 		if nv.IsValueQuoted() {
-			parametersHeader.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
+			parametersHeader.SetQuotedParameter(nv.GetName(), nv.GetValue().(string))
 		} else {
 			parametersHeader.SetParameter(nv.GetName(), nv.GetValue().(string))
 		}
-- 
2.43.0


From a1d4dad218720592cb89861b27a7eaa0abfa322a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 091/152] fix: the cause and text of a Reason replace those
 before, and the text is quoted

---
 sip/header/ReasonImpl.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sip/header/ReasonImpl.go b/sip/header/ReasonImpl.go
index 1b74e2e..ace1acc 100644
--- a/sip/header/ReasonImpl.go
+++ b/sip/header/ReasonImpl.go
@@ -2,6 +2,7 @@ package header
 
 import (
 	"bytes"
+	"errors"
 	"github.com/use-go/gosips/core"
 	"strconv"
 )
@@ -36,8 +37,10 @@ func (this *Reason) GetCause() int {
  *@param cause - cause to Set.
  */
 func (this *Reason) SetCause(cause int) (InvalidArgumentException error) {
-	this.parameters.AddNameAndValue("cause", strconv.Itoa(cause))
-	return nil
+	if cause < 0 {
+		return errors.New("InvalidArgumentException: the cause is < 0")
+	}
+	return this.SetParameter(ParameterNames_CAUSE, strconv.Itoa(cause))
 }
 
 /** Set the protocol
@@ -63,7 +66,7 @@ func (this *Reason) GetProtocol() string {
  *@param text -- string text to Set.
  */
 func (this *Reason) SetText(text string) (ParseException error) {
-	this.parameters.AddNameAndValue("text", text)
+	this.SetQuotedParameter(ParameterNames_TEXT, text)
 	return nil
 }
 
-- 
2.43.0


From adf868559b84b9086549bb0f8c1923e96886e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:34 +0000
Subject: [PATCH 092/152] fix: the expires of a Contact replaces the one
 before, and is not negative

---
 sip/header/ContactImpl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index d291057..bd7962b 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -113,8 +113,10 @@ func (this *Contact) GetExpires() int {
  */
 
 func (this *Contact) SetExpires(expiryDeltaSeconds int) (InvalidArgumentException error) {
-	this.parameters.AddNameValue(core.NewNameValue(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds)))
-	return nil
+	if expiryDeltaSeconds < 0 {
+		return errors.New("InvalidArgumentException: the expires is < 0")
+	}
+	return this.SetParameter(ParameterNames_EXPIRES, strconv.Itoa(expiryDeltaSeconds))
 }
 
 /** set the Contact List
-- 
2.43.0


From a5a5d1dc83407a2e58037a4ee67f8dff434f9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 093/152] fix: a Route keeps its parameters apart from those of
 its address

---
 sip/header/RouteImpl.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sip/header/RouteImpl.go b/sip/header/RouteImpl.go
index 343413d..ac254fe 100644
--- a/sip/header/RouteImpl.go
+++ b/sip/header/RouteImpl.go
@@ -2,6 +2,8 @@ package header
 
 import (
 	"bytes"
+	"strings"
+
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/address"
 )
@@ -74,7 +76,12 @@ func (this *Route) String() string {
  */
 func (this *Route) EncodeBody() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(this.addr.String())
+	addr := this.addr.String()
+	a, ok := this.addr.(*address.AddressImpl)
+	if ok && a.GetAddressType() == address.ADDRESS_SPEC && (this.HasParameters() || strings.ContainsAny(addr, ";?,")) {
+		addr = core.SIPSeparatorNames_LESS_THAN + addr + core.SIPSeparatorNames_GREATER_THAN
+	}
+	encoding.WriteString(addr)
 	if this.parameters != nil && this.parameters.Len() > 0 {
 		encoding.WriteString(core.SIPSeparatorNames_SEMICOLON)
 		encoding.WriteString(this.parameters.String())
-- 
2.43.0


From 2847862754a37a159f1cf6e0913324ae93d69f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 094/152] fix: swapping From and To copies them

---
 sip/header/FromImpl.go | 4 ++--
 sip/header/ToImpl.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sip/header/FromImpl.go b/sip/header/FromImpl.go
index 4f2b0d9..2103ba6 100644
--- a/sip/header/FromImpl.go
+++ b/sip/header/FromImpl.go
@@ -31,8 +31,8 @@ func (this *From) super(name string) {
  */
 func (this *From) CloneTo(to *To) {
 	this.super(core.SIPHeaderNames_FROM)
-	this.addr = to.addr
-	this.parameters = to.parameters
+	this.AddressParameters = to.AddressParameters.copy()
+	this.headerName = core.SIPHeaderNames_FROM
 }
 
 /**
diff --git a/sip/header/ToImpl.go b/sip/header/ToImpl.go
index 0882f7c..c551b69 100644
--- a/sip/header/ToImpl.go
+++ b/sip/header/ToImpl.go
@@ -31,8 +31,8 @@ func (this *To) super(name string) {
  */
 func (this *To) CloneFrom(from *From) {
 	this.super(core.SIPHeaderNames_TO)
-	this.SetAddress(from.addr)
-	this.SetParameters(from.parameters)
+	this.AddressParameters = from.AddressParameters.copy()
+	this.headerName = core.SIPHeaderNames_TO
 }
 
 /**
-- 
2.43.0


From e14b949dd6af8be7f2aa6a457365746546322cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:43 +0000
Subject: [PATCH 095/152] fix: Max-Forwards is not decremented below zero

---
 sip/header/MaxForwardsImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/MaxForwardsImpl.go b/sip/header/MaxForwardsImpl.go
index ba69b48..d7f05b8 100644
--- a/sip/header/MaxForwardsImpl.go
+++ b/sip/header/MaxForwardsImpl.go
@@ -72,8 +72,9 @@ func (this *MaxForwards) HasReachedZero() bool {
 /** decrement MaxForwards field one by one.
  */
 func (this *MaxForwards) DecrementMaxForwards() error {
-	if this.maxForwards >= 0 {
-		this.maxForwards--
+	if this.maxForwards <= 0 {
+		return errors.New("TooManyHopsException: Max-Forwards has reached zero")
 	}
+	this.maxForwards--
 	return nil
 }
-- 
2.43.0


From c3cd67521bc37950ce8795a1f02a9eff66b39a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 096/152] fix: a Call-ID that is refused leaves the one before

---
 sip/header/CallIdImpl.go     | 5 ++++-
 sip/header/CallIdentifier.go | 6 +++---
 sip/header/InReplyToImpl.go  | 7 +++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/sip/header/CallIdImpl.go b/sip/header/CallIdImpl.go
index 58a901f..f4d89ff 100644
--- a/sip/header/CallIdImpl.go
+++ b/sip/header/CallIdImpl.go
@@ -97,7 +97,10 @@ func (this *CallID) GetCallIdentifer() *CallIdentifier {
          * not a token@token.
 */
 func (this *CallID) SetCallId(cid string) (ParseException error) {
-	this.callIdentifier, ParseException = NewCallIdentifier(cid)
+	callIdentifier, ParseException := NewCallIdentifier(cid)
+	if ParseException == nil {
+		this.callIdentifier = callIdentifier
+	}
 	return ParseException
 }
 
diff --git a/sip/header/CallIdentifier.go b/sip/header/CallIdentifier.go
index 22c4a40..a540284 100644
--- a/sip/header/CallIdentifier.go
+++ b/sip/header/CallIdentifier.go
@@ -118,11 +118,11 @@ func (this *CallIdentifier) SetCallID(cid string) (IllegalArgumentException erro
 		this.localId = cid
 		this.host = ""
 	} else {
-		this.localId = cid[0:index]
-		this.host = cid[index+1 : len(cid)]
-		if this.localId == "" || this.host == "" {
+		if index == 0 || index == len(cid)-1 {
 			return errors.New("IllegalArgumentException: CallID  must be token@token or token")
 		}
+		this.localId = cid[0:index]
+		this.host = cid[index+1 : len(cid)]
 	}
 
 	return nil
diff --git a/sip/header/InReplyToImpl.go b/sip/header/InReplyToImpl.go
index 860460f..da9acba 100644
--- a/sip/header/InReplyToImpl.go
+++ b/sip/header/InReplyToImpl.go
@@ -38,7 +38,10 @@ func NewInReplyToFromCallIdentifier(cid *CallIdentifier) *InReplyTo {
  * unexpectedly while parsing the callId value.
  */
 func (this *InReplyTo) SetCallId(callId string) (ParseException error) {
-	this.callId, ParseException = NewCallIdentifier(callId)
+	callIdentifier, ParseException := NewCallIdentifier(callId)
+	if ParseException == nil {
+		this.callId = callIdentifier
+	}
 	return ParseException
 }
 
@@ -66,5 +69,5 @@ func (this *InReplyTo) String() string {
  * @return String
  */
 func (this *InReplyTo) EncodeBody() string {
-	return this.callId.String()
+	return this.GetCallId()
 }
-- 
2.43.0


From 27d92e2a7cef200fde55e155ae2aadf2062e417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:53 +0000
Subject: [PATCH 097/152] fix: setting the methods of an Allow or Allow-Events
 list replaces those before

---
 sip/header/AllowEventsList.go | 5 ++++-
 sip/header/AllowList.go       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sip/header/AllowEventsList.go b/sip/header/AllowEventsList.go
index 18df735..7cb7190 100644
--- a/sip/header/AllowEventsList.go
+++ b/sip/header/AllowEventsList.go
@@ -59,6 +59,7 @@ func (this *AllowEventsList) GetMethods() *list.List {
  */
 
 func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException error) {
+	elements := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allowEvents := NewAllowEvents()
 		if str, ok := e.Value.(string); ok {
@@ -69,8 +70,10 @@ func (this *AllowEventsList) SetMethods(methods *list.List) (ParseException erro
 			return errors.New("ParseException: the eventType parameter is not string")
 		}
 
-		this.PushBack(allowEvents)
+		elements.PushBack(allowEvents)
 	}
+	this.Init()
+	this.PushBackList(elements)
 
 	return nil
 }
diff --git a/sip/header/AllowList.go b/sip/header/AllowList.go
index 753297b..48d0004 100644
--- a/sip/header/AllowList.go
+++ b/sip/header/AllowList.go
@@ -60,6 +60,7 @@ func (this *AllowList) GetMethods() *list.List {
 
 func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 
+	elements := list.New()
 	for e := methods.Front(); e != nil; e = e.Next() {
 		allow := NewAllow()
 		if str, ok := e.Value.(string); ok {
@@ -70,7 +71,9 @@ func (this *AllowList) SetMethods(methods *list.List) (ParseException error) {
 			return errors.New("ParseException: the method parameter is not string")
 		}
 
-		this.PushBack(allow)
+		elements.PushBack(allow)
 	}
+	this.Init()
+	this.PushBackList(elements)
 	return nil
 }
-- 
2.43.0


From f8b657be833062292613eef757525a1176f8882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:58 +0000
Subject: [PATCH 098/152] fix: an empty Accept-Language list has a default
 first and last element

---
 sip/header/AcceptLanguageList.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sip/header/AcceptLanguageList.go b/sip/header/AcceptLanguageList.go
index 863acf5..c6aa884 100644
--- a/sip/header/AcceptLanguageList.go
+++ b/sip/header/AcceptLanguageList.go
@@ -18,18 +18,16 @@ func NewAcceptLanguageList() *AcceptLanguageList {
 }
 
 func (this *AcceptLanguageList) GetFirst() Header {
-	retval := this.SIPHeaderList.Front().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Front(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
 }
 
 func (this *AcceptLanguageList) GetLast() Header {
-	retval := this.SIPHeaderList.Back().Value.(Header)
-	if retval != nil {
-		return retval
+	if e := this.SIPHeaderList.Back(); e != nil {
+		return e.Value.(Header)
 	} else {
 		return NewAcceptLanguage()
 	}
-- 
2.43.0


From 662928afa6d7fa1a51c4f2f72d15499baf7db0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 099/152] fix: a Content-Type without a media range reads as
 empty

---
 sip/header/ContentTypeImpl.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sip/header/ContentTypeImpl.go b/sip/header/ContentTypeImpl.go
index 16d847f..5ca15df 100644
--- a/sip/header/ContentTypeImpl.go
+++ b/sip/header/ContentTypeImpl.go
@@ -61,7 +61,7 @@ func NewContentTypeFromString(contentType, contentSubtype string) *ContentType {
  * @return int.
  */
 func (this *ContentType) CompareMediaRange(media string) bool {
-	return strings.ToLower(this.mediaRange.mtype+"/"+this.mediaRange.subtype) == strings.ToLower(media)
+	return strings.EqualFold(this.GetMediaType()+"/"+this.GetMediaSubType(), media)
 }
 
 func (this *ContentType) String() string {
@@ -74,6 +74,9 @@ func (this *ContentType) String() string {
  * @return String.
  */
 func (this *ContentType) EncodeBody() string {
+	if this.mediaRange == nil {
+		return ""
+	}
 	if this.HasParameters() {
 		return this.mediaRange.String() + core.SIPSeparatorNames_SEMICOLON + this.parameters.String()
 	} else {
@@ -92,14 +95,14 @@ func (this *ContentType) GetMediaRange() *MediaRange {
  * @return String.
  */
 func (this *ContentType) GetMediaType() string {
-	return this.mediaRange.mtype
+	return this.GetContentType()
 }
 
 /** Get the MediaSubType field.
  * @return String.
  */
 func (this *ContentType) GetMediaSubType() string {
-	return this.mediaRange.subtype
+	return this.GetContentSubType()
 }
 
 /** Get the content subtype.
-- 
2.43.0


From bb934f3659ef188533726a36636eb6196d78ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:08 +0000
Subject: [PATCH 100/152] fix: a Date without a date encodes as empty

---
 sip/header/DateImpl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/header/DateImpl.go b/sip/header/DateImpl.go
index 657aafc..2b3cdd4 100644
--- a/sip/header/DateImpl.go
+++ b/sip/header/DateImpl.go
@@ -37,6 +37,9 @@ func (this *Date) String() string {
  * @return String
  */
 func (this *Date) EncodeBody() string {
+	if this.date == nil {
+		return ""
+	}
 	return this.date.UTC().Format(Date_FORMAT)
 }
 
-- 
2.43.0


From 2bbad7254de9e970d048e4d44a6fa307e8a99ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 101/152] fix: concatenating a header list at the top keeps its
 order

---
 sip/header/SIPHeaderList.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index 4f79843..da2fb7d 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -81,7 +81,7 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 		}
 	} else {
 		//add given items to the end of the list.
-		for e := shl.Front(); e != nil; e = e.Next() {
+		for e := shl.Back(); e != nil; e = e.Prev() {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From b3a9ca17d35781a12bc8543e63ef5cb528801048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:18 +0000
Subject: [PATCH 102/152] fix: a timestamp and a delay are finite numbers

---
 sip/header/TimeStampImpl.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sip/header/TimeStampImpl.go b/sip/header/TimeStampImpl.go
index 2ccee9b..112894e 100644
--- a/sip/header/TimeStampImpl.go
+++ b/sip/header/TimeStampImpl.go
@@ -3,6 +3,7 @@ package header
 import (
 	"errors"
 	"github.com/use-go/gosips/core"
+	"math"
 	"strconv"
 )
 
@@ -70,7 +71,7 @@ func (this *TimeStamp) RemoveDelay() {
  * negative value.
  */
 func (this *TimeStamp) SetTimeStamp(timeStamp float32) (InvalidArgumentException error) {
-	if timeStamp < 0 {
+	if !(timeStamp >= 0 && timeStamp <= math.MaxFloat32) {
 		return errors.New("InvalidArgumentException: the timeStamp parameter is <0")
 	}
 	this.timeStamp = timeStamp
@@ -106,7 +107,7 @@ func (this *TimeStamp) GetDelay() float32 {
  */
 
 func (this *TimeStamp) SetDelay(delay float32) (InvalidArgumentException error) {
-	if delay < 0 && delay != -1 {
+	if !(delay >= 0 && delay <= math.MaxFloat32) && delay != -1 {
 		return errors.New("InvalidArgumentException: the delay parameter is <0")
 	}
 	this.delay = delay
-- 
2.43.0


From 9d6b667235868d70dfdb5543b5f2e84c8dad6f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 103/152] fix: the message of an Error-Info is quoted

---
 sip/header/ErrorInfoImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/ErrorInfoImpl.go b/sip/header/ErrorInfoImpl.go
index 260869b..135fc2b 100644
--- a/sip/header/ErrorInfoImpl.go
+++ b/sip/header/ErrorInfoImpl.go
@@ -93,7 +93,7 @@ func (this *ErrorInfo) SetErrorMessage(message string) (ParseException error) {
 	if message == "" {
 		return errors.New("NullPointerException: the message parameter is null")
 	}
-	this.SetParameter("message", message)
+	this.SetQuotedParameter("message", message)
 	return nil
 }
 
-- 
2.43.0


From edd1fa136fee6a6af36bf8e1bebeeb382e458750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 104/152] fix: a RAck may acknowledge CSeq number zero

---
 sip/header/RAckImpl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/RAckImpl.go b/sip/header/RAckImpl.go
index b8b9e07..a037730 100644
--- a/sip/header/RAckImpl.go
+++ b/sip/header/RAckImpl.go
@@ -72,7 +72,7 @@ func (this *RAck) GetRSeqNumber() int {
  * @throws InvalidArgumentException if supplied value is less than zero.
  */
 func (this *RAck) SetCSeqNumber(cSeqNumber int) (InvalidArgumentException error) {
-	if cSeqNumber <= 0 {
+	if cSeqNumber < 0 {
 		return errors.New("InvalidArgumentException: Bad CSeq")
 	}
 	this.cSeqNumber = cSeqNumber
-- 
2.43.0


From ebd7fee0ade8228867f86257282e00964d4d1afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:34 +0000
Subject: [PATCH 105/152] fix: clearing the wildcard flag of a Contact does not
 set it

---
 sip/header/ContactImpl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/header/ContactImpl.go b/sip/header/ContactImpl.go
index bd7962b..1c65013 100644
--- a/sip/header/ContactImpl.go
+++ b/sip/header/ContactImpl.go
@@ -131,6 +131,10 @@ func (this *Contact) SetContactList(cl *ContactList) {
  * @param w boolean to set
  */
 func (this *Contact) SetWildCardFlag(w bool) {
+	if !w {
+		this.wildCardFlag = false
+		return
+	}
 	this.wildCardFlag = true
 	addr := address.NewAddressImpl()
 	addr.SetWildCardFlag()
-- 
2.43.0


From 5bda089698854cc0a3ba803d454fd9e465562c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:30 +0000
Subject: [PATCH 106/152] fix: Accept-Encoding and Accept-Language parameters
 keep their quotes and flags apart from their values

---
 sip/parser/AcceptEncodingParser.go | 9 ++++-----
 sip/parser/AcceptLanguageParser.go | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/sip/parser/AcceptEncodingParser.go b/sip/parser/AcceptEncodingParser.go
index 4fa3564..f2b6a93 100644
--- a/sip/parser/AcceptEncodingParser.go
+++ b/sip/parser/AcceptEncodingParser.go
@@ -91,21 +91,20 @@ func (this *AcceptEncodingParser) Parse() (sh header.Header, ParseException erro
 				lexer.ConsumeK(1)
 				lexer.SPorHT()
 				var nv *core.NameValue
-				if nv, ParseException = this.NameValue('='); ParseException != nil {
+				if nv, ParseException = this.Parameter(); ParseException != nil {
 					return nil, ParseException
 				}
 				if strings.ToLower(nv.GetName()) == header.ParameterNames_Q {
 					var qv float64
-					if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
+					value, _ := nv.GetValue().(string)
+					if qv, ParseException = strconv.ParseFloat(value, 32); ParseException != nil {
 						return nil, ParseException
 					}
 					if ParseException = acceptEncoding.SetQValue(float32(qv)); ParseException != nil {
 						return nil, ParseException
 					}
-				} else if nv.IsValueQuoted() {
-					acceptEncoding.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
 				} else {
-					acceptEncoding.SetParameter(nv.GetName(), nv.GetValue().(string))
+					acceptEncoding.GetParameters().SetNameValue(nv)
 				}
 				lexer.SPorHT()
 			}
diff --git a/sip/parser/AcceptLanguageParser.go b/sip/parser/AcceptLanguageParser.go
index 54b269e..776f190 100644
--- a/sip/parser/AcceptLanguageParser.go
+++ b/sip/parser/AcceptLanguageParser.go
@@ -79,21 +79,20 @@ func (this *AcceptLanguageParser) Parse() (sh header.Header, ParseException erro
 			lexer.ConsumeK(1)
 			lexer.SPorHT()
 			var nv *core.NameValue
-			if nv, ParseException = this.NameValue('='); ParseException != nil {
+			if nv, ParseException = this.Parameter(); ParseException != nil {
 				return nil, ParseException
 			}
 			if strings.ToLower(nv.GetName()) == header.ParameterNames_Q {
 				var qv float64
-				if qv, ParseException = strconv.ParseFloat(nv.GetValue().(string), 32); ParseException != nil {
+				value, _ := nv.GetValue().(string)
+				if qv, ParseException = strconv.ParseFloat(value, 32); ParseException != nil {
 					return nil, ParseException
 				}
 				if ParseException = acceptLanguage.SetQValue(float32(qv)); ParseException != nil {
 					return nil, ParseException
 				}
-			} else if nv.IsValueQuoted() {
-				acceptLanguage.SetParameter(nv.GetName(), "\""+nv.GetValue().(string)+"\"")
 			} else {
-				acceptLanguage.SetParameter(nv.GetName(), nv.GetValue().(string))
+				acceptLanguage.GetParameters().SetNameValue(nv)
 			}
 			lexer.SPorHT()
 		}
-- 
2.43.0


From 81ba0260bb256cd8e950a1ee277d4b896841970e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:12 +0000
Subject: [PATCH 107/152] fix: parameters after a bare address may be quoted
 and hold any token

---
 sip/parser/URLParser.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index ed5714f..b8b8539 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -58,6 +58,15 @@ func (this *URLParser) IsReservedNoSlash(next byte) bool {
 		next == ','
 }
 
+// atEndOfParameter tells whether a parameter ends at the input position.
+func (this *URLParser) atEndOfParameter() bool {
+	mark := this.GetLexer().MarkInputPosition()
+	this.GetLexer().SPorHT()
+	la, err := this.GetLexer().LookAheadK(0)
+	this.GetLexer().RewindInputPosition(mark)
+	return err != nil || la == ';' || la == '?' || la == ',' || la == '\n'
+}
+
 // endsAddrSpec tells whether a character ends a URI without angle brackets.
 func (this *URLParser) endsAddrSpec(la byte) bool {
 	return this.addrSpec && (la == ';' || la == '?' || la == ',')
@@ -489,11 +498,17 @@ func (this *URLParser) SipURL() (sipurl *address.SipURIImpl, ParseException erro
 		if la, _ := this.GetLexer().LookAheadK(0); la != ';' {
 			break
 		}
+		mark := this.GetLexer().MarkInputPosition()
 		this.GetLexer().ConsumeK(1)
 		var parms *core.NameValue
-		if parms, ParseException = this.UriParam(); ParseException != nil {
+		if parms, ParseException = this.UriParam(); ParseException != nil && !this.addrSpec {
 			return nil, ParseException
 		}
+		if this.addrSpec && (ParseException != nil || !this.atEndOfParameter()) {
+			// not a parameter of a URI: one of the header
+			this.GetLexer().RewindInputPosition(mark)
+			break
+		}
 		retval.SetUriParameter(parms)
 	}
 
-- 
2.43.0


From 56718ff99ceab9ae47bbf21c62f9a619dc4894cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:24 +0000
Subject: [PATCH 108/152] fix: white space before the colon is not part of the
 name of an unknown header

---
 sip/parser/HeaderParser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index 43d1bb9..b8fa0ec 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -65,7 +65,7 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 	body := strings.TrimSpace(lexer.GetLine())
 
 	// we dont set any fields because the header is ok
-	retval := header.NewExtension(name)
+	retval := header.NewExtension(strings.TrimSpace(name))
 	retval.SetValue(body)
 	return retval, nil
 }
-- 
2.43.0


From 586a8ff65bd6782feda6bbc96437a857299867e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:29 +0000
Subject: [PATCH 109/152] fix: a Contact whose display name begins with * is
 not the wildcard

---
 sip/parser/ContactParser.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/sip/parser/ContactParser.go b/sip/parser/ContactParser.go
index 0cc344c..c2ae21d 100644
--- a/sip/parser/ContactParser.go
+++ b/sip/parser/ContactParser.go
@@ -26,6 +26,20 @@ func NewContactParserFromLexer(lexer core.Lexer) *ContactParser {
 	return this
 }
 
+// atWildCard tells whether the next contact is a * and nothing more.
+func (this *ContactParser) atWildCard() bool {
+	lexer := this.GetLexer()
+	if la, _ := lexer.LookAheadK(0); la != '*' {
+		return false
+	}
+	mark := lexer.MarkInputPosition()
+	lexer.ConsumeK(1)
+	lexer.SPorHT()
+	la, err := lexer.LookAheadK(0)
+	lexer.RewindInputPosition(mark)
+	return err != nil || la == ',' || la == '\n'
+}
+
 func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	retval := header.NewContactList()
 	// past the header name and the colon.
@@ -36,7 +50,7 @@ func (this *ContactParser) Parse() (sh header.Header, ParseException error) {
 	}
 	for {
 		contact := header.NewContact()
-		if la, _ = lexer.LookAheadK(0); la == '*' {
+		if this.atWildCard() {
 			if _, ParseException = lexer.Match('*'); ParseException != nil {
 				return nil, ParseException
 			}
-- 
2.43.0


From 963f45ffe323a3b5316b80f5578007f01a5cb4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 110/152] fix: a header list may be concatenated with itself

---
 sip/header/SIPHeaderList.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/header/SIPHeaderList.go b/sip/header/SIPHeaderList.go
index da2fb7d..52b3888 100644
--- a/sip/header/SIPHeaderList.go
+++ b/sip/header/SIPHeaderList.go
@@ -76,12 +76,12 @@ func (this *SIPHeaderList) Concatenate(shl SIPHeaderLister, topFlag bool) {
 	}
 
 	if !topFlag {
-		for e := shl.Front(); e != nil; e = e.Next() {
+		for e, n := shl.Front(), shl.Len(); n > 0; e, n = e.Next(), n-1 {
 			this.PushBack(e.Value.(Header))
 		}
 	} else {
 		//add given items to the end of the list.
-		for e := shl.Back(); e != nil; e = e.Prev() {
+		for e, n := shl.Back(), shl.Len(); n > 0; e, n = e.Prev(), n-1 {
 			this.PushFront(e.Value.(Header))
 		}
 	}
-- 
2.43.0


From 743cae587893051a45875a608a9cd04333c6fa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:03 +0000
Subject: [PATCH 111/152] fix: a header that a message lacks reads as nil

---
 sip/message/SIPMessage.go | 22 ++++++++++++++++++++--
 sip/message/SIPRequest.go |  2 +-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 2a05d3a..46d2701 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -793,8 +793,8 @@ func (this *SIPMessage) GetTransactionId() string {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
 		var retval bytes.Buffer
-		from := this.GetFrom().(*header.From)
-		to := this.GetTo().(*header.To)
+		from := this.fromHeader
+		to := this.toHeader
 		hpFrom := from.GetUserAtHostPort()
 		retval.WriteString(hpFrom + ":")
 		if from.HasTag() {
@@ -862,6 +862,9 @@ func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
  *@return -- the from header.
  */
 func (this *SIPMessage) GetFrom() header.FromHeader {
+	if this.fromHeader == nil {
+		return nil
+	}
 	return this.fromHeader
 }
 
@@ -933,6 +936,9 @@ func (this *SIPMessage) GetTopmostVia() *header.Via {
  * @return CSeq header
  */
 func (this *SIPMessage) GetCSeq() header.CSeqHeader {
+	if this.cSeqHeader == nil {
+		return nil
+	}
 	return this.cSeqHeader
 }
 
@@ -956,6 +962,9 @@ func (this *SIPMessage) GetAuthorization() *header.Authorization {
  * @return Max-Forwards header
  */
 func (this *SIPMessage) GetMaxForwards() header.MaxForwardsHeader {
+	if this.maxForwardsHeader == nil {
+		return nil
+	}
 	return this.maxForwardsHeader
 }
 
@@ -1019,6 +1028,9 @@ func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
  * @return Call-ID header .
  */
 func (this *SIPMessage) GetCallId() header.CallIdHeader {
+	if this.callIdHeader == nil {
+		return nil
+	}
 	return this.callIdHeader
 }
 
@@ -1068,6 +1080,9 @@ func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
  * @return To header
  */
 func (this *SIPMessage) GetTo() header.ToHeader {
+	if this.toHeader == nil {
+		return nil
+	}
 	return this.toHeader
 }
 
@@ -1085,6 +1100,9 @@ func (this *SIPMessage) SetFrom(from header.FromHeader) {
  * @return content-length header.
  */
 func (this *SIPMessage) GetContentLength() header.ContentLengthHeader {
+	if this.contentLengthHeader == nil {
+		return nil
+	}
 	return this.contentLengthHeader
 }
 
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 9cf72f4..b8ece3e 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -175,7 +175,7 @@ func (this *SIPRequest) SetDefaults() {
 func (this *SIPRequest) SetRequestLineDefaults() {
 	method := this.requestLine.GetMethod()
 	if method == "" {
-		cseq := this.GetCSeq().(*header.CSeq)
+		cseq := this.cSeqHeader
 		if cseq != nil {
 			method = cseq.GetMethod()
 			this.requestLine.SetMethod(method)
-- 
2.43.0


From b31d39e29bec5e49be430e8133b2c670a5779e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:24 +0000
Subject: [PATCH 112/152] fix: looking up a header that a message lacks does
 not panic

---
 sip/message/SIPMessage.go | 63 ++++++++++++++++++++++++++-------------
 1 file changed, 43 insertions(+), 20 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 46d2701..a1373fa 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -776,9 +776,7 @@ func (this *SIPMessage) RemoveHeader(headerName string) {
  */
 func (this *SIPMessage) GetTransactionId() string {
 	var topVia *header.Via
-	if this.GetViaHeaders().Len() > 0 {
-		topVia = this.GetViaHeaders().Front().Value.(*header.Via)
-	}
+	topVia = this.GetTopmostVia()
 	// Have specified a branch Identifier so we can use it to identify
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
@@ -844,6 +842,9 @@ func (this *SIPMessage) getHeaders() header.Lister {
 func (this *SIPMessage) GetHeader(headerName string) header.Header {
 	sipHeader := this.nameTable[strings.ToLower(headerName)]
 	if sl, ok := sipHeader.(header.SIPHeaderLister); ok {
+		if sl.Len() == 0 {
+			return nil
+		}
 		return sl.Front().Value.(header.Header)
 	} else {
 		return sipHeader
@@ -855,7 +856,8 @@ func (this *SIPMessage) GetHeader(headerName string) header.Header {
  *@return contentType header
  */
 func (this *SIPMessage) GetContentTypeHeader() header.ContentTypeHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_TYPE).(header.ContentTypeHeader)
+	return h
 }
 
 /** Get the from header.
@@ -873,7 +875,8 @@ func (this *SIPMessage) GetFrom() header.FromHeader {
  * @return List containing ErrorInfo headers.
  */
 func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ERROR_INFO).(*header.ErrorInfoList)
+	return l
 }
 
 /**
@@ -881,7 +884,8 @@ func (this *SIPMessage) GetErrorInfoHeaders() *header.ErrorInfoList {
  * @return List containing Contact headers.
  */
 func (this *SIPMessage) GetContactHeaders() *header.ContactList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_CONTACT).(*header.ContactList)
+	return l
 }
 
 /**
@@ -889,7 +893,8 @@ func (this *SIPMessage) GetContactHeaders() *header.ContactList {
  * @return List containing Via headers.
  */
 func (this *SIPMessage) GetViaHeaders() *header.ViaList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_VIA).(*header.ViaList)
+	return l
 }
 
 /** Get an iterator to the list of vial headers.
@@ -924,7 +929,7 @@ func (this *SIPMessage) SetHeaderFromSIPHeaderList(sipHeaderList header.SIPHeade
  *@return the top most via header if one exists or nil if none exists.
  */
 func (this *SIPMessage) GetTopmostVia() *header.Via {
-	if this.GetViaHeaders() == nil {
+	if this.GetViaHeaders() == nil || this.GetViaHeaders().Len() == 0 {
 		return nil
 	} else {
 		return this.GetViaHeaders().Front().Value.(*header.Via)
@@ -946,6 +951,9 @@ func (this *SIPMessage) GetCSeq() header.CSeqHeader {
  * @return the sequence number.
  */
 func (this *SIPMessage) GetCSeqNumber() int {
+	if this.cSeqHeader == nil {
+		return 0
+	}
 	return this.cSeqHeader.GetSequenceNumber()
 }
 
@@ -954,7 +962,8 @@ func (this *SIPMessage) GetCSeqNumber() int {
  * @return Authorization header.
  */
 func (this *SIPMessage) GetAuthorization() *header.Authorization {
-	return this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_AUTHORIZATION).(*header.Authorization)
+	return h
 }
 
 /**
@@ -980,7 +989,8 @@ func (this *SIPMessage) SetMaxForwards(maxForwards header.MaxForwardsHeader) {
  * @return Min-Expires header
  */
 func (this *SIPMessage) GetMinExpires() *header.MinExpires {
-	return this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	h, _ := this.GetHeader(core.SIPHeaderNames_MIN_EXPIRES).(*header.MinExpires)
+	return h
 }
 
 /** Set the min expires header.
@@ -996,7 +1006,8 @@ func (this *SIPMessage) SetMinExpiresHeader(minExpires header.MinExpiresHeader)
  * @return Orgnaization header.
  */
 func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
-	return this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_ORGANIZATION).(*header.Organization)
+	return h
 }
 
 /**
@@ -1004,7 +1015,8 @@ func (this *SIPMessage) GetOrganizationHeader() *header.Organization {
  * @return Priority header
  */
 func (this *SIPMessage) GetPriorityHeader() *header.Priority {
-	return this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PRIORITY).(*header.Priority)
+	return h
 }
 
 /**
@@ -1012,7 +1024,8 @@ func (this *SIPMessage) GetPriorityHeader() *header.Priority {
  * @return List containing Proxy-Authorization headers.
  */
 func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization {
-	return this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	h, _ := this.GetHeader(core.SIPHeaderNames_PROXY_AUTHORIZATION).(*header.ProxyAuthorization)
+	return h
 }
 
 /**
@@ -1020,7 +1033,8 @@ func (this *SIPMessage) GetProxyAuthorizationHeader() *header.ProxyAuthorization
  * @return List containing Route headers
  */
 func (this *SIPMessage) GetRouteHeaders() *header.RouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_ROUTE).(*header.RouteList)
+	return l
 }
 
 /** Get the CallID header (nil if one does not exist)
@@ -1063,6 +1077,9 @@ func (this *SIPMessage) SetCallIdFromString(callId string) { //throws java.text.
  *
  */
 func (this *SIPMessage) GetCallIdentifier() string {
+	if this.callIdHeader == nil {
+		return ""
+	}
 	return this.callIdHeader.GetCallId()
 }
 
@@ -1072,7 +1089,8 @@ func (this *SIPMessage) GetCallIdentifier() string {
  * @return Record-Route header
  */
 func (this *SIPMessage) GetRecordRouteHeaders() *header.RecordRouteList {
-	return this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	l, _ := this.GetSIPHeaderList(core.SIPHeaderNames_RECORD_ROUTE).(*header.RecordRouteList)
+	return l
 }
 
 /**
@@ -1348,7 +1366,8 @@ func (this *SIPMessage) GetHeaders(headerName string) header.Lister {
 }
 
 func (this *SIPMessage) GetSIPHeaderList(headerName string) header.SIPHeaderLister {
-	return this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	l, _ := this.nameTable[strings.ToLower(headerName)].(header.SIPHeaderLister)
+	return l
 }
 
 func (this *SIPMessage) GetHeaderList(headerName string) header.Lister {
@@ -1557,7 +1576,8 @@ func (this *SIPMessage) GetHeaderNames() *list.List {
  * @return the contentDisposition header
  */
 func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_DISPOSITION).(header.ContentDispositionHeader)
+	return h
 }
 
 /** Get the content encoding header.
@@ -1565,7 +1585,8 @@ func (this *SIPMessage) GetContentDisposition() header.ContentDispositionHeader
  *@return the contentEncoding header.
  */
 func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_ENCODING).(header.ContentEncodingHeader)
+	return h
 }
 
 /** Get the contentLanguage header.
@@ -1573,7 +1594,8 @@ func (this *SIPMessage) GetContentEncoding() header.ContentEncodingHeader {
  *@return the content language header.
  */
 func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
-	return this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_CONTENT_LANGUAGE).(header.ContentLanguageHeader)
+	return h
 }
 
 /** Get the exipres header.
@@ -1581,7 +1603,8 @@ func (this *SIPMessage) GetContentLanguage() header.ContentLanguageHeader {
  *@return the expires header or nil if one does not exist.
  */
 func (this *SIPMessage) GetExpires() header.ExpiresHeader {
-	return this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	h, _ := this.GetHeader(core.SIPHeaderNames_EXPIRES).(header.ExpiresHeader)
+	return h
 }
 
 /** Set the expiresHeader
-- 
2.43.0


From 338dbf01a0d6e9e98ec4814ac80c3860c1d1e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:01 +0000
Subject: [PATCH 113/152] fix: attaching a header in place of another removes
 that one

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index a1373fa..ffdb247 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -600,7 +600,7 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 	}
 
 	if replaceFlag {
-		delete(this.nameTable, strings.ToLower(h.GetName()))
+		this.RemoveHeader(h.GetName())
 	} else {
 		if _, present := this.nameTable[strings.ToLower(h.GetName())]; present {
 			if _, ok := h.(header.SIPHeaderLister); !ok {
-- 
2.43.0


From 40220dbc982ed732a6f993ba0f35c01862d44020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:05 +0000
Subject: [PATCH 114/152] fix: a header list whose elements have all been
 removed is gone

---
 sip/message/SIPMessage.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index ffdb247..aeb030b 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -675,15 +675,16 @@ func (this *SIPMessage) RemoveHeader2(headerName string, top bool) {
 	}
 
 	if hdrList, ok := toRemove.(header.SIPHeaderLister); ok {
-		if top {
-			first := hdrList.Front()
-			hdrList.Remove(first)
-		} else {
-			last := hdrList.Back()
-			hdrList.Remove(last)
+		if hdrList.Len() > 0 {
+			if top {
+				hdrList.Remove(hdrList.Front())
+			} else {
+				hdrList.Remove(hdrList.Back())
+			}
 		}
 		// Clean up empty list
 		if hdrList.Len() == 0 {
+			delete(this.nameTable, strings.ToLower(headerName))
 			for li := this.headers.Front(); li != nil; li = li.Next() {
 				sipHeader := li.Value.(header.Header)
 				if strings.ToLower(sipHeader.GetName()) == strings.ToLower(headerName) {
-- 
2.43.0


From 94652962881f1389687c7fa5c03eade7ae9a3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:09 +0000
Subject: [PATCH 115/152] fix: a header that may occur more than once is kept
 in a list

---
 sip/message/SIPMessage.go | 65 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index aeb030b..f8d68c7 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -581,6 +581,64 @@ func (this *SIPMessage) AttachHeader2(h header.Header, replaceflag bool) { //thr
 	this.AttachHeader3(h, replaceflag, false)
 }
 
+// newHeaderList returns an empty list for headers like h, or nil if h
+// is a list, or a header that occurs only once in a message.
+func newHeaderList(h header.Header) header.SIPHeaderLister {
+	switch h.(type) {
+	case *header.AcceptEncoding:
+		return header.NewAcceptEncodingList()
+	case *header.AcceptLanguage:
+		return header.NewAcceptLanguageList()
+	case *header.Accept:
+		return header.NewAcceptList()
+	case *header.AlertInfo:
+		return header.NewAlertInfoList()
+	case *header.AllowEvents:
+		return header.NewAllowEventsList()
+	case *header.Allow:
+		return header.NewAllowList()
+	case *header.CallInfo:
+		return header.NewCallInfoList()
+	case *header.Contact:
+		return header.NewContactList()
+	case *header.ContentEncoding:
+		return header.NewContentEncodingList()
+	case *header.ContentLanguage:
+		return header.NewContentLanguageList()
+	case *header.ErrorInfo:
+		return header.NewErrorInfoList()
+	case *header.InReplyTo:
+		return header.NewInReplyToList()
+	case *header.ProxyAuthenticate:
+		return header.NewProxyAuthenticateList()
+	case *header.ProxyRequire:
+		return header.NewProxyRequireList()
+	case *header.Reason:
+		return header.NewReasonList()
+	case *header.RecordRoute:
+		return header.NewRecordRouteList()
+	case *header.Require:
+		return header.NewRequireList()
+	case *header.Route:
+		return header.NewRouteList()
+	case *header.Supported:
+		return header.NewSupportedList()
+	case *header.Unsupported:
+		return header.NewUnsupportedList()
+	case *header.Via:
+		return header.NewViaList()
+	case *header.WWWAuthenticate:
+		return header.NewWWWAuthenticateList()
+	case *header.Warning:
+		return header.NewWarningList()
+	case *header.Authorization, *header.ProxyAuthorization:
+		return header.NewSIPHeaderList(h.GetName())
+	case *header.Extension:
+		return header.NewExtensionHeaderList(h.GetName())
+	}
+	return nil
+}
+
 /**
  * Attach the header to the SIP Message structure at a specified
  * position in its list of headers.
@@ -599,6 +657,11 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		return errors.New("NullPointerException: nil header")
 	}
 
+	if hdrList := newHeaderList(h); hdrList != nil {
+		hdrList.PushBack(h)
+		h = hdrList
+	}
+
 	if replaceFlag {
 		this.RemoveHeader(h.GetName())
 	} else {
@@ -625,7 +688,7 @@ func (this *SIPMessage) AttachHeader3(h header.Header, replaceFlag, top bool) er
 		}
 	}
 
-	if this.GetHeader(h.GetName()) == nil {
+	if _, present := this.nameTable[strings.ToLower(h.GetName())]; !present {
 		this.nameTable[strings.ToLower(h.GetName())] = h
 		this.headers.PushBack(h)
 	} else {
-- 
2.43.0


From 6e12122ee35e1dd87e9b29367c008e00f922ab46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:52 +0000
Subject: [PATCH 116/152] fix: a Via added to a message is its topmost

---
 sip/message/SIPMessage.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index f8d68c7..c48b4ea 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1540,11 +1540,9 @@ func (this *SIPMessage) AddHeader(sipHeader header.Header) {
 	// Content length is never stored. Just computed.
 	sh := sipHeader.(header.Header)
 	//try {
-	if _, ok := sipHeader.(header.ViaHeader); ok {
-		this.AttachHeader3(sh, false, true)
-	} else {
-		this.AttachHeader3(sh, false, false)
-	}
+	_, via := sipHeader.(*header.Via)
+	_, viaList := sipHeader.(*header.ViaList)
+	this.AttachHeader3(sh, false, via || viaList)
 	// } catch (SIPDuplicateHeaderException ex) {
 	//try {
 	//if cl, ok := sipHeader.(header.ContentLengthHeader); ok {
-- 
2.43.0


From e76f07abc95abc1e8f603cc9a4b96b4556db464d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 117/152] fix: the header names of a message are names

---
 sip/message/SIPMessage.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index c48b4ea..951c45b 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1592,7 +1592,11 @@ func (this *SIPMessage) GetUnrecognizedHeaders() *list.List {
  * in the same order as are present in the message.
  */
 func (this *SIPMessage) GetHeaderNames() *list.List {
-	return this.headers
+	names := list.New()
+	for li := this.headers.Front(); li != nil; li = li.Next() {
+		names.PushBack(li.Value.(header.Header).GetName())
+	}
+	return names
 	// ListIterator li = this.headers.listIterator();
 	// LinkedList retval  = new LinkedList();
 	// while (li.hasNext()) {
-- 
2.43.0


From 81dbc97947d762501d34415a521eac933a6bcc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:00 +0000
Subject: [PATCH 118/152] fix: content can be set, and a message encoded, after
 its Content-Length was removed

---
 sip/message/SIPMessage.go | 49 +++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 951c45b..59da1e5 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -358,27 +358,10 @@ func (this *SIPMessage) String() string {
 	}
 	//}
 
-	encoding.WriteString(this.contentLengthHeader.String() + core.SIPSeparatorNames_NEWLINE)
-
-	if this.messageContentObject != nil {
-		mbody := this.GetContent()
-		encoding.WriteString(mbody)
-	} else if this.messageContent != "" || this.messageContentBytes != nil {
-		var content string
-
-		if this.messageContent != "" {
-			content = this.messageContent
-		} else {
-			content = string(this.messageContentBytes)
-		}
-
-		encoding.WriteString(content)
-	} else {
-		// Message content does not exist.
-		// encoding.append(SIPHeaderNames.CONTENT_LENGTH + COLON +
-		// SP + '0' + NEWLINE);
-		//encoding.append(NEWLINE);
-	}
+	// The length of the content overrides that of the Content-Length.
+	content := this.GetContent()
+	encoding.WriteString(header.NewContentLengthFromInt(len(content)).String() + core.SIPSeparatorNames_NEWLINE)
+	encoding.WriteString(content)
 	return encoding.String()
 }
 
@@ -1275,6 +1258,16 @@ func (this *SIPMessage) GetMessageContent() string {
 // 	// }
 // }
 
+// setContentLength sets the Content-Length, of which there may be none if
+// it was removed.
+func (this *SIPMessage) setContentLength(length int) {
+	if this.contentLengthHeader == nil {
+		this.AttachHeader2(header.NewContentLengthFromInt(length), false)
+		return
+	}
+	this.contentLengthHeader.SetContentLength(length)
+}
+
 /** Set the message content given type and subtype.
  *
  *@param type is the message type (eg. application)
@@ -1290,7 +1283,7 @@ func (this *SIPMessage) SetMessageContentFromString(t string, subType string, me
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1327,7 +1320,7 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	// length = content.toString().length();
 
 	if length != -1 {
-		this.contentLengthHeader.SetContentLength(length)
+		this.setContentLength(length)
 	}
 	// } catch (InvalidArgumentException ex) {}
 
@@ -1360,7 +1353,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 	this.SetHeader(ct)
 	this.SetMessageContentFromByte(messageContent)
 	//try {
-	this.contentLengthHeader.SetContentLength(len(messageContent))
+	this.setContentLength(len(messageContent))
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1372,7 +1365,7 @@ func (this *SIPMessage) SetMessageContent3(t string, subType string, messageCont
 func (this *SIPMessage) SetMessageContent(content string) {
 	//int clength = (content == nil? 0: content.length());
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	// } catch (InvalidArgumentException ex) {}
 	this.messageContent = content
 	this.messageContentBytes = nil
@@ -1385,7 +1378,7 @@ func (this *SIPMessage) SetMessageContent(content string) {
  */
 func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
 	//try {
-	this.contentLengthHeader.SetContentLength(len(content))
+	this.setContentLength(len(content))
 	//} catch (InvalidArgumentException ex) {}
 
 	this.messageContentBytes = content
@@ -1401,7 +1394,7 @@ func (this *SIPMessage) RemoveContent() {
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
 	//try {
-	this.contentLengthHeader.SetContentLength(0)
+	this.setContentLength(0)
 	//} catch (InvalidArgumentException ex) {}
 }
 
@@ -1703,7 +1696,7 @@ func (this *SIPMessage) SetContentLanguage(contentLanguageHeader header.ContentL
  */
 func (this *SIPMessage) SetContentLength(contentLength header.ContentLengthHeader) {
 	//try {
-	this.contentLengthHeader.SetContentLength(contentLength.GetContentLength())
+	this.setContentLength(contentLength.GetContentLength())
 	//} catch (InvalidArgumentException ex) {}
 
 }
-- 
2.43.0


From d2428a81f3a2b96885ebc21def4c0a3c83342131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:04 +0000
Subject: [PATCH 119/152] fix: setting content as text replaces that set as
 bytes, and the reverse

---
 sip/message/SIPMessage.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 59da1e5..ed1d21b 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1300,9 +1300,11 @@ func (this *SIPMessage) SetContent(content interface{}, contentTypeHeader header
 	length := -1
 	if s, ok := content.(string); ok {
 		this.messageContent = s
+		this.messageContentBytes = nil
 		length = len(s)
 	} else if b, ok := content.([]byte); ok {
 		this.messageContentBytes = b
+		this.messageContent = ""
 		length = len(b)
 	} else {
 		panic("Don't support GenericObject")
-- 
2.43.0


From 06dd62c94fedc65fb82f8348012da2ca3646a7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:08 +0000
Subject: [PATCH 120/152] fix: removing the content of a message removes the
 headers that describe it

---
 sip/message/SIPMessage.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index ed1d21b..35e53f3 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -1392,6 +1392,12 @@ func (this *SIPMessage) SetMessageContentFromByte(content []byte) {
  *
  */
 func (this *SIPMessage) RemoveContent() {
+	if this.GetContent() != "" {
+		this.RemoveHeader(core.SIPHeaderNames_CONTENT_TYPE)
+		this.RemoveHeader(core.SIPHeaderNames_CONTENT_ENCODING)
+		this.RemoveHeader(core.SIPHeaderNames_CONTENT_LANGUAGE)
+		this.RemoveHeader(core.SIPHeaderNames_CONTENT_DISPOSITION)
+	}
 	this.messageContent = ""
 	this.messageContentBytes = nil
 	this.messageContentObject = nil
-- 
2.43.0


From 22af6b6202f47d5d6c4e63fdb5f3f6b0c78fa37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:12 +0000
Subject: [PATCH 121/152] fix: nothing follows the body of a response

---
 sip/message/SIPResponse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 42caaaa..51b96b5 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -323,7 +323,7 @@ func (this *SIPResponse) String() string {
 	} else {
 		retval = this.SIPMessage.String()
 	}
-	return retval + core.SIPSeparatorNames_NEWLINE
+	return retval
 }
 
 // func (this *SIPResponse) String() string {
-- 
2.43.0


From 53cded456c08e1779eef452637ae57c07d61574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:58 +0000
Subject: [PATCH 122/152] fix: a message without a Call-ID lacks a mandatory
 header

---
 sip/message/SIPRequest.go  | 3 +++
 sip/message/SIPResponse.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index b8ece3e..febde1e 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -118,6 +118,9 @@ func (this *SIPRequest) CheckHeaders() (ParseException error) {
 	if this.GetFrom() == nil {
 		return errors.New("ParseException:" + prefix + "From")
 	}
+	if this.GetCallId() == nil {
+		return errors.New("ParseException:" + prefix + "CallId")
+	}
 	if this.GetViaHeaders() == nil {
 		return errors.New("ParseException:" + prefix + "Via")
 	}
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 51b96b5..a3fdf8f 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -305,6 +305,9 @@ func (this *SIPResponse) CheckHeaders() (ParseException error) {
 	if this.GetFrom() == nil {
 		return errors.New("ParseException: From")
 	}
+	if this.GetCallId() == nil {
+		return errors.New("ParseException: CallId")
+	}
 	if this.GetViaHeaders() == nil {
 		return errors.New("ParseException: Via")
 	}
-- 
2.43.0


From a5cdde9cd5a0c09ce73fd949cad2f04010acf116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 123/152] fix: the SIP version set on a response is encoded

---
 sip/header/StatusLine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/header/StatusLine.go b/sip/header/StatusLine.go
index 353146f..957699d 100644
--- a/sip/header/StatusLine.go
+++ b/sip/header/StatusLine.go
@@ -78,7 +78,7 @@ func (this *StatusLine) SetMatchStatusClass(flag bool) {
  */
 func (this *StatusLine) String() string {
 	var encoding bytes.Buffer
-	encoding.WriteString(SIPConstants_SIP_VERSION_STRING + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
+	encoding.WriteString(this.sipVersion + core.SIPSeparatorNames_SP + strconv.Itoa(this.statusCode) + core.SIPSeparatorNames_SP)
 	if this.reasonPhrase != "" {
 		encoding.WriteString(this.reasonPhrase)
 	}
-- 
2.43.0


From 572d93af7732c733138f3e954de155197d9b2b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 124/152] fix: creating a CANCEL or an ACK leaves the original
 request as it was

---
 sip/message/SIPRequest.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index febde1e..8f9a03c 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -576,11 +576,13 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 	//SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(CANCEL)
 
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		if _, ok := nextHeader.(*header.RequireList); ok {
 			continue
 		} else if _, ok := nextHeader.(*header.ProxyRequireList); ok {
@@ -632,10 +634,12 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 	// SIPHeader	nextHeader;
 
 	newRequest := NewSIPRequest()
-	newRequest.SetRequestLine(this.requestLine)
+	if this.requestLine != nil {
+		newRequest.SetRequestLine(this.requestLine.Clone().(*header.RequestLine))
+	}
 	newRequest.SetMethod(ACK)
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
-		nextHeader := headerIterator.Value.(header.Header)
+		nextHeader := headerIterator.Value.(header.Header).Clone().(header.Header)
 		if _, ok := nextHeader.(*header.RouteList); ok {
 			// Ack and cancel do not Get ROUTE headers.
 			// Route header for ACK is assigned by the
-- 
2.43.0


From decf98ece905fd2ea6816b507a1dc4d904bbc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:10 +0000
Subject: [PATCH 125/152] fix: a CANCEL has the topmost Via of the request only

---
 sip/message/SIPRequest.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 8f9a03c..72dcb58 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -591,15 +591,10 @@ func (this *SIPRequest) CreateCancelRequest() *SIPRequest {
 			continue
 		} else if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
-		} else if _, ok := nextHeader.(*header.ViaList); ok {
-			/**
-			   SIPHeader sipHeader =
-				(SIPHeader)
-			       ((ViaList) nextHeader).GetFirst().clone() ;
-			   nextHeader = new ViaList();
-			   ((ViaList)nextHeader).add(sipHeader);
-			 **/
-			//nextHeader = (ViaList) ((ViaList) nextHeader).clone();
+		} else if vl, ok := nextHeader.(*header.ViaList); ok {
+			// The CANCEL has a single Via, equal to the top
+			// Via of the request.
+			nextHeader = vl.Front().Value.(header.Header)
 		} else if cseq, ok := nextHeader.(*header.CSeq); ok { // CSeq method for a cancel request must be cancel.
 			//CSeq cseq = (CSeq) nextHeader.clone();
 			//try{
-- 
2.43.0


From 9ac939089bb66fa8e77c304aef8c76fb04c7c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:13 +0000
Subject: [PATCH 126/152] fix: an ACK has its own copy of the To of the
 response, and no proxy authorization

---
 sip/message/SIPRequest.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 72dcb58..bcbf477 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -640,7 +640,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// Route header for ACK is assigned by the
 			// Dialog if necessary.
 			continue
-		} else if _, ok := nextHeader.(*header.ProxyAuthorization); ok {
+		} else if nextHeader.GetName() == core.SIPHeaderNames_PROXY_AUTHORIZATION {
 			// Remove proxy auth header.
 			// Assigned by the Dialog if necessary.
 			continue
@@ -671,7 +671,7 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 			// = cseq;
 		} else if _, ok := nextHeader.(*header.To); ok {
 			if responseToHeader != nil {
-				nextHeader = responseToHeader
+				nextHeader = responseToHeader.Clone().(header.Header)
 			} else {
 				//nextHeader = (SIPHeader) nextHeader.clone();
 			}
-- 
2.43.0


From bf61b4ccc5750279fe06c1353ad029c874bf2972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:17 +0000
Subject: [PATCH 127/152] fix: creating a request from another uses the request
 line given, and leaves the original as it was

---
 sip/message/SIPRequest.go | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index bcbf477..0b39d26 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -738,20 +738,20 @@ func (this *SIPRequest) CreateAckRequest(responseToHeader *header.To) *SIPReques
 // */
 func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switchHeaders bool) *SIPRequest {
 	newRequest := NewSIPRequest()
-	newRequest.requestLine = this.requestLine
+	newRequest.requestLine = requestLine
 	for headerIterator := this.getHeaders().Front(); headerIterator != nil; headerIterator = headerIterator.Next() {
 		nextHeader := headerIterator.Value.(header.Header)
 		// For BYE and cancel Set the CSeq header to the
 		// appropriate method.
 		if newCseq, ok := nextHeader.(*header.CSeq); ok {
-			// CSeq newCseq = (CSeq) nextHeader.clone();
+			newCseq = newCseq.Clone().(*header.CSeq)
 			nextHeader = newCseq
 			//try{
-			newCseq.SetMethod(this.requestLine.GetMethod())
+			newCseq.SetMethod(requestLine.GetMethod())
 			//}
 			//catch(ParseException e){}
 		} else if vl, ok := nextHeader.(*header.ViaList); ok {
-			via := vl.Front().Value.(*header.Via)
+			via := vl.Front().Value.(*header.Via).Clone().(*header.Via)
 			via.RemoveParameter("branch")
 			nextHeader = via
 			// Cancel and ACK preserve the branch ID.
@@ -762,9 +762,9 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				from.RemoveTag()
 				nextHeader = from
 			} else {
-				//to2 := to.Clone().(*To)
-				to.RemoveTag()
-				nextHeader = to
+				to2 := to.Clone().(*header.To)
+				to2.RemoveTag()
+				nextHeader = to2
 			}
 		} else if from, ok := nextHeader.(*header.From); ok {
 			if switchHeaders {
@@ -773,13 +773,12 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
 				to.RemoveTag()
 				nextHeader = to
 			} else {
-				//from2 := from.Clone().(*From)
-				from.RemoveTag()
-				nextHeader = from
+				from2 := from.Clone().(*header.From)
+				from2.RemoveTag()
+				nextHeader = from2
 			}
 		} else if cl, ok := nextHeader.(*header.ContentLength); ok {
-			//ContentLength cl  =
-			//	(ContentLength) nextHeader.clone();
+			cl = cl.Clone().(*header.ContentLength)
 			//try{
 			cl.SetContentLength(0)
 			//}
@@ -816,7 +815,7 @@ func (this *SIPRequest) CreateSIPRequest(requestLine *header.RequestLine, switch
  *@return a new default BYE request.
  */
 func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.requestLine.Clone().(*header.RequestLine)
 	requestLine.SetMethod("BYE")
 	return this.CreateSIPRequest(requestLine, switchHeaders)
 }
@@ -828,7 +827,7 @@ func (this *SIPRequest) CreateBYERequest(switchHeaders bool) *SIPRequest {
 *
  */
 func (this *SIPRequest) CreateACKRequest() *SIPRequest {
-	requestLine := this.requestLine //.clone();
+	requestLine := this.requestLine.Clone().(*header.RequestLine)
 	requestLine.SetMethod(ACK)
 	return this.CreateSIPRequest(requestLine, false)
 }
-- 
2.43.0


From 61c89ec86b4de7ed6b4c5d00143c410dbadc7c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 128/152] fix: a request created from a response does not take
 over its content or response headers

---
 sip/message/SIPMessage.go  | 6 ++++++
 sip/message/SIPResponse.go | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 35e53f3..ca86ebd 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -72,6 +72,9 @@ func (this *SIPMessage) super() {
  */
 func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
 	var ok bool
+	if shl, list := sipHeader.(header.SIPHeaderLister); list && shl.Len() > 0 {
+		sipHeader = shl.Front().Value.(header.Header)
+	}
 	if _, ok = sipHeader.(*header.AlertInfo); ok {
 		return true
 	}
@@ -115,6 +118,9 @@ func (this *SIPMessage) IsRequestHeader(sipHeader header.Header) bool {
  */
 func (this *SIPMessage) IsResponseHeader(sipHeader header.Header) bool {
 	var ok bool
+	if shl, list := sipHeader.(header.SIPHeaderLister); list && shl.Len() > 0 {
+		sipHeader = shl.Front().Value.(header.Header)
+	}
 	if _, ok = sipHeader.(*header.ErrorInfo); ok {
 		return true
 	}
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index a3fdf8f..9af5efe 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -569,7 +569,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 	method := cseq.GetMethod()
 	newRequest.SetMethod(method)
 	newRequest.SetRequestURI(requestURI)
-	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia().GetBranch() != "" {
+	if (method == "ACK" || method == "CANCEL") && this.GetTopmostVia() != nil && this.GetTopmostVia().GetBranch() != "" {
 		// Use the branch id from the OK.
 		//try {
 		via.SetBranch(this.GetTopmostVia().GetBranch())
@@ -590,6 +590,9 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		if _, ok := nextHeader.(*header.CSeq); ok {
 			continue
 		}
+		if _, ok := nextHeader.(*header.ContentLength); ok {
+			continue
+		}
 		if _, ok := nextHeader.(*header.ContentType); ok {
 			continue
 		}
@@ -602,7 +605,7 @@ func (this *SIPResponse) CreateRequest(requestURI address.SipURI, via *header.Vi
 		// else if (nextHeader instanceof From)
 		//     nextHeader = (SIPHeader)nextHeader.clone();
 		// try {
-		newRequest.AttachHeader2(nextHeader, false)
+		newRequest.AttachHeader2(nextHeader.Clone().(header.Header), false)
 		// } catch(SIPDuplicateHeaderException e){
 		//     e.printStackTrace();
 		// }
-- 
2.43.0


From 047d8f69dbf3e60aae4fc54478b1430af4d93813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:53 +0000
Subject: [PATCH 129/152] fix: the transaction identifier of a request without
 a branch tells it from others

---
 sip/message/SIPMessage.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index ca86ebd..4135c28 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"container/list"
 	"errors"
+	"strconv"
 	"strings"
 
 	"github.com/use-go/gosips/core"
@@ -855,13 +856,12 @@ func (this *SIPMessage) GetTransactionId() string {
 		retval.WriteString(hpTo + ":")
 		cid := this.callIdHeader.GetCallId()
 		retval.WriteString(cid + ":")
-		retval.WriteRune(rune(this.cSeqHeader.GetSequenceNumber()))
+		retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
 		retval.WriteString(":" + this.cSeqHeader.GetMethod())
 		if topVia != nil {
 			retval.WriteString(":" + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
-				retval.WriteString(":")
-				retval.WriteRune(5060)
+				retval.WriteString(":5060")
 			}
 		}
 		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-- 
2.43.0


From 96f6b9a6e97cf1de471736067b1086c5e3651eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:56 +0000
Subject: [PATCH 130/152] fix: a dialog identifier tells apart Call-IDs that
 differ in letter case

---
 sip/message/SIPRequest.go  | 8 ++++----
 sip/message/SIPResponse.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 0b39d26..c7356b7 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -347,7 +347,6 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -375,7 +374,8 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 			retval.WriteString(from.GetTag())
 		}
 	}
-	return strings.ToLower(retval.String())
+	// A Call-ID is case-sensitive.
+	return cid.GetCallId() + strings.ToLower(retval.String())
 
 }
 
@@ -386,7 +386,6 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -414,7 +413,8 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 			retval.WriteString(from.GetTag())
 		}
 	}
-	return strings.ToLower(retval.String())
+	// A Call-ID is case-sensitive.
+	return cid.GetCallId() + strings.ToLower(retval.String())
 }
 
 // /** Encode this into a byte array.
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 9af5efe..594aaba 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -484,7 +484,6 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -512,7 +511,8 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 			retval.WriteString(from.GetTag())
 		}
 	}
-	return strings.ToLower(retval.String())
+	// A Call-ID is case-sensitive.
+	return cid.GetCallId() + strings.ToLower(retval.String())
 }
 
 func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
@@ -520,7 +520,6 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 	from := this.GetFrom().(*header.From)
 	to := this.GetTo().(*header.To)
 	var retval bytes.Buffer
-	retval.WriteString(cid.GetCallId())
 	if !isServer {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
@@ -548,7 +547,8 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 			retval.WriteString(from.GetTag())
 		}
 	}
-	return strings.ToLower(retval.String())
+	// A Call-ID is case-sensitive.
+	return cid.GetCallId() + strings.ToLower(retval.String())
 }
 
 //    /**
-- 
2.43.0


From d6a9e03b24397309ba66fed50cbb0a065cb09002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 131/152] fix: the transaction identifier of a request without
 a branch is not cut off

---
 sip/message/SIPMessage.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 4135c28..10a2ab4 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -864,12 +864,7 @@ func (this *SIPMessage) GetTransactionId() string {
 				retval.WriteString(":5060")
 			}
 		}
-		hc := ToHexString([]byte(strings.ToLower(retval.String())))
-		if len(hc) < 32 {
-			return hc
-		} else {
-			return hc[len(hc)-32 : len(hc)]
-		}
+		return ToHexString([]byte(strings.ToLower(retval.String())))
 	}
 	// Convert to lower case -- bug fix as a result of a bug report
 	// from Chris Mills of Nortel Networks.
-- 
2.43.0


From 1ec328e65d08f735ae3c903323bcab4f0d4d891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:31 +0000
Subject: [PATCH 132/152] fix: a parameter without value of a tel URL leaves
 the white space after it

---
 sip/parser/URLParser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sip/parser/URLParser.go b/sip/parser/URLParser.go
index b8b8539..137f372 100644
--- a/sip/parser/URLParser.go
+++ b/sip/parser/URLParser.go
@@ -409,10 +409,14 @@ func (this *URLParser) Tel_parameters() (nvl *core.NameValueList, ParseException
 	var nv *core.NameValue
 	nvList := core.NewNameValueList("tel_parameters")
 	for {
+		mark := this.GetLexer().MarkInputPosition()
 		if nv, ParseException = this.NameValue('='); ParseException != nil {
 			return nil, ParseException
 		}
 		if nv.GetValue() == "" && !nv.IsValueQuoted() {
+			// NameValue looked for a '=' beyond white space.
+			this.GetLexer().RewindInputPosition(mark)
+			this.GetLexer().Match(core.CORELEXER_ID)
 			nv.SetValue(nil)
 		}
 		nvList.AddNameValue(nv)
-- 
2.43.0


From 784634937f99e20a01125b3d632797017bcf8c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:39 +0000
Subject: [PATCH 133/152] fix: a status code has three digits

---
 sip/parser/StatusLineParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/StatusLineParser.go b/sip/parser/StatusLineParser.go
index bf3d12a..7253826 100644
--- a/sip/parser/StatusLineParser.go
+++ b/sip/parser/StatusLineParser.go
@@ -50,6 +50,9 @@ func (this *StatusLineParser) Parse() (sl *header.StatusLine, ParseException err
 	if scode, ParseException = this.StatusCode(); ParseException != nil {
 		return nil, ParseException
 	}
+	if scode < 100 || scode > 999 {
+		return nil, this.CreateParseException("Bad status code")
+	}
 	retval.SetStatusCode(scode)
 	if ch, _ := lexer.LookAheadK(0); ch != ' ' && ch != '\t' && ch != '\n' {
 		return nil, this.CreateParseException("Expecting white space after the status code")
-- 
2.43.0


From 11751023893160479338faf131c48f2764ddcdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 134/152] fix: reading or setting the version or status of a
 message without a start line does not crash

---
 sip/message/SIPRequest.go  |  6 ++++++
 sip/message/SIPResponse.go | 11 ++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index c7356b7..83031b0 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -880,6 +880,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 	//throws ParseException {
 	//if (sipVersion == nil || !sipVersion.equals("SIP/2.0"))
 	//	throw new ParseException ("sipVersion" , 0);
+	if this.requestLine == nil {
+		this.requestLine = header.NewRequestLine()
+	}
 	this.requestLine.SetSIPVersion(sipVersion)
 }
 
@@ -888,6 +891,9 @@ func (this *SIPRequest) SetSIPVersion(sipVersion string) {
 *@return the SIP version from the request line.
  */
 func (this *SIPRequest) GetSIPVersion() string {
+	if this.requestLine == nil {
+		return ""
+	}
 	return this.requestLine.GetSipVersion()
 }
 
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index 594aaba..d7d41f5 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -220,6 +220,9 @@ func (this *SIPResponse) GetStatusLine() *header.StatusLine {
 //     *@return the status code of the status line.
 //     */
 func (this *SIPResponse) GetStatusCode() int {
+	if this.statusLine == nil {
+		return 0
+	}
 	return this.statusLine.GetStatusCode()
 }
 
@@ -259,7 +262,7 @@ func (this *SIPResponse) IsFinalResponseFromInt(rc int) bool {
 //     *@return true if this is a final response.
 //     */
 func (this *SIPResponse) IsFinalResponse() bool {
-	return this.IsFinalResponseFromInt(this.statusLine.GetStatusCode())
+	return this.IsFinalResponseFromInt(this.GetStatusCode())
 }
 
 //    /**
@@ -628,9 +631,15 @@ func (this *SIPResponse) GetFirstLine() string {
 }
 
 func (this *SIPResponse) SetSIPVersion(sipVersion string) {
+	if this.statusLine == nil {
+		this.statusLine = header.NewStatusLine()
+	}
 	this.statusLine.SetSipVersion(sipVersion)
 }
 
 func (this *SIPResponse) GetSIPVersion() string {
+	if this.statusLine == nil {
+		return ""
+	}
 	return this.statusLine.GetSipVersion()
 }
-- 
2.43.0


From f951744759facfe6baaa0ebd1daf2ebc98502056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:52 +0000
Subject: [PATCH 135/152] fix: the time to read a Server or User-Agent header
 does not grow with the square of its length

---
 sip/parser/HeaderParser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sip/parser/HeaderParser.go b/sip/parser/HeaderParser.go
index b8fa0ec..1142a86 100644
--- a/sip/parser/HeaderParser.go
+++ b/sip/parser/HeaderParser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"container/list"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
@@ -76,7 +77,7 @@ func (this *HeaderParser) Parse() (sh header.Header, ParseException error) {
 func (this *HeaderParser) Products() (products *list.List, ParseException error) {
 	lexer := this.GetLexer()
 	products = list.New()
-	product := ""
+	var product bytes.Buffer
 	for {
 		ch, err := lexer.LookAheadK(0)
 		if err != nil || ch == '\n' {
@@ -87,18 +88,18 @@ func (this *HeaderParser) Products() (products *list.List, ParseException error)
 			if comment, ParseException = lexer.Comment(); ParseException != nil {
 				return nil, ParseException
 			}
-			product += "(" + comment + ")"
+			product.WriteString("(" + comment + ")")
 			continue
 		}
 		if ch == '/' {
-			products.PushBack(strings.TrimSpace(product))
-			product = ""
+			products.PushBack(strings.TrimSpace(product.String()))
+			product.Reset()
 		} else {
-			product += lexer.CharAsString(ch)
+			product.WriteByte(ch)
 		}
 		lexer.ConsumeK(1)
 	}
-	products.PushBack(strings.TrimSpace(product))
+	products.PushBack(strings.TrimSpace(product.String()))
 	return products, nil
 }
 
-- 
2.43.0


From edae4648ee06e65b8bda0620f62eca5d0db00b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:23 +0000
Subject: [PATCH 136/152] fix: the time to read a Warning agent does not grow
 with the square of its length

---
 sip/parser/WarningParser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sip/parser/WarningParser.go b/sip/parser/WarningParser.go
index 08db8d8..1a3645d 100644
--- a/sip/parser/WarningParser.go
+++ b/sip/parser/WarningParser.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"github.com/use-go/gosips/core"
 	"github.com/use-go/gosips/sip/header"
 	"strings"
@@ -61,12 +62,12 @@ func (this *WarningParser) Parse() (sh header.Header, ParseException error) {
 		lexer.SPorHT()
 
 		// Parsing the agent: a host with or without port, or a pseudonym
-		agent := ""
+		var agent bytes.Buffer
 		for ch, _ = lexer.LookAheadK(0); strings.IndexByte("\x00 \t\n\",;()<>", ch) < 0; ch, _ = lexer.LookAheadK(0) {
-			agent += lexer.CharAsString(ch)
+			agent.WriteByte(ch)
 			lexer.ConsumeK(1)
 		}
-		if ParseException = warning.SetAgent(agent); ParseException != nil {
+		if ParseException = warning.SetAgent(agent.String()); ParseException != nil {
 			return nil, ParseException
 		}
 		lexer.SPorHT()
-- 
2.43.0


From c4be5fc23d3acd2e48d1b87c340d83f31635d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 137/152] fix: SipURIImpl and TelURLImpl did not implement
 SipURI and TelURL

---
 sip/address/SipURI.go | 32 ++++++++++----------------------
 sip/address/TelURL.go | 12 +++---------
 2 files changed, 13 insertions(+), 31 deletions(-)

diff --git a/sip/address/SipURI.go b/sip/address/SipURI.go
index 6f96a47..21df68f 100644
--- a/sip/address/SipURI.go
+++ b/sip/address/SipURI.go
@@ -2,6 +2,8 @@ package address
 
 import (
 	"container/list"
+
+	"github.com/use-go/gosips/core"
 )
 
 /**
@@ -100,10 +102,8 @@ type SipURI interface {
 	 *
 	 * @param name - a String specifying the parameter name
 	 * @param value - a String specifying the parameter value
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the parameter name or value.
 	 */
-	SetParameter(name, value string) (ParseException error)
+	SetParameter(name, value string)
 
 	/**
 	 * Returns an Iterator over the names (Strings) of all parameters present
@@ -128,10 +128,8 @@ type SipURI interface {
 	 * '@' sign make up the user-info.
 	 *
 	 * @param user - the new String value of the user.
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the user value.
 	 */
-	SetUser(user string) (ParseException error)
+	SetUser(user string)
 
 	/**
 	 * Returns the user part of this SipURI.
@@ -149,10 +147,8 @@ type SipURI interface {
 	 * the @ sign make up the user-info.
 	 *
 	 * @param userPassword - the new String value of the user password
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the userPassword value.
 	 */
-	SetUserPassword(userPassword string) (ParseException error)
+	SetUserPassword(userPassword string)
 
 	/**
 	 * Gets user password of SipURI, or null if it is not set.
@@ -183,10 +179,8 @@ type SipURI interface {
 	 * parameter.
 	 *
 	 * @return host - the new interger value of the host of this SipURI
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the host value.
 	 */
-	SetHost(host string) (ParseException error)
+	SetHost(host *core.Host)
 
 	/**
 	 * Returns the host part of this SipURI.
@@ -237,10 +231,8 @@ type SipURI interface {
 	 *
 	 * @param name - a String specifying the header name
 	 * @param value - a String specifying the header value
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the name or value parameters.
 	 */
-	SetHeader(name, value string) (ParseException error)
+	SetHeader(name, value string)
 
 	/**
 	 * Returns an Iterator over the String names of all headers present
@@ -248,7 +240,7 @@ type SipURI interface {
 	 *
 	 * @return an Iterator over all the header names
 	 */
-	GetHeaderNames() *list.List //Iterator
+	GetHeaderNames() *core.NameValueList
 
 	//Param Covenience methods
 
@@ -307,10 +299,8 @@ type SipURI interface {
 	 * equivalent to setParameter("method", method).
 	 *
 	 * @param  method - new value String value of the method parameter
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the method value.
 	 */
-	SetMethodParam(method string) (ParseException error)
+	SetMethodParam(method string)
 
 	/**
 	 * Sets the value of the user parameter. The user URI parameter exists to
@@ -318,10 +308,8 @@ type SipURI interface {
 	 * telephone numbers.  This is equivalent to setParameter("user", user).
 	 *
 	 * @param  userParam - new value String value of the method parameter
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the userParam value.
 	 */
-	SetUserParam(userParam string) (ParseException error)
+	SetUserParam(userParam string)
 
 	/**
 	 * Returns the value of the <code>userParam</code>, or null if this is not
diff --git a/sip/address/TelURL.go b/sip/address/TelURL.go
index 232f21a..a0e5a15 100644
--- a/sip/address/TelURL.go
+++ b/sip/address/TelURL.go
@@ -101,10 +101,8 @@ type TelURL interface {
 	 * when the local entity should send to the phone line.
 	 *
 	 * @param postDial - new value of the <code>postDial</code> parameter
-	 * @throws ParseException  which signals that an error has been reached
-	 * unexpectedly while parsing the postDial value.
 	 */
-	SetPostDial(postDial string) (ParseException error)
+	SetPostDial(postDial string)
 
 	/**
 	 * Returns the value of the <code>postDial</code> parameter, or null if it
@@ -120,10 +118,8 @@ type TelURL interface {
 	 * argument should not contain the "+" associated with telephone numbers.
 	 *
 	 * @param phoneNumber - new value of the <code>phoneNumber</code> parameter
-	 * @throws ParseException  which signals that an error has been reached
-	 * unexpectedly while parsing the phoneNumber value.
 	 */
-	SetPhoneNumber(phoneNumber string) (ParseException error)
+	SetPhoneNumber(phoneNumber string)
 
 	/**
 	 * Returns the value of the <code>phoneNumber</code> parameter. This method
@@ -139,10 +135,8 @@ type TelURL interface {
 	 *
 	 * @param isdnSubAddress - new value of the <code>isdnSubAddress</code>
 	 * parameter
-	 * @throws ParseException which signals that an error has been reached
-	 * unexpectedly while parsing the isdnSubAddress value.
 	 */
-	SetIsdnSubAddress(isdnSubAddress string) (ParseException error)
+	SetIsdnSubAddress(isdnSubAddress string)
 
 	/**
 	 * Returns the value of the <code>isdnSubAddress</code> parameter, or null
-- 
2.43.0


From 8c84df9f7f013b09893b10629a3d9403154d8436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:03 +0000
Subject: [PATCH 138/152] fix: the magic cookie counts only at the start of a
 branch

---
 sip/message/SIPMessage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index 10a2ab4..bd185ee 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -835,7 +835,7 @@ func (this *SIPMessage) GetTransactionId() string {
 	// the transaction. BranchId is not case sensitive.
 	// Branch Id prefix is not case sensitive.
 	if topVia != nil && topVia.GetBranch() != "" &&
-		strings.Contains(strings.ToUpper(topVia.GetBranch()),
+		strings.HasPrefix(strings.ToUpper(topVia.GetBranch()),
 			strings.ToUpper(header.SIPConstants_BRANCH_MAGIC_COOKIE)) {
 		// Bis 09 compatible branch assignment algorithm.
 		// implies that the branch id can be used as a transaction
-- 
2.43.0


From b0d64af75d5b83418a59baa3f6cc8b9e4783366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:35 +0000
Subject: [PATCH 139/152] fix: URIImpl.IsSipURI goes by the scheme

---
 sip/address/URIImpl.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sip/address/URIImpl.go b/sip/address/URIImpl.go
index 4cf90c8..90a2b0c 100644
--- a/sip/address/URIImpl.go
+++ b/sip/address/URIImpl.go
@@ -63,7 +63,5 @@ func (this *URIImpl) GetScheme() string {
  * @return true if the scheme is "sip" or "sips", false otherwise.
  */
 func (this *URIImpl) IsSipURI() bool {
-	var uri URI = this
-	_, ok := uri.(SipURI)
-	return ok
+	return strings.EqualFold(this.scheme, "sip") || strings.EqualFold(this.scheme, "sips")
 }
-- 
2.43.0


From 453dc91237b32d34a70df8a068fe476c6c9af657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 140/152] fix: EncodeAsBytes left out the method String takes
 from the CSeq

---
 sip/message/SIPRequest.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 83031b0..51b6848 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -429,6 +429,7 @@ func (this *SIPRequest) EncodeAsBytes() []byte {
 	var rlbytes []byte
 	if this.requestLine != nil {
 		// try {
+		this.SetRequestLineDefaults()
 		rlbytes = []byte(this.requestLine.String()) //.GetBytes("UTF-8");
 		//   } catch (UnsupportedEncodingException ex) {
 		// InternalErrorHandler.handleException(ex);
-- 
2.43.0


From 127ab98ccb74ee718593d9c4c3fc65bc5e6a6459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:04 +0000
Subject: [PATCH 141/152] fix: an empty name changed the kind of a host but not
 its name

---
 core/Host.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index 144c57d..c8e3bc8 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -138,10 +138,10 @@ func (host *Host) GetIpAddress() string {
  * @param h String to set
  */
 func (host *Host) SetHostName(hname string) {
-	host.inetAddress = nil
-	host.addressType = host.typeOf(hname)
 	// Null check bug fix sent in by jpaulo@ipb.pt
 	if hname != "" {
+		host.inetAddress = nil
+		host.addressType = host.typeOf(hname)
 		host.hostname = strings.ToLower(strings.TrimSpace(hname))
 	}
 }
@@ -150,13 +150,13 @@ func (host *Host) SetHostName(hname string) {
  *@param address is the address string to set.
  */
 func (host *Host) SetHostAddress(address string) {
-	host.inetAddress = nil
-	if host.isIPv6Address(address) {
-		host.addressType = IPV6ADDRESS
-	} else {
-		host.addressType = IPV4ADDRESS
-	}
 	if address != "" {
+		host.inetAddress = nil
+		if host.isIPv6Address(address) {
+			host.addressType = IPV6ADDRESS
+		} else {
+			host.addressType = IPV4ADDRESS
+		}
 		host.hostname = strings.TrimSpace(address)
 	}
 }
-- 
2.43.0


From e2ea64d72a62468f70acff92fe8a1b1602da0ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:09 +0000
Subject: [PATCH 142/152] fix: an IPv6 reference had no inet address

---
 core/Host.go     | 6 +++++-
 core/HostPort.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/Host.go b/core/Host.go
index c8e3bc8..d7badd3 100644
--- a/core/Host.go
+++ b/core/Host.go
@@ -198,7 +198,11 @@ func (host *Host) GetInetAddress() net.IP {
 	if host.inetAddress != nil {
 		return host.inetAddress
 	}
-	host.inetAddress = net.ParseIP(host.hostname)
+	name := host.hostname
+	if host.isIPv6Reference(name) {
+		name = name[1 : len(name)-1]
+	}
+	host.inetAddress = net.ParseIP(name)
 	return host.inetAddress
 
 }
diff --git a/core/HostPort.go b/core/HostPort.go
index 248bb63..9320fe4 100644
--- a/core/HostPort.go
+++ b/core/HostPort.go
@@ -117,7 +117,7 @@ func (hostPort *HostPort) GetInetAddress() net.IP {
 	if hostPort.host == nil {
 		return nil
 	}
-	return net.ParseIP(hostPort.host.GetHostName())
+	return hostPort.host.GetInetAddress()
 }
 
 func (hostPort *HostPort) Clone() interface{} {
-- 
2.43.0


From 880c5e46c36a9512d234e570366d880c629a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 143/152] fix: a data race at the first use of RTP headers

---
 rtp/rtp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rtp/rtp.go b/rtp/rtp.go
index 50a6a17..de273be 100644
--- a/rtp/rtp.go
+++ b/rtp/rtp.go
@@ -87,6 +87,11 @@ var (
 	bigEndian = int(-1)
 )
 
+// the byte order is known before any goroutine asks for it
+func init() {
+	CheckEndian()
+}
+
 func CheckEndian() {
 	if bigEndian == -1 {
 		var i int = 0x1
-- 
2.43.0


From 5ceb5e98cd013d6d85fea0cfd40dceeb3b6da8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:48 +0000
Subject: [PATCH 144/152] fix: IPv4 addresses in their 16-byte form counted as
 IPv6

---
 rtp/ipaddress.go        | 2 +-
 rtp/transmissioninfo.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rtp/ipaddress.go b/rtp/ipaddress.go
index 94ef77f..c5327e7 100644
--- a/rtp/ipaddress.go
+++ b/rtp/ipaddress.go
@@ -43,7 +43,7 @@ func (this *IPAddress) GetPort() uint16 {
 
 /////////////////////////////////
 func (this *IPAddress) GetAddressType() AddressType {
-	if len(this.ip) == 4 {
+	if this.ip.To4() != nil {
 		return IPv4AddressType
 	} else {
 		return IPv6AddressType
diff --git a/rtp/transmissioninfo.go b/rtp/transmissioninfo.go
index c515ab0..82f0a4b 100644
--- a/rtp/transmissioninfo.go
+++ b/rtp/transmissioninfo.go
@@ -28,7 +28,7 @@ type TransmissionInfo struct {
 
 func NewTransmissionInfo(iplist []net.IP, rtpsock, rtcpsock int) *TransmissionInfo {
 	this := &TransmissionInfo{}
-	if len(iplist[0]) == 4 {
+	if iplist[0].To4() != nil {
 		this.protocol = IPv4UDPProto
 	} else {
 		this.protocol = IPv6UDPProto
-- 
2.43.0


From db772351dc59903aad38bdba3357205c2f6a6615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 145/152] fix: reading the empty value of an extension header
 wrote to it

---
 sip/header/ExtensionImpl.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/sip/header/ExtensionImpl.go b/sip/header/ExtensionImpl.go
index b4284a1..06e9fc1 100644
--- a/sip/header/ExtensionImpl.go
+++ b/sip/header/ExtensionImpl.go
@@ -2,7 +2,6 @@ package header
 
 import (
 	"github.com/use-go/gosips/core"
-	"strings"
 )
 
 /**
@@ -49,19 +48,7 @@ func (this *Extension) GetValue() string {
 *@return the value of the extension header.
  */
 func (this *Extension) GetHeaderValue() string {
-	if this.value != "" {
-		return this.value
-	} else {
-		var encodedHdr string
-		encodedHdr = this.String()
-		buffer := []byte(encodedHdr)
-		for len(buffer) > 0 && buffer[0] != ':' {
-			buffer = buffer[1:]
-		}
-		buffer = buffer[1:]
-		this.value = strings.TrimSpace(string(buffer))
-		return this.value
-	}
+	return this.value
 }
 
 /** Return the canonical encoding of this header.
-- 
2.43.0


From a96f642ff4b87a7ae50c3d0e919cffcae503ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 146/152] fix: the log file was opened for reading only and
 never created, so no message was logged

---
 core/LogWriter.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/LogWriter.go b/core/LogWriter.go
index 06ef7ad..0e1ac45 100644
--- a/core/LogWriter.go
+++ b/core/LogWriter.go
@@ -57,7 +57,7 @@ func (logWriter *LogWriter) SetLogFileName(name string) {
 
 func (logWriter *LogWriter) LogMessageToFile(message, logFileName string) {
 	var err error
-	logWriter.printWriter, err = os.OpenFile(logFileName, os.O_APPEND, 0)
+	logWriter.printWriter, err = os.OpenFile(logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in LogMessageToFile")
 		return
@@ -77,7 +77,7 @@ func (logWriter *LogWriter) checkLogFile() {
 	}
 
 	var err error
-	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND, 0)
+	logWriter.printWriter, err = os.OpenFile(logWriter.logFileName, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
 	if err != nil {
 		println("Can't open file in checkLogFile")
 		return
-- 
2.43.0


From 41b59e82de0391e4446c7cbc8bf8b91b7322b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:41 +0000
Subject: [PATCH 147/152] fix: squeezing the white space out of a text mangled
 its non-ASCII characters

---
 sip/message/Utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sip/message/Utils.go b/sip/message/Utils.go
index 92306ad..1f288da 100644
--- a/sip/message/Utils.go
+++ b/sip/message/Utils.go
@@ -57,7 +57,7 @@ func ReduceString(input string) string {
 		if newString[i] == ' ' || newString[i] == '\t' {
 			continue
 		} else {
-			retval += string(newString[i])
+			retval += newString[i : i+1]
 		}
 	}
 	return retval
-- 
2.43.0


From 1eb00b010ae23d6d45114394d93bb342bc395f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:12 +0000
Subject: [PATCH 148/152] fix: the body of a message parsed from a string was
 not reported as a string

---
 sip/parser/StringMsgParser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sip/parser/StringMsgParser.go b/sip/parser/StringMsgParser.go
index 3831e94..09afe01 100644
--- a/sip/parser/StringMsgParser.go
+++ b/sip/parser/StringMsgParser.go
@@ -241,7 +241,9 @@ func (this *StringMsgParser) ParseSIPMessageFromByte(msgBuffer []byte) (message.
  */
 
 func (this *StringMsgParser) ParseSIPMessage(sipMessage string) (message.Message, error) {
-	return this.ParseSIPMessageFromByte([]byte(sipMessage))
+	sipmsg, err := this.ParseSIPMessageFromByte([]byte(sipMessage))
+	this.bodyIsString = true
+	return sipmsg, err
 }
 
 /** This is called repeatedly by parseSIPMessage to parse
-- 
2.43.0


From 956f99e48e5791a792b392437d349c3879d530e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:27 +0000
Subject: [PATCH 149/152] fix: messages of different dialogs or transactions
 could get one identifier

---
 sip/message/SIPMessage.go  | 14 ++++++++------
 sip/message/SIPRequest.go  | 16 ++++++++--------
 sip/message/SIPResponse.go | 16 ++++++++--------
 3 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/sip/message/SIPMessage.go b/sip/message/SIPMessage.go
index bd185ee..810e8c2 100644
--- a/sip/message/SIPMessage.go
+++ b/sip/message/SIPMessage.go
@@ -844,22 +844,24 @@ func (this *SIPMessage) GetTransactionId() string {
 	} else {
 		// Old style client so construct the transaction identifier
 		// from various fields of the request.
+		// A new line, which cannot be in a field, keeps them apart.
 		var retval bytes.Buffer
 		from := this.fromHeader
 		to := this.toHeader
 		hpFrom := from.GetUserAtHostPort()
-		retval.WriteString(hpFrom + ":")
+		retval.WriteString(hpFrom + core.SIPSeparatorNames_NEWLINE)
 		if from.HasTag() {
-			retval.WriteString(from.GetTag() + ":")
+			retval.WriteString(from.GetTag())
 		}
+		retval.WriteString(core.SIPSeparatorNames_NEWLINE)
 		hpTo := to.GetUserAtHostPort()
-		retval.WriteString(hpTo + ":")
+		retval.WriteString(hpTo + core.SIPSeparatorNames_NEWLINE)
 		cid := this.callIdHeader.GetCallId()
-		retval.WriteString(cid + ":")
+		retval.WriteString(cid + core.SIPSeparatorNames_NEWLINE)
 		retval.WriteString(strconv.Itoa(this.cSeqHeader.GetSequenceNumber()))
-		retval.WriteString(":" + this.cSeqHeader.GetMethod())
+		retval.WriteString(core.SIPSeparatorNames_NEWLINE + this.cSeqHeader.GetMethod())
 		if topVia != nil {
-			retval.WriteString(":" + topVia.GetSentBy().String())
+			retval.WriteString(core.SIPSeparatorNames_NEWLINE + topVia.GetSentBy().String())
 			if !topVia.GetSentBy().HasPort() {
 				retval.WriteString(":5060")
 			}
diff --git a/sip/message/SIPRequest.go b/sip/message/SIPRequest.go
index 51b6848..afd11f7 100644
--- a/sip/message/SIPRequest.go
+++ b/sip/message/SIPRequest.go
@@ -351,26 +351,26 @@ func (this *SIPRequest) GetDialogId(isServer bool) string {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if to.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(to.GetTag())
 		}
 	} else {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if to.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(to.GetTag())
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 	}
@@ -390,26 +390,26 @@ func (this *SIPRequest) GetDialogId2(isServer bool, toTag string) string {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if toTag != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(toTag)
 		}
 	} else {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if toTag != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(toTag)
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 	}
diff --git a/sip/message/SIPResponse.go b/sip/message/SIPResponse.go
index d7d41f5..d0493ae 100644
--- a/sip/message/SIPResponse.go
+++ b/sip/message/SIPResponse.go
@@ -491,26 +491,26 @@ func (this *SIPResponse) GetDialogId(isServer bool) string {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if to.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(to.GetTag())
 		}
 	} else {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if to.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(to.GetTag())
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 	}
@@ -527,26 +527,26 @@ func (this *SIPResponse) GetDialogId2(isServer bool, toTag string) string {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if toTag != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(toTag)
 		}
 	} else {
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(to.GetUserAtHostPort())
 		if toTag != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(toTag)
 		}
 		retval.WriteString(core.SIPSeparatorNames_COLON)
 		retval.WriteString(from.GetUserAtHostPort())
 		if from.GetTag() != "" {
-			retval.WriteString(core.SIPSeparatorNames_COLON)
+			retval.WriteString(core.SIPSeparatorNames_SEMICOLON)
 			retval.WriteString(from.GetTag())
 		}
 	}
-- 
2.43.0


From 45ab0f007b9edd6cefcb248cafc77851585ed77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:23 +0000
Subject: [PATCH 150/152] fix: an unquoted display name with a comma,
 semicolon, quote or backslash is malformed

---
 sip/parser/AddressParser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sip/parser/AddressParser.go b/sip/parser/AddressParser.go
index 0c7a52e..f69297e 100644
--- a/sip/parser/AddressParser.go
+++ b/sip/parser/AddressParser.go
@@ -76,6 +76,9 @@ func (this *AddressParser) NameAddr() (addr *address.AddressImpl, ParseException
 			if name, ParseException = lexer.GetNextTokenByDelim('<'); ParseException != nil {
 				return nil, ParseException
 			}
+			if strings.ContainsAny(name, ",;\"\\") {
+				return nil, this.CreateParseException("display name")
+			}
 			addr.SetDisplayName(strings.TrimSpace(name))
 		}
 		if _, ParseException = lexer.Match('<'); ParseException != nil {
-- 
2.43.0


From 0a0aa06bab44d727720f392ec6904721c95536c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:44 +0000
Subject: [PATCH 151/152] fix: Do not time out new collision entries when the
 delay exceeds the current time

---
 rtp/collisionlist.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rtp/collisionlist.go b/rtp/collisionlist.go
index cf24396..5292ec7 100644
--- a/rtp/collisionlist.go
+++ b/rtp/collisionlist.go
@@ -66,6 +66,10 @@ func (this *CollisionList) HasAddress(addr Address) bool {
  */
 
 func (this *CollisionList) Timeout(currenttime *RTPTime, timeoutdelay *RTPTime) {
+	if currenttime.LT(timeoutdelay) { // no entry can be older than the beginning of time
+		return
+	}
+
 	checktime := currenttime.Clone()
 	checktime.Sub(timeoutdelay)
 
-- 
2.43.0


From 85496bc8c4b7cf0e29a13e33dc9536b691c684f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 152/152] fix: Accept extension methods that are spelled like a
 keyword of the lexer

---
 sip/parser/SIPParser.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sip/parser/SIPParser.go b/sip/parser/SIPParser.go
index 1b70ee3..8edc24c 100644
--- a/sip/parser/SIPParser.go
+++ b/sip/parser/SIPParser.go
@@ -179,15 +179,8 @@ func (this *SIPParser) Method() (s string, ParseException error) {
 	}
 
 	token := tokens[0]
-	if token.GetTokenType() == TokenTypes_INVITE ||
-		token.GetTokenType() == TokenTypes_ACK ||
-		token.GetTokenType() == TokenTypes_OPTIONS ||
-		token.GetTokenType() == TokenTypes_BYE ||
-		token.GetTokenType() == TokenTypes_REGISTER ||
-		token.GetTokenType() == TokenTypes_CANCEL ||
-		token.GetTokenType() == TokenTypes_SUBSCRIBE ||
-		token.GetTokenType() == TokenTypes_NOTIFY ||
-		token.GetTokenType() == TokenTypes_ID {
+	// any token is a method, a word the lexer knows as well
+	if token.GetTokenType() >= TokenTypes_START && token.GetTokenType() < TokenTypes_END {
 		this.GetLexer().Consume()
 		return token.GetTokenValue(), nil
 	} else {
-- 
2.43.0

