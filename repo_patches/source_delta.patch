From d4b28ace9f01d92abbb3cd34059f7e6d5dd71308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 01/29] fix: read strings, payloads and integers in full

A single Read may return fewer bytes than asked for, which truncated the
value and lost the position in the stream.
---
 mqtt/packets/primitives/io.go     | 2 +-
 mqtt/packets/primitives/string.go | 2 +-
 mqtt/packets/primitives/varint.go | 2 +-
 mqtt/packets/publish.go           | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mqtt/packets/primitives/io.go b/mqtt/packets/primitives/io.go
index d9b762d..0d7537d 100644
--- a/mqtt/packets/primitives/io.go
+++ b/mqtt/packets/primitives/io.go
@@ -44,6 +44,6 @@ func WriteByte(b byte, w io.Writer) error {
 
 //go:inline
 func ReadByte(r io.Reader) (b byte, err error) {
-	_, err = r.Read(unsafe.Slice(&b, 1))
+	_, err = io.ReadFull(r, unsafe.Slice(&b, 1))
 	return
 }
diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index fde2b7b..eda9712 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -74,7 +74,7 @@ func (p *PrimitiveString) ReadFrom(r io.Reader) (n int64, err error) {
 
 	// Read the string
 	var count int
-	if count, err = r.Read(buf); err != nil {
+	if count, err = io.ReadFull(r, buf); err != nil {
 		return 0, err
 	} else {
 		n += int64(count)
diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index 6a00e6d..e104672 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -92,7 +92,7 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 
 	for {
 		var b [1]byte
-		if _, err = r.Read(b[:]); err != nil {
+		if _, err = io.ReadFull(r, b[:]); err != nil {
 			return 0, err
 		}
 		n++
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 6b7c45a..06ba5b5 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -187,7 +187,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	payloadLen := int64(p.Header.Remaining) - n + offset
 	if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
-		if count, err := r.Read(p.Payload); err != nil {
+		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
 		} else {
 			n += int64(count)
-- 
2.43.0


From ca7f4a0efbbe726eb75385750d6ab834f7e32a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 02/29] fix: refuse to encode strings longer than 65535 bytes

The length prefix was truncated to 16 bits while every byte was written,
which corrupted the packet.
---
 mqtt/packets/primitives/string.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index eda9712..a626232 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -26,12 +26,19 @@ package primitives
 
 import (
 	"encoding/binary"
+	"errors"
 	"io"
+	"math"
 )
 
 type PrimitiveString string
 
 func (p *PrimitiveString) WriteTo(w io.Writer) (n int64, err error) {
+	// The length prefix holds 16 bits
+	if len(*p) > math.MaxUint16 {
+		return 0, errors.New("string is too long to be encoded")
+	}
+
 	// Write the length of the string
 	if err = binary.Write(w, binary.BigEndian, uint16(len(*p))); err != nil {
 		return 0, err
-- 
2.43.0


From 8e2fb85683c8f7f73858b131e6df2702c79126ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:05 +0000
Subject: [PATCH 03/29] fix: bound variable byte integers to four bytes

A fifth byte was shifted past the end of the value, so integers of any
length were accepted, and values beyond the limit were encoded in five
bytes.
---
 mqtt/packets/primitives/varint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/varint.go b/mqtt/packets/primitives/varint.go
index e104672..151e507 100644
--- a/mqtt/packets/primitives/varint.go
+++ b/mqtt/packets/primitives/varint.go
@@ -53,6 +53,10 @@ func (v *VariableByteInt) Length(property bool) (result VariableByteInt) {
 }
 
 func (v *VariableByteInt) WriteTo(w io.Writer) (int64, error) {
+	if *v > 268_435_455 {
+		return 0, errors.New("value is too large for a variable byte integer")
+	}
+
 	result := make([]byte, 0, 4)
 	tmp := uint32(*v)
 
@@ -98,7 +102,8 @@ func (v *VariableByteInt) ReadFrom(r io.Reader) (n int64, err error) {
 		n++
 
 		val |= uint32(b[0]&127) << mul
-		if val > 268_435_455 {
+		if mul > 21 {
+			// SPEC: The maximum number of bytes in the Variable Byte Integer field is four.
 			return 0, errors.New("malformed variable byte integer")
 		}
 
-- 
2.43.0


From 1cab25d7ba6ec0c532d54822f627c5fd6b822742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 04/29] fix: compute the remaining length of CONNECT from what
 is written

The lengths of the two property lengths were taken to be one byte, and the
will payload format indicator was not counted.
---
 mqtt/packets/connect.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c83d947..394c29e 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -73,7 +73,7 @@ type Connect struct {
 
 func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	var flags primitives.PrimitiveByte
-	variableHeaderLen := primitives.VariableByteInt(11)
+	variableHeaderLen := primitives.VariableByteInt(10)
 	propertiesLen := primitives.VariableByteInt(0)
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
@@ -112,7 +112,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += c.AuthenticationData.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Set flags bits
 	if c.CleanSession {
@@ -145,9 +145,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		flags |= primitives.PrimitiveByte(c.WillQos) << 3
 
 		// The will and will topic are actually a part of the payload
-		payloadLen += 1 + c.Will.Length(false) // Includes byte for payload property indicator
+		payloadLen += c.Will.Length(false)
 		payloadLen += c.WillTopic.Length(false)
 
+		// The will payload format indicator is always present
+		willPropertiesLen += 2
+
 		if c.WillDelayInterval > 0 {
 			willPropertiesLen += c.WillDelayInterval.Length(true)
 		}
@@ -171,9 +174,9 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		for k, v := range c.WillUserProperties {
 			willPropertiesLen += 1 + k.Length(false) + v.Length(false)
 		}
-	}
 
-	payloadLen += willPropertiesLen
+		payloadLen += willPropertiesLen.Length(false) + willPropertiesLen
+	}
 
 	/* Fixed header begin */
 	fh := FixedHeader{
-- 
2.43.0


From 65b789e9f82b35a9e3585b7673a6675beb177e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:21 +0000
Subject: [PATCH 05/29] fix: use the assigned property identifiers in CONNECT

---
 mqtt/packets/connect.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 394c29e..c9ec9a8 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -241,7 +241,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.TopicAliasMaximum > 0 {
-		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x12, w); err != nil {
+		if count, err = c.TopicAliasMaximum.WriteToAsProperty(0x22, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -255,7 +255,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	}
 
 	if c.RequestProblemInformation > 0 {
-		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x19, w); err != nil {
+		if count, err = c.RequestProblemInformation.WriteToAsProperty(0x17, w); err != nil {
 			return 0, err
 		}
 		n += count
@@ -323,7 +323,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 		// Will message expiry interval
 		if c.WillMessageExpiryInterval > 0 {
-			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x12, w); err != nil {
+			if count, err = c.WillMessageExpiryInterval.WriteToAsProperty(0x02, w); err != nil {
 				return 0, err
 			}
 			n += count
-- 
2.43.0


From 0cd5e93573b333c6afe86e7cabea1c7d18c754ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 06/29] fix: judge shared subscriptions by the filter being set

SetFilter looked at the previous filter, and SetNoLocal panicked when the
filter was shorter than six characters.
---
 mqtt/packets/topic.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index c1da7b3..6f3c6d8 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -24,7 +24,11 @@
 
 package packets
 
-import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+import (
+	"strings"
+
+	"github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"
+)
 
 type Topic struct {
 	filter  primitives.PrimitiveString
@@ -44,7 +48,7 @@ func (t *Topic) Filter() string {
 }
 
 func (t *Topic) SetFilter(filter string) *Topic {
-	if len(t.filter) >= 6 && t.filter[:6] == "$share" {
+	if strings.HasPrefix(filter, "$share/") {
 		// Unset no local option
 		// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
 		t.SetNoLocal(false)
@@ -59,7 +63,7 @@ func (t *Topic) SetNoLocal(on bool) *Topic {
 
 	// Leave bit unset if this is a shared subscription
 	// SPEC: It is a Protocol Error to set the No Local bit to 1 on a Shared Subscription [MQTT-3.8.3-4]
-	if on && t.filter[:6] != "$share" {
+	if on && !strings.HasPrefix(string(t.filter), "$share/") {
 		t.options |= primitives.PrimitiveByte(1 << 2)
 	}
 	return t
-- 
2.43.0


From 971c11e3f864f631edb0599161c0c6fbd18dfd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 07/29] fix: compare the remaining levels of topic and filter

Filters that continued after a single-level wildcard matched topics that
had no such level, or read past the end of the topic; "a/#" did not match
"a"; and equal lengths hid levels that were left over.
---
 mqtt/client.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 03339fe..0893a51 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1155,17 +1155,13 @@ func (c *Client) matchTopic(topic, filter string) bool {
 				topicPos++
 			}
 
-			if topicPos == len(topic) {
-				// No levels left. Return true.
-				return true
-			}
-
 			// Advance the filter pos and continue at the beginning of the loop
 			filterPos++
 			continue
-		} else if filterPos >= len(topic) {
-			// The length of the filter exceeded the length of the topic. No way these can match.
-			return false
+		} else if topicPos >= len(topic) {
+			// The length of the filter exceeded the length of the topic. These can only match if the filter continues
+			// with the multi-level wildcard, which includes the parent level.
+			return filter[filterPos:] == "/#"
 		} else if filter[filterPos] != topic[topicPos] {
 			return false
 		}
@@ -1175,7 +1171,7 @@ func (c *Client) matchTopic(topic, filter string) bool {
 	}
 
 	// Check if there is more characters in the topic that went unprocessed
-	if len(filter) != len(topic) && topicPos < len(topic) {
+	if topicPos < len(topic) {
 		// Topic couldn't have matched the filter
 		return false
 	}
-- 
2.43.0


From 1301b95a4e8d2e4b6ddcf1cb4004e94f5157346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:04 +0000
Subject: [PATCH 08/29] fix: route messages of shared subscriptions and of $
 topics

The share name was compared with the topic, so nothing ever matched, and
filters starting with a wildcard received topics starting with $.
---
 mqtt/client.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 0893a51..e05fb6f 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -32,6 +32,7 @@ import (
 	"math/rand"
 	"net"
 	"os"
+	"strings"
 	"sync"
 	"time"
 
@@ -1121,7 +1122,19 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
-	// TODO: Support matching for shared topics
+	// SPEC: A Shared Subscription's Topic Filter has the form $share/{ShareName}/{filter}.
+	if strings.HasPrefix(filter, "$share/") {
+		if parts := strings.SplitN(filter, "/", 3); len(parts) == 3 {
+			filter = parts[2]
+		}
+	}
+
+	// SPEC: The Server MUST NOT match Topic Filters starting with a wildcard character (# or +) with Topic Names
+	//       beginning with a $ character [MQTT-4.7.2-1].
+	if strings.HasPrefix(topic, "$") && (strings.HasPrefix(filter, "#") || strings.HasPrefix(filter, "+")) {
+		return false
+	}
+
 	var filterPos int
 	var topicPos int
 	for filterPos < len(filter) {
-- 
2.43.0


From c903b3bbd948afbb34b4033feaf3e6697231a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 09/29] fix: reject malformed packets and accept short ones

Property loops ran on with a stale count after an unknown identifier or past
their end, truncated packets were taken for complete ones, and QoS 3 and
packet identifier 0 were accepted. DISCONNECT and AUTH without a variable
header consumed a byte of the next packet.
---
 mqtt/packets/auth.go       | 17 +++++++++++++----
 mqtt/packets/connack.go    | 15 +++++++--------
 mqtt/packets/disconnect.go | 13 +++++++++++++
 mqtt/packets/puback.go     |  7 +++++++
 mqtt/packets/publish.go    | 30 +++++++++++++++++++++++++-----
 mqtt/packets/suback.go     | 14 +++++++-------
 mqtt/packets/unsuback.go   | 14 +++++++-------
 7 files changed, 79 insertions(+), 31 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index fc925da..17f2bef 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -43,6 +43,12 @@ type Auth struct {
 func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.Header.Remaining == 0 {
+		return
+	}
+
 	// Read the reason code
 	if _, err = a.AuthenticateReasonCode.ReadFrom(r); err != nil {
 		return
@@ -60,10 +66,6 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(a.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -102,11 +104,18 @@ func (a *Auth) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			a.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index 451df38..daf39a3 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -68,10 +68,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 
 	c.SessionPresent = (c.Flags & 0x01) != 0
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	if count, err = c.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
 	}
@@ -90,10 +86,6 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(c.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 
 	for remaining > 0 {
@@ -185,11 +177,18 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.AuthenticationData.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	n += int64(c.Header.Remaining)
 	/* Properties end */
 	return
diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index 5d8f426..edeccf9 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -43,6 +43,12 @@ type Disconnect struct {
 func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 	var count int64
 
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Normal disconnecton) and there
+	//       are no Properties. In this case the DISCONNECT has a Remaining Length of 0.
+	if d.Header.Remaining == 0 {
+		return
+	}
+
 	/* Variable header begin */
 	if count, err = d.ReasonCode.ReadFrom(r); err != nil {
 		return 0, err
@@ -98,10 +104,17 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = d.ServerReference.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 	/* Variable header end */
 
diff --git a/mqtt/packets/puback.go b/mqtt/packets/puback.go
index 0ba20de..102ea7b 100644
--- a/mqtt/packets/puback.go
+++ b/mqtt/packets/puback.go
@@ -133,11 +133,18 @@ func (p *Puback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			p.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	return
 }
 
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 06ba5b5..57f6554 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -103,6 +103,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	p.QoS = QoS(p.Header.GetFlags()>>1) & 0x03
 	p.Duplicate = ((p.Header.GetFlags() >> 3) & 0x01) != 0
 
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	if p.QoS > QoS2 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Read variable header
 	if count, err = p.Topic.ReadFrom(r); err != nil {
 		return 0, err
@@ -114,6 +119,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return 0, err
 		}
 		n += count
+
+		// SPEC: It MUST be non-zero [MQTT-2.2.1-3].
+		if p.PacketIdentifier == 0 {
+			return 0, ErrControlPacketIsMalformed
+		}
 	}
 
 	/* Properties start */
@@ -123,10 +133,6 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(p.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -138,6 +144,11 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 		remaining--
 
 		switch identifier {
+		case 0x01: // Payload format indicator. Not exposed by this struct.
+			var indicator primitives.PrimitiveByte
+			if count, err = indicator.ReadFrom(r); err != nil {
+				return 0, err
+			}
 		case 0x02: // Message expiry interval
 			if count, err = p.MessageExpiryInterval.ReadFrom(r); err != nil {
 				return 0, err
@@ -177,15 +188,24 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = p.ContentType.ReadFrom(r); err != nil {
 				return 0, err
 			}
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
+
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
 	/* Properties end */
 
 	// Read the payload
 	payloadLen := int64(p.Header.Remaining) - n + offset
-	if payloadLen > 0 {
+	if payloadLen < 0 {
+		return 0, ErrControlPacketIsMalformed
+	} else if payloadLen > 0 {
 		p.Payload = make([]byte, payloadLen)
 		if count, err := io.ReadFull(r, p.Payload); err != nil {
 			return 0, err
diff --git a/mqtt/packets/suback.go b/mqtt/packets/suback.go
index 8067620..34ffd0f 100644
--- a/mqtt/packets/suback.go
+++ b/mqtt/packets/suback.go
@@ -50,9 +50,6 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, err
 	}
 
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
 	/* Variable header end */
 
 	/* Properties header start */
@@ -62,10 +59,6 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(s.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -96,11 +89,18 @@ func (s *Suback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			s.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(s.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
diff --git a/mqtt/packets/unsuback.go b/mqtt/packets/unsuback.go
index 4542153..371af3b 100644
--- a/mqtt/packets/unsuback.go
+++ b/mqtt/packets/unsuback.go
@@ -50,9 +50,6 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 		return 0, err
 	}
 
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
 	/* Variable header end */
 
 	/* Properties header start */
@@ -62,10 +59,6 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 	}
 	n += count
 
-	if n >= int64(u.Header.Remaining) {
-		return
-	}
-
 	remaining := int64(propertiesLen)
 	for remaining > 0 {
 		// Read the identifier byte
@@ -96,11 +89,18 @@ func (u *Unsuback) ReadFrom(r io.Reader) (n int64, err error) {
 			}
 			count += count2
 			u.UserProperties[k] = v
+		default:
+			return 0, ErrControlPacketIsMalformed
 		}
 		n += count
 		remaining -= count
 	}
 
+	// The properties must end where the property length says
+	if remaining < 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Fail if this is the end of the control packet
 	if n >= int64(u.Header.Remaining) {
 		return 0, ErrControlPacketIsMalformed
-- 
2.43.0


From 962be69e442d32b16102d84845bf3e4e5327bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:04 +0000
Subject: [PATCH 10/29] fix: keep one connection state and one lock order

Disconnect refused connected clients and accepted the others, the state was
read and written without synchronisation, connMutex and mutex were taken in
both orders, and the reply to an exceeded Receive Maximum locked connMutex a
second time. A connection that failed in the middle of a packet, received
malformed input or a DISCONNECT stayed in use or looked connected. A keep
alive of zero timed out at once.
---
 mqtt/client.go | 246 +++++++++++++++++++++++++++----------------------
 mqtt/errors.go |   1 +
 2 files changed, 137 insertions(+), 110 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index e05fb6f..faef309 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -34,6 +34,7 @@ import (
 	"os"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/waj334/tinygo-mqtt/mqtt/packets"
@@ -41,6 +42,7 @@ import (
 	"github.com/waj334/tinygo-mqtt/mqtt/storage"
 )
 
+// Lock order: connMutex, mutex, eventMutex.
 type Client struct {
 	conn      net.Conn
 	connMutex sync.Mutex
@@ -48,7 +50,8 @@ type Client struct {
 
 	storage storage.Storage
 
-	isConnected           bool
+	isConnected           atomic.Bool
+	closed                chan struct{}
 	keepAliveInterval     time.Duration
 	pingRespDeadline      time.Time
 	sessionExpiryInterval uint32
@@ -97,8 +100,8 @@ func NewClient(conn net.Conn) *Client {
 // QoS 1 and QoS 2. No persistence will take place if no storage implementation is set which cause message delivery
 // retry to be effectively disabled. No storage implementation is set by default.
 func (c *Client) SetStorage(storage storage.Storage) {
-	c.eventMutex.Lock()
-	defer c.eventMutex.Unlock()
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
 
 	c.storage = storage
 }
@@ -106,6 +109,9 @@ func (c *Client) SetStorage(storage storage.Storage) {
 // SetRngFn set the random number generator function that will be used to generate random packet identifiers. The
 // default is rand.Uint32.
 func (c *Client) SetRngFn(fn func() uint32) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
 	c.rngFn = fn
 }
 
@@ -210,18 +216,19 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
 	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
+	defer c.connMutex.Unlock()
+
+	// SPEC: A Client can only send the CONNECT packet once over a Network Connection [MQTT-3.1.0-2].
+	if c.isConnected.Load() {
+		return ErrClientAlreadyConnected
+	}
 
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
@@ -233,6 +240,13 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return err
 	}
 
+	// The network connection cannot be used any further if the handshake does not complete
+	defer func() {
+		if err != nil {
+			c.closeConnection()
+		}
+	}()
+
 	// Receive response header
 	header := packets.FixedHeader{}
 	if _, err = header.ReadFrom(c.conn); err != nil {
@@ -250,12 +264,10 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Receive the CONNACK response
-	if _, err = connack.ReadFrom(c.conn); err != nil {
+	if err = c.readPacket(header, connack); err != nil {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// Did the server send an error response?
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
@@ -269,6 +281,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 		return ReasonCode(connack.ReasonCode)
 	}
 
+	c.mutex.Lock()
+
 	// Handle server keep alive specification
 	if connack.ServerKeepAlive > 0 {
 		// Use the keep alive interval returned by the server
@@ -278,6 +292,8 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	} else if packet.KeepAlive > 0 {
 		// Use the keep alive interval defined in the CONNECT packet
 		c.keepAliveInterval = time.Second * time.Duration(packet.KeepAlive)
+	} else {
+		c.keepAliveInterval = 0
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
@@ -307,7 +323,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
 	// Successful connection!
-	c.isConnected = true
+	c.closed = make(chan struct{})
+	c.isConnected.Store(true)
+	c.mutex.Unlock()
 
 	// Signal CONNACK event
 	c.signal(packets.CONNACK, connack, nil)
@@ -318,7 +336,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 // IsConnected returns true if the client is currently in the connected state. Otherwise, it returns false if the client
 // is not currently connected to a MQTT server.
 func (c *Client) IsConnected() bool {
-	return c.isConnected
+	return c.isConnected.Load()
 }
 
 // Disconnect sends the DISCONNECT packet to the server. The network connection will be closed upon sending the
@@ -336,10 +354,10 @@ func (c *Client) Disconnect(ctx context.Context, publishWill bool) (err error) {
 // time. Setting a zero value for the sessionExpiryInterval parameter will cause the server to default to the value
 // specified in the CONNECT control packet.
 func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bool, sessionExpiryInterval int) (err error) {
-	c.mutex.Lock()
-	defer c.mutex.Unlock()
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
 
-	if c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -349,10 +367,6 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -382,12 +396,9 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	if err = c.conn.Close(); err != nil {
+	if err = c.closeConnection(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -395,26 +406,13 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	return nil
 }
 
+// disconnectWithReason sends the DISCONNECT packet with the reason code to the server and closes the network connection.
+// The caller must hold connMutex.
 func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.PrimitiveByte) (err error) {
-	if c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	disconnect := &packets.Disconnect{
 		ReasonCode: reason,
 	}
@@ -429,18 +427,16 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 
 	// Send the DISCONNECT packet to the server
 	if err = c.send(disconnect); err != nil {
+		c.closeConnection()
 		return err
 	}
 
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	if err = c.conn.Close(); err != nil {
+	if err = c.closeConnection(); err != nil {
 		return
 	}
-	unlockConn.Do(c.connMutex.Unlock)
-
-	c.isConnected = false
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect, nil)
@@ -455,7 +451,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -549,7 +545,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 	c.mutex.Lock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -612,7 +608,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -687,17 +683,6 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	puback := &packets.Puback{
 		PacketIdentifier: publish.PacketIdentifier,
 	}
@@ -725,17 +710,6 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 		return packets.ErrControlPacketIsMalformed
 	}
 
-	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
-	}
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
-	}
-
 	pubrec := &packets.Pubrec{
 		Puback: packets.Puback{
 			PacketIdentifier: publish.PacketIdentifier,
@@ -755,6 +729,9 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 // KeepAliveInterval returns the interval at which frequent PINGREQ packets must be sent. The server may specify a
 // different value in the CONNACK packet than what was originally specified by the CONNECT packet.
 func (c *Client) KeepAliveInterval() time.Duration {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	return c.keepAliveInterval
 }
 
@@ -765,10 +742,10 @@ func (c *Client) KeepAliveInterval() time.Duration {
 //
 //	PINGREQ packet. [MQTT-3.1.2-20]
 func (c *Client) KeepAlive() (err error) {
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
 
-	if !c.isConnected {
+	if !c.isConnected.Load() {
 		return ErrClientNotConnected
 	}
 
@@ -776,19 +753,11 @@ func (c *Client) KeepAlive() (err error) {
 	// SPEC: If the Keep Alive value is non-zero and the Server does not receive an MQTT Control Packet from the Client
 	//       within one and a half times the Keep Alive time period, it MUST close the Network Connection to the Client
 	//       as if the network had failed. [MQTT-3.1.2-22]
-	ctx, cancel := context.WithTimeout(context.Background(), time.Second*time.Duration(c.keepAliveInterval.Seconds()*1.5))
-	defer cancel()
-
 	var deadline time.Time
-	var ok bool
-	if deadline, ok = ctx.Deadline(); !ok {
-		deadline = time.Time{}
+	if interval := c.KeepAliveInterval(); interval > 0 {
+		deadline = time.Now().Add(time.Second * time.Duration(interval.Seconds()*1.5))
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -802,8 +771,6 @@ func (c *Client) KeepAlive() (err error) {
 		return err
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
-
 	// NOTE: Poll handles receiving the response and disconnecting if no response has been sent within twice the keep
 	// alive interval.
 	return
@@ -814,21 +781,20 @@ func (c *Client) KeepAlive() (err error) {
 // call to the Publish method should take place on the same goroutine that a call to Poll takes place on as this could
 // potentially cause a deadlock.
 func (c *Client) Poll(ctx context.Context) (err error) {
-	if !c.isConnected {
-		return ErrClientNotConnected
-	}
-
 	c.connMutex.Lock()
 	defer c.connMutex.Unlock()
 
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Check if current time is after the ping response deadline
 	// SPEC: If a Client does not receive a PINGRESP packet within a reasonable amount of time after it has sent a
 	//       PINGREQ, it SHOULD close the Network Connection to the Server.
-	if time.Now().After(c.pingRespDeadline) {
+	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		c.isConnected = false
-		if err := c.conn.Close(); err != nil {
+		if err := c.closeConnection(); err != nil {
 			return err
 		}
 
@@ -852,19 +818,21 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	//	return
 	//}
 
-	// Attempt to receive a control packet header
+	// Attempt to receive the first byte of a control packet header
 	header := packets.FixedHeader{}
-	if _, err = header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
+	if _, err = header.Header.ReadFrom(c.conn); errors.Is(err, os.ErrDeadlineExceeded) {
 		// No incoming data
 		return nil
 	} else if err != nil {
 		// Some other error occurred. Return it
+		c.closeConnection()
 		return
 	}
 
 	if !deadline.IsZero() {
 		// Extend I/O deadline
 		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {
+			c.closeConnection()
 			return
 		}
 	} else {
@@ -872,11 +840,17 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.conn.SetDeadline(time.Time{})
 	}
 
+	// Receive the rest of the control packet header
+	if _, err = header.Remaining.ReadFrom(c.conn); err != nil {
+		c.closeConnection()
+		return
+	}
+
 	// Read control packet
 	switch header.GetType() {
 	case packets.PUBLISH:
 		publish := &packets.Publish{Header: header}
-		if _, err = publish.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, publish); err != nil {
 			return
 		}
 
@@ -888,12 +862,15 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			//       [MQTT-3.3.4-9]. If it receives more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets where it
 			//       has not sent a PUBACK or PUBCOMP in response, the Client uses DISCONNECT with Reason Code 0x93
 			//       (Receive Maximum exceeded) as described in section 4.13 Handling errors.
+			c.mutex.Unlock()
 			if err = c.disconnectWithReason(ctx, 0x93); err != nil {
-				c.mutex.Unlock()
 				return err
 			}
-		} else {
-			// Decrement the receive quota counter
+			return ReasonCode(0x93)
+		}
+
+		// Decrement the receive quota counter
+		if publish.QoS > 0 {
 			c.receiveQuota--
 		}
 		c.mutex.Unlock()
@@ -934,7 +911,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBLISH, publish, nil)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
-		if _, err = puback.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, puback); err != nil {
 			return err
 		}
 
@@ -964,7 +941,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
-		if _, err = pubrec.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, pubrec); err != nil {
 			return err
 		}
 
@@ -1006,7 +983,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
-		if _, err = pubrel.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, pubrel); err != nil {
 			return err
 		}
 
@@ -1040,7 +1017,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
-		if _, err = pubcomp.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, pubcomp); err != nil {
 			return err
 		}
 
@@ -1070,7 +1047,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.PUBCOMP, pubcomp, nil)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
-		if _, err = suback.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, suback); err != nil {
 			return
 		}
 
@@ -1082,7 +1059,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.SUBACK, suback, nil)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
-		if _, err = unsuback.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, unsuback); err != nil {
 			return
 		}
 
@@ -1094,24 +1071,31 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		c.signal(packets.UNSUBACK, unsuback, nil)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
-		if _, err = disconnect.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, disconnect); err != nil {
 			return
 		}
 		// Close the connection
-		if err = c.conn.Close(); err != nil {
+		if err = c.closeConnection(); err != nil {
 			return
 		}
 		c.signal(packets.DISCONNECT, disconnect, nil)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
-		if _, err = auth.ReadFrom(c.conn); err != nil {
+		if err = c.readPacket(header, auth); err != nil {
 			return
 		}
 		c.signal(packets.AUTH, auth, nil)
 	case packets.PINGRESP:
+		// SPEC: The PINGRESP packet has no Variable Header and no Payload.
+		if header.Remaining != 0 {
+			c.closeConnection()
+			return packets.ErrControlPacketIsMalformed
+		}
+
 		// Extend the ping response deadline
 		c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
 	default:
+		c.closeConnection()
 		return ErrUnexpectedPacketTypeReceived
 	}
 
@@ -1193,18 +1177,60 @@ func (c *Client) matchTopic(topic, filter string) bool {
 }
 
 func (c *Client) send(w io.WriterTo) (err error) {
+	_, err = c.transmit(w)
+	return err
+}
+
+// transmit writes the control packet to the open connection. The returned count is the number of bytes that were written
+// to it. The caller must hold connMutex.
+func (c *Client) transmit(w io.WriterTo) (n int, err error) {
 	// Allocate a new buffer
 	buf := bytes.NewBuffer(make([]byte, 0, 128))
 
 	// Write to the buffer
 	if _, err = w.WriteTo(buf); err != nil {
-		return err
+		return 0, err
 	}
 
 	// Finally, write to the open connection
-	if _, err = c.conn.Write(buf.Bytes()); err != nil {
-		return err
+	if n, err = c.conn.Write(buf.Bytes()); err != nil {
+		// The connection is only usable after a failure if nothing of the control packet was written before the deadline
+		if n > 0 || !errors.Is(err, os.ErrDeadlineExceeded) {
+			c.closeConnection()
+		}
+		return n, err
 	}
 
-	return nil
+	return n, nil
+}
+
+// readPacket reads what follows the fixed header of the control packet. The connection is closed if that fails, because
+// the beginning of the next control packet is unknown then. The caller must hold connMutex.
+func (c *Client) readPacket(header packets.FixedHeader, packet io.ReaderFrom) (err error) {
+	r := &io.LimitedReader{R: c.conn, N: int64(header.Remaining)}
+	if _, err = packet.ReadFrom(r); err != nil {
+		if r.N == 0 && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)) {
+			// The control packet is shorter than its contents
+			err = packets.ErrControlPacketIsMalformed
+		}
+	} else if r.N > 0 {
+		// The control packet is longer than its contents
+		err = packets.ErrControlPacketIsMalformed
+	}
+
+	if err != nil {
+		c.closeConnection()
+	}
+	return err
+}
+
+// closeConnection closes the network connection and lets every call that waits for the server return. The caller must
+// hold connMutex.
+func (c *Client) closeConnection() error {
+	if c.isConnected.CompareAndSwap(true, false) {
+		c.mutex.Lock()
+		close(c.closed)
+		c.mutex.Unlock()
+	}
+	return c.conn.Close()
 }
diff --git a/mqtt/errors.go b/mqtt/errors.go
index b2e4b09..2732957 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -29,6 +29,7 @@ import "errors"
 var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
+	ErrClientAlreadyConnected       = errors.New("the client is already connected")
 	ErrInvalidArgument              = errors.New("invalid argument")
 )
 
-- 
2.43.0


From 205bd3d88610c38997b104e751fd5c61d3ee2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:56 +0000
Subject: [PATCH 11/29] fix: default an absent Receive Maximum to 65535

An absent value was taken for zero, which blocked every PUBLISH of QoS 1 and
2 and disconnected from servers that sent one.
---
 mqtt/client.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index faef309..7da5100 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -29,6 +29,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"math"
 	"math/rand"
 	"net"
 	"os"
@@ -297,11 +298,14 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Store receive maximum reported by the connect packet and CONNACK received from the server
+	// SPEC: If the Receive Maximum value is absent then its value defaults to 65,535.
 	c.serverReceiveMaximum = connack.ReceiveMaximum.Value()
+	if c.serverReceiveMaximum == 0 {
+		c.serverReceiveMaximum = math.MaxUint16
+	}
 
 	if packet.ReceiveMaximum == 0 {
-		// Default to that of the server
-		c.clientReceiveMaximum = c.serverReceiveMaximum
+		c.clientReceiveMaximum = math.MaxUint16
 	} else {
 		// Use the value from the connect control packet
 		c.clientReceiveMaximum = packet.ReceiveMaximum.Value()
-- 
2.43.0


From 72c0b8bfbe2acc603249c92b398cddcfdc5f96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 12/29] fix: account for unacknowledged publishes

The send quota was changed without synchronisation, and after the packet had
been sent, so that it was exceeded and wrapped around; blocked calls missed
wake-ups and ignored their context; a PUBREC with reason code 0x80 or above
was answered with PUBREL and did not unblock anybody. Packet identifiers
were zero or collided. A missing storage entry left the mutex locked, QoS 1
publishes that were received stayed in the storage for ever, publishes that
could not be sent too, and stored publishes could not be sent again.
---
 mqtt/client.go | 319 +++++++++++++++++++++++++++++++++----------------
 mqtt/errors.go |   1 +
 2 files changed, 218 insertions(+), 102 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 7da5100..434bd79 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -65,6 +65,9 @@ type Client struct {
 
 	responseChan map[int]chan any
 
+	// inFlight holds the packet identifiers of the publishes that the server has not acknowledged
+	inFlight map[uint16]struct{}
+
 	evChanIdCounter int
 	eventMutex      sync.Mutex
 
@@ -92,6 +95,7 @@ func NewClient(conn net.Conn) *Client {
 		eventChans:      make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
+		inFlight:        make(map[uint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -315,7 +319,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.sendQuota = c.serverReceiveMaximum
 	c.receiveQuota = c.clientReceiveMaximum
 
-	c.pendingSendSemaphore = make(chan struct{}) //, c.sendQuota)
+	c.pendingSendSemaphore = make(chan struct{}, 1)
 
 	// Set the ping response deadline
 	c.pingRespDeadline = time.Now().Add(c.keepAliveInterval * 2)
@@ -610,6 +614,101 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	return
 }
 
+// newPacketIdentifier returns a packet identifier that no unacknowledged control packet uses. The caller must hold mutex.
+// SPEC: Each time a Client sends a new SUBSCRIBE, UNSUBSCRIBE, or PUBLISH (where QoS > 0) MQTT Control Packet it MUST
+//
+//	assign it a non-zero Packet Identifier that is currently unused [MQTT-2.2.1-3].
+func (c *Client) newPacketIdentifier() (uint16, error) {
+	id := uint16(c.rngFn())
+	for i := 0; i <= math.MaxUint16; i++ {
+		_, isPublish := c.inFlight[id]
+		_, isRequest := c.responseChan[int(id)]
+		if id != 0 && !isPublish && !isRequest {
+			if c.storage == nil {
+				return id, nil
+			}
+
+			if _, err := c.storage.Get(id); errors.Is(err, storage.ErrNoEntry) {
+				return id, nil
+			} else if err != nil {
+				return 0, err
+			}
+		}
+		id++
+	}
+	return 0, ErrPacketIdentifierInUse
+}
+
+// acquireSendQuota waits until the server is willing to receive another publish (QoS > 0).
+func (c *Client) acquireSendQuota(ctx context.Context) error {
+	for {
+		c.mutex.Lock()
+		semaphore, closed := c.pendingSendSemaphore, c.closed
+		if c.sendQuota > 0 {
+			// Decrement the send quota counter
+			c.sendQuota--
+			if c.sendQuota > 0 {
+				c.unblockPublish()
+			}
+			c.mutex.Unlock()
+			return nil
+		}
+		c.mutex.Unlock()
+
+		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
+		select {
+		case <-semaphore:
+		case <-closed:
+			return ErrClientNotConnected
+		case <-ctx.Done():
+			return ctx.Err()
+		}
+	}
+}
+
+// releaseSendQuota ends the exchange of the publish with the packet identifier. The caller must hold mutex.
+func (c *Client) releaseSendQuota(identifier uint16) {
+	if _, ok := c.inFlight[identifier]; !ok {
+		return
+	}
+	delete(c.inFlight, identifier)
+
+	if c.sendQuota < c.serverReceiveMaximum {
+		// Increment the sent publish counter
+		c.sendQuota++
+		c.unblockPublish()
+	}
+}
+
+// unblockPublish potentially allows a blocked call to Publish to continue. The caller must hold mutex.
+// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
+func (c *Client) unblockPublish() {
+	select {
+	case c.pendingSendSemaphore <- struct{}{}: // Unblock a pending call to Publish
+	default: // One is about to be unblocked already
+	}
+}
+
+// dropFromStorage removes the control packet from persistent storage if it is there. A Pubrec belongs to a publish that
+// was received and any other control packet to one that was sent. The caller must hold mutex.
+func (c *Client) dropFromStorage(identifier uint16, received bool) error {
+	if c.storage == nil {
+		return nil
+	}
+
+	packet, err := c.storage.Get(identifier)
+	if errors.Is(err, storage.ErrNoEntry) {
+		return nil
+	} else if err != nil {
+		return err
+	}
+
+	if _, ok := packet.(*packets.Pubrec); ok != received {
+		return nil
+	}
+	return c.storage.Drop(identifier)
+}
+
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
 	if !c.isConnected.Load() {
@@ -622,61 +721,106 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 		deadline = time.Time{}
 	}
 
-	var unlockConn sync.Once
-	c.connMutex.Lock()
-	defer unlockConn.Do(c.connMutex.Unlock)
-
-	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
-		return err
+	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
+	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
+	//       [MQTT-4.9.0-2].
+	//
+	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
+	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
+	//       is zero [MQTT-4.9.0-3].
+	if pub.QoS > 0 {
+		if err = c.acquireSendQuota(ctx); err != nil {
+			return err
+		}
 	}
 
+	c.connMutex.Lock()
+	defer c.connMutex.Unlock()
+
 	// Perform preflight packet persistence operations
+	stored := false
 	if pub.QoS > 0 {
-		// Assign a packet identifier if none is set
-		c.mutex.Lock()
-		if pub.PacketIdentifier == 0 {
-			pub.PacketIdentifier = primitives.PrimitiveUint16(c.rngFn())
+		if stored, err = c.preparePublish(pub); err != nil {
+			return err
 		}
+	}
 
-		if c.storage != nil {
-			// Store this publish control packet
-			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
-				c.mutex.Unlock()
-				return err
-			}
+	// The connection might have been lost in the meantime
+	count := 0
+	if !c.isConnected.Load() {
+		err = ErrClientNotConnected
+	} else if err = c.conn.SetDeadline(deadline); err == nil { // Set I/O deadline
+		// Write the publish
+		count, err = c.transmit(pub)
+	}
+
+	if err != nil && count == 0 && pub.QoS > 0 {
+		// The server cannot know about this publish, so there is nothing to be acknowledged
+		c.mutex.Lock()
+		if stored {
+			c.dropFromStorage(pub.PacketIdentifier.Value(), false)
 		}
+		c.releaseSendQuota(pub.PacketIdentifier.Value())
 		c.mutex.Unlock()
 	}
 
-	// SPEC: Each time the Client or Server sends a PUBLISH packet at QoS > 0, it decrements the send quota. If the send
-	//       quota reaches zero, the Client or Server MUST NOT send any more PUBLISH packets with QoS > 0
-	//       [MQTT-4.9.0-2].
-	//
-	//       It MAY continue to send PUBLISH packets with QoS 0, or it MAY choose to suspend sending these as well. The
-	//       Client and Server MUST continue to process and respond to all other MQTT Control Packets even if the quota
-	//       is zero [MQTT-4.9.0-3].
-	if c.sendQuota == 0 && pub.QoS > 0 {
-		// Delay sending this publish until one of the unacknowledged publishes is acknowledged
-		c.connMutex.Unlock()
-		c.pendingSendSemaphore <- struct{}{}
-		c.connMutex.Lock()
+	return err
+}
+
+// preparePublish assigns the packet identifier and persists the publish (QoS > 0). It reports whether the publish was
+// added to the persistent storage. The send quota is returned if it fails.
+func (c *Client) preparePublish(pub *packets.Publish) (stored bool, err error) {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	defer func() {
+		if err != nil {
+			c.sendQuota++
+			c.unblockPublish()
+		}
+	}()
+
+	// Assign a packet identifier if none is set
+	assigned := false
+	if pub.PacketIdentifier == 0 {
+		var id uint16
+		if id, err = c.newPacketIdentifier(); err != nil {
+			return false, err
+		}
+		pub.PacketIdentifier = primitives.PrimitiveUint16(id)
+		assigned = true
 	}
-	// Write the publish
-	if err = c.send(pub); err != nil {
-		return err
+
+	if _, inFlight := c.inFlight[uint16(pub.PacketIdentifier)]; inFlight {
+		return false, ErrPacketIdentifierInUse
+	} else if _, inFlight := c.responseChan[int(pub.PacketIdentifier)]; inFlight {
+		return false, ErrPacketIdentifierInUse
 	}
 
-	unlockConn.Do(c.connMutex.Unlock)
+	if c.storage != nil {
+		// Store this publish control packet
+		if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); errors.Is(err, storage.ErrDuplicateEntry) {
+			// A publish that was stored on an earlier connection can be sent again
+			var packet any
+			if packet, err = c.storage.Get(uint16(pub.PacketIdentifier)); err == nil {
+				if _, ok := packet.(*packets.Publish); !ok {
+					err = storage.ErrDuplicateEntry
+				}
+			}
+		} else {
+			stored = err == nil
+		}
 
-	if pub.QoS > 0 {
-		c.mutex.Lock()
-		// Decrement the send quota counter
-		c.sendQuota--
-		c.mutex.Unlock()
+		if err != nil {
+			if assigned {
+				pub.PacketIdentifier = 0
+			}
+			return false, err
+		}
 	}
 
-	return
+	c.inFlight[uint16(pub.PacketIdentifier)] = struct{}{}
+	return stored, nil
 }
 
 // sendPuback will send the PUBACK control packet to the server. This API is only accessible via Publish when it is
@@ -902,7 +1046,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.RLock()
-		if publish.QoS > 0 && c.storage != nil {
+		if publish.QoS == packets.QoS2 && c.storage != nil {
 			pubrec := &packets.Pubrec{
 				Puback: packets.Puback{
 					PacketIdentifier: publish.PacketIdentifier,
@@ -921,24 +1065,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
+		c.releaseSendQuota(puback.PacketIdentifier.Value())
 
 		// Drop any persisted publish with the same packet identifier
-		if c.storage != nil {
-			if err = c.storage.Drop(puback.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		err = c.dropFromStorage(puback.PacketIdentifier.Value(), false)
 		c.mutex.Unlock()
 
 		c.signal(packets.PUBACK, puback, nil)
@@ -949,25 +1079,19 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return err
 		}
 
-		// Increment the send quota counter if it contains a failure reason code
-		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
 		c.mutex.Lock()
-		if pubrec.ReasonCode > 0x80 {
-			if c.sendQuota < c.serverReceiveMaximum {
-				c.sendQuota++
-			}
-		}
 
-		if c.storage != nil {
-			// Discard original publish from persistent storage
-			if err = c.storage.Drop(pubrec.PacketIdentifier.Value()); err != nil {
-				return err
-			}
+		// Discard original publish from persistent storage
+		err = c.dropFromStorage(pubrec.PacketIdentifier.Value(), false)
 
-			// Store the incoming PUBREC to persistent storage
-			if err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec); err != nil {
-				return err
-			}
+		// Increment the send quota counter if it contains a failure reason code
+		// SPEC: Each time a PUBREC packet is received with a Return Code of 0x80 or greater.
+		if pubrec.ReasonCode >= 0x80 {
+			c.releaseSendQuota(pubrec.PacketIdentifier.Value())
+			c.mutex.Unlock()
+
+			c.signal(packets.PUBREC, pubrec, nil)
+			return err
 		}
 
 		// Send PUBREL control packet
@@ -977,12 +1101,20 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			},
 		}
 
-		if err = c.send(pubrel); err != nil {
-			return err
+		// Store the PUBREL to persistent storage
+		if err == nil && c.storage != nil {
+			err = c.storage.Store(pubrel.PacketIdentifier.Value(), pubrel)
+			if errors.Is(err, storage.ErrDuplicateEntry) {
+				// The identifier is taken by a publish that was received
+				err = nil
+			}
 		}
-
 		c.mutex.Unlock()
 
+		if err := c.send(pubrel); err != nil {
+			return err
+		}
+
 		c.signal(packets.PUBREC, pubrec, nil)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
@@ -993,12 +1125,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubrel.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		// Discard original PUBREC control packet from persistent storage
+		err = c.dropFromStorage(pubrel.PacketIdentifier.Value(), true)
 		c.mutex.Unlock()
 
 		// Send PUBCOMP control packet
@@ -1008,14 +1136,16 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			},
 		}
 
-		if err = c.send(pubcomp); err != nil {
+		if err := c.send(pubcomp); err != nil {
 			return err
 		}
 
 		// Increment receive quota counter
+		c.mutex.Lock()
 		if c.receiveQuota < c.clientReceiveMaximum {
 			c.receiveQuota++
 		}
+		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel, nil)
 	case packets.PUBCOMP:
@@ -1027,25 +1157,10 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform rate limiting related operations
 		c.mutex.Lock()
-		if c.sendQuota < c.serverReceiveMaximum {
-			// Increment the sent publish counter
-			c.sendQuota++
-
-			// Potentially allow a blocked call to Publish to continue.
-			// NOTE: This is the reason why calls to Publish and Poll should not occur within the same goroutine.
-			select {
-			case <-c.pendingSendSemaphore: // Unblock a pending call to Publish
-			default: // No call to Publish is pending
-			}
-		}
-
-		if c.storage != nil {
-			// Discard original PUBREC control packet from persistent storage
-			if err = c.storage.Drop(pubcomp.PacketIdentifier.Value()); err != nil {
-				return err
-			}
-		}
+		c.releaseSendQuota(pubcomp.PacketIdentifier.Value())
 
+		// Discard the PUBREL control packet from persistent storage
+		err = c.dropFromStorage(pubcomp.PacketIdentifier.Value(), false)
 		c.mutex.Unlock()
 
 		c.signal(packets.PUBCOMP, pubcomp, nil)
@@ -1105,7 +1220,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	// TODO: Process control packet
 
-	return nil
+	return err
 }
 
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
diff --git a/mqtt/errors.go b/mqtt/errors.go
index 2732957..14e5d0f 100644
--- a/mqtt/errors.go
+++ b/mqtt/errors.go
@@ -30,6 +30,7 @@ var (
 	ErrUnexpectedPacketTypeReceived = errors.New("unexpected packet type received")
 	ErrClientNotConnected           = errors.New("the client is not connected")
 	ErrClientAlreadyConnected       = errors.New("the client is already connected")
+	ErrPacketIdentifierInUse        = errors.New("the packet identifier is in use")
 	ErrInvalidArgument              = errors.New("invalid argument")
 )
 
-- 
2.43.0


From ff63834e4f6135b7d039666d2cb5239468cf023e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 13/29] fix: correlate and end Subscribe and Unsubscribe

Requests are registered under the lock, end with their context or connection,
and apply the reason code of each topic; closing an event channel again has no
effect.
---
 mqtt/client.go | 215 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 154 insertions(+), 61 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 434bd79..628ca8b 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -61,6 +61,7 @@ type Client struct {
 	serverReceiveMaximum uint16
 
 	eventChans map[int]EventChannel
+	openChans  map[int]EventChannel
 	topicChans map[string]EventChannel
 
 	responseChan map[int]chan any
@@ -93,6 +94,7 @@ func NewClient(conn net.Conn) *Client {
 	return &Client{
 		conn:            conn,
 		eventChans:      make(map[int]EventChannel),
+		openChans:       make(map[int]EventChannel),
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
 		inFlight:        make(map[uint16]struct{}),
@@ -147,6 +149,7 @@ func (c *Client) CreateEventChannel(n int) EventChannel {
 
 	// Track this chan so fanout signalling can occur later
 	c.eventChans[c.evChanIdCounter] = result
+	c.openChans[c.evChanIdCounter] = result
 	c.evChanIdCounter++
 
 	return result
@@ -160,7 +163,29 @@ func (c *Client) CloseEventChannel(channel EventChannel) {
 	c.closeEventChannelInternal(channel)
 }
 
+// isOpen reports whether the event channel was created by this client and has not been closed. The caller must hold
+// eventMutex.
+func (c *Client) isOpen(channel EventChannel) bool {
+	open, ok := c.openChans[channel.id]
+	return ok && open.channel == channel.channel
+}
+
+// isBound reports whether the event channel is mapped to any topic. The caller must hold eventMutex.
+func (c *Client) isBound(channel EventChannel) bool {
+	for _, topicChan := range c.topicChans {
+		if topicChan.id == channel.id {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *Client) closeEventChannelInternal(channel EventChannel) {
+	// Closing a channel again has no effect
+	if !c.isOpen(channel) {
+		return
+	}
+
 	// Close the channel so that no further signals can occur on it
 	close(channel.channel)
 
@@ -170,6 +195,7 @@ func (c *Client) closeEventChannelInternal(channel EventChannel) {
 
 	// Remove channel from maps
 	delete(c.eventChans, channel.id)
+	delete(c.openChans, channel.id)
 	for key, topicChan := range c.topicChans {
 		if topicChan.id == channel.id {
 			delete(c.topicChans, key)
@@ -459,10 +485,6 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		return ErrInvalidArgument
 	}
 
-	if !c.isConnected.Load() {
-		return ErrClientNotConnected
-	}
-
 	var deadline time.Time
 	var ok bool
 	if deadline, ok = ctx.Deadline(); !ok {
@@ -473,6 +495,10 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	c.connMutex.Lock()
 	defer unlockConn.Do(c.connMutex.Unlock)
 
+	if !c.isConnected.Load() {
+		return ErrClientNotConnected
+	}
+
 	// Set I/O deadline
 	if err = c.conn.SetDeadline(deadline); err != nil {
 		return err
@@ -483,9 +509,14 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		_topics = append(_topics, topics[index].Topic)
 	}
 
-	c.mutex.Lock()
+	// Create channel to receive the response on
+	id, respChan, err := c.beginRequest()
+	if err != nil {
+		return err
+	}
+
 	subscribe := &packets.Subscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: primitives.PrimitiveUint16(id),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
@@ -493,54 +524,98 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 		//UserProperties:         nil,
 	}
 
-	// Create channel to receive the response on
-	respChan := make(chan any, 1)
-	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
-
 	// Send the SUBSCRIBE control packet
 	if err = c.send(subscribe); err != nil {
-		c.mutex.Unlock()
+		c.takeRequest(id)
 		return err
 	}
 
 	unlockConn.Do(c.connMutex.Unlock)
-	c.mutex.Unlock()
 
 	// Wait for the acknowledgement
-	select {
-	case resp := <-respChan:
-		suback := resp.(*packets.Suback)
-
-		// Check all reason codes
-		for i, code := range suback.ReasonCodes {
-			if code >= 0x80 {
-				// TODO: Return all failure reason codes to caller somehow
-				return ReasonCode(code)
-			} else {
-				// TODO: Consider session retention details here
-
-				if chanid := topics[i].channel.id; chanid != 0 {
-					// Map the event channel to the topic
-					c.mutex.Lock()
-					c.topicChans[topics[i].Topic.Filter()] = c.eventChans[chanid]
-
-					// Remove this channel from the general event channel map
-					delete(c.eventChans, chanid)
-					c.mutex.Unlock()
-				}
+	resp, err := c.awaitResponse(ctx, respChan)
+	if err != nil {
+		return err
+	}
+
+	suback, ok := resp.(*packets.Suback)
+	if !ok {
+		return ErrUnexpectedPacketTypeReceived
+	} else if len(suback.ReasonCodes) != len(topics) {
+		return packets.ErrControlPacketIsMalformed
+	}
+
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	// Check all reason codes
+	for i, code := range suback.ReasonCodes {
+		if code >= 0x80 {
+			// TODO: Return all failure reason codes to caller somehow
+			if err == nil {
+				err = ReasonCode(code)
+			}
+		} else {
+			// TODO: Consider session retention details here
+
+			if channel := topics[i].channel; c.isOpen(channel) {
+				// Map the event channel to the topic
+				c.topicChans[topics[i].Topic.Filter()] = channel
+
+				// Remove this channel from the general event channel map
+				delete(c.eventChans, channel.id)
 			}
 		}
 	}
 
-	// Close the chan
-	close(respChan)
+	return err
+}
 
+// beginRequest reserves a packet identifier and the channel on which the acknowledgement with that identifier arrives.
+func (c *Client) beginRequest() (identifier uint16, respChan chan any, err error) {
 	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(subscribe.PacketIdentifier))
-	c.mutex.Unlock()
+	defer c.mutex.Unlock()
 
-	return
+	if identifier, err = c.newPacketIdentifier(); err != nil {
+		return 0, nil, err
+	}
+
+	respChan = make(chan any, 1)
+	c.responseChan[int(identifier)] = respChan
+	return identifier, respChan, nil
+}
+
+// takeRequest removes the request with the packet identifier and returns its channel, which is nil if there is none.
+func (c *Client) takeRequest(identifier uint16) chan any {
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	respChan := c.responseChan[int(identifier)]
+	delete(c.responseChan, int(identifier))
+	return respChan
+}
+
+// awaitResponse waits for the acknowledgement of a request. The packet identifier stays reserved until the
+// acknowledgement has arrived, even if nobody waits for it any longer.
+func (c *Client) awaitResponse(ctx context.Context, respChan chan any) (any, error) {
+	c.mutex.RLock()
+	closed := c.closed
+	c.mutex.RUnlock()
+
+	select {
+	case resp := <-respChan:
+		return resp, nil
+	case <-closed:
+		// The acknowledgement might have arrived before the connection was lost
+		select {
+		case resp := <-respChan:
+			return resp, nil
+		default:
+			return nil, ErrClientNotConnected
+		}
+	case <-ctx.Done():
+		return nil, ctx.Err()
+	}
 }
 
 // Unsubscribe sends the UNSUBSCRIBE control packet to the server with the specified topic filters. Any event channels
@@ -551,7 +626,9 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		return ErrInvalidArgument
 	}
 
-	c.mutex.Lock()
+	var unlockConn sync.Once
+	c.connMutex.Lock()
+	defer unlockConn.Do(c.connMutex.Unlock)
 
 	if !c.isConnected.Load() {
 		return ErrClientNotConnected
@@ -574,44 +651,60 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 		t.SetFilter(topics[index])
 		_topics = append(_topics, t)
 	}
+
+	// Create channel to receive the response on
+	id, respChan, err := c.beginRequest()
+	if err != nil {
+		return err
+	}
+
 	unsubscribe := &packets.Unsubscribe{
-		PacketIdentifier: primitives.PrimitiveUint16(c.rngFn()),
+		PacketIdentifier: primitives.PrimitiveUint16(id),
 		Topics:           _topics,
 
 		// TODO: Use context to set these optional parameters
 		//UserProperties:         nil,
 	}
 
-	// Create channel to receive the response on
-	respChan := make(chan any, 1)
-	c.responseChan[int(unsubscribe.PacketIdentifier)] = respChan
-
 	// Send the UNSUBSCRIBE control packet
 	if err = c.send(unsubscribe); err != nil {
+		c.takeRequest(id)
 		return err
 	}
 
-	c.mutex.Unlock()
+	unlockConn.Do(c.connMutex.Unlock)
 
 	// Wait for the acknowledgement
-	select {
-	case <-respChan:
-		c.mutex.Lock()
-		// Close any event channels bound to the topics
-		for _, topic := range topics {
-			if channel, ok := c.topicChans[topic]; ok {
+	resp, err := c.awaitResponse(ctx, respChan)
+	if err != nil {
+		return err
+	}
+
+	unsuback, ok := resp.(*packets.Unsuback)
+	if !ok {
+		return ErrUnexpectedPacketTypeReceived
+	} else if len(unsuback.ReasonCodes) != len(topics) {
+		return packets.ErrControlPacketIsMalformed
+	}
+
+	c.eventMutex.Lock()
+	defer c.eventMutex.Unlock()
+
+	// Close any event channels bound to the topics
+	for i, topic := range topics {
+		if code := unsuback.ReasonCodes[i]; code >= 0x80 {
+			if err == nil {
+				err = ReasonCode(code)
+			}
+		} else if channel, ok := c.topicChans[topic]; ok {
+			delete(c.topicChans, topic)
+			if !c.isBound(channel) {
 				c.closeEventChannelInternal(channel)
 			}
 		}
-		c.mutex.Unlock()
 	}
 
-	c.mutex.Lock()
-	// Remove the channel from the map
-	delete(c.responseChan, int(unsubscribe.PacketIdentifier))
-	c.mutex.Unlock()
-
-	return
+	return err
 }
 
 // newPacketIdentifier returns a packet identifier that no unacknowledged control packet uses. The caller must hold mutex.
@@ -1171,7 +1264,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Subscribe
-		if respChan, ok := c.responseChan[int(suback.PacketIdentifier)]; ok {
+		if respChan := c.takeRequest(suback.PacketIdentifier.Value()); respChan != nil {
 			respChan <- suback
 		}
 
@@ -1183,7 +1276,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Respond to the call to client.Unsubscribe
-		if respChan, ok := c.responseChan[int(unsuback.PacketIdentifier)]; ok {
+		if respChan := c.takeRequest(unsuback.PacketIdentifier.Value()); respChan != nil {
 			respChan <- unsuback
 		}
 
-- 
2.43.0


From b92155147c3d7be69fb731823f4aec68a81fca80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 14/29] fix: route and fan out a publish under one lock

The topic map was read without the lock that guards it, so a publish could be
signalled on a channel that had just been closed.
---
 mqtt/client.go | 88 +++++++++++++++++++++++---------------------------
 1 file changed, 41 insertions(+), 47 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 628ca8b..3045c1b 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -203,9 +203,9 @@ func (c *Client) closeEventChannelInternal(channel EventChannel) {
 	}
 }
 
-// signal signals on all event channels in a fanout fashion. This function is only meant to be called by the client
-// internally.
-func (c *Client) signal(packetType packets.PacketType, data any, channel chan<- *Event) {
+// signal signals on all event channels in a fanout fashion. A publish is also signalled on every event channel that is
+// mapped to a topic filter that it matches. This function is only meant to be called by the client internally.
+func (c *Client) signal(packetType packets.PacketType, data any) {
 	c.eventMutex.Lock()
 	defer c.eventMutex.Unlock()
 
@@ -214,36 +214,39 @@ func (c *Client) signal(packetType packets.PacketType, data any, channel chan<-
 		Data:       data,
 	}
 
-	if channel != nil {
-		// Signal this channel directly
-		select {
-		case channel <- e:
-			// Signalled
-		default:
-			// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-			//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-			//       event channels will stop receiving new events when they are full.
-			// Already has a pending event. This channel will miss the current event
-		}
-	} else {
-		// Fanout to all other channels
-		for _, channel := range c.eventChans {
-			select {
-			case channel.channel <- e:
-				// Signalled
-			default:
-				// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
-				//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
-				//       event channels will stop receiving new events when they are full.
-				// Already has a pending event. This channel will miss the current event
+	// Route the PUBLISH to the correct event channels as configured by the Subscribe API
+	if publish, ok := data.(*packets.Publish); ok {
+		for filter, channel := range c.topicChans {
+			// Does the topic match any known filter?
+			if c.matchTopic(publish.Topic.String(), filter) {
+				// Signal the publish on this channel
+				channel.signal(e)
 			}
 		}
 	}
 
+	// Fanout to all other channels
+	for _, channel := range c.eventChans {
+		channel.signal(e)
+	}
+
 	// Sleep this goroutine to allow other goroutines to consume their event channels
 	time.Sleep(time.Nanosecond)
 }
 
+// signal signals the event on the channel. The caller must hold eventMutex.
+func (e EventChannel) signal(event *Event) {
+	select {
+	case e.channel <- event:
+		// Signalled
+	default:
+		// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
+		//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
+		//       event channels will stop receiving new events when they are full.
+		// Already has a pending event. This channel will miss the current event
+	}
+}
+
 // Connect sends the CONNECT packet to the server and waits for the server to send the acknowledgement (CONNACK) packet
 // back to the client. If the acknowledgement contains a failure reason, then a ReasonCode error is returned.
 func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err error) {
@@ -362,7 +365,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.mutex.Unlock()
 
 	// Signal CONNACK event
-	c.signal(packets.CONNACK, connack, nil)
+	c.signal(packets.CONNACK, connack)
 
 	return
 }
@@ -435,7 +438,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return nil
 }
@@ -473,7 +476,7 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	}
 
 	// Signal disconnect
-	c.signal(packets.DISCONNECT, disconnect, nil)
+	c.signal(packets.DISCONNECT, disconnect)
 
 	return
 }
@@ -1127,15 +1130,6 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			}
 		}
 
-		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
-		for filter, channel := range c.topicChans {
-			// Does the topic match any known filter?
-			if c.matchTopic(publish.Topic.String(), filter) {
-				// Signal the publish on this channel
-				c.signal(packets.PUBLISH, publish, channel.channel)
-			}
-		}
-
 		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
 		// It will be removed when a PUBREL control packet comes in.
 		c.mutex.RLock()
@@ -1149,7 +1143,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.RUnlock()
 
-		c.signal(packets.PUBLISH, publish, nil)
+		c.signal(packets.PUBLISH, publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if err = c.readPacket(header, puback); err != nil {
@@ -1164,7 +1158,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		err = c.dropFromStorage(puback.PacketIdentifier.Value(), false)
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBACK, puback, nil)
+		c.signal(packets.PUBACK, puback)
 	case packets.PUBREC:
 		pubrec := &packets.Pubrec{}
 		pubrec.Header = header
@@ -1183,7 +1177,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			c.releaseSendQuota(pubrec.PacketIdentifier.Value())
 			c.mutex.Unlock()
 
-			c.signal(packets.PUBREC, pubrec, nil)
+			c.signal(packets.PUBREC, pubrec)
 			return err
 		}
 
@@ -1208,7 +1202,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return err
 		}
 
-		c.signal(packets.PUBREC, pubrec, nil)
+		c.signal(packets.PUBREC, pubrec)
 	case packets.PUBREL:
 		pubrel := &packets.Pubrel{}
 		pubrel.Header = header
@@ -1240,7 +1234,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBREL, pubrel, nil)
+		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
 		pubcomp := &packets.Pubcomp{}
 		pubcomp.Header = header
@@ -1256,7 +1250,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		err = c.dropFromStorage(pubcomp.PacketIdentifier.Value(), false)
 		c.mutex.Unlock()
 
-		c.signal(packets.PUBCOMP, pubcomp, nil)
+		c.signal(packets.PUBCOMP, pubcomp)
 	case packets.SUBACK:
 		suback := &packets.Suback{Header: header}
 		if err = c.readPacket(header, suback); err != nil {
@@ -1268,7 +1262,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- suback
 		}
 
-		c.signal(packets.SUBACK, suback, nil)
+		c.signal(packets.SUBACK, suback)
 	case packets.UNSUBACK:
 		unsuback := &packets.Unsuback{Header: header}
 		if err = c.readPacket(header, unsuback); err != nil {
@@ -1280,7 +1274,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			respChan <- unsuback
 		}
 
-		c.signal(packets.UNSUBACK, unsuback, nil)
+		c.signal(packets.UNSUBACK, unsuback)
 	case packets.DISCONNECT:
 		disconnect := &packets.Disconnect{Header: header}
 		if err = c.readPacket(header, disconnect); err != nil {
@@ -1290,13 +1284,13 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if err = c.closeConnection(); err != nil {
 			return
 		}
-		c.signal(packets.DISCONNECT, disconnect, nil)
+		c.signal(packets.DISCONNECT, disconnect)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
 		if err = c.readPacket(header, auth); err != nil {
 			return
 		}
-		c.signal(packets.AUTH, auth, nil)
+		c.signal(packets.AUTH, auth)
 	case packets.PINGRESP:
 		// SPEC: The PINGRESP packet has no Variable Header and no Payload.
 		if header.Remaining != 0 {
-- 
2.43.0


From 33792e3e0ea8b9daf40a5b64bee22e438ccd74f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:16 +0000
Subject: [PATCH 15/29] fix: deliver a received QoS 2 publish exactly once

A publish that the server sends again before PUBREL is acknowledged but not
signalled again, on the same connection or a resumed session, and is signalled
before its acknowledgement is sent.
---
 mqtt/client.go | 91 +++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 67 insertions(+), 24 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 3045c1b..b270d13 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -69,6 +69,11 @@ type Client struct {
 	// inFlight holds the packet identifiers of the publishes that the server has not acknowledged
 	inFlight map[uint16]struct{}
 
+	// received holds the packet identifiers of the received publishes (QoS 2) that the server has not released
+	received map[uint16]struct{}
+
+	sessionPresent bool
+
 	evChanIdCounter int
 	eventMutex      sync.Mutex
 
@@ -98,6 +103,7 @@ func NewClient(conn net.Conn) *Client {
 		topicChans:      make(map[string]EventChannel),
 		responseChan:    make(map[int]chan any),
 		inFlight:        make(map[uint16]struct{}),
+		received:        make(map[uint16]struct{}),
 		evChanIdCounter: 1,
 		rngFn:           rand.Uint32,
 	}
@@ -359,6 +365,9 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	//       non-zero Session Expiry Interval in the DISCONNECT packet sent by the Client.
 	c.sessionExpiryInterval = uint32(packet.SessionExpiryInterval)
 
+	// Publishes that were received on an earlier connection only matter if the server has kept the session
+	c.sessionPresent = connack.SessionPresent
+
 	// Successful connection!
 	c.closed = make(chan struct{})
 	c.isConnected.Store(true)
@@ -805,6 +814,34 @@ func (c *Client) dropFromStorage(identifier uint16, received bool) error {
 	return c.storage.Drop(identifier)
 }
 
+// storePubrec persists that the publish (QoS 2) was received. It reports whether the publish had been received before, on
+// an earlier connection of the same session. The caller must hold mutex.
+func (c *Client) storePubrec(publish *packets.Publish) (isDuplicate bool, err error) {
+	if c.storage == nil {
+		return false, nil
+	}
+
+	pubrec := &packets.Pubrec{
+		Puback: packets.Puback{
+			PacketIdentifier: publish.PacketIdentifier,
+		},
+	}
+
+	err = c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
+	if !errors.Is(err, storage.ErrDuplicateEntry) {
+		return false, err
+	}
+
+	packet, err := c.storage.Get(pubrec.PacketIdentifier.Value())
+	if err != nil {
+		return false, err
+	}
+
+	// The entry of a publish that was sent with the same identifier is left alone
+	_, isReceived := packet.(*packets.Pubrec)
+	return isReceived && c.sessionPresent, nil
+}
+
 // Publish sends PUBLISH control packet to the server.
 func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error) {
 	if !c.isConnected.Load() {
@@ -1099,7 +1136,14 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		c.mutex.Lock()
-		if c.receiveQuota == 0 && publish.QoS > 0 {
+
+		// SPEC: Until it has received the corresponding PUBREL packet, the receiver MUST acknowledge any subsequent
+		//       PUBLISH packet with the same Packet Identifier by sending a PUBREC. It MUST NOT cause duplicate messages
+		//       to be delivered to any onward recipients in this case [MQTT-4.3.3-10].
+		_, isDuplicate := c.received[publish.PacketIdentifier.Value()]
+		isDuplicate = isDuplicate && publish.QoS == packets.QoS2
+
+		if c.receiveQuota == 0 && publish.QoS > 0 && !isDuplicate {
 			// The server has sent more publishes than this client is willing to accept. Send disconnect.
 			// SPEC: The Server MUST NOT send more than Receive Maximum QoS 1 and QoS 2 PUBLISH packets for which it has
 			//       not received PUBACK, PUBCOMP, or PUBREC with a Reason Code of 128 or greater from the Client
@@ -1114,36 +1158,32 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Decrement the receive quota counter
-		if publish.QoS > 0 {
+		if publish.QoS > 0 && !isDuplicate {
 			c.receiveQuota--
 		}
+
+		if publish.QoS == packets.QoS2 && !isDuplicate {
+			c.received[publish.PacketIdentifier.Value()] = struct{}{}
+
+			// Create a Pubrec control packet and store it. This might be used later during the message delivery retry
+			// flow. It will be removed when a PUBREL control packet comes in.
+			isDuplicate, err = c.storePubrec(publish)
+		}
 		c.mutex.Unlock()
 
+		// The server will not send the publish again after it was acknowledged, so signal it first
+		if !isDuplicate {
+			c.signal(packets.PUBLISH, publish)
+		}
+
 		// Send the respective acknowledgement control packet type for the QoS level of the incoming publish.
 		if publish.QoS == packets.QoS1 {
-			if err = c.sendPuback(ctx, publish); err != nil {
-				return err
-			}
+			return c.sendPuback(ctx, publish)
 		} else if publish.QoS == packets.QoS2 {
-			if err = c.sendPubrec(ctx, publish); err != nil {
+			if err := c.sendPubrec(ctx, publish); err != nil {
 				return err
 			}
 		}
-
-		// Create a Pubrec control packet and store it. This might be used later during the message delivery retry flow.
-		// It will be removed when a PUBREL control packet comes in.
-		c.mutex.RLock()
-		if publish.QoS == packets.QoS2 && c.storage != nil {
-			pubrec := &packets.Pubrec{
-				Puback: packets.Puback{
-					PacketIdentifier: publish.PacketIdentifier,
-				},
-			}
-			c.storage.Store(pubrec.PacketIdentifier.Value(), pubrec)
-		}
-		c.mutex.RUnlock()
-
-		c.signal(packets.PUBLISH, publish)
 	case packets.PUBACK:
 		puback := &packets.Puback{Header: header}
 		if err = c.readPacket(header, puback); err != nil {
@@ -1212,6 +1252,9 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
+		_, isReceived := c.received[pubrel.PacketIdentifier.Value()]
+		delete(c.received, pubrel.PacketIdentifier.Value())
+
 		// Discard original PUBREC control packet from persistent storage
 		err = c.dropFromStorage(pubrel.PacketIdentifier.Value(), true)
 		c.mutex.Unlock()
@@ -1228,11 +1271,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 
 		// Increment receive quota counter
-		c.mutex.Lock()
-		if c.receiveQuota < c.clientReceiveMaximum {
+		if isReceived {
+			c.mutex.Lock()
 			c.receiveQuota++
+			c.mutex.Unlock()
 		}
-		c.mutex.Unlock()
 
 		c.signal(packets.PUBREL, pubrel)
 	case packets.PUBCOMP:
-- 
2.43.0


From baa3350eb3be682b0de02d1423ce0001a4798aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:27 +0000
Subject: [PATCH 16/29] fix: close the connection when an acknowledgement
 cannot be sent

---
 mqtt/client.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index b270d13..7099a24 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -969,7 +969,7 @@ func (c *Client) sendPuback(ctx context.Context, publish *packets.Publish) (err
 	}
 
 	// Send the PUBACK control packet to the server
-	if err = c.send(puback); err != nil {
+	if err = c.reply(puback); err != nil {
 		return err
 	}
 
@@ -998,7 +998,7 @@ func (c *Client) sendPubrec(ctx context.Context, publish *packets.Publish) (err
 	}
 
 	// Send the PUBREC control packet to the server
-	if err = c.send(pubrec); err != nil {
+	if err = c.reply(pubrec); err != nil {
 		return err
 	}
 
@@ -1238,7 +1238,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		}
 		c.mutex.Unlock()
 
-		if err := c.send(pubrel); err != nil {
+		if err := c.reply(pubrel); err != nil {
 			return err
 		}
 
@@ -1266,7 +1266,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			},
 		}
 
-		if err := c.send(pubcomp); err != nil {
+		if err := c.reply(pubcomp); err != nil {
 			return err
 		}
 
@@ -1430,6 +1430,15 @@ func (c *Client) send(w io.WriterTo) (err error) {
 	return err
 }
 
+// reply sends the control packet that answers a received one. The connection is closed if that fails, because the server
+// would wait for it forever. The caller must hold connMutex.
+func (c *Client) reply(w io.WriterTo) (err error) {
+	if err = c.send(w); err != nil {
+		c.closeConnection()
+	}
+	return err
+}
+
 // transmit writes the control packet to the open connection. The returned count is the number of bytes that were written
 // to it. The caller must hold connMutex.
 func (c *Client) transmit(w io.WriterTo) (n int, err error) {
-- 
2.43.0


From fe4bf9d5231536edc6cf44c5ef17919b67eadf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:19 +0000
Subject: [PATCH 17/29] fix: refuse another publish with the identifier of a
 stored one

---
 mqtt/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 7099a24..1ae6778 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -934,9 +934,11 @@ func (c *Client) preparePublish(pub *packets.Publish) (stored bool, err error) {
 		// Store this publish control packet
 		if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); errors.Is(err, storage.ErrDuplicateEntry) {
 			// A publish that was stored on an earlier connection can be sent again
+			// SPEC: The DUP flag MUST be set to 1 by the Client or Server when it attempts to re-deliver a PUBLISH packet
+			//       [MQTT-3.3.1-1].
 			var packet any
 			if packet, err = c.storage.Get(uint16(pub.PacketIdentifier)); err == nil {
-				if _, ok := packet.(*packets.Publish); !ok {
+				if _, ok := packet.(*packets.Publish); !ok || !pub.Duplicate {
 					err = storage.ErrDuplicateEntry
 				}
 			}
-- 
2.43.0


From 7e5e2f80fb6a0a8e24541b40829002d110e7bdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 18/29] fix: release a received publish only after its record
 was dropped

---
 mqtt/client.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 1ae6778..2bbbf31 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -1254,11 +1254,16 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 		// Perform persistence operations as required by the QoS level of the related PUBLISH.
 		c.mutex.Lock()
+
+		// Discard original PUBREC control packet from persistent storage. The server must not reuse the packet identifier
+		// before that, because the next publish with it would be mistaken for this one.
+		if err = c.dropFromStorage(pubrel.PacketIdentifier.Value(), true); err != nil {
+			c.mutex.Unlock()
+			return err
+		}
+
 		_, isReceived := c.received[pubrel.PacketIdentifier.Value()]
 		delete(c.received, pubrel.PacketIdentifier.Value())
-
-		// Discard original PUBREC control packet from persistent storage
-		err = c.dropFromStorage(pubrel.PacketIdentifier.Value(), true)
 		c.mutex.Unlock()
 
 		// Send PUBCOMP control packet
-- 
2.43.0


From 0d141fbac8ae602cee083a4059fc867ac706ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:25 +0000
Subject: [PATCH 19/29] fix: write the payload of a publish at its offset

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index 57f6554..c8c2f25 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -63,7 +63,7 @@ func (p *Publish) Write(buf []byte) (n int, err error) {
 	}
 
 	// Copy into payload
-	n = copy(p.Payload[:p.offset], buf)
+	n = copy(p.Payload[p.offset:], buf)
 	p.offset += n
 
 	return
-- 
2.43.0


From 346cf7cc9c6887288812368d93dbad4a1f732ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 20/29] fix: send a will with an empty message and refuse one
 without a topic

---
 mqtt/packets/connect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index c9ec9a8..85a3ea2 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -78,6 +78,12 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 	willPropertiesLen := primitives.VariableByteInt(0)
 	payloadLen := c.ClientId.Length(false)
 
+	// The message of a will can be empty, but its topic cannot
+	hasWill := len(c.WillTopic) > 0
+	if len(c.Will) > 0 && !hasWill {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	if c.SessionExpiryInterval > 0 {
 		propertiesLen += c.SessionExpiryInterval.Length(true)
@@ -132,7 +138,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		payloadLen += c.Password.Length(false)
 	}
 
-	if len(c.Will) > 0 {
+	if hasWill {
 		// Set bit 2
 		flags |= 1 << 2
 
@@ -299,7 +305,7 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 
 	// SPEC: If the Will Flag is set to 1, the Will Properties is the next field in the Payload.
 	//       [3.1.3.2 Will Properties]
-	if len(c.Will) > 0 {
+	if hasWill {
 		/* Will properties begin */
 		if count, err = willPropertiesLen.WriteTo(w); err != nil {
 			return 0, err
-- 
2.43.0


From 564b00e8e3e78d755e99b6b252fe9a7bfcba4dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:00 +0000
Subject: [PATCH 21/29] fix: refuse arguments that MQTT cannot express

---
 mqtt/packets/connect.go     | 15 +++++++++++++++
 mqtt/packets/publish.go     | 12 ++++++++++++
 mqtt/packets/subscribe.go   |  6 ++++++
 mqtt/packets/topic.go       | 21 +++++++++++++++++++++
 mqtt/packets/unsubscribe.go |  6 ++++++
 5 files changed, 60 insertions(+)

diff --git a/mqtt/packets/connect.go b/mqtt/packets/connect.go
index 85a3ea2..0075bf3 100644
--- a/mqtt/packets/connect.go
+++ b/mqtt/packets/connect.go
@@ -84,6 +84,21 @@ func (c *Connect) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// SPEC: If the Will Flag is set to 1, the value of Will QoS can be 0 (0x00), 1 (0x01), or 2 (0x02) [MQTT-3.1.2-12].
+	if hasWill && (c.WillQos > QoS2 || !isTopicName(c.WillTopic) || !isTopicName(c.WillResponseTopic)) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
+	// SPEC: It is a Protocol Error to include Authentication Data if there is no Authentication Method.
+	if len(c.AuthenticationData) > 0 && len(c.AuthenticationMethod) == 0 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
+	// SPEC: It is a Protocol Error to have a value other than 0 or 1.
+	if c.RequestResponseInformation > 1 || c.RequestProblemInformation > 1 {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	if c.SessionExpiryInterval > 0 {
 		propertiesLen += c.SessionExpiryInterval.Length(true)
diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index c8c2f25..a8bc3dd 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -232,6 +232,18 @@ func (p *Publish) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	// SPEC: The Topic Name in the PUBLISH packet MUST NOT contain wildcard characters [MQTT-3.3.2-2].
+	// SPEC: The Response Topic MUST NOT contain wildcard characters [MQTT-3.3.2-14].
+	if !isTopicName(p.Topic) || !isTopicName(p.ResponseTopic) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
+	// SPEC: A PUBLISH Packet MUST NOT have both QoS bits set to 1 [MQTT-3.3.1-4].
+	// SPEC: The DUP flag MUST be set to 0 for all QoS 0 messages [MQTT-3.3.1-2].
+	if p.QoS > QoS2 || (p.Duplicate && p.QoS == QoS0) {
+		return 0, ErrControlPacketIsMalformed
+	}
+
 	// Calculate length of properties and payload
 	variableHeaderLen += p.Topic.Length(false)
 
diff --git a/mqtt/packets/subscribe.go b/mqtt/packets/subscribe.go
index 9ea435e..e38757d 100644
--- a/mqtt/packets/subscribe.go
+++ b/mqtt/packets/subscribe.go
@@ -52,6 +52,12 @@ func (s *Subscribe) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	for _, topic := range s.Topics {
+		if !topic.isValid() {
+			return 0, ErrControlPacketIsMalformed
+		}
+	}
+
 	// Calculate length of properties
 	if s.SubscriptionIdentifier > 0 {
 		propertiesLen += s.SubscriptionIdentifier.Length(true)
diff --git a/mqtt/packets/topic.go b/mqtt/packets/topic.go
index 6f3c6d8..8439d53 100644
--- a/mqtt/packets/topic.go
+++ b/mqtt/packets/topic.go
@@ -39,6 +39,10 @@ func (t *Topic) SetQoS(qos QoS) *Topic {
 	// Set bits [1 - 0]
 	t.options &= ^primitives.PrimitiveByte(1 << 0)
 	t.options &= ^primitives.PrimitiveByte(1 << 1)
+	if qos > QoS2 {
+		// Use the reserved value, so that this subscription is refused
+		qos = 3
+	}
 	t.options |= primitives.PrimitiveByte(qos)
 	return t
 }
@@ -82,6 +86,23 @@ func (t *Topic) SetRetainHandling(handling RetainHandlingOption) *Topic {
 	// Set bits [5 - 4]
 	t.options &= ^primitives.PrimitiveByte(1 << 5)
 	t.options &= ^primitives.PrimitiveByte(1 << 4)
+	if handling > DoNotSendRetainedMessages {
+		// Use the reserved value, so that this subscription is refused
+		handling = 3
+	}
 	t.options |= primitives.PrimitiveByte(handling << 4)
 	return t
 }
+
+// isValid reports whether the filter and the options can be sent in a control packet.
+func (t *Topic) isValid() bool {
+	// SPEC: All Topic Names and Topic Filters MUST be at least one character long [MQTT-4.7.3-1].
+	// SPEC: It is a Protocol Error if the Maximum QoS field has the value 3.
+	// SPEC: It is a Protocol Error to send a Retain Handling value of 3.
+	return len(t.filter) > 0 && t.options&0x03 != 0x03 && t.options&0x30 != 0x30
+}
+
+// isTopicName reports whether the topic contains no wildcard characters.
+func isTopicName(topic primitives.PrimitiveString) bool {
+	return !strings.ContainsAny(string(topic), "+#")
+}
diff --git a/mqtt/packets/unsubscribe.go b/mqtt/packets/unsubscribe.go
index 74d18ae..5ba11bc 100644
--- a/mqtt/packets/unsubscribe.go
+++ b/mqtt/packets/unsubscribe.go
@@ -50,6 +50,12 @@ func (u *Unsubscribe) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, ErrControlPacketIsMalformed
 	}
 
+	for _, topic := range u.Topics {
+		if !topic.isValid() {
+			return 0, ErrControlPacketIsMalformed
+		}
+	}
+
 	// Calculate length of properties
 	for k, v := range u.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
-- 
2.43.0


From e5dc77e15fbe1c456176aa63642f79b14f964070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 22/29] fix: close the connection when its deadline cannot be
 set

---
 mqtt/client.go | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 2bbbf31..eedd0f2 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -271,7 +271,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	}
 
 	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
+	if err = c.setDeadline(deadline); err != nil {
 		return err
 	}
 
@@ -414,7 +414,7 @@ func (c *Client) DisconnectWithSessionExpiry(ctx context.Context, publishWill bo
 	}
 
 	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
+	if err = c.setDeadline(deadline); err != nil {
 		return err
 	}
 
@@ -512,7 +512,7 @@ func (c *Client) Subscribe(ctx context.Context, topics []Topic) (err error) {
 	}
 
 	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
+	if err = c.setDeadline(deadline); err != nil {
 		return err
 	}
 
@@ -653,7 +653,7 @@ func (c *Client) Unsubscribe(ctx context.Context, topics []string) (err error) {
 	}
 
 	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
+	if err = c.setDeadline(deadline); err != nil {
 		return err
 	}
 
@@ -882,7 +882,7 @@ func (c *Client) Publish(ctx context.Context, pub *packets.Publish) (err error)
 	count := 0
 	if !c.isConnected.Load() {
 		err = ErrClientNotConnected
-	} else if err = c.conn.SetDeadline(deadline); err == nil { // Set I/O deadline
+	} else if err = c.setDeadline(deadline); err == nil { // Set I/O deadline
 		// Write the publish
 		count, err = c.transmit(pub)
 	}
@@ -1042,7 +1042,7 @@ func (c *Client) KeepAlive() (err error) {
 	}
 
 	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
+	if err = c.setDeadline(deadline); err != nil {
 		return err
 	}
 
@@ -1092,7 +1092,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	}
 
 	// Set I/O deadline
-	if err = c.conn.SetDeadline(deadline); err != nil {
+	if err = c.setDeadline(deadline); err != nil {
 		return err
 	}
 
@@ -1114,8 +1114,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 
 	if !deadline.IsZero() {
 		// Extend I/O deadline
-		if err = c.conn.SetDeadline(time.Now().Add(time.Second * 30)); err != nil {
-			c.closeConnection()
+		if err = c.setDeadline(time.Now().Add(time.Second * 30)); err != nil {
 			return
 		}
 	} else {
@@ -1489,6 +1488,15 @@ func (c *Client) readPacket(header packets.FixedHeader, packet io.ReaderFrom) (e
 	return err
 }
 
+// setDeadline sets the deadline of the following I/O operations. The connection is closed if that fails, because it cannot
+// be used any further then. The caller must hold connMutex.
+func (c *Client) setDeadline(deadline time.Time) (err error) {
+	if err = c.conn.SetDeadline(deadline); err != nil {
+		c.closeConnection()
+	}
+	return err
+}
+
 // closeConnection closes the network connection and lets every call that waits for the server return. The caller must
 // hold connMutex.
 func (c *Client) closeConnection() error {
-- 
2.43.0


From 49383dd52b06bd53cf5603ad151289f353b9fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 23/29] fix: count the identifier byte of a string property
 that was written

---
 mqtt/packets/primitives/string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/primitives/string.go b/mqtt/packets/primitives/string.go
index a626232..4a847e7 100644
--- a/mqtt/packets/primitives/string.go
+++ b/mqtt/packets/primitives/string.go
@@ -59,11 +59,11 @@ func (p *PrimitiveString) WriteToAsProperty(identifier byte, w io.Writer) (n int
 	if _, err = w.Write([]byte{identifier}); err != nil {
 		return 0, err
 	}
-	n++
 
 	if n, err = p.WriteTo(w); err != nil {
 		return 0, err
 	}
+	n++
 
 	return
 }
-- 
2.43.0


From cf0ea6f6a7c908501ed26c9ee5bcb451ea4a523b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 24/29] fix: read the whole payload of a publish whose fixed
 header is longer than two bytes

---
 mqtt/packets/publish.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mqtt/packets/publish.go b/mqtt/packets/publish.go
index a8bc3dd..1543a2d 100644
--- a/mqtt/packets/publish.go
+++ b/mqtt/packets/publish.go
@@ -95,7 +95,7 @@ func (p *Publish) ReadFrom(r io.Reader) (n int64, err error) {
 			return
 		}
 		n += count
-		offset = 2
+		offset = count
 	}
 
 	// Parse flags
-- 
2.43.0


From d1b0f53b7f18f4dc18e67e856b02e1b9b2749460 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 25/29] fix: write DISCONNECT with its reason string and server
 reference, and count long properties

---
 mqtt/packets/disconnect.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mqtt/packets/disconnect.go b/mqtt/packets/disconnect.go
index edeccf9..06f6b59 100644
--- a/mqtt/packets/disconnect.go
+++ b/mqtt/packets/disconnect.go
@@ -122,7 +122,7 @@ func (d *Disconnect) ReadFrom(r io.Reader) (n int64, err error) {
 }
 
 func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
-	variableHeaderLen := primitives.VariableByteInt(2) // Account for reason code and properties length var
+	variableHeaderLen := primitives.VariableByteInt(1) // Account for reason code
 	propertiesLen := primitives.VariableByteInt(0)
 
 	// Calculate properties length
@@ -130,6 +130,10 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.SessionExpiryInterval.Length(true)
 	}
 
+	if len(d.ReasonString) > 0 {
+		propertiesLen += d.ReasonString.Length(true)
+	}
+
 	for k, v := range d.UserProperties {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
@@ -138,7 +142,7 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += d.ServerReference.Length(true)
 	}
 
-	variableHeaderLen += propertiesLen
+	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
 
 	// Write fixed header
 	d.Header.SetType(DISCONNECT)
@@ -194,6 +198,14 @@ func (d *Disconnect) WriteTo(w io.Writer) (n int64, err error) {
 		}
 		n += count
 	}
+
+	// Server reference
+	if len(d.ServerReference) > 0 {
+		if count, err = d.ServerReference.WriteToAsProperty(0x1C, w); err != nil {
+			return 0, err
+		}
+		n += count
+	}
 	/* Properties end */
 
 	return
-- 
2.43.0


From 6596d7573c21efd47923370ac74e20e67863cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 22:28:56 +0000
Subject: [PATCH 26/29] fix: write AUTH with its reason code and property
 length

---
 mqtt/packets/auth.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/mqtt/packets/auth.go b/mqtt/packets/auth.go
index 17f2bef..21c06f7 100644
--- a/mqtt/packets/auth.go
+++ b/mqtt/packets/auth.go
@@ -123,13 +123,12 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 	variableHeaderLen := primitives.VariableByteInt(0)
 	propertiesLen := primitives.VariableByteInt(0)
 
-	// Calculate remaining length
-	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
-	//       Properties. In this case the AUTH has a Remaining Length of 0.
-	if a.AuthenticateReasonCode != 0 {
-		variableHeaderLen++
+	// SPEC: It is a Protocol Error to include Authentication Data if there is no Authentication Method.
+	if len(a.AuthenticationData) > 0 && len(a.AuthenticationMethod) == 0 {
+		return 0, ErrControlPacketIsMalformed
 	}
 
+	// Calculate length of properties
 	if len(a.AuthenticationMethod) > 0 {
 		l := primitives.VariableByteInt(len(a.AuthenticationMethod))
 		propertiesLen += 3 + l
@@ -149,7 +148,11 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		propertiesLen += 1 + k.Length(false) + v.Length(false)
 	}
 
-	variableHeaderLen += propertiesLen
+	// SPEC: The Reason Code and Property Length can be omitted if the Reason Code is 0x00 (Success) and there are no
+	//       Properties. In this case the AUTH has a Remaining Length of 0.
+	if a.AuthenticateReasonCode != 0 || propertiesLen != 0 {
+		variableHeaderLen += a.AuthenticateReasonCode.Length(false) + propertiesLen.Length(false) + propertiesLen
+	}
 
 	a.Header.SetType(AUTH)
 	a.Header.Remaining = variableHeaderLen
@@ -159,13 +162,29 @@ func (a *Auth) WriteTo(w io.Writer) (n int64, err error) {
 		return 0, err
 	}
 
+	if variableHeaderLen == 0 {
+		return
+	}
+
+	if count, err = a.AuthenticateReasonCode.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	/* Properties begin */
+	if count, err = propertiesLen.WriteTo(w); err != nil {
+		return 0, err
+	}
+	n += count
+
 	if len(a.AuthenticationMethod) > 0 {
 		if count, err = a.AuthenticationMethod.WriteToAsProperty(0x15, w); err != nil {
 			return 0, err
 		}
 		n += count
+	}
 
+	if len(a.AuthenticationData) > 0 {
 		if count, err = a.AuthenticationData.WriteToAsProperty(0x16, w); err != nil {
 			return 0, err
 		}
-- 
2.43.0


From 5b9691269cc4c31cf8a26318c7915e4279bfe3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:33 +0000
Subject: [PATCH 27/29] fix: report why the connection ended even if closing it
 fails

---
 mqtt/client.go | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index eedd0f2..116c6df 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -312,11 +312,6 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// SPEC: If a Server sends a CONNACK packet containing a Reason code of 128 or greater it MUST then close the
 	//       Network Connection [MQTT-3.2.2-7].
 	if connack.ReasonCode >= 128 {
-		// Close the connection
-		if err = c.conn.Close(); err != nil {
-			return
-		}
-
 		// Error the ACK as the error
 		return ReasonCode(connack.ReasonCode)
 	}
@@ -480,9 +475,8 @@ func (c *Client) disconnectWithReason(ctx context.Context, reason primitives.Pri
 	// Close the connection to the server
 	// SPEC: MUST NOT send any more MQTT Control Packets on that Network Connection [MQTT-3.14.4-1].
 	//       MUST close the Network Connection [MQTT-3.14.4-2].
-	if err = c.closeConnection(); err != nil {
-		return
-	}
+	// NOTE: The connection is over even if closing it fails.
+	c.closeConnection()
 
 	// Signal disconnect
 	c.signal(packets.DISCONNECT, disconnect)
@@ -1077,9 +1071,7 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	if c.keepAliveInterval > 0 && time.Now().After(c.pingRespDeadline) {
 		// Likely disconnected from server. Close the connection.
 		// SPEC: [MQTT-3.1.2-22]
-		if err := c.closeConnection(); err != nil {
-			return err
-		}
+		c.closeConnection()
 
 		// Return keep alive timeout error
 		return ReasonCode(0x8D)
@@ -1329,10 +1321,8 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 		if err = c.readPacket(header, disconnect); err != nil {
 			return
 		}
-		// Close the connection
-		if err = c.closeConnection(); err != nil {
-			return
-		}
+		// Close the connection. It is over even if that fails.
+		c.closeConnection()
 		c.signal(packets.DISCONNECT, disconnect)
 	case packets.AUTH:
 		auth := &packets.Auth{Header: header}
-- 
2.43.0


From 036ee574f624318302fa51e35a1834c8c1929ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 28/29] fix: let the server turn keep alive off

---
 mqtt/client.go          | 2 +-
 mqtt/packets/connack.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/mqtt/client.go b/mqtt/client.go
index 116c6df..9aa9a5b 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -319,7 +319,7 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	c.mutex.Lock()
 
 	// Handle server keep alive specification
-	if connack.ServerKeepAlive > 0 {
+	if connack.HasServerKeepAlive {
 		// Use the keep alive interval returned by the server
 		// SPEC: If the Server returns a Server Keep Alive on the CONNACK packet, the Client MUST use that value instead
 		//       of the value it sent as the Keep Alive. [MQTT-3.1.2-21]
diff --git a/mqtt/packets/connack.go b/mqtt/packets/connack.go
index daf39a3..294b90c 100644
--- a/mqtt/packets/connack.go
+++ b/mqtt/packets/connack.go
@@ -50,6 +50,7 @@ type Connack struct {
 	SubscriptionIdentifiers primitives.PrimitiveByte
 	SharedSubscriptions     primitives.PrimitiveByte
 	ServerKeepAlive         primitives.PrimitiveUint16
+	HasServerKeepAlive      bool // The server can also turn keep alive off (0)
 	ResponseInformation     primitives.PrimitiveString
 	ServerReference         primitives.PrimitiveString
 	AuthenticationMethod    primitives.PrimitiveString
@@ -161,6 +162,7 @@ func (c *Connack) ReadFrom(r io.Reader) (n int64, err error) {
 			if count, err = c.ServerKeepAlive.ReadFrom(r); err != nil {
 				return 0, err
 			}
+			c.HasServerKeepAlive = true
 		case 0x1A: // Response Information
 			if count, err = c.ResponseInformation.ReadFrom(r); err != nil {
 				return 0, err
-- 
2.43.0


From ec9f2bbb884b19dabebeb8a0f4adea1542b58c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:51 +0000
Subject: [PATCH 29/29] fix: restore the topic of messages that carry a topic
 alias

---
 mqtt/client.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/mqtt/client.go b/mqtt/client.go
index 9aa9a5b..b943f9d 100644
--- a/mqtt/client.go
+++ b/mqtt/client.go
@@ -74,6 +74,10 @@ type Client struct {
 
 	sessionPresent bool
 
+	// topicAliases holds the topic names that the server has replaced by a topic alias
+	topicAliases      map[uint16]primitives.PrimitiveString
+	topicAliasMaximum uint16
+
 	evChanIdCounter int
 	eventMutex      sync.Mutex
 
@@ -363,6 +367,10 @@ func (c *Client) Connect(ctx context.Context, packet *packets.Connect) (err erro
 	// Publishes that were received on an earlier connection only matter if the server has kept the session
 	c.sessionPresent = connack.SessionPresent
 
+	// Topic aliases only exist within one network connection
+	c.topicAliases = make(map[uint16]primitives.PrimitiveString)
+	c.topicAliasMaximum = packet.TopicAliasMaximum.Value()
+
 	// Successful connection!
 	c.closed = make(chan struct{})
 	c.isConnected.Store(true)
@@ -1128,6 +1136,11 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 			return
 		}
 
+		if err = c.resolveTopicAlias(publish); err != nil {
+			c.closeConnection()
+			return
+		}
+
 		c.mutex.Lock()
 
 		// SPEC: Until it has received the corresponding PUBREL packet, the receiver MUST acknowledge any subsequent
@@ -1349,6 +1362,33 @@ func (c *Client) Poll(ctx context.Context) (err error) {
 	return err
 }
 
+// resolveTopicAlias sets the topic of a received publish that only carries the alias of it. The caller must hold connMutex.
+func (c *Client) resolveTopicAlias(publish *packets.Publish) error {
+	alias := publish.TopicAlias.Value()
+	if alias == 0 {
+		// SPEC: It is a Protocol Error if the Topic Name is zero length and there is no Topic Alias.
+		if len(publish.Topic) == 0 {
+			return packets.ErrControlPacketIsMalformed
+		}
+		return nil
+	}
+
+	// SPEC: The Server MUST NOT send a Topic Alias in a PUBLISH packet to the Client greater than Topic Alias Maximum
+	//       [MQTT-3.1.2-26].
+	if alias > c.topicAliasMaximum {
+		return ReasonCode(0x94)
+	}
+
+	if len(publish.Topic) > 0 {
+		c.topicAliases[alias] = publish.Topic
+	} else if topic, ok := c.topicAliases[alias]; ok {
+		publish.Topic = topic
+	} else {
+		return ReasonCode(0x94)
+	}
+	return nil
+}
+
 // matchTopic returns true if the input topic string matches the topic filter string. Otherwise, it returns false.
 func (c *Client) matchTopic(topic, filter string) bool {
 	// SPEC: A Shared Subscription's Topic Filter has the form $share/{ShareName}/{filter}.
-- 
2.43.0

