From 5714bbc19cb96cc799df9f4c3f89fa20650dfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 01/68] fix: encode 32 bit element segments with the 32 bit
 segment type and agree on their length

---
 cip_definitions.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index 17f3279..cf56d77 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -112,7 +112,7 @@ func (p CIPElement) Bytes() []byte {
 	} else {
 
 		b := make([]byte, 6)
-		b[0] = byte(cipElement_16bit)
+		b[0] = byte(cipElement_32bit)
 		binary.LittleEndian.PutUint32(b[2:], uint32(p))
 		return b
 	}
@@ -121,7 +121,7 @@ func (p CIPElement) Bytes() []byte {
 func (p CIPElement) Len() int {
 	if p < 256 {
 		return 2
-	} else if p < 65535 {
+	} else if p < 65536 {
 		return 4
 	}
 	return 6
-- 
2.43.0


From a9bb1a9a466158a35a4d76a8159928e905ae1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:27 +0000
Subject: [PATCH 02/68] fix: a string longer than its 84 byte slot no longer
 claims more bytes than the slot carries

---
 items.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/items.go b/items.go
index e628b49..f748d59 100644
--- a/items.go
+++ b/items.go
@@ -215,15 +215,16 @@ func (item *CIPItem) Serialize(strs ...any) error {
 	for _, str := range strs {
 		switch x := str.(type) {
 		case string:
+			// The LEN header must never claim more than the 84 bytes of the
+			// payload, which is truncated by copy() below.
 			strLen := uint32(len(x))
+			if strLen > 84 {
+				strLen = 84
+			}
 			err := binary.Write(item, binary.LittleEndian, strLen)
 			if err != nil {
 				return fmt.Errorf("problem writing string header: %v", err)
 			}
-			if strLen%2 == 1 {
-				strLen++
-			}
-			//b := make([]byte, strLen)
 			b := make([]byte, 84)
 			copy(b, x)
 			err = binary.Write(item, binary.LittleEndian, b)
@@ -247,11 +248,7 @@ func (item *CIPItem) Serialize(strs ...any) error {
 				// receiver never sees a header claiming more bytes than
 				// the slot actually carries. copy() below truncates the
 				// payload to 84 bytes; without clamping the header a
-				// >84-byte input would desync the receiver. This is
-				// stricter than the single-string case above, which
-				// writes the raw len(s) into the LEN header even when
-				// the payload gets truncated — out of scope to change
-				// here.
+				// >84-byte input would desync the receiver.
 				strLen := uint32(len(s))
 				if strLen > 84 {
 					strLen = 84
-- 
2.43.0


From 3e2260fac06536c66e064cbb29f5f70f742d6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 03/68] fix: refuse to build packets whose items or payload do
 not fit their 16 bit length fields

---
 items.go       | 7 +++++++
 sendreceive.go | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/items.go b/items.go
index f748d59..688a37a 100644
--- a/items.go
+++ b/items.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io"
+	"math"
 )
 
 type CIPItemID uint16
@@ -287,6 +288,9 @@ func (item *CIPItem) DeSerialize(str any) error {
 }
 
 func (item *CIPItem) Bytes() ([]byte, error) {
+	if len(item.Data) > math.MaxUint16 {
+		return nil, fmt.Errorf("item data is %d bytes, more than the %d an item can hold", len(item.Data), math.MaxUint16)
+	}
 	b := bytes.Buffer{}
 	err := binary.Write(&b, binary.LittleEndian, item.Header)
 	if err != nil {
@@ -346,6 +350,9 @@ type cipItemsHeader struct {
 //	...  repeat for all items...
 func serializeItems(items []CIPItem) (*[]byte, error) {
 
+	if len(items) > math.MaxUint16 {
+		return nil, fmt.Errorf("%d items are more than the %d an item list can hold", len(items), math.MaxUint16)
+	}
 	b := new(bytes.Buffer)
 
 	item_hdr := cipItemsHeader{
diff --git a/sendreceive.go b/sendreceive.go
index ad1efd2..1c15bf3 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 )
 
@@ -23,6 +24,9 @@ func (client *Client) sendMsgBuild(cmd CIPCommand, msgs ...any) ([]byte, error)
 	for _, msg := range msgs {
 		messageLen += binary.Size(msg)
 	}
+	if messageLen > math.MaxUint16 {
+		return nil, fmt.Errorf("message is %d bytes, more than the %d a packet can hold", messageLen, math.MaxUint16)
+	}
 	// build header based on size
 	hdr := client.newEIPHeader(cmd, messageLen)
 
-- 
2.43.0


From a9afebf83a6fed0a7178b1625defc36be0d6d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:50 +0000
Subject: [PATCH 04/68] fix: bits of SINT values can be read and bits a type
 does not have are refused

---
 types.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index 75730d6..bcc2223 100644
--- a/types.go
+++ b/types.go
@@ -336,9 +336,9 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 		}
 	case CIPTypeSINT:
 		if bitpos >= 0 && bitpos < 8 {
-			x, ok := v.(byte)
+			x, ok := v.(int8)
 			if ok {
-				mask := byte(1 << bitpos)
+				mask := int8(1 << bitpos)
 				masked := x & mask
 				return masked != 0, nil
 			}
@@ -448,5 +448,5 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 	if err != nil {
 		return false, err
 	}
-	return false, err
+	return false, fmt.Errorf("bit %d requested of a %s, which does not have it", bitpos, t)
 }
-- 
2.43.0


From 3e79970337ca992c98d46ab3fd7d0cbdb5e1d494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 05/68] fix: tag names whose parts or indexes cannot be encoded
 are refused

---
 ioi.go | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/ioi.go b/ioi.go
index 0ae72ff..6f5a14e 100644
--- a/ioi.go
+++ b/ioi.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"regexp"
 	"strconv"
 	"strings"
@@ -51,7 +52,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 			parts := strings.Split(arr_access_text, ",")
 			tag.Array_Order = make([]int, len(parts))
 			for i, part := range parts {
-				tag.Array_Order[i], err = strconv.Atoi(part)
+				tag.Array_Order[i], err = strconv.Atoi(strings.TrimSpace(part))
 				if err != nil {
 					return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 				}
@@ -59,7 +60,7 @@ func (tag *tagPartDescriptor) Parse(tagpath string) error {
 
 		} else {
 			tag.Array_Order = make([]int, 1)
-			tag.Array_Order[0], err = strconv.Atoi(arr_access_text)
+			tag.Array_Order[0], err = strconv.Atoi(strings.TrimSpace(arr_access_text))
 			if err != nil {
 				return fmt.Errorf("could't parse %v to an array position. %w", arr_access_text, err)
 			}
@@ -146,10 +147,13 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 	// we'll build this byte structure up as we go.
 	ioi.Buffer = make([]byte, 0, defaultIOIBufferSize)
 
-	for _, tag_part := range tag_array {
+	for i, tag_part := range tag_array {
 		if strings.HasSuffix(tag_part, "]") {
 			// part of an array
 			start_index := strings.Index(tag_part, "[")
+			if start_index < 0 || strings.LastIndex(tag_part, "[") != start_index {
+				return nil, fmt.Errorf("tag %v does not have exactly one [ for the ] in %v", tagpath, tag_part)
+			}
 			ioi_part, err := marshalIOIPart(tag_part[0:start_index])
 			if err != nil {
 				return nil, err
@@ -162,11 +166,16 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 
 			t, err := parse_tag_name(tag_part)
 			if err != nil {
-				client.Logger.Warn("problem parsing path", "error", err)
+				return nil, fmt.Errorf("problem parsing path: %w", err)
+			}
+			if len(t.Array_Order) == 0 {
+				return nil, fmt.Errorf("tag %v has an invalid array index in %v", tagpath, tag_part)
 			}
 
 			for _, order_size := range t.Array_Order {
-				if order_size < 256 {
+				if order_size < 0 || int64(order_size) > math.MaxUint32 {
+					return nil, fmt.Errorf("tag %v has array index %d, which is out of range", tagpath, order_size)
+				} else if order_size < 256 {
 					// byte, byte
 					index_part := []byte{byte(cipElement_8bit), byte(order_size)}
 					err = binary.Write(ioi, binary.LittleEndian, index_part)
@@ -198,7 +207,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 		} else {
 			// not part of an array
 			bit_access, err := strconv.Atoi(tag_part)
-			if err == nil && bit_access <= 31 {
+			if err == nil {
+				if i == 0 || i != len(tag_array)-1 || bit_access < 0 || bit_access > 63 {
+					return nil, fmt.Errorf("tag %v has an invalid bit access %v", tagpath, tag_part)
+				}
 				// This is a bit access.
 				// we won't do anything for now and will just parse the
 				// bit out of the word when that time comes.
@@ -224,11 +236,10 @@ func (client *Client) newIOI(tagpath string, datatype CIPType) (ioi *tagIOI, err
 }
 
 func marshalIOIPart(tagpath string) ([]byte, error) {
-	t, err := parse_tag_name(tagpath)
-	if err != nil {
-		return nil, fmt.Errorf("could not parse tag path: %w", err)
+	tag_size := len(tagpath)
+	if tag_size == 0 || tag_size > math.MaxUint8 {
+		return nil, fmt.Errorf("tag name %q must have 1 to %d characters", tagpath, math.MaxUint8)
 	}
-	tag_size := len(t.BasePath)
 	need_extend := false
 	if tag_size%2 == 1 {
 		need_extend = true
@@ -236,7 +247,7 @@ func marshalIOIPart(tagpath string) ([]byte, error) {
 	}
 
 	tag_name_header := [2]byte{byte(segmentTypeExtendedSymbolic), byte(tag_size)}
-	tag_name_msg := append(tag_name_header[:], []byte(t.BasePath)...)
+	tag_name_msg := append(tag_name_header[:], []byte(tagpath)...)
 	// has to be an even number of bytes.
 	if need_extend {
 		tag_name_msg = append(tag_name_msg, []byte{0x00}...)
-- 
2.43.0


From b67c77f093d82aa8c5c9bfaeca6d7b51d706134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:43 +0000
Subject: [PATCH 06/68] fix: server reads a tag path of the announced length,
 with 32 bit indexes and none before a name

---
 ioi.go                | 60 +++++++++++++++++++++++++++++++++++++------
 server_connected.go   | 10 ++++----
 server_unconnected.go | 16 ++++++------
 3 files changed, 65 insertions(+), 21 deletions(-)

diff --git a/ioi.go b/ioi.go
index 6f5a14e..c67ddb7 100644
--- a/ioi.go
+++ b/ioi.go
@@ -278,6 +278,36 @@ func getAsciiTagPart(item *CIPItem) (string, error) {
 	tag_str := string(b)
 	return tag_str, nil
 }
+
+// readTagPath reads a tag path of the given number of 16 bit words, leaving the item at what follows it
+func readTagPath(item *CIPItem, words byte) (string, error) {
+	n := int(words) * 2
+	if n > len(item.Data)-item.Pos {
+		return "", fmt.Errorf("tag path of %d bytes does not fit in the item", n)
+	}
+	path := CIPItem{Header: item.Header, Data: item.Data[item.Pos : item.Pos+n]}
+	tag, err := getTagFromPath(&path)
+	if err != nil {
+		return "", err
+	}
+	if path.Pos != n {
+		return "", fmt.Errorf("tag path has an unknown segment at byte %d", path.Pos)
+	}
+	item.Pos += n
+	return tag, nil
+}
+
+// addIndexToTag appends one array index to the tag read so far
+func addIndexToTag(tag_str string, array_index uint32) (string, error) {
+	if tag_str == "" {
+		return "", errors.New("tag path starts with an array index")
+	}
+	if tag_str[len(tag_str)-1] == ']' {
+		return fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index), nil
+	}
+	return fmt.Sprintf("%s[%d]", tag_str, array_index), nil
+}
+
 func getTagFromPath(item *CIPItem) (string, error) {
 
 	tag_str := ""
@@ -302,10 +332,9 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			tag_str, err = addIndexToTag(tag_str, uint32(array_index))
+			if err != nil {
+				return "", err
 			}
 		case 0x29:
 			// two byte index
@@ -319,10 +348,25 @@ morepath:
 			if err != nil {
 				return "", fmt.Errorf("couldn't get array index: %w", err)
 			}
-			if tag_str[len(tag_str)-1] == ']' {
-				tag_str = fmt.Sprintf("%s,%d]", tag_str[:len(tag_str)-1], array_index)
-			} else {
-				tag_str = fmt.Sprintf("%s[%d]", tag_str, array_index)
+			tag_str, err = addIndexToTag(tag_str, uint32(array_index))
+			if err != nil {
+				return "", err
+			}
+		case 0x2A:
+			// four byte index
+			var pad byte
+			err = item.DeSerialize(&pad)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get padding: %w", err)
+			}
+			var array_index uint32
+			err = item.DeSerialize(&array_index)
+			if err != nil {
+				return "", fmt.Errorf("couldn't get array index: %w", err)
+			}
+			tag_str, err = addIndexToTag(tag_str, array_index)
+			if err != nil {
+				return "", err
 			}
 		case 0x91:
 			// ascii portion of tag path
diff --git a/server_connected.go b/server_connected.go
index 4e500c9..cda8150 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -14,7 +14,7 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 		return fmt.Errorf("problem deserializing item length %w", err)
 	}
 
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item, l)
 	if err != nil {
 		return fmt.Errorf("problem deserializing tag bytes %w", err)
 	}
@@ -132,12 +132,12 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("problem getting service req payload size for item %d: %w", i, err)
 		}
-		_ = svcReqSize // don't need this yet.  It is in 16 bit words.
+		// the path size is in 16 bit words.
 
 		switch svc {
 		case CIPService_FragRead,
 			CIPService_Read:
-			tagname, err := getTagFromPath(&item)
+			tagname, err := readTagPath(&item, svcReqSize)
 			if err != nil {
 				return fmt.Errorf("problem getting multiread tagname for item %d: %w", i, err)
 			}
@@ -188,7 +188,7 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 		case CIPService_Write,
 			CIPService_FragWrite:
 
-			tag, err := getTagFromPath(&item)
+			tag, err := readTagPath(&item, svcReqSize)
 			if err != nil {
 				return fmt.Errorf("problem deserializing tag bytes %w", err)
 			}
@@ -287,7 +287,7 @@ func (h *serverTCPHandler) connectedRead(reqSvc CIPService, items []CIPItem) err
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("error getting path len: %w / %v", err, err2)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item, byte(pathlen>>8)) // the low byte is the service
 	if err != nil {
 		err2 := h.sendConnectedError(reqSvc, seq, connection.TO, CIPStatus_InvalidParameter, 0)
 		return fmt.Errorf("couldn't parse path: %w / %v", err, err2)
diff --git a/server_unconnected.go b/server_unconnected.go
index 2e674fa..6fbc644 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -334,12 +334,12 @@ func buildIdentityGetAttributesAllResponse(attrs map[CIPAttribute]any) ([]byte,
 }
 
 func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
+	var tag_path_size byte // in words
+	err := item.DeSerialize(&tag_path_size)
 	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
+		return fmt.Errorf("error getting tag path size. %w", err)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item, tag_path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
@@ -575,12 +575,12 @@ func (h *serverTCPHandler) resolveSymbolicTagFromCustomClass(instance uint16) (s
 }
 
 func (h *serverTCPHandler) unconnectedServiceRead(item CIPItem) error {
-	var reserved byte
-	err := item.DeSerialize(&reserved)
+	var tag_path_size byte // in words
+	err := item.DeSerialize(&tag_path_size)
 	if err != nil {
-		return fmt.Errorf("error getting reserved byte. %w", err)
+		return fmt.Errorf("error getting tag path size. %w", err)
 	}
-	tag, err := getTagFromPath(&item)
+	tag, err := readTagPath(&item, tag_path_size)
 	if err != nil {
 		return fmt.Errorf("couldn't parse path. %w", err)
 	}
-- 
2.43.0


From 12479d0718f842aa0c8516b750f024af0fda3ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 07/68] fix: replies without two items are errors instead of
 panics

---
 items.go       | 12 ++++++++++++
 listalltags.go |  2 +-
 listsubtags.go |  2 +-
 write.go       |  4 ++--
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/items.go b/items.go
index 688a37a..c9f630c 100644
--- a/items.go
+++ b/items.go
@@ -50,6 +50,18 @@ func readItems(r io.Reader) ([]CIPItem, error) {
 	return items, nil
 }
 
+// readReplyItems reads the items of a reply, which has its data in the second item.
+func readReplyItems(r io.Reader) ([]CIPItem, error) {
+	items, err := readItems(r)
+	if err != nil {
+		return nil, err
+	}
+	if len(items) != 2 {
+		return nil, fmt.Errorf("expected a reply of 2 items but got %d", len(items))
+	}
+	return items, nil
+}
+
 // The CIPItem is one of the core abstractions this library uses.
 //
 // When a response comes back from the controller it is structured in a CIPItem which can then
diff --git a/listalltags.go b/listalltags.go
index 9df6b54..60ede2d 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -199,7 +199,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		return fmt.Errorf("problem getting padding bytes. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/listsubtags.go b/listsubtags.go
index a60d505..85def63 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -72,7 +72,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		return nil, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return new_kts, fmt.Errorf("couldn't parse items. %w", err)
 	}
diff --git a/write.go b/write.go
index 72d2f70..0a06505 100644
--- a/write.go
+++ b/write.go
@@ -192,7 +192,7 @@ func (client *Client) write_udt(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
@@ -281,7 +281,7 @@ func (client *Client) write_single(tag string, value any) error {
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return fmt.Errorf("problem reading items from write, %w", err)
 	}
-- 
2.43.0


From 18020b6330462c4ee0ff00f0e32a64e12dff08cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:35 +0000
Subject: [PATCH 08/68] fix: GetAttr: replies without two items and bad
 statuses of GetAttrSingle are errors

---
 getattr.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/getattr.go b/getattr.go
index bf1e9ac..d422df7 100644
--- a/getattr.go
+++ b/getattr.go
@@ -146,7 +146,7 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -157,6 +157,9 @@ func (client *Client) GetAttrSingle(class CIPClass, instance CIPInstance, attr C
 	if err != nil {
 		return nil, fmt.Errorf("couldn't read response header. %w", err)
 	}
+	if resphdr.Status != uint16(CIPStatus_OK) {
+		return nil, fmt.Errorf("response header has status 0x%X (%v)", resphdr.Status, CIPStatus(resphdr.Status))
+	}
 	//dat := make([]byte, hdr.Length-26)
 	//items[1].DeSerialize(&dat)
 	return &items[1], nil
@@ -291,7 +294,7 @@ func (client *Client) GetAttrList(class CIPClass, instance CIPInstance, attrs ..
 		client.Logger.Warn("Problem reading read result header.", "error", err)
 		return nil, err
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		client.Logger.Warn("Problem reading items.", "error", err)
 		return nil, err
@@ -456,7 +459,7 @@ func (client *Client) GenericCIPMessage(service CIPService, path, msg_data []byt
 	if err != nil {
 		return nil, fmt.Errorf("problpm reading read result header: %w", err)
 	}
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items: %w", err)
 	}
-- 
2.43.0


From 5cb895ae610bcbe99f7eae2e9709e5e64d5b25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:37 +0000
Subject: [PATCH 09/68] fix: connect: refused sessions and forward open replies
 without two items are errors

---
 connect.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/connect.go b/connect.go
index 83ca1b4..e7a0a59 100644
--- a/connect.go
+++ b/connect.go
@@ -187,6 +187,9 @@ func (client *Client) registerSession() error {
 		client.Logger.Error(msg, slog.Any("err", err))
 		return fmt.Errorf("%s: %w", msg, err)
 	}
+	if header.Status != 0 {
+		return fmt.Errorf("register session failed. status: %v", header.Status)
+	}
 	client.SessionHandle = header.SessionHandle
 	client.Logger.Info("Session connected", slog.Any("sessionHandle", client.SessionHandle))
 	return nil
@@ -569,7 +572,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("problem reading items header from forward open request. %w", err)
 	}
 
-	items, err := readItems(data)
+	items, err := readReplyItems(data)
 	if err != nil {
 		return nil, fmt.Errorf("problem reading items from forward open request. %w", err)
 	}
@@ -580,7 +583,7 @@ func (client *Client) parseResponse(header *eipHeader, data *bytes.Buffer) ([]CI
 		return nil, fmt.Errorf("error deserializing forward open response header. %w", err)
 	}
 
-	extended_status := make([]byte, respHeader.StatusLen*2)
+	extended_status := make([]byte, int(respHeader.StatusLen)*2)
 	if respHeader.StatusLen != 0 {
 		err = items[1].DeSerialize(&extended_status)
 		if err != nil {
-- 
2.43.0


From 539c397416827bdfe1088cc72ace2213333fed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:40 +0000
Subject: [PATCH 10/68] fix: ListMembers: malformed templates and templates
 that contain themselves do not crash the client

---
 listmembers.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/listmembers.go b/listmembers.go
index 914a954..5c4d9bb 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"slices"
 	"strings"
 )
 
@@ -115,7 +116,7 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("problem reading padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return msgGetTemplateAttrListResponse{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
@@ -152,8 +153,18 @@ func (m msgMemberInfo) CIPType() CIPType {
 // exactly, but V32 it works and V20 it does not.  I suspect v24 or v28 since they were pretty substantial
 // changes, but v21 could also be the version since that is the swap from rslogix to studio
 func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
+	return client.listMembers(str_instance, nil)
+}
+
+// listMembers reads a template that is a member of the templates in parents.
+func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDescriptor, error) {
 	client.Logger.Debug("list members", "instance", str_instance)
 
+	if slices.Contains(parents, str_instance) {
+		return UDTDescriptor{}, fmt.Errorf("template %d contains itself", str_instance)
+	}
+	parents = append(parents, str_instance)
+
 	d, ok := client.KnownTypesByID[str_instance]
 	if ok {
 		return d, nil
@@ -219,7 +230,7 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read padding. %w", err)
 	}
 
-	resp_items, err := readItems(data)
+	resp_items, err := readReplyItems(data)
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't parse items. %w", err)
 	}
@@ -249,10 +260,8 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read struct name. %w", err)
 	}
 
-	if strings.Contains(struct_name, ";") {
-		struct_name = strings.Split(struct_name, ";")[0]
-	}
-	struct_name = struct_name[:len(struct_name)-1]
+	struct_name = strings.TrimSuffix(struct_name, "\x00")
+	struct_name, _, _ = strings.Cut(struct_name, ";")
 	descriptor.Name = struct_name
 
 	for i := 0; i < int(template_info.MemberCount); i++ {
@@ -261,14 +270,14 @@ func (client *Client) ListMembers(str_instance uint32) (UDTDescriptor, error) {
 		if err != nil && fieldname == "" {
 			return UDTDescriptor{}, fmt.Errorf("couldn't read field name. %w", err)
 		}
-		fieldname = fieldname[:len(fieldname)-1]
+		fieldname = strings.TrimSuffix(fieldname, "\x00")
 
 		descriptor.Members[i].Name = fieldname
 		descriptor.Members[i].Info = memberInfos[i]
 		id := descriptor.Members[i].Template_ID()
 		if id != 0 {
 			// this is a UDT
-			d2, err := client.ListMembers(uint32(descriptor.Members[i].Template_ID()))
+			d2, err := client.listMembers(uint32(id), parents)
 			if err == nil {
 				descriptor.Members[i].UDT = &d2
 			} else {
-- 
2.43.0


From 1080548bd5f1a0abcfce2a943e57a94c6783b4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:42 +0000
Subject: [PATCH 11/68] fix: reads: check string lengths, reply counts and
 offsets, empty fragments and tags too big for a message

---
 read.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index d81fc46..f801ff5 100644
--- a/read.go
+++ b/read.go
@@ -488,6 +488,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct header. %w", err)
 				}
+				if uint64(str_hdr.Length) > uint64(len(items[1].Rest())) {
+					return nil, fmt.Errorf("string of %d bytes is longer than the reply", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = items[1].DeSerialize(&str)
 				if err != nil {
@@ -508,6 +511,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string of %d bytes in a slot of %d", str_hdr.Length, len(str))
+				}
 				response[i] = str[:str_hdr.Length]
 			}
 			return response, nil
@@ -828,6 +834,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
 		if totalMsgSize > int(client.ConnectionSize) {
+			if i == 0 {
+				return nil, fmt.Errorf("reading %v does not fit a message of %d bytes", tags[i].TagName, client.ConnectionSize)
+			}
 			first_part := tags[:i]
 			rest := tags[i:]
 
@@ -909,6 +918,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 		return nil, fmt.Errorf("problem reading reply header item count. %w", err)
 	}
 
+	if int(reply_hdr.Reply_Count) != qty {
+		return nil, fmt.Errorf("asked for %d tags but got %d replies", qty, reply_hdr.Reply_Count)
+	}
+
 	offset_table := make([]uint16, reply_hdr.Reply_Count)
 	err = binary.Read(&rItem, binary.LittleEndian, &offset_table)
 	if err != nil {
@@ -920,7 +933,10 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 	}
 	result_values := make([]interface{}, reply_hdr.Reply_Count)
 	for i := 0; i < int(reply_hdr.Reply_Count); i++ {
-		offset := offset_table[i] + 10 // offset doesn't start at 0 in the item
+		offset := int(offset_table[i]) + 10 // offset doesn't start at 0 in the item
+		if offset > len(rb) {
+			return nil, fmt.Errorf("reply to %v is at %d of %d bytes", tags[i].TagName, offset, len(rb))
+		}
 		myBytes := bytes.NewBuffer(rb[offset:])
 		rHdr := msgMultiReadResult{}
 		err = binary.Read(myBytes, binary.LittleEndian, &rHdr)
@@ -945,8 +961,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				}
 				val, err := getBit(rHdr.Type, value, iois[i].BitPosition)
 				if err != nil {
-					client.Logger.Warn("problem reading value for this guy")
-					continue
+					return nil, fmt.Errorf("problem reading bit of tag %v: %w", tags[i].TagName, err)
 				}
 				result_values[i] = val
 			} else if tags[i].TagType == CIPTypeSTRING {
@@ -955,6 +970,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string struct header. %w", err)
 				}
+				if uint64(str_hdr.Length) > uint64(myBytes.Len()) {
+					return nil, fmt.Errorf("string of %d bytes is longer than the reply", str_hdr.Length)
+				}
 				str := make([]byte, str_hdr.Length)
 				err = binary.Read(myBytes, binary.LittleEndian, str)
 				if err != nil {
@@ -1006,6 +1024,9 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack string data for tag %v element %d: %w", tags[i], respIndex, err)
 				}
+				if str_hdr.Length > uint32(len(str)) {
+					return nil, fmt.Errorf("string of %d bytes in a slot of %d", str_hdr.Length, len(str))
+				}
 				val[respIndex] = string(str[:str_hdr.Length])
 			}
 			result_values[i] = val
@@ -1177,6 +1198,9 @@ func (client *Client) readFragmented(ioi *tagIOI, elements uint16, initialData [
 		if status != byte(CIPStatus_PartialTransfer) {
 			return nil, fmt.Errorf("FragRead at offset %d returned status %v", offset, CIPStatus(status))
 		}
+		if len(fragData) == 0 {
+			return nil, fmt.Errorf("FragRead at offset %d returned no data but announced more", offset)
+		}
 	}
 }
 
-- 
2.43.0


From 38cb7bf17ddea8137bee55ee7935c1822b3670f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:45 +0000
Subject: [PATCH 12/68] fix: WriteMap writes whole slices and checks the status
 of every part of the reply

---
 udt_write.go | 57 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index 593cdb1..b87031e 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -129,9 +129,11 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	// build the tag list from the structure
 	tags := make([]string, 0)
 	types := make([]CIPType, 0)
+	elements := make([]uint16, 0)
 	for k := range tag_str {
-		ct, _ := GoVarToCIPType(tag_str[k])
+		ct, elem := GoVarToCIPType(tag_str[k])
 		types = append(types, ct)
+		elements = append(elements, uint16(elem))
 		tags = append(tags, k)
 	}
 
@@ -171,7 +173,7 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 		}
 		f := msgCIPWriteIOIFooter{
 			DataType: uint16(types[i]),
-			Elements: 1,
+			Elements: elements[i],
 		}
 		//f := msgCIPIOIFooter{
 		//Elements: 1,
@@ -216,9 +218,54 @@ func (client *Client) WriteMap(tag_str map[string]interface{}) error {
 	if err != nil {
 		return err
 	}
-	_ = hdr
-	_ = data
-	//TODO: do something with the result here!
+	if hdr.Status != 0 {
+		return fmt.Errorf("got non-success status %d when writing", hdr.Status)
+	}
+	read_result_header := msgCIPResultHeader{}
+	err = binary.Read(data, binary.LittleEndian, &read_result_header)
+	if err != nil {
+		return fmt.Errorf("problem reading write result header: %w", err)
+	}
+	items, err := readReplyItems(data)
+	if err != nil {
+		return fmt.Errorf("problem reading items from write: %w", err)
+	}
+	return checkMultiWriteReply(&items[1], tags)
+}
 
+// checkMultiWriteReply makes sure that every one of the written tags was accepted.
+func checkMultiWriteReply(item *CIPItem, tags []string) error {
+	var reply_hdr msgWriteResultHeader
+	err := item.DeSerialize(&reply_hdr)
+	if err != nil {
+		return fmt.Errorf("problem deserializing write response header: %w", err)
+	}
+	if reply_hdr.Status != CIPStatus_OK {
+		return fmt.Errorf("multiple write returned status %v", reply_hdr.Status)
+	}
+	table := item.Pos // the offsets count from here
+	count, err := item.Uint16()
+	if err != nil {
+		return fmt.Errorf("problem reading reply count: %w", err)
+	}
+	if int(count) != len(tags) {
+		return fmt.Errorf("wrote %d tags but got %d replies", len(tags), count)
+	}
+	for i, tag := range tags {
+		item.Pos = table + 2 + 2*i
+		offset, err := item.Uint16()
+		if err != nil {
+			return fmt.Errorf("problem reading reply offset for %s: %w", tag, err)
+		}
+		item.Pos = table + int(offset)
+		var part msgUnconnWriteResultHeader
+		err = item.DeSerialize(&part)
+		if err != nil {
+			return fmt.Errorf("problem reading reply for %s: %w", tag, err)
+		}
+		if part.Status != CIPStatus_OK {
+			return fmt.Errorf("writing %s returned status %v", tag, part.Status)
+		}
+	}
 	return nil
 }
-- 
2.43.0


From c18d0344f1a6d3579f5e32d39e63995359d52aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 13/68] fix: lists of bools have the BOOL type

---
 types.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/types.go b/types.go
index bcc2223..fd7c3b3 100644
--- a/types.go
+++ b/types.go
@@ -45,6 +45,8 @@ func GoVarToCIPType(T any) (CIPType, int) {
 		return CIPTypeLREAL, 1
 	case string, *string:
 		return CIPTypeSTRING, 1
+	case []bool:
+		return CIPTypeBOOL, len(x)
 	case []byte:
 		return CIPTypeBYTE, len(x)
 	case []int8:
-- 
2.43.0


From 7f06176f7723e690fc7520194243116b5b72fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 14/68] fix: reads of one element lists work and replies with
 an error status are errors

---
 read.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/read.go b/read.go
index f801ff5..81774fa 100644
--- a/read.go
+++ b/read.go
@@ -367,6 +367,8 @@ func (client *Client) Read(tag string, data any) error {
 			return fmt.Errorf("couldn't parse str data element %w", err)
 		}
 
+	default:
+		return fmt.Errorf("cannot read into a %T", data)
 	}
 
 	return nil
@@ -435,7 +437,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 	if err != nil {
 		return nil, err
 	}
-	_ = hdr
+	if hdr.Status != 0 {
+		return nil, fmt.Errorf("problem reading %s. Status %v", tag, CIPStatus(hdr.Status))
+	}
 
 	read_result_header := msgCIPResultHeader{}
 	err = binary.Read(data, binary.LittleEndian, &read_result_header)
@@ -557,6 +561,9 @@ func (client *Client) Read_single(tag string, datatype CIPType, elements uint16)
 
 func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T, error) {
 	t := make([]T, elements)
+	if elements == 0 {
+		return t, errors.New("no elements to read")
+	}
 	ct, _ := GoVarToCIPType(t[0])
 	val, err := client.Read_single(tag, ct, elements)
 	if err != nil {
@@ -573,8 +580,12 @@ func readArray[T GoLogixTypes](client *Client, tag string, elements uint16) ([]T
 
 	//cast, ok := val.([]T)
 	cast, ok := val.([]any)
+	if elements == 1 {
+		// a single element is not in a list.
+		cast, ok = []any{val}, true
+	}
 	if !ok {
-		return t, fmt.Errorf("couldn't cast array. %w", err)
+		return t, errors.New("couldn't cast array")
 	}
 	for i, v := range cast {
 		if ct == CIPTypeSTRING {
@@ -1227,10 +1238,13 @@ func (client *Client) sendFragReadRequest(ioi *tagIOI, elements uint16, offset u
 		return nil, 0, fmt.Errorf("problem serializing FragRead items: %w", err)
 	}
 
-	_, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
+	hdr, data, err := client.send_recv_data(cipCommandSendUnitData, itemData)
 	if err != nil {
 		return nil, 0, fmt.Errorf("transport: %w", err)
 	}
+	if hdr.Status != 0 {
+		return nil, 0, fmt.Errorf("FragRead status %v", CIPStatus(hdr.Status))
+	}
 
 	var resultHdr msgCIPResultHeader
 	if err := binary.Read(data, binary.LittleEndian, &resultHdr); err != nil {
-- 
2.43.0


From 8e2cf518ae2269ad086ae29a2044100e99e5642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 15/68] fix: unpacking into something other than a structure is
 an error

---
 pack.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack.go b/pack.go
index 01cb4f4..bc3c587 100644
--- a/pack.go
+++ b/pack.go
@@ -283,6 +283,8 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 	case reflect.Struct:
 		// continue on
 
+	default:
+		return 0, fmt.Errorf("cannot unpack a %v", refType)
 	}
 	for i := 0; i < refType.NumField(); i++ {
 		field := refType.Field(i)
-- 
2.43.0


From c3a7be5bc91a4686973f5ff9b6952b160eabda47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 16/68] fix: the jump table counts when batches of reads are
 split to fit the connection

---
 partialread.go | 2 +-
 read.go        | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/partialread.go b/partialread.go
index 3d923f7..95d8d5c 100644
--- a/partialread.go
+++ b/partialread.go
@@ -132,7 +132,7 @@ func (client *Client) countIOIsThatFit(tags []tagDesc) (int, error) {
 
 		// Calculate the size of the data once we add this ioi to the list.
 		newSize := mainhdr_size                                // length of the multi-read header
-		newSize += 2 * n                                       // add in the jump table
+		newSize += 2 * (i + 1)                                 // add in the jump table
 		newSize += b.Len()                                     // everything we have so far
 		newSize += ioihdr_size + len(ioi.Buffer) + ioiftr_size // the new ioi data
 		//newSize += 4                                           // Fudge for alignment if needed
diff --git a/read.go b/read.go
index 81774fa..b283f87 100644
--- a/read.go
+++ b/read.go
@@ -840,8 +840,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 			return nil, fmt.Errorf("problem writing ioi buffer to msg buffer. %w", err)
 		}
 
-		totalMsgSize := b.Len() + SizeOf(h) + SizeOf(f) + 2 // 2 for the jump table entry
-		// TODO: calculate the actual message size, not just the IOI data size.
+		totalMsgSize := SizeOf(ioi_header) + 2*(i+1) + b.Len() // 2 for each jump table entry
 		// TODO: We also need to calculate the response size we expect from the PLC and split
 		//       into multiple messages on that also.
 		if totalMsgSize > int(client.ConnectionSize) {
-- 
2.43.0


From 215a619610c5dd26f21e1ea6c4468396b8e6a82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 17/68] fix: structures in batched reads have the layout of the
 controller

---
 read.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/read.go b/read.go
index b283f87..dbbb3dd 100644
--- a/read.go
+++ b/read.go
@@ -1002,7 +1002,7 @@ func (client *Client) readList(tags []tagDesc) ([]any, error) {
 					continue
 				}
 				x := reflect.New(reflect.TypeOf(tags[i].Struct)).Interface()
-				err = binary.Read(myBytes, binary.LittleEndian, x)
+				_, err = Unpack(myBytes, x)
 				if err != nil {
 					return nil, fmt.Errorf("couldn't unpack struct data. %w", err)
 				}
-- 
2.43.0


From 1e35eba03b08f52ee7e1041ab7ca0277e46ea6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 18/68] fix: ReadMulti stores values in the fields that asked
 for them and reports values of another type

---
 read.go | 56 ++++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/read.go b/read.go
index dbbb3dd..8aea84b 100644
--- a/read.go
+++ b/read.go
@@ -733,8 +733,7 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	T := reflect.TypeOf(tag_str).Elem()
 	vf := reflect.VisibleFields(T)
 	taglist := make([]tagDesc, 0, len(vf))
-	tags := make([]string, 0)
-	tag_map := make(map[string]int)
+	fields := make([]reflect.Value, 0, len(vf))
 	val := reflect.ValueOf(tag_str).Elem()
 	for i := range vf {
 		field := vf[i]
@@ -745,10 +744,16 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		v := val.Field(i).Interface()
+		fieldVal, err := val.FieldByIndexErr(field.Index)
+		if err != nil {
+			return fmt.Errorf("problem with field of tag %v: %w", tagPath, err)
+		}
+		if !fieldVal.CanSet() {
+			return fmt.Errorf("field %v of tag %v can not be set", field.Name, tagPath)
+		}
+		v := fieldVal.Interface()
 		t, elem := GoVarToCIPType(v)
-		tags = append(tags, tagPath)
-		tag_map[tagPath] = i
+		fields = append(fields, fieldVal)
 		taglist = append(taglist, tagDesc{
 			TagName:  tagPath,
 			TagType:  t,
@@ -763,24 +768,39 @@ func (client *Client) ReadMulti(tag_str any, args ...any) error {
 	}
 
 	// now unpack the result values back into the given structure
-	for i, tag := range tags {
-		fieldNo := tag_map[tag]
-		val := result_values[i]
-
-		v := reflect.ValueOf(&tag_str).Elem().Elem().Elem()
+	for i := range fields {
+		err = setField(fields[i], result_values[i])
+		if err != nil {
+			return fmt.Errorf("problem storing tag %v: %w", taglist[i].TagName, err)
+		}
+	}
 
-		fieldVal := v.Field(fieldNo)
+	return nil
+}
 
-		if fieldVal.Type().Kind() != reflect.Slice {
-			fieldVal.Set(reflect.ValueOf(val))
-		} else {
-			l := fieldVal.Len()
-			for j := 0; j < l; j++ {
-				fieldVal.Index(j).Set(reflect.ValueOf(val).Index(j).Elem())
+// setField stores a value that was read, or a list of them for a slice, in the field it was read for.
+func setField(field reflect.Value, value any) error {
+	if field.Kind() == reflect.Slice {
+		list, ok := value.([]any)
+		if !ok {
+			list = []any{value} // lists of one element are read as a single value.
+		}
+		if len(list) != field.Len() {
+			return fmt.Errorf("got %d values for %d elements", len(list), field.Len())
+		}
+		for i := range list {
+			err := setField(field.Index(i), list[i])
+			if err != nil {
+				return err
 			}
 		}
+		return nil
 	}
-
+	v := reflect.ValueOf(value)
+	if !v.IsValid() || !v.Type().AssignableTo(field.Type()) {
+		return fmt.Errorf("type mismatch. got %T but the field is %v", value, field.Type())
+	}
+	field.Set(v)
 	return nil
 }
 
-- 
2.43.0


From 26b0018e1657ec0b0c562a5f696d860925da8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 19/68] fix: WriteMulti writes tagged fields only, and arrays
 too

---
 udt_write.go | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/udt_write.go b/udt_write.go
index b87031e..478e7f2 100644
--- a/udt_write.go
+++ b/udt_write.go
@@ -9,16 +9,23 @@ import (
 
 // convert tagged struct to a map in the format of {"fieldTag": fieldvalue}
 func multi_to_dict(data any) (map[string]interface{}, error) {
-	//TODO: handle nested structs and arrays
 	// convert the struct to a dict of FieldName: FieldValue
 	d := make(map[string]interface{})
 
 	vs := reflect.ValueOf(data)
 	fs := reflect.TypeOf(data)
-	for i := 0; i < vs.NumField(); i++ {
-		v := vs.Field(i)
-		f := fs.Field(i)
+	for _, f := range reflect.VisibleFields(fs) {
 		fulltag := f.Tag.Get("gologix")
+		if fulltag == "" {
+			continue // not a field of a tag
+		}
+		if !f.IsExported() {
+			return nil, fmt.Errorf("field %s of tag %s is not exported", f.Name, fulltag)
+		}
+		v, err := vs.FieldByIndexErr(f.Index)
+		if err != nil {
+			return nil, fmt.Errorf("problem with field of tag %s: %w", fulltag, err)
+		}
 		switch v.Kind() {
 		case reflect.Struct:
 			d2, err := udt_to_dict(fulltag, v.Interface())
@@ -29,7 +36,7 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = arrayToSlice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -42,7 +49,6 @@ func multi_to_dict(data any) (map[string]interface{}, error) {
 
 // convert a struct to a map in the format of {"tag.fieldName": fieldvalue}
 func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
-	//TODO: handle nested structs and arrays
 	// convert the struct to a dict of FieldName: FieldValue
 	d := make(map[string]interface{})
 
@@ -52,8 +58,8 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 		v := vs.Field(i)
 		f := fs.Field(i)
 		fulltag := fmt.Sprintf("%s.%s", tag, f.Name)
-		switch v.Kind() {
-
+		if !f.IsExported() {
+			return nil, fmt.Errorf("field %s of tag %s is not exported", f.Name, tag)
 		}
 		switch v.Kind() {
 		case reflect.Struct:
@@ -65,7 +71,7 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 				d[k] = d2[k]
 			}
 		case reflect.Array:
-			//TODO
+			d[fulltag] = arrayToSlice(v)
 		default:
 			d[fulltag] = v.Interface()
 		}
@@ -76,6 +82,15 @@ func udt_to_dict(tag string, data any) (map[string]interface{}, error) {
 
 }
 
+// arrayToSlice gives the elements of an array as a slice, which is how lists of values are written.
+func arrayToSlice(v reflect.Value) any {
+	s := reflect.MakeSlice(reflect.SliceOf(v.Type().Elem()), v.Len(), v.Len())
+	for i := 0; i < v.Len(); i++ {
+		s.Index(i).Set(v.Index(i))
+	}
+	return s.Interface()
+}
+
 // WriteMap writes multiple tags efficiently using a map where keys are tag names and values are the data to write.
 //
 // The map keys specify the tag names to write to in the PLC (case insensitive).
-- 
2.43.0


From c83d1e00060bfb886ee2bde3d8bbc0f376e20872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 20/68] fix: lists of WORD in a tag group are lists of uint16

---
 taggroup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/taggroup.go b/taggroup.go
index de7644d..261f5be 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -65,7 +65,7 @@ func zeroValueForTagDef(def TagDef) any {
 			return make([]byte, def.Elements)
 		case CIPTypeINT:
 			return make([]int16, def.Elements)
-		case CIPTypeUINT:
+		case CIPTypeUINT, CIPTypeWORD:
 			return make([]uint16, def.Elements)
 		case CIPTypeDINT:
 			return make([]int32, def.Elements)
-- 
2.43.0


From 6e73891f5b0db1c272ea2cec15cde526640cc05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 21/68] fix: listing tags continues after the last tag received
 and reports failures

---
 listalltags.go | 33 +++++++++++++++++++++++++++++++--
 listsubtags.go | 18 ++++++++++++++----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/listalltags.go b/listalltags.go
index 60ede2d..9ea32e9 100644
--- a/listalltags.go
+++ b/listalltags.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"errors"
 	"fmt"
+	"math"
 	"strings"
 )
 
@@ -64,6 +65,25 @@ type msgListInstanceHeader struct {
 	Status        uint16
 }
 
+// partial is whether there is more to list after this response.
+func (h msgListInstanceHeader) partial() (bool, error) {
+	switch h.Status {
+	case uint16(CIPStatus_OK):
+		return false, nil
+	case uint16(CIPStatus_PartialTransfer):
+		return true, nil
+	}
+	return false, CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(h.Status)}
+}
+
+// nextInstance is where to go on listing after a partial response to a request that started at start.
+func nextInstance(start, last uint32) (uint32, error) {
+	if last < start || last == math.MaxUint32 {
+		return 0, fmt.Errorf("list of instances from %d on ended at %d", start, last)
+	}
+	return last + 1, nil
+}
+
 // ListAllTags discovers and catalogs all tags available in the PLC, starting from the specified instance ID.
 //
 // This function performs a comprehensive scan of the PLC's symbol table to build a complete inventory
@@ -212,6 +232,11 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 	if err != nil {
 		return fmt.Errorf("problem reading list instance header. %w", err)
 	}
+	partial, err := data_hdr.partial()
+	if err != nil {
+		return fmt.Errorf("problem listing tags: %w", err)
+	}
+	last_instance := uint32(0)
 
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
@@ -221,7 +246,7 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 		if err != nil {
 			return fmt.Errorf("problem reading tag header. %w", err)
 		}
-		start_instance = tag_hdr.InstanceID
+		last_instance = tag_hdr.InstanceID
 
 		tag_name := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &tag_name)
@@ -313,7 +338,11 @@ func (client *Client) ListAllTags(start_instance uint32) error {
 
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) { //} && start_instance < 200 {
+	if partial {
+		start_instance, err = nextInstance(start_instance, last_instance)
+		if err != nil {
+			return err
+		}
 		err = client.ListAllTags(start_instance)
 		if err != nil {
 			return err
diff --git a/listsubtags.go b/listsubtags.go
index 85def63..32312b7 100644
--- a/listsubtags.go
+++ b/listsubtags.go
@@ -86,6 +86,12 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		return nil, fmt.Errorf("problem reading tag header. %w", err)
 	}
 
+	partial, err := data_hdr.partial()
+	if err != nil {
+		return nil, fmt.Errorf("problem listing tags of %s: %w", Program.Name, err)
+	}
+	last_instance := uint32(0)
+
 	tag_hdr := new(msgtagResultDataHeader)
 	tag_ftr := new(TagInfo)
 	for data2.Len() > 0 {
@@ -94,6 +100,7 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		if err != nil {
 			return nil, fmt.Errorf("problem reading tag header. %w", err)
 		}
+		last_instance = tag_hdr.InstanceID
 		newtag_bytes := make([]byte, tag_hdr.NameLength)
 		err = binary.Read(data2, binary.LittleEndian, &newtag_bytes)
 		if err != nil {
@@ -138,15 +145,18 @@ func (client *Client) ListSubTags(Program *KnownProgram, start_instance uint32)
 		client.KnownTags[strings.ToLower(newtag_name)] = kt
 		new_kts = append(new_kts, kt)
 
-		start_instance = tag_hdr.InstanceID
-
 	}
 
-	if data_hdr.Status == uint16(CIPStatus_PartialTransfer) {
-		_, err = client.ListSubTags(Program, start_instance)
+	if partial {
+		start_instance, err = nextInstance(start_instance, last_instance)
+		if err != nil {
+			return new_kts, err
+		}
+		rest, err := client.ListSubTags(Program, start_instance)
 		if err != nil {
 			return new_kts, fmt.Errorf("problem listing subtags. %w", err)
 		}
+		new_kts = append(new_kts, rest...)
 	}
 
 	return new_kts, nil
-- 
2.43.0


From a02f6fa3f082c764a8b84dea00a545266d8ffbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:31 +0000
Subject: [PATCH 22/68] fix: template replies with an error status are errors

---
 listmembers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/listmembers.go b/listmembers.go
index 5c4d9bb..a743dcf 100644
--- a/listmembers.go
+++ b/listmembers.go
@@ -129,6 +129,9 @@ func (client *Client) GetTemplateInstanceAttr(str_instance uint32) (msgGetTempla
 	if err != nil {
 		return result, fmt.Errorf("problem reading result. %w", err)
 	}
+	if result.Status != CIPStatus_OK {
+		return result, CIPStatusError{Expected: CIPStatus_OK, Status: result.Status}
+	}
 
 	return result, nil
 }
@@ -243,6 +246,9 @@ func (client *Client) listMembers(str_instance uint32, parents []uint32) (UDTDes
 	if err != nil {
 		return UDTDescriptor{}, fmt.Errorf("couldn't read member info header. %w", err)
 	}
+	if mihdr.Status != uint16(CIPStatus_OK) {
+		return UDTDescriptor{}, CIPStatusError{Expected: CIPStatus_OK, Status: CIPStatus(mihdr.Status)}
+	}
 
 	memberInfos := make([]msgMemberInfo, template_info.MemberCount)
 	err = binary.Read(data2, binary.LittleEndian, &memberInfos)
-- 
2.43.0


From 7d8caf0020bb6e1a17f97a9de95278b1bdb82e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 23/68] fix: list services reply has its own command and its
 whole length

---
 server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 43cd03e..779d309 100644
--- a/server.go
+++ b/server.go
@@ -960,10 +960,10 @@ func (h *serverTCPHandler) sendListServicesData(hdr eipHeader) error {
 	response := listServicesReply{
 		Count:    1,
 		TypeCode: 0x0100,
-		Length:   10,
+		Length:   20, // the version, the flags and the name
 		Version:  1,
 		CapFlags: ServiceCapabilityFlag_CipEncapsulation | ServiceCapabilityFlag_SupportsClass1UDP,
 		Name:     [16]byte{'C', 'o', 'm', 'm', 'u', 'n', 'i', 'c', 'a', 't', 'i', 'o', 'n', 's', ' ', ' '},
 	}
-	return h.send(cipCommandSendRRData, response)
+	return h.send(cipCommandListServices, response)
 }
-- 
2.43.0


From 5a01523acf7bd14d3b9ff1641e8c7ee1322bb77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 24/68] fix: server refuses writes of no elements

---
 server_connected.go   | 7 +++++++
 server_unconnected.go | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/server_connected.go b/server_connected.go
index cda8150..50a40b6 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -24,6 +24,9 @@ func (h *serverTCPHandler) cipConnectedWrite(items []CIPItem) error {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
 	qty := uint16(len(results))
+	if qty == 0 {
+		return fmt.Errorf("write of no elements to tag %s", tag)
+	}
 	h.server.Logger.Debug("write", "tag", tag, "value", results)
 
 	if items[0].Header.ID != cipItem_ConnectionAddress {
@@ -209,6 +212,10 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 				return fmt.Errorf("problem deserializing element count %w", err)
 			}
 
+			if qty == 0 {
+				return fmt.Errorf("write of no elements to tag %s", tag)
+			}
+
 			writeTags := make([]any, qty)
 			for i := 0; i < int(qty); i++ {
 				writeTags[i], err = typ.readValue(&item)
diff --git a/server_unconnected.go b/server_unconnected.go
index 6fbc644..5d85f17 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -348,6 +348,9 @@ func (h *serverTCPHandler) unconnectedServiceWrite(item CIPItem) error {
 		return fmt.Errorf("problem parsing write values for tag %s: %w", tag, err)
 	}
 	qty := uint16(len(results))
+	if qty == 0 {
+		return fmt.Errorf("write of no elements to tag %s", tag)
+	}
 	var path_size uint16
 	err = item.DeSerialize(&path_size)
 	if err != nil {
-- 
2.43.0


From e5b521b5bd2af330250be31f496354b0b86b008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 25/68] fix: server reads paths of more than 127 words whole

---
 server.go             | 2 +-
 server_connected.go   | 2 +-
 server_unconnected.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 779d309..23e674d 100644
--- a/server.go
+++ b/server.go
@@ -556,7 +556,7 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
 	}
 
-	path := make([]byte, fwd_close.PathSize*2)
+	path := make([]byte, int(fwd_close.ConnPathSize)*2)
 	err = i.DeSerialize(&path)
 	if err != nil {
 		return fmt.Errorf("problem parsing forward close path %w", err)
diff --git a/server_connected.go b/server_connected.go
index 50a40b6..9d479a1 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -105,7 +105,7 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	}
 
 	// need to handle this differently!
-	pb := make([]byte, pathlen*2)
+	pb := make([]byte, int(pathlen)*2)
 	err = item.DeSerialize(&pb)
 	if err != nil {
 		return fmt.Errorf("problem dumping path bytes from multi-svc header")
diff --git a/server_unconnected.go b/server_unconnected.go
index 5d85f17..def15ae 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -71,7 +71,7 @@ func (h *serverTCPHandler) unconnectedData(item CIPItem) error {
 		if err != nil {
 			return fmt.Errorf("error getting path size 305. %w", err)
 		}
-		path := make([]byte, pathsize*2)
+		path := make([]byte, int(pathsize)*2)
 		err = item.DeSerialize(&path)
 		if err != nil {
 			return fmt.Errorf("error getting path. %w", err)
-- 
2.43.0


From 8870d76d5f0d7c11e780a8d584454b7d5f6945f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 26/68] fix: server refuses forward opens without a path or an
 interval

---
 server.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/server.go b/server.go
index 23e674d..f1b4e7d 100644
--- a/server.go
+++ b/server.go
@@ -623,11 +623,15 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
+	if len(fwd_path) < 2 {
+		h.server.Logger.Warn("forward open without a path")
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathSegmentError)
+	}
 	h.server.Logger.Debug("forward open msg", "open", fwd_open, "path", fwd_path)
 	path := fwd_path[:2]
 
@@ -708,11 +712,20 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem with fwd open parsing %w", err)
 	}
-	fwd_path := make([]byte, fwd_open.ConnPathSize*2)
+	fwd_path := make([]byte, int(fwd_open.ConnPathSize)*2)
 	err = i.DeSerialize(&fwd_path)
 	if err != nil {
 		return fmt.Errorf("problem with fwd open path parsing %w", err)
 	}
+	if len(fwd_path) < 2 {
+		h.server.Logger.Warn("forward open without a path")
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_PathSegmentError)
+	}
+
+	if fwd_open.TransportTrigger == 1 && fwd_open.TORPI == 0 {
+		h.server.Logger.Warn("IO forward open without a packet interval")
+		return h.sendUnconnectedErrorReply(fwd_open.Service, CIPStatus_InvalidParameter)
+	}
 
 	// if this is a produce/consume, the fwd_path here will have a few segments in it.
 	// First is a "keying" segment.  It's 4 words of 0's in the wireshark samples I've got.
-- 
2.43.0


From f1ed37045918b359e4d8724ff4cd1f5b84c32773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 27/68] fix: server finds the parts of a multiple service
 request after any path

---
 server_connected.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/server_connected.go b/server_connected.go
index 9d479a1..28e8bec 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -110,21 +110,22 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem dumping path bytes from multi-svc header")
 	}
+	start := item.Pos // the offsets count from the number of services
 	qty, err := item.Uint16()
 	if err != nil {
 		return fmt.Errorf("problem getting multisvc item count: %w", err)
 	}
-	offsets := make([]int16, qty)
+	offsets := make([]uint16, qty)
 	results := make([][]byte, qty)
 	for i := range offsets {
-		offsets[i], err = item.Int16()
+		offsets[i], err = item.Uint16()
 		if err != nil {
 			return fmt.Errorf("problem getting multisvc offset for item %d: %w", i, err)
 		}
 	}
 
 	for i := range results {
-		item.Pos = int(offsets[i]) + 8 // seek to the start of the multi-service payload data.
+		item.Pos = start + int(offsets[i]) // seek to the start of the multi-service payload data.
 		var svc CIPService
 		err = item.DeSerialize(&svc)
 		if err != nil {
-- 
2.43.0


From 6189d6e5d9f3a0b8b454ef59c03071f36ffaf0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 28/68] fix: unsupported parts of a multiple service request
 get an error reply

---
 server_connected.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server_connected.go b/server_connected.go
index 28e8bec..d54ff0e 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -240,6 +240,8 @@ func (h *serverTCPHandler) connectedMulti(items []CIPItem) error {
 
 			results[i] = []byte{byte(svc.AsResponse()), 0x00, 0x00, 0x00}
 
+		default:
+			results[i] = []byte{byte(svc.AsResponse()), 0x00, byte(CIPStatus_ServiceNotSupported), 0x00}
 		}
 
 	}
-- 
2.43.0


From d1123b05d26165262b43a4b5769b6588c661871d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 29/68] fix: get attribute single replies carry their own
 service code

---
 server_connected.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server_connected.go b/server_connected.go
index d54ff0e..2a0c038 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -594,6 +594,6 @@ func (h *serverTCPHandler) getAttrSingle(connection *serverConnection, item CIPI
 		return fmt.Errorf("bad attribute %d", attr)
 	}
 
-	return h.sendConnectedReply(CIPService_FragRead, seq, connection.TO, result)
+	return h.sendConnectedReply(CIPService_GetAttributeSingle, seq, connection.TO, result)
 
 }
-- 
2.43.0


From 70d87df73795e31acc1f9dfb7e29048bbadc3aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 30/68] fix: server answers forward close

---
 server.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index f1b4e7d..35722b7 100644
--- a/server.go
+++ b/server.go
@@ -561,7 +561,12 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 	if err != nil {
 		return fmt.Errorf("problem parsing forward close path %w", err)
 	}
-	return nil
+	return h.sendUnconnectedRRDataReply(CIPService_ForwardClose,
+		fwd_close.ConnectionSerialNumber,
+		fwd_close.VendorID,
+		fwd_close.OriginatorSerialNumber,
+		[2]byte{}, // no application reply, reserved
+	)
 }
 
 // in this message T is for target and O is for originator so
-- 
2.43.0


From 3640c0509e3d40565d8c819d9184d47329489404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 31/68] fix: connected data in rrData is only read when it
 holds a read

---
 server.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index 35722b7..38e10a2 100644
--- a/server.go
+++ b/server.go
@@ -531,16 +531,24 @@ func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
 	}
 	switch items[1].Header.ID {
 	case cipItem_ConnectedData:
+		var seq uint16
+		err = items[1].DeSerialize(&seq)
+		if err != nil {
+			return fmt.Errorf("failed to get sequence. %w", err)
+		}
 		var service CIPService
 		err = items[1].DeSerialize(&service)
 		if err != nil {
 			return fmt.Errorf("failed to get service. %w", err)
 		}
+		if service != CIPService_Read && service != CIPService_FragRead {
+			return fmt.Errorf("service %v not supported for connected data in rrData", service)
+		}
 		return h.connectedRead(service, items)
 	case cipItem_UnconnectedData:
 		return h.unconnectedData(items[1])
 	}
-	return nil
+	return fmt.Errorf("expected a data item in position 1. got %v", items[1].Header.ID)
 }
 
 func (h *serverTCPHandler) forwardClose(i CIPItem) error {
-- 
2.43.0


From acfa2783f76b20adbd4754887287f9daec96a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 32/68] fix: replies go out on the connection their request
 came in on

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index 38e10a2..a0eb901 100644
--- a/server.go
+++ b/server.go
@@ -275,6 +275,12 @@ func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
 	if err != nil {
 		return fmt.Errorf("problem deserializing connection ID %w", err)
 	}
+	conn, err := h.server.ConnMgr.GetByOT(connId)
+	if err != nil {
+		return fmt.Errorf("request on a connection that isn't open: %w", err)
+	}
+	// replies go out on the connection the request came in on, which need not be the last one opened.
+	h.TOConnectionID = conn.TO
 
 	err = items[1].DeSerialize(&h.UnitDataSequencer)
 	if err != nil {
-- 
2.43.0


From df98e695592df79be9b5a1801aa1f2bc253355c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 33/68] fix: only the bytes of a datagram are parsed

---
 server.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/server.go b/server.go
index a0eb901..e0f06f4 100644
--- a/server.go
+++ b/server.go
@@ -143,7 +143,6 @@ func (srv *Server) serveUDP() error {
 	bufSize := 4096
 	for {
 		b := make([]byte, 4096)
-		buf := bytes.NewBuffer(b)
 		n, addr, err := srv.UDPListener.ReadFrom(b)
 		if n == 0 {
 			srv.Logger.Debug("Read 0 bytes on udp listener.")
@@ -160,7 +159,7 @@ func (srv *Server) serveUDP() error {
 		_ = addr // don't need this yet.
 		// we've read a packet on udp so we need to parse the eip data
 
-		items, err := readItems(buf)
+		items, err := readItems(bytes.NewBuffer(b[:n]))
 		if err != nil {
 			srv.Logger.Debug("problem reading udp items", "error", err)
 			continue
-- 
2.43.0


From d6f521cf49c134764998b6aa56132bd05dcab685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 34/68] fix: server reads each request to the end its header
 announces

---
 server.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/server.go b/server.go
index e0f06f4..036fe9b 100644
--- a/server.go
+++ b/server.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"log/slog"
 	"math/rand"
 	"net"
@@ -213,21 +214,29 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 		}
 		h.context = eipHdr.Context
 		h.server.Logger.Debug("New Context", "context", h.context)
+		// take the whole request off the connection so that the next header is where the next read starts,
+		// whatever becomes of this request.
+		data := make([]byte, eipHdr.Length)
+		_, err = io.ReadFull(h.conn, data)
+		if err != nil {
+			return fmt.Errorf("problem reading eip data. %w", err)
+		}
+		body := bytes.NewReader(data)
 		switch eipHdr.Command {
 		case cipCommandRegisterSession:
-			err = h.registerSession(eipHdr)
+			err = h.registerSession(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with register session %w", err)
 			}
 		case cipCommandSendRRData:
 			// this is things like forward opens
-			err = h.sendRRData(eipHdr)
+			err = h.sendRRData(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with sendRRData %w", err)
 			}
 		case cipCommandSendUnitData:
 			// this is things like writes and reads
-			err = h.sendUnitData(eipHdr)
+			err = h.sendUnitData(eipHdr, body)
 			if err != nil {
 				return fmt.Errorf("problem with sendUnitData %w", err)
 			}
@@ -247,18 +256,18 @@ func (h *serverTCPHandler) serve(srv *Server) error {
 
 }
 
-func (h *serverTCPHandler) sendUnitData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendUnitData(hdr eipHeader, body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -516,18 +525,18 @@ func (h *serverTCPHandler) sendUnitDataReply(s CIPService) error {
 	return h.send(cipCommandSendUnitData, itemData)
 }
 
-func (h *serverTCPHandler) sendRRData(hdr eipHeader) error {
+func (h *serverTCPHandler) sendRRData(hdr eipHeader, body io.Reader) error {
 	var interface_handle uint32
 	var timeout uint16
-	err := binary.Read(h.conn, binary.LittleEndian, &interface_handle)
+	err := binary.Read(body, binary.LittleEndian, &interface_handle)
 	if err != nil {
 		return fmt.Errorf("problem reading interface handle %w", err)
 	}
-	err = binary.Read(h.conn, binary.LittleEndian, &timeout)
+	err = binary.Read(body, binary.LittleEndian, &timeout)
 	if err != nil {
 		return fmt.Errorf("problem reading timeout %w", err)
 	}
-	items, err := readItems(h.conn)
+	items, err := readItems(body)
 	if err != nil {
 		return fmt.Errorf("problem reading items for rrData %w", err)
 	}
@@ -890,10 +899,10 @@ func (h *serverTCPHandler) ioConnection(fwd_open msgEIPForwardOpen_Standard, tp
 	}
 }
 
-func (h *serverTCPHandler) registerSession(hdr eipHeader) error {
+func (h *serverTCPHandler) registerSession(hdr eipHeader, body io.Reader) error {
 
 	reg_msg := msgCIPRegister{}
-	err := binary.Read(h.conn, binary.LittleEndian, &reg_msg)
+	err := binary.Read(body, binary.LittleEndian, &reg_msg)
 	if err != nil {
 		return fmt.Errorf("problem reading register session message. %w", err)
 	}
-- 
2.43.0


From 722c243e7619b350d2665ae5aa8027ee0284629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 35/68] fix: reading a negative number of elements is an error

---
 server_router.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_router.go b/server_router.go
index 1a9b5ae..4723a32 100644
--- a/server_router.go
+++ b/server_router.go
@@ -111,6 +111,10 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 
 	t := reflect.ValueOf(val)
 
+	if qty < 0 {
+		return nil, fmt.Errorf("tag %v: cannot read %d elements", tag, qty)
+	}
+
 	if hasElem {
 		if t.Kind() != reflect.Slice {
 			return nil, fmt.Errorf("tag %v: element access on non-slice (%T)", tag, val)
-- 
2.43.0


From 4175d078a4a06eabbce77da183c562984ce78866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:39 +0000
Subject: [PATCH 36/68] fix: values read from a map tag provider are not
 changed by later writes

---
 server_router.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/server_router.go b/server_router.go
index 4723a32..069ecb4 100644
--- a/server_router.go
+++ b/server_router.go
@@ -131,14 +131,12 @@ func (p *MapTagProvider) TagRead(tag string, qty int16) (any, error) {
 		if qty == 1 {
 			return t.Index(elemIdx).Interface(), nil
 		}
-		return t.Slice(elemIdx, end).Interface(), nil
+		return copyElements(t, elemIdx, end), nil
 	}
 
 	if t.Kind() == reflect.Slice {
 		if int(qty) <= t.Len() {
-			values := reflect.Indirect(t)
-			v := values.Slice(0, int(qty))
-			return v.Interface(), nil
+			return copyElements(t, 0, int(qty)), nil
 		}
 		return nil, fmt.Errorf("too many elements requested %v > %v", qty, t.Len())
 	}
@@ -212,6 +210,14 @@ func (p *MapTagProvider) TagWrite(tag string, value any) error {
 	return nil
 }
 
+// copyElements returns elements from up to end of a slice as a new slice, so that what a
+// reader was given isn't changed by later element writes.
+func copyElements(t reflect.Value, from, end int) any {
+	out := reflect.MakeSlice(t.Type(), end-from, end-from)
+	reflect.Copy(out, t.Slice(from, end))
+	return out.Interface()
+}
+
 // parseElementTag splits a tag name on the trailing `[N]` element
 // indexer that ioi.go's getTagFromPath appends when a CIP request
 // addresses a specific array element. Returns hasElem=false when the
-- 
2.43.0


From 8af90a2bfc36666ae8748a0bc3c70e12e154be98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 37/68] fix: elements are only converted to types their value
 fits in

---
 server_router.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/server_router.go b/server_router.go
index 069ecb4..bb38be7 100644
--- a/server_router.go
+++ b/server_router.go
@@ -243,15 +243,30 @@ func parseElementTag(tag string) (base string, idx int, hasElem bool) {
 // converted value or an error if the cast isn't representable.
 func convertToElement(value any, target reflect.Type) (any, error) {
 	v := reflect.ValueOf(value)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("cannot convert nothing to %v", target)
+	}
 	if v.Type() == target {
 		return value, nil
 	}
-	if v.Type().ConvertibleTo(target) {
-		return v.Convert(target).Interface(), nil
+	if target.Kind() == reflect.Interface && v.Type().ConvertibleTo(target) {
+		return value, nil
+	}
+	if isNumber(v.Kind()) && isNumber(target.Kind()) {
+		converted := v.Convert(target)
+		if !(v.CanFloat() && converted.CanFloat()) && converted.Convert(v.Type()).Interface() != value {
+			return nil, fmt.Errorf("value %v does not fit in %v", value, target)
+		}
+		return converted.Interface(), nil
 	}
 	return nil, fmt.Errorf("cannot convert %T to %v", value, target)
 }
 
+// isNumber tells if values of a kind are converted as numbers.
+func isNumber(k reflect.Kind) bool {
+	return k >= reflect.Int && k <= reflect.Float64 && k != reflect.Uintptr
+}
+
 // TagList implements the optional TagLister interface and returns a snapshot
 // of every tag this provider exposes, along with its CIP type code. Used by
 // the Symbol Object (Class 0x6B) GetInstanceAttributeList handler so external
-- 
2.43.0


From 7eadc75be7b27af38755f6594ada5cd3fc426dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 38/68] fix: a forward open with the connection id of another
 connection gets its own

---
 server.go             | 12 ++----------
 server_connections.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/server.go b/server.go
index 036fe9b..c09e7b9 100644
--- a/server.go
+++ b/server.go
@@ -673,11 +673,7 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
-	}
+	h.OTConnectionID = h.server.ConnMgr.UnusedOT(fwd_open.OTConnectionID)
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// Echo the requested RPI back as the Actual Packet Interval (API). CIP
 	// spec ODVA Vol 1 §3-5.6 allows the target to commit to a different API
@@ -776,11 +772,7 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		h.TOConnectionID = fwd_open.TOConnectionID
 	}
 	fwd_open.TOConnectionID = h.TOConnectionID
-	if fwd_open.OTConnectionID == 0 {
-		h.OTConnectionID = rand.Uint32()
-	} else {
-		h.OTConnectionID = fwd_open.OTConnectionID
-	}
+	h.OTConnectionID = h.server.ConnMgr.UnusedOT(fwd_open.OTConnectionID)
 	fwd_open.OTConnectionID = h.OTConnectionID
 	// See largeForwardOpen above for why API must echo the requested RPI
 	// instead of zero. Same fix applies to the standard (small) Forward
diff --git a/server_connections.go b/server_connections.go
index 37cf22f..48ce51e 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -3,6 +3,7 @@ package gologix
 import (
 	"fmt"
 	"log/slog"
+	"math/rand"
 	"sync"
 	"time"
 )
@@ -52,6 +53,17 @@ func (cm *serverConnectionManager) GetByOT(OT uint32) (*serverConnection, error)
 	}
 	return nil, fmt.Errorf("couldn't find connection %v by OT", OT)
 }
+
+// UnusedOT returns the OT id if it can be used for a new connection. It returns another one if the id is zero or
+// belongs to an open connection.
+func (cm *serverConnectionManager) UnusedOT(OT uint32) uint32 {
+	for {
+		if _, err := cm.GetByOT(OT); err != nil && OT != 0 {
+			return OT
+		}
+		OT = rand.Uint32()
+	}
+}
 func (cm *serverConnectionManager) GetByTO(TO uint32) (*serverConnection, error) {
 	cm.Lock.RLock()
 	defer cm.Lock.RUnlock()
-- 
2.43.0


From 1e08c664769a54258063f38eca67a0dddc31d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 39/68] fix: forward close only closes a connection of the
 originator that asks

---
 server.go             |  8 +++++++-
 server_connections.go | 22 ++++++++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/server.go b/server.go
index c09e7b9..e63cda0 100644
--- a/server.go
+++ b/server.go
@@ -573,7 +573,7 @@ func (h *serverTCPHandler) forwardClose(i CIPItem) error {
 		return fmt.Errorf("problem parsing forward close %w", err)
 	}
 	h.server.Logger.Info("Closing connection", "serial", fwd_close.ConnectionSerialNumber)
-	err = h.server.ConnMgr.CloseByID(fwd_close.ConnectionSerialNumber)
+	err = h.server.ConnMgr.CloseByOriginator(fwd_close.ConnectionSerialNumber, fwd_close.VendorID, fwd_close.OriginatorSerialNumber)
 	if err != nil {
 		return fmt.Errorf("couldn't close open connection with ID %v. %v", fwd_close.ConnectionSerialNumber, err)
 	}
@@ -717,6 +717,9 @@ func (h *serverTCPHandler) largeForwardOpen(i CIPItem) error {
 		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
 		Path: path,
 		Open: true,
+
+		Vendor: fwd_open.VendorID,
+		Serial: fwd_open.OriginatorSerialNumber,
 	}
 
 	h.server.ConnMgr.Add(cipConnection)
@@ -810,6 +813,9 @@ func (h *serverTCPHandler) forwardOpen(i CIPItem) error {
 		RPI:  time.Duration(fwd_open.TORPI) * time.Microsecond,
 		Path: path,
 		Open: true,
+
+		Vendor: fwd_open.VendorID,
+		Serial: fwd_open.OriginatorSerialNumber,
 	}
 
 	h.server.ConnMgr.Add(cipConnection)
diff --git a/server_connections.go b/server_connections.go
index 48ce51e..e96a18b 100644
--- a/server_connections.go
+++ b/server_connections.go
@@ -15,6 +15,10 @@ type serverConnection struct {
 	RPI  time.Duration
 	Path []byte
 	Open bool
+
+	// the originator of the connection, which numbers its connections by ID
+	Vendor uint16
+	Serial uint32
 }
 
 type serverConnectionManager struct {
@@ -91,6 +95,24 @@ func (cm *serverConnectionManager) CloseByID(ID uint16) error {
 	}
 	return fmt.Errorf("couldn't find connection %v by ID", ID)
 }
+// CloseByOriginator closes the connection an originator opened with an ID. Other originators may use the same ID.
+func (cm *serverConnectionManager) CloseByOriginator(ID uint16, vendor uint16, serial uint32) error {
+	cm.Lock.Lock()
+	defer cm.Lock.Unlock()
+	for i, conn := range cm.Connections {
+		if conn.ID == ID && conn.Vendor == vendor && conn.Serial == serial {
+			conn.Open = false
+			if len(cm.Connections) == 1 {
+				cm.Connections = make([]*serverConnection, 0, 32)
+				return nil
+			}
+			cm.Connections[i] = cm.Connections[len(cm.Connections)-1]
+			cm.Connections = cm.Connections[:len(cm.Connections)-1]
+			return nil
+		}
+	}
+	return fmt.Errorf("couldn't find connection %v of originator %v/%v", ID, vendor, serial)
+}
 func (cm *serverConnectionManager) CloseByOT(OT uint32) error {
 	cm.Lock.Lock()
 	defer cm.Lock.Unlock()
-- 
2.43.0


From 672f508040e2d44e3957bf383d03335e26b8419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 40/68] fix: server replies that do not fit a frame are errors

---
 server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server.go b/server.go
index e63cda0..ed40edc 100644
--- a/server.go
+++ b/server.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"log/slog"
+	"math"
 	"math/rand"
 	"net"
 	"strings"
@@ -929,6 +930,9 @@ func (h *serverTCPHandler) send(cmd CIPCommand, msgs ...any) error {
 	for _, msg := range msgs {
 		size += binary.Size(msg)
 	}
+	if size > math.MaxUint16 {
+		return fmt.Errorf("message of %d bytes is more than the %d a frame can hold", size, math.MaxUint16)
+	}
 	// build header based on size
 	hdr := h.newEIPHeader(cmd, size)
 
-- 
2.43.0


From 6faf6144ace05abe305e9b254bd38435e5a27d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 41/68] fix: server reads lists of strings with the padding
 between them

---
 server_connected.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server_connected.go b/server_connected.go
index 2a0c038..4b32c11 100644
--- a/server_connected.go
+++ b/server_connected.go
@@ -470,6 +470,10 @@ func parseWriteValues(item *CIPItem) ([]any, error) {
 				slen = cipStringDataLen
 			}
 			results[i] = string(data[:slen])
+			// the padding after the last element can be missing
+			if len(item.Data)-item.Pos >= cipStringStructPad {
+				item.Pos += cipStringStructPad
+			}
 		}
 		return results, nil
 	}
-- 
2.43.0


From b6128caa6c076b6c1572721f900d5877a26d60e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:48 +0000
Subject: [PATCH 42/68] fix: values of type ULINT can be read

---
 types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/types.go b/types.go
index fd7c3b3..88960f5 100644
--- a/types.go
+++ b/types.go
@@ -271,6 +271,10 @@ func readValue(t CIPType, r io.Reader) (any, error) {
 		var trueval uint32
 		err = binary.Read(r, binary.LittleEndian, &trueval)
 		value = trueval
+	case CIPTypeULINT:
+		var trueval uint64
+		err = binary.Read(r, binary.LittleEndian, &trueval)
+		value = trueval
 	case CIPTypeLWORD:
 		var trueval uint64
 		err = binary.Read(r, binary.LittleEndian, &trueval)
-- 
2.43.0


From 1381b6c62ad4706a617b2cc8c1b21b8598c77af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 43/68] fix: bits of ULINT values can be read

---
 types.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/types.go b/types.go
index 88960f5..6b026a2 100644
--- a/types.go
+++ b/types.go
@@ -410,6 +410,16 @@ func getBit(t CIPType, v any, bitpos int) (bool, error) {
 			}
 			err = fmt.Errorf("value was a UDINT, but bit %d was requested. must be 0-31 for UDINT", bitpos)
 		}
+	case CIPTypeULINT:
+		if bitpos >= 0 && bitpos < 64 {
+			x, ok := v.(uint64)
+			if ok {
+				mask := uint64(1 << bitpos)
+				masked := x & mask
+				return masked != 0, nil
+			}
+			err = fmt.Errorf("value was a ULINT, but bit %d was requested. must be 0-63 for ULINT", bitpos)
+		}
 	case CIPTypeLWORD:
 		if bitpos >= 0 && bitpos < 64 {
 			x, ok := v.(uint64)
-- 
2.43.0


From 855d979577a0a819670436b16548ffbe9e89fbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 44/68] fix: a negative number does not fit an unsigned tag
 element

---
 server_router.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server_router.go b/server_router.go
index bb38be7..5d15dc7 100644
--- a/server_router.go
+++ b/server_router.go
@@ -254,7 +254,8 @@ func convertToElement(value any, target reflect.Type) (any, error) {
 	}
 	if isNumber(v.Kind()) && isNumber(target.Kind()) {
 		converted := v.Convert(target)
-		if !(v.CanFloat() && converted.CanFloat()) && converted.Convert(v.Type()).Interface() != value {
+		if v.CanInt() && converted.CanUint() && v.Int() < 0 || v.CanUint() && converted.CanInt() && converted.Int() < 0 ||
+			!(v.CanFloat() && converted.CanFloat()) && converted.Convert(v.Type()).Interface() != value {
 			return nil, fmt.Errorf("value %v does not fit in %v", value, target)
 		}
 		return converted.Interface(), nil
-- 
2.43.0


From dab6e16b5878897b22ac6f7f614a0d4d26060a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 45/68] fix: an exchange that failed closes the connection
 before another starts

---
 sendreceive.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sendreceive.go b/sendreceive.go
index 1c15bf3..33ae023 100644
--- a/sendreceive.go
+++ b/sendreceive.go
@@ -81,14 +81,16 @@ func (client *Client) sendData(b []byte) error {
 
 // sends one message and gets one response in a mutex-protected way.
 func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *bytes.Buffer, error) {
+	client.mutex.Lock()
 	buffer, err := client.sendMsgBuild(cmd, msgs...)
 	if err != nil {
+		client.mutex.Unlock()
 		return eipHeader{}, nil, fmt.Errorf("error preparing to send message: %w", err)
 	}
-	client.mutex.Lock()
 
 	err = client.sendData(buffer)
 	if err != nil {
+		client.conn.Close()
 		client.mutex.Unlock()
 		err2 := client.Disconnect()
 		if err2 != nil {
@@ -98,6 +100,10 @@ func (client *Client) send_recv_data(cmd CIPCommand, msgs ...any) (eipHeader, *b
 	}
 
 	hdr, buf, err := client.recvData()
+	if err != nil {
+		// whoever gets the lock next must not take a late reply for theirs.
+		client.conn.Close()
+	}
 	client.mutex.Unlock()
 	if err != nil {
 		err2 := client.Disconnect()
-- 
2.43.0


From 8f6a37de3ee1671c4a0919f31c6ebc4e92f3db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 46/68] fix: a failed Connect closes its socket, and sets the
 connection under the lock

---
 connect.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/connect.go b/connect.go
index e7a0a59..fe6efb1 100644
--- a/connect.go
+++ b/connect.go
@@ -76,6 +76,9 @@ func (client *Client) Connect() error {
 	defer func() {
 		if !success {
 			client.mutex.Lock()
+			if client.conn != nil {
+				client.conn.Close()
+			}
 			client.connStatus = connectionStatusDisconnected
 			client.mutex.Unlock()
 		}
@@ -127,7 +130,10 @@ func (client *Client) Connect() error {
 	}
 
 	address := fmt.Sprintf("%s:%v", client.Controller.IpAddress, client.Controller.Port)
-	client.conn, err = net.DialTimeout("tcp", address, client.SocketTimeout)
+	conn, err := net.DialTimeout("tcp", address, client.SocketTimeout)
+	client.mutex.Lock()
+	client.conn = conn
+	client.mutex.Unlock()
 	if err != nil {
 		msg := "cannot connect to controller"
 		client.Logger.Error(msg, slog.Any("err", err))
-- 
2.43.0


From a560c8a8e8c8f79ad18fb30f799ca03d0b27e591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 47/68] fix: the FS, LS, OV and ER bits of a timer are packed
 and unpacked

---
 lgxtypes/timer.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lgxtypes/timer.go b/lgxtypes/timer.go
index 6b6afd7..e4dce71 100644
--- a/lgxtypes/timer.go
+++ b/lgxtypes/timer.go
@@ -35,6 +35,18 @@ func (t TIMER) Pack(w io.Writer) (int, error) {
 	if t.DN {
 		CtrlWord |= 1 << 29
 	}
+	if t.FS {
+		CtrlWord |= 1 << 28
+	}
+	if t.LS {
+		CtrlWord |= 1 << 27
+	}
+	if t.OV {
+		CtrlWord |= 1 << 26
+	}
+	if t.ER {
+		CtrlWord |= 1 << 25
+	}
 
 	err := binary.Write(w, binary.LittleEndian, CtrlWord)
 	if err != nil {
@@ -63,6 +75,10 @@ func (t *TIMER) Unpack(r io.Reader) (int, error) {
 	t.EN = CtrlWord&(1<<31) != 0
 	t.TT = CtrlWord&(1<<30) != 0
 	t.DN = CtrlWord&(1<<29) != 0
+	t.FS = CtrlWord&(1<<28) != 0
+	t.LS = CtrlWord&(1<<27) != 0
+	t.OV = CtrlWord&(1<<26) != 0
+	t.ER = CtrlWord&(1<<25) != 0
 
 	err = binary.Read(r, binary.LittleEndian, &(t.PRE))
 	if err != nil {
-- 
2.43.0


From 7fd82fbd8b549306a62026d3ebe97fb9b471ccfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 48/68] fix: Pack and Unpack return the errors of the values
 and the padding

---
 pack.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pack.go b/pack.go
index bc3c587..5306410 100644
--- a/pack.go
+++ b/pack.go
@@ -102,7 +102,7 @@ func Pack(w io.Writer, data any) (int, error) {
 	case Serializable:
 		n, err := w.Write(d.Bytes())
 		if err != nil {
-			return 0, nil
+			return n, fmt.Errorf("problem writing serialized data. %w", err)
 		}
 		return n, nil
 	}
@@ -271,7 +271,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 			n += s
 			align := p.Align(refType.Elem())
 			if s%align != 0 {
-				s, err = r.Read(make([]byte, align-s%align))
+				s, err = io.ReadFull(r, make([]byte, align-s%align))
 				if err != nil {
 					return n, fmt.Errorf("problem reading slice element padding: %w", err)
 				}
@@ -306,7 +306,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 					for ai := 0; ai < l; ai++ {
 						if bitpos == 0 {
 							br := []byte{0}
-							_, err = r.Read(br)
+							_, err = io.ReadFull(r, br)
 							if err != nil {
 								return n, fmt.Errorf("problem reading bool. %w", err)
 							}
@@ -329,7 +329,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 				// try to pack bools
 				if bitpos == 0 {
 					br := []byte{0}
-					_, err = r.Read(br)
+					_, err = io.ReadFull(r, br)
 					if err != nil {
 						return n, fmt.Errorf("problem reading packed bool. %w", err)
 					}
@@ -361,7 +361,7 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		if rem < a && rem > 0 {
 			// need paddding bits
 			pad := make([]byte, rem)
-			_, err = r.Read(pad)
+			_, err = io.ReadFull(r, pad)
 			if err != nil {
 				return
 			}
-- 
2.43.0


From e73177ad6191edcf9d5c67c1df5c7671a710b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:54 +0000
Subject: [PATCH 49/68] fix: arrays of structures are packed element by element
 with their padding

---
 pack.go | 80 +++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/pack.go b/pack.go
index 5306410..207444f 100644
--- a/pack.go
+++ b/pack.go
@@ -43,6 +43,71 @@ func (p cipPack) Align(t reflect.Type) int {
 	return a
 }
 
+// structArray is true for an array of structures, or of arrays of them.
+func (p cipPack) structArray(t reflect.Type) bool {
+	for t.Kind() == reflect.Array {
+		t = t.Elem()
+		if t.Kind() == reflect.Struct {
+			return true
+		}
+	}
+	return false
+}
+
+// packArray writes the structures of an array, each one padded to its alignment.
+func (p cipPack) packArray(w io.Writer, arr reflect.Value) (int, error) {
+	pos := 0
+	a := p.Align(arr.Type().Elem())
+	for i := 0; i < arr.Len(); i++ {
+		var n int
+		var err error
+		if arr.Index(i).Kind() == reflect.Array {
+			n, err = p.packArray(w, arr.Index(i))
+		} else {
+			n, err = Pack(w, arr.Index(i).Interface())
+		}
+		if err != nil {
+			return pos, fmt.Errorf("problem packing array element %d: %w", i, err)
+		}
+		pos += n
+		if n%a != 0 {
+			n, err = w.Write(make([]byte, a-n%a))
+			if err != nil {
+				return pos, fmt.Errorf("problem writing array element padding: %w", err)
+			}
+			pos += n
+		}
+	}
+	return pos, nil
+}
+
+// unpackArray reads the structures of an array, each one padded to its alignment.
+func (p cipPack) unpackArray(r io.Reader, arr reflect.Value) (int, error) {
+	pos := 0
+	a := p.Align(arr.Type().Elem())
+	for i := 0; i < arr.Len(); i++ {
+		var n int
+		var err error
+		if arr.Index(i).Kind() == reflect.Array {
+			n, err = p.unpackArray(r, arr.Index(i))
+		} else {
+			n, err = Unpack(r, arr.Index(i).Addr().Interface())
+		}
+		if err != nil {
+			return pos, fmt.Errorf("problem unpacking array element %d: %w", i, err)
+		}
+		pos += n
+		if n%a != 0 {
+			n, err = io.ReadFull(r, make([]byte, a-n%a))
+			if err != nil {
+				return pos, fmt.Errorf("problem reading array element padding: %w", err)
+			}
+			pos += n
+		}
+	}
+	return pos, nil
+}
+
 func (p cipPack) Order() binary.ByteOrder {
 	return binary.LittleEndian
 }
@@ -208,7 +273,13 @@ func Pack(w io.Writer, data any) (int, error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if p.structArray(field.Type) {
+			var err error
+			s, err = p.packArray(w, refVal.Field(i))
+			if err != nil {
+				return pos, err
+			}
+		} else if k != reflect.Struct {
 			err := binary.Write(w, p.Order(), refVal.Field(i).Interface())
 			if err != nil {
 				return pos, fmt.Errorf("problem reading sub-structure. %v", err)
@@ -369,7 +440,12 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 		}
 
 		// finally, if the field is some sub-structure, recurse.  Otherwise we will write the data out
-		if k != reflect.Struct {
+		if p.structArray(field.Type) {
+			s, err = p.unpackArray(r, refVal.Field(i))
+			if err != nil {
+				return
+			}
+		} else if k != reflect.Struct {
 			//binary.Read(r, p.Order(), refVal.Field(i).Interface())
 			err = binary.Read(r, p.Order(), refVal.Field(i).Addr().Interface())
 			if err != nil {
-- 
2.43.0


From e981edbfd79b9e72c24fb8e7b28e3c5e618f301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 50/68] fix: the index of a removed data table tag is not given
 to another

---
 datatable.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/datatable.go b/datatable.go
index 06bbbe5..6b1db5a 100644
--- a/datatable.go
+++ b/datatable.go
@@ -43,8 +43,9 @@ type DataTableBuffer struct {
 	// Value: the expanded individual tag names (e.g. ["EXAMPLE[1,0]", ..., "EXAMPLE[1,4]"])
 	expansions map[string][]string
 
-	created bool // true after successful Create
-	synched bool // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
+	created   bool   // true after successful Create
+	lastIndex uint16 // index of the last tag added; the indices of removed tags are not used again
+	synched   bool   // internal flag to track if tags have been added on this side but not yet sent to PLC via AddTag/AddTags
 }
 
 // InstanceID returns the PLC-assigned instance ID for this datatable buffer.
@@ -57,6 +58,12 @@ func (buf *DataTableBuffer) Tags() []DataTableBufferTag {
 	return out
 }
 
+// nextIndex is the index of the next tag added to the buffer.
+func (buf *DataTableBuffer) nextIndex() uint16 {
+	buf.lastIndex++
+	return buf.lastIndex
+}
+
 // dataTablePath builds the 6-byte CIP path for class 0xB2 with a 16-bit instance ID.
 // Forces 16-bit instance encoding (0x25) to match the reverse-engineered protocol.
 func dataTablePath(instanceID uint16) []byte {
@@ -347,7 +354,7 @@ func (buf *DataTableBuffer) AddTagRef(tagName string, data any) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
+		index:        buf.nextIndex(),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -383,7 +390,7 @@ func (buf *DataTableBuffer) AddTag(tagName string, cipType CIPType) error {
 		Name:         tagName,
 		CIPType:      cipType,
 		DataTypeSize: typeSize,
-		index:        uint16(len(buf.tags) + 1),
+		index:        buf.nextIndex(),
 		ioi:          ioi.Bytes(),
 		batchID:      0,
 		synched:      false,
@@ -463,13 +470,12 @@ func (buf *DataTableBuffer) AddTags(tags map[string]CIPType) error {
 	}
 
 	// Assign sequential indices and record the batch ID for read parsing.
-	baseIndex := uint16(len(buf.tags) + 1)
-	for i, t := range prepared {
+	for _, t := range prepared {
 		buf.tags = append(buf.tags, DataTableBufferTag{
 			Name:         t.name,
 			CIPType:      t.cipType,
 			DataTypeSize: t.typeSize,
-			index:        baseIndex + uint16(i),
+			index:        buf.nextIndex(),
 			ioi:          t.ioi,
 			batchID:      0,
 			synched:      false,
-- 
2.43.0


From 745772ea0e88e54938db7ad8a10fce34690e5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 51/68] fix: removing a data table tag the controller does not
 know is local, and drops its expansion

---
 datatable.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/datatable.go b/datatable.go
index 6b1db5a..1e8647c 100644
--- a/datatable.go
+++ b/datatable.go
@@ -669,12 +669,30 @@ func (buf *DataTableBuffer) RemoveTag(tagName string) error {
 		return fmt.Errorf("tag %q not found in buffer", tagName)
 	}
 
-	err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
-	if err != nil {
-		return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+	if buf.tags[idx].synched {
+		err := buf.client.DataTableRemoveTag(buf.instanceID, buf.tags[idx].index)
+		if err != nil {
+			return fmt.Errorf("could not remove tag %q from buffer: %w", tagName, err)
+		}
+	} else {
+		// the PLC was not told about this tag yet, or about any added after it.
+		for i := idx + 1; i < len(buf.tags); i++ {
+			buf.tags[i].index--
+		}
+		buf.lastIndex--
 	}
 
 	buf.tags = append(buf.tags[:idx], buf.tags[idx+1:]...)
+
+	// what is left of a multi-element tag is read element by element.
+	for base, expanded := range buf.expansions {
+		for _, name := range expanded {
+			if name == tagName {
+				delete(buf.expansions, base)
+				break
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 163f0272798603fc08e3cf1285e91edbecfa96d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 52/68] fix: data table tags are added in requests of at most
 255, and not without a valid path

---
 datatable.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/datatable.go b/datatable.go
index 1e8647c..ed9a989 100644
--- a/datatable.go
+++ b/datatable.go
@@ -210,6 +210,15 @@ func (client *Client) DataTableAddTags(instanceID uint16, entries []addTagEntry)
 		return 0, fmt.Errorf("could not add tag to datatable buffer: %w", err)
 	}
 
+	if len(entries) > 255 {
+		return 0, fmt.Errorf("cannot add %d tags in one request: no more than 255 fit", len(entries))
+	}
+	for _, e := range entries {
+		if len(e.ioi)%2 != 0 || len(e.ioi) > 510 {
+			return 0, fmt.Errorf("cannot add a tag with a path of %d bytes", len(e.ioi))
+		}
+	}
+
 	path := dataTablePath(instanceID)
 
 	// Estimate capacity: 5 header + per-tag (2 typeSize + 1 ioiLen + IOI bytes)
@@ -411,13 +420,21 @@ func (buf *DataTableBuffer) SyncTags() error {
 		entries = append(entries, addTagEntry{buf.tags[i].DataTypeSize, buf.tags[i].ioi, i})
 	}
 
-	batchID, err := buf.client.DataTableAddTags(buf.instanceID, entries)
-	if err != nil {
-		return fmt.Errorf("could not add tags to buffer: %w", err)
-	}
-	for _, entry := range entries {
-		buf.tags[entry.index].batchID = batchID
-		buf.tags[entry.index].synched = true
+	// one request adds no more than 255 tags.
+	for len(entries) > 0 {
+		batch := entries
+		if len(batch) > 255 {
+			batch = batch[:255]
+		}
+		entries = entries[len(batch):]
+		batchID, err := buf.client.DataTableAddTags(buf.instanceID, batch)
+		if err != nil {
+			return fmt.Errorf("could not add tags to buffer: %w", err)
+		}
+		for _, entry := range batch {
+			buf.tags[entry.index].batchID = batchID
+			buf.tags[entry.index].synched = true
+		}
 	}
 	buf.synched = true
 	return nil
-- 
2.43.0


From d4f976eb2d609429fd3a3d370a96c49685ebdd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 53/68] fix: data table strings longer than 82 characters are
 read whole

---
 datatable.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatable.go b/datatable.go
index ed9a989..b589439 100644
--- a/datatable.go
+++ b/datatable.go
@@ -124,7 +124,8 @@ func decodeDataTableValue(cipType CIPType, raw []byte) (any, error) {
 		if strLen > uint32(len(raw)-4) {
 			strLen = uint32(len(raw) - 4)
 		}
-		if strLen > 82 {
+		// the last two bytes of a standard string's slot are padding
+		if len(raw) == 88 && strLen > 82 {
 			strLen = 82
 		}
 		return string(raw[4 : 4+strLen]), nil
-- 
2.43.0


From 307358f20709556b489fbaba50fc4f89b83adbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 54/68] fix: tagged structures with embedded fields and short
 slices in a data table

---
 datatable.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/datatable.go b/datatable.go
index b589439..fec602e 100644
--- a/datatable.go
+++ b/datatable.go
@@ -756,23 +756,31 @@ func (buf *DataTableBuffer) AddTagGroup(group *TagGroup, args ...any) error {
 
 	// Collect all resolved tag names with their types for batched AddTags.
 	tagMap := make(map[string]CIPType)
+	expansions := make(map[string][]string)
 
 	for _, def := range group.defs {
 		resolvedName := formatName(def.Name, args...)
 
 		if def.Elements > 1 {
 			expanded := expandArrayTag(resolvedName, def.Elements)
-			buf.expansions[resolvedName] = expanded
+			expansions[resolvedName] = expanded
 			for _, name := range expanded {
 				tagMap[name] = def.Type
 			}
 		} else {
-			buf.expansions[resolvedName] = []string{resolvedName}
+			expansions[resolvedName] = []string{resolvedName}
 			tagMap[resolvedName] = def.Type
 		}
 	}
 
-	return buf.AddTags(tagMap)
+	err := buf.AddTags(tagMap)
+	if err != nil {
+		return err
+	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
+	return nil
 }
 
 // ---------------------------------------------------------------------------
@@ -817,6 +825,7 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 	vf := reflect.VisibleFields(T)
 	tagMap := make(map[string]CIPType)
 	varPtrs := make(map[string]any)
+	expansions := make(map[string][]string)
 
 	for i := range vf {
 		field := vf[i]
@@ -827,13 +836,13 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 		if args != nil {
 			tagPath = formatName(tagPath, args...)
 		}
-		fieldVal := v.Field(i)
+		fieldVal := v.FieldByIndex(field.Index)
 		cipType, elements := GoVarToCIPType(fieldVal.Interface())
 
 		// Handle slices/arrays (multi-element tags)
 		if elements > 1 {
 			expanded := expandArrayTag(tagPath, elements)
-			buf.expansions[tagPath] = expanded
+			expansions[tagPath] = expanded
 			for idx, name := range expanded {
 				tagMap[name] = cipType
 				// For slices, set Var to the element pointer
@@ -842,20 +851,28 @@ func (buf *DataTableBuffer) AddTaggedStruct(str any, args ...any) error {
 				}
 			}
 		} else {
-			buf.expansions[tagPath] = []string{tagPath}
+			expansions[tagPath] = []string{tagPath}
 			tagMap[tagPath] = cipType
-			varPtrs[tagPath] = fieldVal.Addr().Interface()
+			if fieldVal.Kind() != reflect.Slice {
+				varPtrs[tagPath] = fieldVal.Addr().Interface()
+			} else if fieldVal.Len() > 0 {
+				varPtrs[tagPath] = fieldVal.Index(0).Addr().Interface()
+			}
 		}
 	}
 
 	// Add tags to buffer
+	first := len(buf.tags)
 	err := buf.AddTags(tagMap)
 	if err != nil {
 		return err
 	}
+	for name, expanded := range expansions {
+		buf.expansions[name] = expanded
+	}
 
 	// Set Var pointers for each tag
-	for i := range buf.tags {
+	for i := first; i < len(buf.tags); i++ {
 		if ptr, ok := varPtrs[buf.tags[i].Name]; ok {
 			buf.tags[i].Var = ptr
 		}
-- 
2.43.0


From 6d158f7a31fca907f7978807a0854ce92b7a1d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:12 +0000
Subject: [PATCH 55/68] fix: an array tag without an index expands to its
 elements

---
 taggroup.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/taggroup.go b/taggroup.go
index 261f5be..bde67a3 100644
--- a/taggroup.go
+++ b/taggroup.go
@@ -125,11 +125,10 @@ func expandArrayTag(baseName string, count int) []string {
 
 	tag, err := parse_tag_name(baseName)
 	if err != nil || tag.Array_Order == nil || len(tag.Array_Order) == 0 {
-		// No array index found — just return the base name repeated.
-		// This shouldn't happen in normal use.
+		// No array index found — the elements are those of the whole array.
 		result := make([]string, count)
 		for i := range result {
-			result[i] = baseName
+			result[i] = fmt.Sprintf("%s[%d]", baseName, i)
 		}
 		return result
 	}
-- 
2.43.0


From 3406b3f53fd2ec91db9561946f58636e58bdf31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:00 +0000
Subject: [PATCH 56/68] fix: BYTE, WORD, DWORD and LWORD values of a program
 export are unsigned

---
 l5x/types.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/l5x/types.go b/l5x/types.go
index f76db98..9dc2780 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -7,7 +7,7 @@ import (
 
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
-	case "REAL":
+	case "REAL", "LREAL":
 		value, _ := strconv.ParseFloat(valuestr, 64)
 		return float64(value), nil
 	case "DINT":
@@ -27,17 +27,17 @@ func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	case "LINT":
 		value, _ := strconv.ParseInt(valuestr, 10, 64)
 		return int64(value), nil
-	case "BYTE":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
+	case "USINT", "BYTE":
+		value, _ := strconv.ParseUint(valuestr, 10, 8)
 		return uint8(value), nil
-	case "WORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
+	case "UINT", "WORD":
+		value, _ := strconv.ParseUint(valuestr, 10, 16)
 		return uint16(value), nil
-	case "DWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
+	case "UDINT", "DWORD":
+		value, _ := strconv.ParseUint(valuestr, 10, 32)
 		return uint32(value), nil
-	case "LWORD":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
+	case "ULINT", "LWORD":
+		value, _ := strconv.ParseUint(valuestr, 10, 64)
 		return uint64(value), nil
 
 	default:
-- 
2.43.0


From 313eefe3756bab551547ab702b25b1a8de8b93cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:00 +0000
Subject: [PATCH 57/68] fix: values of a program export are read in their
 radix, and other text is an error

---
 l5x/types.go | 155 +++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 145 insertions(+), 10 deletions(-)

diff --git a/l5x/types.go b/l5x/types.go
index 9dc2780..cb7eb94 100644
--- a/l5x/types.go
+++ b/l5x/types.go
@@ -2,45 +2,180 @@ package l5x
 
 import (
 	"fmt"
+	"math"
 	"strconv"
+	"strings"
 )
 
 func L5xTypeToGoType(typestr string, valuestr string) (any, error) {
 	switch typestr {
 	case "REAL", "LREAL":
-		value, _ := strconv.ParseFloat(valuestr, 64)
+		value, err := parseFloat(valuestr)
+		if err != nil {
+			return nil, err
+		}
 		return float64(value), nil
 	case "DINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 32)
+		value, err := parseSigned(valuestr, 32)
+		if err != nil {
+			return nil, err
+		}
 		return int32(value), nil
 	case "BOOL", "BIT":
-		value, _ := strconv.ParseBool(valuestr)
+		value, err := parseBool(valuestr)
+		if err != nil {
+			return nil, err
+		}
 		return bool(value), nil
 	case "INT":
-		value, _ := strconv.ParseInt(valuestr, 10, 16)
+		value, err := parseSigned(valuestr, 16)
+		if err != nil {
+			return nil, err
+		}
 		return int16(value), nil
 	case "STRING":
 		return valuestr, nil
 	case "SINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 8)
+		value, err := parseSigned(valuestr, 8)
+		if err != nil {
+			return nil, err
+		}
 		return int8(value), nil
 	case "LINT":
-		value, _ := strconv.ParseInt(valuestr, 10, 64)
+		value, err := parseSigned(valuestr, 64)
+		if err != nil {
+			return nil, err
+		}
 		return int64(value), nil
 	case "USINT", "BYTE":
-		value, _ := strconv.ParseUint(valuestr, 10, 8)
+		value, err := parseUnsigned(valuestr, 8)
+		if err != nil {
+			return nil, err
+		}
 		return uint8(value), nil
 	case "UINT", "WORD":
-		value, _ := strconv.ParseUint(valuestr, 10, 16)
+		value, err := parseUnsigned(valuestr, 16)
+		if err != nil {
+			return nil, err
+		}
 		return uint16(value), nil
 	case "UDINT", "DWORD":
-		value, _ := strconv.ParseUint(valuestr, 10, 32)
+		value, err := parseUnsigned(valuestr, 32)
+		if err != nil {
+			return nil, err
+		}
 		return uint32(value), nil
 	case "ULINT", "LWORD":
-		value, _ := strconv.ParseUint(valuestr, 10, 64)
+		value, err := parseUnsigned(valuestr, 64)
+		if err != nil {
+			return nil, err
+		}
 		return uint64(value), nil
 
 	default:
 		return fmt.Sprintf("Unknown type: %s", typestr), nil
 	}
 }
+
+// parseRadix reads the bits of an integer that is written in binary, octal, hexadecimal or as
+// characters.  Other text is left to the caller: found is false.
+func parseRadix(text string, bits int) (value uint64, found bool, err error) {
+	switch {
+	case strings.HasPrefix(text, "2#"):
+		value, err = strconv.ParseUint("0b"+text[2:], 0, bits)
+	case strings.HasPrefix(text, "8#"):
+		value, err = strconv.ParseUint("0o"+text[2:], 0, bits)
+	case strings.HasPrefix(text, "16#"):
+		value, err = strconv.ParseUint("0x"+text[3:], 0, bits)
+	case strings.HasPrefix(text, "'"):
+		value, err = parseCharacters(text, bits)
+	default:
+		return 0, false, nil
+	}
+	return value, true, err
+}
+
+// parseCharacters reads an integer written as quoted characters, the most significant first.
+func parseCharacters(text string, bits int) (uint64, error) {
+	if len(text) < 2 || text[len(text)-1] != '\'' {
+		return 0, fmt.Errorf("unterminated characters %s", text)
+	}
+	chars := text[1 : len(text)-1]
+	value, n := uint64(0), 0
+	for i := 0; i < len(chars); i++ {
+		c := chars[i]
+		if c == '$' {
+			i++
+			if i == len(chars) {
+				return 0, fmt.Errorf("incomplete character in %s", text)
+			}
+			switch chars[i] {
+			case '$', '\'':
+				c = chars[i]
+			case 'L', 'l', 'N', 'n':
+				c = '\n'
+			case 'P', 'p':
+				c = '\f'
+			case 'R', 'r':
+				c = '\r'
+			case 'T', 't':
+				c = '\t'
+			default:
+				if i+2 > len(chars) {
+					return 0, fmt.Errorf("incomplete character in %s", text)
+				}
+				code, err := strconv.ParseUint(chars[i:i+2], 16, 8)
+				if err != nil {
+					return 0, fmt.Errorf("unknown character in %s", text)
+				}
+				c = byte(code)
+				i++
+			}
+		}
+		value = value<<8 | uint64(c)
+		n++
+	}
+	if n != bits/8 {
+		return 0, fmt.Errorf("%s has %d characters, not %d", text, n, bits/8)
+	}
+	return value, nil
+}
+
+func parseSigned(text string, bits int) (int64, error) {
+	value, found, err := parseRadix(text, bits)
+	if found {
+		return int64(value), err
+	}
+	return strconv.ParseInt(text, 10, bits)
+}
+
+func parseUnsigned(text string, bits int) (uint64, error) {
+	value, found, err := parseRadix(text, bits)
+	if found {
+		return value, err
+	}
+	return strconv.ParseUint(text, 10, bits)
+}
+
+func parseBool(text string) (bool, error) {
+	value, found, err := parseRadix(text, 1)
+	if found {
+		return value != 0, err
+	}
+	return strconv.ParseBool(text)
+}
+
+// parseFloat reads a number, or the text the programming software writes for those without digits.
+func parseFloat(text string) (float64, error) {
+	switch {
+	case strings.HasPrefix(text, "1.#INF"):
+		return math.Inf(1), nil
+	case strings.HasPrefix(text, "-1.#INF"):
+		return math.Inf(-1), nil
+	case strings.HasPrefix(text, "1.#QNAN"), strings.HasPrefix(text, "-1.#QNAN"),
+		strings.HasPrefix(text, "1.#SNAN"), strings.HasPrefix(text, "-1.#SNAN"),
+		strings.HasPrefix(text, "1.#IND"), strings.HasPrefix(text, "-1.#IND"):
+		return math.NaN(), nil
+	}
+	return strconv.ParseFloat(text, 64)
+}
-- 
2.43.0


From 8d15dcc33957a2bfa3ef244a3437867189741b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 58/68] fix: the text of a structure's string is imported from
 a program export

---
 l5x/load_tags.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index 23db452..ae29f76 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -43,7 +43,7 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 				if tag.Data[1].Structure != nil {
 					mapValue := make(map[string]any)
 					for _, member := range tag.Data[1].Structure.DataValueMember {
-						mapValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
+						mapValue[member.NameAttr], err = memberValue(member)
 						if err != nil {
 							return nil, fmt.Errorf("error converting %s.%s.%s: %s", progprefix, tagname, member.NameAttr, err)
 						}
@@ -64,14 +64,7 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 							// this is an array of structures
 							myValue := make(map[string]any)
 							for _, member := range element.Structure[0].DataValueMember {
-								if member.DataTypeAttr == "STRING" {
-									myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.CData())
-									if err != nil {
-										return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
-									}
-									continue
-								}
-								myValue[member.NameAttr], err = L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
+								myValue[member.NameAttr], err = memberValue(member)
 								if err != nil {
 									return nil, fmt.Errorf("error converting %s: %s", member.NameAttr, err)
 								}
@@ -97,6 +90,14 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 }
 
+// memberValue converts a member of a structure.  The text of a string is its content.
+func memberValue(member *DataValue) (any, error) {
+	if member.DataTypeAttr == "STRING" || member.RadixAttr == "ASCII" && member.ValueAttr == "" {
+		return member.CData(), nil
+	}
+	return L5xTypeToGoType(member.DataTypeAttr, member.ValueAttr)
+}
+
 func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	dtm := GetDataTypeMap(l5xData)
 
-- 
2.43.0


From 22f7885919343bf9c06bbb385303a3305c084de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 59/68] fix: arrays of several dimensions in a program export

---
 l5x/load_tags.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index ae29f76..efc6b5a 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -54,11 +54,13 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 				// or an array of atomic values or structures
 				if tag.Data[1].Array != nil {
 
-					dims, err := strconv.ParseInt(tag.DimensionsAttr, 10, 64)
-					if err != nil {
-						return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
+					for _, dim := range strings.Fields(tag.DimensionsAttr) {
+						_, err := strconv.ParseUint(dim, 10, 32)
+						if err != nil {
+							return nil, fmt.Errorf("%s.%s invalid dimensions on %s: %s", progprefix, tagname, tag.DimensionsAttr, err)
+						}
 					}
-					arrValue := make([]any, 0, dims)
+					arrValue := make([]any, 0, len(tag.Data[1].Array.Element))
 					for _, element := range tag.Data[1].Array.Element {
 						if element.Structure != nil {
 							// this is an array of structures
-- 
2.43.0


From 680727db243c8ae3c7d0d6ba0ee5d7b11c6d48c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 60/68] fix: program exports that leave out collections

---
 l5x/load_tags.go | 57 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 9 deletions(-)

diff --git a/l5x/load_tags.go b/l5x/load_tags.go
index efc6b5a..760a946 100644
--- a/l5x/load_tags.go
+++ b/l5x/load_tags.go
@@ -10,8 +10,11 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 
 	var err error
 	tags := make(map[string]any)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	for _, tag := range tagList(l5xData.Controller.Tags) {
 		if tag.Data != nil {
 			if len(tag.Data) > 1 {
 				if tag.Data[1].DataValue != nil {
@@ -24,10 +27,10 @@ func LoadTags(l5xData RSLogix5000Content) (map[string]any, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range programList(l5xData.Controller.Programs) {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
+		for _, tag := range tagList(program.Tags) {
 			tagname := tag.NameAttr
 			tagtype := tag.DataTypeAttr
 			if len(tag.Data) > 1 {
@@ -105,8 +108,15 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 
 	var err error
 	tags := make(map[string]string)
+	if l5xData == nil || l5xData.Controller == nil {
+		return tags, nil
+	}
 
-	for _, module := range l5xData.Controller.Modules.Module {
+	var modules []*MapDeviceType
+	if l5xData.Controller.Modules != nil {
+		modules = l5xData.Controller.Modules.Module
+	}
+	for _, module := range modules {
 		if module.Communications == nil {
 			continue
 		}
@@ -151,7 +161,7 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, tag := range l5xData.Controller.Tags.Tag {
+	for _, tag := range tagList(l5xData.Controller.Tags) {
 
 		mydesc := ""
 		if tag.Data != nil {
@@ -171,10 +181,10 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range programList(l5xData.Controller.Programs) {
 		progprefix := fmt.Sprintf("program:%s", program.NameAttr)
 		progtags := make(map[string]any)
-		for _, tag := range program.Tags.Tag {
+		for _, tag := range tagList(program.Tags) {
 			tagname := tag.NameAttr
 			if len(tag.Description) > 1 {
 				comment := ""
@@ -195,9 +205,15 @@ func LoadTagComments(l5xData RSLogix5000Content) (map[string]string, error) {
 
 func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	comments := make(map[string]string)
+	if l5xData == nil || l5xData.Controller == nil {
+		return comments, nil
+	}
 
 	taskLookup := make(map[string]string)
-	tasks := l5xData.Controller.Tasks.Task
+	var tasks []*TaskType
+	if l5xData.Controller.Tasks != nil {
+		tasks = l5xData.Controller.Tasks.Task
+	}
 	for _, task := range tasks {
 		if task.ScheduledPrograms == nil {
 			continue
@@ -207,7 +223,10 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 		}
 	}
 
-	for _, program := range l5xData.Controller.Programs.Program {
+	for _, program := range programList(l5xData.Controller.Programs) {
+		if program.Routines == nil {
+			continue
+		}
 		for _, routine := range program.Routines.Routine {
 			for _, rungContent := range routine.RLLContent {
 				for _, rung := range rungContent.Rung {
@@ -227,9 +246,28 @@ func LoadRungComments(l5xData RSLogix5000Content) (map[string]string, error) {
 	return comments, nil
 }
 
+// the tags of a collection, which an export may leave out
+func tagList(tags *TagCollectionType) []*TagType {
+	if tags == nil {
+		return nil
+	}
+	return tags.Tag
+}
+
+// the programs of a collection, which an export may leave out
+func programList(programs *ProgramCollectionType) []*AProgramType {
+	if programs == nil {
+		return nil
+	}
+	return programs.Program
+}
+
 // convert list of data types to a map[string]any
 func GetDataTypeMap(l5xData RSLogix5000Content) map[string]*DataTypeType {
 	dataTypes := make(map[string]*DataTypeType)
+	if l5xData == nil || l5xData.Controller == nil || l5xData.Controller.DataTypes == nil {
+		return dataTypes
+	}
 
 	for _, dataType := range l5xData.Controller.DataTypes.DataType {
 		dataTypes[dataType.NameAttr] = dataType
@@ -251,6 +289,7 @@ func GetTypeComments(types map[string]*DataTypeType, typeName string) map[string
 	out[typeName] = myDescription
 	members := dt.Members
 	if members == nil {
+		return out
 	}
 	for _, member := range dt.Members.Member {
 		//typeName := fmt.Sprintf("%s.%s", typeName, member.NameAttr)
-- 
2.43.0


From e5b2adc967c8a830aae3879f3f255e7e1a552713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:55 +0000
Subject: [PATCH 61/68] fix: a short IO message no longer leaves half of itself
 in the outputs

---
 server_io.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server_io.go b/server_io.go
index cde4d06..bac1d77 100644
--- a/server_io.go
+++ b/server_io.go
@@ -68,10 +68,13 @@ func (p *IOProvider[Tin, Tout]) IOWrite(items []CIPItem) error {
 	p.OutMutex.Lock()
 	defer p.OutMutex.Unlock()
 
-	_, err = Unpack(b, p.Out)
+	// a message that turns out to be short must not leave half of itself in the outputs.
+	out := *p.Out
+	_, err = Unpack(b, &out)
 	if err != nil {
 		return fmt.Errorf("problem unpacking data into output struct %w", err)
 	}
+	*p.Out = out
 
 	return nil
 }
-- 
2.43.0


From 7359d8e49a9ad4248680102f1c9008349c4e82d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:55 +0000
Subject: [PATCH 62/68] fix: setting a class C8 attribute writes all the values
 of the request

---
 server_unconnected.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/server_unconnected.go b/server_unconnected.go
index def15ae..6933d4d 100644
--- a/server_unconnected.go
+++ b/server_unconnected.go
@@ -536,7 +536,10 @@ func (h *serverTCPHandler) unconnectedServiceSetAttrSingle(item CIPItem) error {
 	if err != nil {
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_PathDestinationUnknown)
 	}
-	value := values[0]
+	var value any = values
+	if len(values) == 1 {
+		value = values[0]
+	}
 	if err := provider.TagWrite(tagName, value); err != nil {
 		h.server.Logger.Warn("set_attr_single: tag write failed", "tag", tagName, "err", err)
 		return h.sendUnconnectedErrorReply(CIPService_SetAttributeSingle, CIPStatus_InvalidAttributeValue)
-- 
2.43.0


From 868e54960617eb6f83ef4ca7dbd5d47799d00161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:41 +0000
Subject: [PATCH 63/68] fix: stopping a keep-alive that isn't running or was
 stopped before no longer panics

---
 connect.go    |  7 +++++--
 disconnect.go | 16 ++++++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/connect.go b/connect.go
index fe6efb1..52bd138 100644
--- a/connect.go
+++ b/connect.go
@@ -210,7 +210,10 @@ func (client *Client) KeepAlive() {
 		client.Logger.Warn(err.Error())
 	}
 	client.Logger.Debug("starting keep alive")
-	client.cancel_keepalive = make(chan struct{})
+	cancel := make(chan struct{})
+	client.mutex.Lock()
+	client.cancel_keepalive = cancel
+	client.mutex.Unlock()
 	client.keepAliveRunning = true
 	defer func() { client.keepAliveRunning = false }()
 
@@ -273,7 +276,7 @@ func (client *Client) KeepAlive() {
 				originalProps = newProps
 			}
 
-		case <-client.cancel_keepalive:
+		case <-cancel:
 			client.KeepAliveAutoStart = false
 			return
 		}
diff --git a/disconnect.go b/disconnect.go
index d32051c..4c21384 100644
--- a/disconnect.go
+++ b/disconnect.go
@@ -65,9 +65,7 @@ func (client *Client) Disconnect() error {
 		client.mutex.Unlock()
 	}()
 
-	if client.keepAliveRunning {
-		close(client.cancel_keepalive)
-	}
+	client.stopKeepAlive()
 
 	items := make([]CIPItem, 2)
 	items[0] = CIPItem{} // null item
@@ -147,10 +145,20 @@ func (client *Client) KeepAliveCancel(force bool) error {
 	if client.KeepAliveAutoStart && !force {
 		return fmt.Errorf("unable to cancel keepalive due to AutoKeepAlive == true")
 	}
-	close(client.cancel_keepalive)
+	client.stopKeepAlive()
 	return nil
 }
 
+// stops the running keepalive if there is one. A keepalive that was stopped before can't be stopped again.
+func (client *Client) stopKeepAlive() {
+	client.mutex.Lock()
+	defer client.mutex.Unlock()
+	if client.cancel_keepalive != nil {
+		close(client.cancel_keepalive)
+		client.cancel_keepalive = nil
+	}
+}
+
 type msgCipUnRegister struct {
 	Service                CIPService
 	CipPathSize            byte
-- 
2.43.0


From 33dac9a1782752c11a11140fffad1f0cdd9a23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 64/68] fix: text longer than a string is announced with the
 length it is cut to

---
 pack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pack.go b/pack.go
index 207444f..75f630f 100644
--- a/pack.go
+++ b/pack.go
@@ -125,6 +125,10 @@ func Serialize(strs ...any) (*bytes.Buffer, error) {
 		switch serializable_str := str.(type) {
 		case string:
 			strlen := uint32(len(serializable_str))
+			if strlen > 84 {
+				// no more than the payload carries
+				strlen = 84
+			}
 			err := binary.Write(b, binary.LittleEndian, strlen)
 			if err != nil {
 				return nil, fmt.Errorf("problem writing string header: %w", err)
-- 
2.43.0


From f36cb4c33cac82bb0e334802d57afc6ef39f81cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:45 +0000
Subject: [PATCH 65/68] fix: ReadPacked reads the structure instead of always
 failing

---
 pack.go | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/pack.go b/pack.go
index 75f630f..ca66733 100644
--- a/pack.go
+++ b/pack.go
@@ -470,20 +470,9 @@ func Unpack(r io.Reader, data any) (n int, err error) {
 
 func ReadPacked[T any](client *Client, tag string) (T, error) {
 	var data T
-	buf := new(bytes.Buffer)
-	size, err := Pack(buf, data)
+	err := client.Read(tag, &data)
 	if err != nil {
-		return data, err
-	}
-
-	b := make([]byte, size)
-	err = client.Read(tag, &b)
-	if err != nil {
-		return data, fmt.Errorf("couldn't read %s as bytes. %w", tag, err)
-	}
-	_, err = Unpack(bytes.NewBuffer(b), &data)
-	if err != nil {
-		return data, fmt.Errorf("problem unpacking from buffer. %w", err)
+		return data, fmt.Errorf("couldn't read %s. %w", tag, err)
 	}
 
 	return data, nil
-- 
2.43.0


From 40fe6f3ea648087652f12af0fbc28fca548c8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:46 +0000
Subject: [PATCH 66/68] fix: a path text that starts with an address is an
 error instead of a panic

---
 path.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/path.go b/path.go
index 5a5871a..9e79740 100644
--- a/path.go
+++ b/path.go
@@ -77,6 +77,12 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 		if is_ip {
 			// for some god forsaken reason the path doesn't use the ip address as actual bytes but as an ascii string.
 			// we first have to set bit 5 in the previous byte to say we're using an extended address for this part.
+			if len(byte_path) == 0 {
+				return nil, fmt.Errorf("no port before address %v", part)
+			}
+			if len(part) > 255 {
+				return nil, fmt.Errorf("address too long. %v", part)
+			}
 			last_pos := len(byte_path) - 1
 			last_byte := byte_path[last_pos]
 			byte_path[last_pos] = last_byte | 1<<4
-- 
2.43.0


From adfddd9d6e45f5b292f47f0b0c823818ea4238cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:47 +0000
Subject: [PATCH 67/68] fix: an address in a path text is padded to whole words

---
 path.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/path.go b/path.go
index 9e79740..2579634 100644
--- a/path.go
+++ b/path.go
@@ -90,6 +90,10 @@ func ParsePath(path string) (*bytes.Buffer, error) {
 			byte_path = append(byte_path, byte(l))
 			string_bytes := []byte(part)
 			byte_path = append(byte_path, string_bytes...)
+			if l%2 == 1 {
+				// segments have whole words
+				byte_path = append(byte_path, 0)
+			}
 			continue
 		}
 		// not an IP address
-- 
2.43.0


From 510f4dd7ae3e9fc4a0d599d052ccde37e7caeacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:47 +0000
Subject: [PATCH 68/68] fix: the length of ports and addresses is the number of
 their bytes

---
 cip_definitions.go | 2 +-
 path.go            | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cip_definitions.go b/cip_definitions.go
index cf56d77..e006daf 100644
--- a/cip_definitions.go
+++ b/cip_definitions.go
@@ -13,7 +13,7 @@ func (p CIPAddress) Bytes() []byte {
 }
 
 func (p CIPAddress) Len() int {
-	return 0
+	return 1
 }
 
 // Represents a CIP class attribute id - that is a specific attribute of a given class.
diff --git a/path.go b/path.go
index 2579634..538cd25 100644
--- a/path.go
+++ b/path.go
@@ -44,7 +44,10 @@ type CIPPort struct {
 }
 
 func (p CIPPort) Len() int {
-	return 2
+	if p.ExtensionLen != 0 {
+		return 2
+	}
+	return 1
 }
 
 func (p CIPPort) Bytes() []byte {
-- 
2.43.0

