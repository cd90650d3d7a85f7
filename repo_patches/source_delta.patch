From 3a57fe145f3278c65a785a30e1aa8eb456639903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 01/33] fix: beserial: report encoding errors of values behind
 pointers

---
 beserial/encode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 78e7cd9..8f84c37 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -59,8 +59,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		} else if v.IsNil() {
 			return nil, ErrNonOptionalNil
 		}
-		b, err = marshal(v.Elem(), b, ts)
-		return b, nil
+		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
 		if typ.Elem().Kind() == reflect.Uint8 {
-- 
2.43.0


From 55ceeb247ee179843e7cba639ea1655fe20cabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 02/33] fix: beserial: honour the optional flag of pointers to
 types with a custom encoding

---
 beserial/decode.go | 6 +++---
 beserial/encode.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index c549ec5..eaf409a 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -60,10 +60,10 @@ func (d *decodeState) unmarshal(v interface{}) error {
 func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
+	// Pointers are followed by the generic code first,
+	// so that the optional flag and nil are dealt with.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
diff --git a/beserial/encode.go b/beserial/encode.go
index 8f84c37..2f52f09 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -34,10 +34,10 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	var err error
 	kind := v.Kind()
 	// Check for MarshalBESerial implementation.
+	// Pointers are followed by the generic code first,
+	// so that the optional flag and nil are dealt with.
 	var addr reflect.Value
-	if kind == reflect.Ptr {
-		addr = v
-	} else if v.CanAddr() {
+	if v.CanAddr() {
 		addr = v.Addr()
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
-- 
2.43.0


From d6f737b8bc5e926adf67c004479ba9d30a8e7e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 03/33] fix: beserial: reject nil and non-pointer arguments
 instead of panicking

---
 beserial/decode.go | 34 ++++++++++++++++++++++------------
 beserial/encode.go | 17 ++++++++---------
 beserial/size.go   |  9 +++++++--
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index eaf409a..b2933cd 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -46,9 +46,14 @@ type decodeState struct {
 
 func (d *decodeState) unmarshal(v interface{}) error {
 	rv := reflect.ValueOf(v)
+	if rv.Kind() != reflect.Ptr {
+		// A custom encoding does not need an addressable value.
+		if u, ok := v.(Unmarshaler); ok {
+			return d.custom(u)
+		}
+		return &InvalidUnmarshalError{reflect.TypeOf(v)}
+	}
 	if rv.IsNil() {
-		return nil
-	} else if rv.Kind() != reflect.Ptr {
 		return &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	if err := d.value(rv.Elem(), tags{}); err != nil {
@@ -57,6 +62,20 @@ func (d *decodeState) unmarshal(v interface{}) error {
 	return nil
 }
 
+// custom decodes an item using its UnmarshalBESerial implementation.
+func (d *decodeState) custom(u Unmarshaler) error {
+	n, err := u.UnmarshalBESerial(d.data)
+	if err != nil {
+		return err
+	} else if n < 0 {
+		panic("beserial: UnmarshalBESerial returned negative number")
+	} else if n > len(d.data) {
+		panic("beserial: UnmarshalBESerial claimed to have read more bytes than available")
+	}
+	d.data = d.data[n:]
+	return nil
+}
+
 func (d *decodeState) value(v reflect.Value, ts tags) error {
 	kind := v.Kind()
 	// Check for UnmarshalBESerial implementation.
@@ -68,16 +87,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 	}
 	if addr.IsValid() && addr.Type().NumMethod() > 0 && addr.CanInterface() {
 		if u, ok := addr.Interface().(Unmarshaler); ok {
-			n, err := u.UnmarshalBESerial(d.data)
-			if err != nil {
-				return err
-			} else if n < 0 {
-				panic("beserial: UnmarshalBESerial returned negative number")
-			} else if n > len(d.data) {
-				panic("beserial: UnmarshalBESerial claimed to have read more bytes than available")
-			}
-			d.data = d.data[n:]
-			return nil
+			return d.custom(u)
 		}
 	}
 	// Generic decode.
diff --git a/beserial/encode.go b/beserial/encode.go
index 2f52f09..493ace9 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -9,16 +9,15 @@ import (
 // Marshal appends the binary encoding of v to b.
 func Marshal(b []byte, v interface{}) ([]byte, error) {
 	rv := reflect.ValueOf(v)
-	if rv.Kind() == reflect.Interface {
-		if rv.Interface() == nil {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		}
-	} else {
-		if rv.IsNil() {
-			return nil, fmt.Errorf("TODO error") // FIXME
-		} else if rv.Kind() != reflect.Ptr {
-			return nil, fmt.Errorf("TODO error") // FIXME
+	if rv.Kind() != reflect.Ptr {
+		// A custom encoding does not need an addressable value.
+		if m, ok := v.(Marshaler); ok {
+			return m.MarshalBESerial(b)
 		}
+		return nil, &InvalidUnmarshalError{reflect.TypeOf(v)}
+	}
+	if rv.IsNil() {
+		return nil, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return marshal(rv.Elem(), b, tags{})
 }
diff --git a/beserial/size.go b/beserial/size.go
index bceeacb..b4ddb3e 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -10,9 +10,14 @@ import (
 // v must not be nil or a non-pointer.
 func Size(v interface{}) (int, error) {
 	rv := reflect.ValueOf(v)
+	if rv.Kind() != reflect.Ptr {
+		// A custom encoding does not need an addressable value.
+		if m, ok := v.(Marshaler); ok {
+			return m.SizeBESerial()
+		}
+		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
+	}
 	if rv.IsNil() {
-		return 0, nil
-	} else if rv.Kind() != reflect.Ptr {
 		return 0, &InvalidUnmarshalError{reflect.TypeOf(v)}
 	}
 	return valueSize(rv.Elem(), tags{})
-- 
2.43.0


From 415640fa2ebd503098ec95209440606859fd0b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 04/33] fix: beserial: Size honours custom encodings and
 booleans

---
 beserial/size.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/beserial/size.go b/beserial/size.go
index b4ddb3e..24e8b4c 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -25,6 +25,16 @@ func Size(v interface{}) (int, error) {
 
 func valueSize(v reflect.Value, ts tags) (total int, err error) {
 	kind := v.Kind()
+	// Check for SizeBESerial implementation.
+	if v.CanAddr() {
+		addr := v.Addr()
+		if addr.Type().NumMethod() > 0 && addr.CanInterface() {
+			if m, ok := addr.Interface().(Marshaler); ok {
+				return m.SizeBESerial()
+			}
+		}
+	}
+	// Generic size.
 	switch kind {
 	case reflect.Ptr:
 		if ts.optional {
@@ -90,6 +100,8 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 			}
 			total += elemSize
 		}
+	case reflect.Bool:
+		total = 1
 	default:
 		tagSize, ok := sizeNumber(kind)
 		if !ok {
-- 
2.43.0


From f2708cd6b3ad5d1b4c6cdd7ce85e2a152cc3e37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 05/33] fix: beserial: do not truncate length prefixes

---
 beserial/encode.go | 31 ++++++++++++++++++++++---------
 beserial/errors.go |  1 +
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/beserial/encode.go b/beserial/encode.go
index 493ace9..057a885 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -3,6 +3,7 @@ package beserial
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 )
 
@@ -77,7 +78,10 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 			return nil, ErrNoLenTag
 		}
 		size := v.Len()
-		b = marshalInt(ts.lenTag, size, b)
+		b, err = marshalLen(ts.lenTag, size, b)
+		if err != nil {
+			return nil, err
+		}
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
@@ -121,24 +125,33 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 	return b, nil
 }
 
-// TODO Bounds checks
-
-func marshalInt(kind reflect.Kind, n int, b []byte) []byte {
+// marshalLen appends a length prefix,
+// or errors if the length does not fit the prefix.
+func marshalLen(kind reflect.Kind, n int, b []byte) ([]byte, error) {
 	var st [8]byte
 	switch kind {
 	case reflect.Uint8:
-		return append(b, uint8(n))
+		if uint64(n) > math.MaxUint8 {
+			return nil, ErrLenOverflow
+		}
+		return append(b, uint8(n)), nil
 	case reflect.Uint16:
+		if uint64(n) > math.MaxUint16 {
+			return nil, ErrLenOverflow
+		}
 		binary.BigEndian.PutUint16(st[:], uint16(n))
-		return append(b, st[:2]...)
+		return append(b, st[:2]...), nil
 	case reflect.Uint32:
+		if uint64(n) > math.MaxUint32 {
+			return nil, ErrLenOverflow
+		}
 		binary.BigEndian.PutUint32(st[:], uint32(n))
-		return append(b, st[:4]...)
+		return append(b, st[:4]...), nil
 	case reflect.Uint64:
 		binary.BigEndian.PutUint64(st[:], uint64(n))
-		return append(b, st[:8]...)
+		return append(b, st[:8]...), nil
 	default:
-		panic("beserial: marshalInt not expecting " + kind.String())
+		panic("beserial: marshalLen not expecting " + kind.String())
 	}
 }
 
diff --git a/beserial/errors.go b/beserial/errors.go
index 12a096e..64af49f 100644
--- a/beserial/errors.go
+++ b/beserial/errors.go
@@ -34,5 +34,6 @@ func (e *InvalidLenTagError) Error() string {
 var (
 	ErrUnexpectedEOF  = errors.New("beserial: unexpected EOF")
 	ErrNoLenTag       = errors.New("beserial: no length tag specified for slice")
+	ErrLenOverflow    = errors.New("beserial: length exceeds its length tag")
 	ErrNonOptionalNil = errors.New("beserial: nil ptr without optional tag")
 )
-- 
2.43.0


From 613788b0c85191aadfd85bd3443bdd2b87aec712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/33] fix: beserial: parse len_tag next to other tag options

---
 beserial/tags.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beserial/tags.go b/beserial/tags.go
index be863de..7faa72b 100644
--- a/beserial/tags.go
+++ b/beserial/tags.go
@@ -20,8 +20,8 @@ func (ts *tags) parse(tag string) {
 		switch {
 		case el == optional:
 			ts.optional = true
-		case strings.HasPrefix(tag, lenTag):
-			switch tag[len(lenTag):] {
+		case strings.HasPrefix(el, lenTag):
+			switch el[len(lenTag):] {
 			case "uint8":
 				ts.lenTag = reflect.Uint8
 			case "uint16":
-- 
2.43.0


From a172e7c6e70b6cc4d5e00c3874baf7dd99559611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 07/33] fix: wire: BitSet size of 249 and more bits overflowed

---
 wire/bitset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wire/bitset.go b/wire/bitset.go
index 868ae81..489d909 100644
--- a/wire/bitset.go
+++ b/wire/bitset.go
@@ -19,13 +19,13 @@ func (bs *BitSet) UnmarshalBESerial(b []byte) (n int, err error) {
 	bs.Len = b[0]
 	b = b[1:]
 	// Read repeat bits
-	size := (bs.Len + 7) / 8 // ceil division
+	size := (int(bs.Len) + 7) / 8 // ceil division
 	bs.Bits = make([]byte, size)
 	if len(b) < len(bs.Bits) {
 		return 0, fmt.Errorf("reading bit set: %w", beserial.ErrUnexpectedEOF)
 	}
 	copy(bs.Bits, b)
-	return 1 + int(size), nil
+	return 1 + size, nil
 }
 
 func (bs *BitSet) MarshalBESerial(b []byte) ([]byte, error) {
-- 
2.43.0


From 9b07f40f3440a2b17f940352c10cfb6873ea8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:28 +0000
Subject: [PATCH 08/33] fix: wire: interlink decoding skipped the first hash
 and kept surplus hashes

---
 wire/block.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/wire/block.go b/wire/block.go
index 4d64ac4..be88603 100644
--- a/wire/block.go
+++ b/wire/block.go
@@ -2,7 +2,6 @@ package wire
 
 import (
 	"fmt"
-	"math/bits"
 
 	"terorie.dev/nimiq/beserial"
 )
@@ -52,15 +51,10 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 		return
 	}
 	b = b[n:]
-	// Iterate through bit stream and count bits (number of unique hashes)
 	il.Hashes = make([]*[32]byte, il.Repeats.Len)
 	hash := &il.PrevHash
-	var compressedCount int
-	for _, repeatBits := range il.Repeats.Bits {
-		compressedCount += 8 - bits.OnesCount8(repeatBits)
-	}
 	// Allocate space for unique hashes
-	il.Compressed = make([][32]byte, compressedCount)
+	il.Compressed = make([][32]byte, il.Repeats.Len)
 	// Iterate through bit stream and read hashes:
 	// Bit 0: New Hash
 	// Bit 1: Repeated Hash
@@ -74,12 +68,13 @@ func (il *BlockInterlink) UnmarshalBESerial(b []byte) (n int, err error) {
 			if len(b) < len(hash) {
 				return 0, fmt.Errorf("failed to read hash: %w", beserial.ErrUnexpectedEOF)
 			}
-			b = b[len(hash):]
 			copy(hash[:], b)
+			b = b[len(hash):]
 		}
 		// Save pointer to last hash
 		il.Hashes[i] = hash
 	}
+	il.Compressed = il.Compressed[:compressedIndex]
 	return len(orig) - len(b), nil
 }
 
-- 
2.43.0


From 5a10660cf582f33a876eae95f35c1e6e0107aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:29 +0000
Subject: [PATCH 09/33] fix: wire: NetAddress decoding lost the address type

---
 wire/p2p.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wire/p2p.go b/wire/p2p.go
index 87f2cc3..38f3f5a 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -31,6 +31,7 @@ func (na *NetAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 		return
 	}
 	b = b[n:]
+	na.Type = t
 	switch t {
 	case NetAddressIPv4:
 		na.IP = make([]byte, net.IPv4len)
-- 
2.43.0


From 846d794ebbf4e8da9cb6cc1c7065d9ecdf0c4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:30 +0000
Subject: [PATCH 10/33] fix: wire: PeerAddress could not encode or decode its
 details

---
 wire/p2p.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/wire/p2p.go b/wire/p2p.go
index 38f3f5a..2c0f2e9 100644
--- a/wire/p2p.go
+++ b/wire/p2p.go
@@ -113,12 +113,13 @@ func (pa *PeerAddress) UnmarshalBESerial(b []byte) (n int, err error) {
 	switch pa.Protocol {
 	case ProtocolDumb:
 		pa.Detail = nil
+		return
 	case ProtocolWS, ProtocolWSS:
 		pa.Detail = new(PeerAddressSrv)
 	default:
 		return n, fmt.Errorf("unknown protocol: 0x%x", pa.Protocol)
 	}
-	sub, err = beserial.Unmarshal(b, &pa.Detail)
+	sub, err = beserial.Unmarshal(b, pa.Detail)
 	n += sub
 	b = b[sub:]
 	if err != nil {
@@ -133,7 +134,10 @@ func (pa *PeerAddress) MarshalBESerial(b []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	return beserial.Marshal(b, &pa.Detail)
+	if pa.Detail == nil {
+		return b, nil
+	}
+	return beserial.Marshal(b, pa.Detail)
 }
 
 func (pa *PeerAddress) SizeBESerial() (n int, err error) {
@@ -143,7 +147,10 @@ func (pa *PeerAddress) SizeBESerial() (n int, err error) {
 		return 0, err
 	}
 	n += sub
-	sub, err = beserial.Size(&pa.Detail)
+	if pa.Detail == nil {
+		return n, nil
+	}
+	sub, err = beserial.Size(pa.Detail)
 	if err != nil {
 		return 0, err
 	}
-- 
2.43.0


From 4f743c6647e567213ba61242b1ab87c9eff933b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 11/33] fix: wire: inventory and get-tx-proof messages could
 not be encoded or decoded

---
 wire/msg_inv.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 9a8c5cd..2559d4b 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -1,5 +1,9 @@
 package wire
 
+import (
+	"terorie.dev/nimiq/beserial"
+)
+
 type InvVector struct {
 	Type uint32
 	Hash [32]byte
@@ -19,6 +23,30 @@ type InvMessage struct {
 	Vectors     []InvVector
 }
 
+// invContent is the encoded part of an InvMessage.
+// The message type is part of the message header.
+type invContent struct {
+	Vectors []InvVector `beserial:"len_tag=uint16"`
+}
+
+// UnmarshalBESerial unmarshals the inventory vectors.
+func (m *InvMessage) UnmarshalBESerial(b []byte) (n int, err error) {
+	var content invContent
+	n, err = beserial.Unmarshal(b, &content)
+	m.Vectors = content.Vectors
+	return
+}
+
+// MarshalBESerial marshals the inventory vectors.
+func (m *InvMessage) MarshalBESerial(b []byte) ([]byte, error) {
+	return beserial.Marshal(b, &invContent{Vectors: m.Vectors})
+}
+
+// SizeBESerial returns the size of the inventory vectors.
+func (m *InvMessage) SizeBESerial() (n int, err error) {
+	return beserial.Size(&invContent{Vectors: m.Vectors})
+}
+
 func (m *InvMessage) Type() uint64 {
 	return m.MessageType
 }
@@ -50,7 +78,7 @@ func (m *GetBlocksMessage) Type() uint64 {
 
 type GetTxProofMessage struct {
 	BlockHash [32]byte
-	Addresses [][20]byte
+	Addresses [][20]byte `beserial:"len_tag=uint16"`
 }
 
 func (m *GetTxProofMessage) Type() uint64 {
-- 
2.43.0


From 52906451f2188eb974973c9c1db8f61311ad4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:32 +0000
Subject: [PATCH 12/33] fix: wire: HeaderMessage reported the type of a block
 message

---
 wire/msg_inv.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/msg_inv.go b/wire/msg_inv.go
index 2559d4b..1683007 100644
--- a/wire/msg_inv.go
+++ b/wire/msg_inv.go
@@ -115,5 +115,5 @@ type HeaderMessage struct {
 }
 
 func (m *HeaderMessage) Type() uint64 {
-	return MessageBlock
+	return MessageHeader
 }
-- 
2.43.0


From 18e8f6d8f24ba74c8e2d075e8593cc8d0ab44484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 13/33] fix: wire: decode get-tx-proof and get-tx-receipts
 messages

---
 wire/msg_types.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wire/msg_types.go b/wire/msg_types.go
index 6b56779..92695da 100644
--- a/wire/msg_types.go
+++ b/wire/msg_types.go
@@ -84,6 +84,10 @@ func UnmarshalMessage(msgType uint64, buf []byte) (m Message, err error) {
 		m = &BasePingMessage{Pong: true}
 	case MessageGetChainProof:
 		m = GetChainProofMessage
+	case MessageGetTxProof:
+		m = new(GetTxProofMessage)
+	case MessageGetTxReceipts:
+		m = new(GetTxReceiptsMessage)
 	case MessageGetHead:
 		m = GetHeadMessage
 	case MessageHead:
-- 
2.43.0


From 443a4f1815dcd250a5c5c1d51f08ac5f3266f8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 14/33] fix: wire: basic account balances wrapped around

---
 wire/account.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index ec3bb20..2b01a04 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -2,6 +2,7 @@ package wire
 
 import (
 	"fmt"
+	"math"
 	"strconv"
 
 	"golang.org/x/crypto/blake2b"
@@ -128,16 +129,30 @@ func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (a *BasicAccount) ApplyOutgoingTx(tx Tx, _ uint32) (Account, error) {
 	value, fee := tx.Amount()
-	amount := value + fee
-	if amount > a.Value {
-		return nil, &OverspendError{Available: a.Value, Spend: amount}
+	newValue, err := spend(a.Value, value, fee)
+	if err != nil {
+		return nil, err
 	}
-	return &BasicAccount{Value: a.Value - amount}, nil
+	return &BasicAccount{Value: newValue}, nil
+}
+
+// spend deducts the transaction value and fee from a balance.
+func spend(balance, value, fee uint64) (uint64, error) {
+	if value > balance {
+		return 0, &OverspendError{Available: balance, Spend: value}
+	}
+	if fee > balance-value {
+		return 0, &OverspendError{Available: balance - value, Spend: fee}
+	}
+	return balance - value - fee, nil
 }
 
 // ApplyIncomingTx adds the transaction value to the account.
 func (a *BasicAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	value, _ := tx.Amount()
+	if value > math.MaxUint64-a.Value {
+		return nil, fmt.Errorf("account balance overflow")
+	}
 	return &BasicAccount{Value: a.Value + value}, nil
 }
 
-- 
2.43.0


From 7c43202554820a61db3e725c21de47ff241bbb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:08 +0000
Subject: [PATCH 15/33] fix: wire: vesting contracts released more than their
 schedule allows and lost fees

---
 wire/account.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 2b01a04..8ff9c99 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -239,13 +239,15 @@ func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
 
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
-	unlocked := c.amountUnlocked(height)
 	// Check transaction amount.
 	extTx := tx.(*ExtendedTx)
-	if extTx.Value > unlocked {
-		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value}
+	newValue, err := spend(c.Value, extTx.Value, extTx.Fee)
+	if err != nil {
+		return nil, err
+	}
+	if locked := c.amountLocked(height); newValue < locked {
+		return nil, &OverspendError{Available: c.Value, Spend: extTx.Value}
 	}
-	newValue := c.Value - extTx.Value
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
 	if err := beserial.UnmarshalFull(extTx.Proof, &proof); err != nil {
@@ -266,17 +268,20 @@ func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
 	panic("not implemented")
 }
 
-func (c *VestingAccount) amountUnlocked(height uint32) uint64 {
+// amountLocked returns the part of the balance that cannot be spent yet.
+func (c *VestingAccount) amountLocked(height uint32) uint64 {
 	if height <= c.VestingStart {
-		return 0 // cannot spend funds before vesting start
+		return c.Value // cannot spend funds before vesting start
 	}
 	if c.VestingStepBlocks == 0 || c.VestingStepAmount == 0 {
-		return c.Value // unlock immediately
+		return 0 // unlock immediately
 	}
 	// unlock step by step
-	progress := float64(height-c.VestingStart) / float64(c.VestingStepBlocks)
-	unlocked := uint64(progress * float64(c.VestingStepAmount))
-	return unlocked
+	steps := uint64((height - c.VestingStart) / c.VestingStepBlocks)
+	if steps > c.VestingTotalAmount/c.VestingStepAmount {
+		return 0
+	}
+	return c.VestingTotalAmount - steps*c.VestingStepAmount
 }
 
 // An HTLCAccount (hashed time-locked contract)
-- 
2.43.0


From 604de35172adce0444bac1f0244e8fb2fcd432ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 16/33] fix: wire: HTLC did not pay the transaction fee

---
 wire/account.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index 8ff9c99..ff18d82 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -343,8 +343,9 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
 	ext := tx.(*ExtendedTx)
-	if ext.Value > h.Value {
-		return nil, &OverspendError{Available: h.Value, Spend: ext.Value}
+	newValue, err := spend(h.Value, ext.Value, ext.Fee)
+	if err != nil {
+		return nil, err
 	}
 	// Read proof type.
 	if len(ext.Proof) == 0 {
@@ -416,7 +417,7 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Create copy.
 	updated := new(HTLCAccount)
 	*updated = *h
-	updated.Value -= ext.Value
+	updated.Value = newValue
 	return updated, nil
 }
 
-- 
2.43.0


From 533a7630fb1cebe2118cc2675fe8ec141b5995f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 17/33] fix: wire: transactions unsuitable for an account
 panicked

---
 wire/account.go | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/wire/account.go b/wire/account.go
index ff18d82..eb47a23 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -1,6 +1,7 @@
 package wire
 
 import (
+	"errors"
 	"fmt"
 	"math"
 	"strconv"
@@ -103,6 +104,9 @@ func (o *OverspendError) Error() string {
 	return fmt.Sprintf("trying to spend %d but only has %d", o.Spend, o.Available)
 }
 
+// errNotExtendedTx is returned for basic transactions that act on a contract.
+var errNotExtendedTx = errors.New("contracts require an extended transaction")
+
 // A BasicAccount is a simple account that can hold funds (balance)
 // and is controlled by an Ed25519 private key.
 // https://nimiq-network.github.io/developer-reference/chapters/accounts-and-contracts.html#basic-account
@@ -123,7 +127,7 @@ func (a *BasicAccount) IsEmpty() bool {
 }
 
 func (a *BasicAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
-	panic("not implemented")
+	return fmt.Errorf("cannot create basic account")
 }
 
 // ApplyOutgoingTx removes the transaction value and fee from the account.
@@ -180,7 +184,10 @@ func (c *VestingAccount) IsEmpty() bool {
 }
 
 func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
-	ext := tx.(*ExtendedTx)
+	ext, ok := tx.(*ExtendedTx)
+	if !ok {
+		return errNotExtendedTx
+	}
 	var err error
 	switch len(ext.Data) {
 	case 24:
@@ -240,7 +247,10 @@ func (c *VestingAccount) Init(tx Tx, _ uint32, balance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// Check transaction amount.
-	extTx := tx.(*ExtendedTx)
+	extTx, ok := tx.(*ExtendedTx)
+	if !ok {
+		return nil, errNotExtendedTx
+	}
 	newValue, err := spend(c.Value, extTx.Value, extTx.Fee)
 	if err != nil {
 		return nil, err
@@ -263,9 +273,9 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails: Contracts only receive funds on creation.
 func (c *VestingAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("contract cannot receive transactions")
 }
 
 // amountLocked returns the part of the balance that cannot be spent yet.
@@ -312,7 +322,10 @@ func (h *HTLCAccount) IsEmpty() bool {
 
 func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 	// TODO use typed errors
-	ext := tx.(*ExtendedTx)
+	ext, ok := tx.(*ExtendedTx)
+	if !ok {
+		return errNotExtendedTx
+	}
 	var params struct {
 		Sender    [20]byte
 		Recipient [20]byte
@@ -342,7 +355,10 @@ func (h *HTLCAccount) Init(tx Tx, height uint32, prevBalance uint64) error {
 // ApplyOutgoingTx removes the transaction value and fee from the account.
 func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	// TODO use typed errors
-	ext := tx.(*ExtendedTx)
+	ext, ok := tx.(*ExtendedTx)
+	if !ok {
+		return nil, errNotExtendedTx
+	}
 	newValue, err := spend(h.Value, ext.Value, ext.Fee)
 	if err != nil {
 		return nil, err
@@ -421,9 +437,9 @@ func (h *HTLCAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error) {
 	return updated, nil
 }
 
-// ApplyIncomingTx adds the transaction value to the account.
+// ApplyIncomingTx always fails: Contracts only receive funds on creation.
 func (h *HTLCAccount) ApplyIncomingTx(tx Tx, _ uint32) (Account, error) {
-	panic("not implemented")
+	return nil, fmt.Errorf("contract cannot receive transactions")
 }
 
 // AccountPruned marks the removal of an account from the state.
-- 
2.43.0


From e2f069e5d94af36b8482e6d25cf77b9ac171fdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 18/33] fix: accounts: pushing a block without body or height
 panicked

---
 accounts/accounts.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index c807268..a9c3848 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -37,6 +37,12 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 
 // Push pushes a new block to the state.
 func (a *Accounts) Push(block *wire.Block) error {
+	if block.Body == nil {
+		return fmt.Errorf("block without body")
+	}
+	if block.Header.Height < 1 {
+		return fmt.Errorf("invalid block height: %d", block.Header.Height)
+	}
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From 8ddcb481cd4b2b7c57ade8b90256b7123d26c1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 19/33] fix: tree: overlay store crashed on writes and leaked
 them to the lower store

---
 tree/store_overlay.go | 28 +++++++++++++++++++++++++---
 tree/tree.go          |  2 +-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/tree/store_overlay.go b/tree/store_overlay.go
index 9559798..8cafc61 100644
--- a/tree/store_overlay.go
+++ b/tree/store_overlay.go
@@ -6,7 +6,16 @@ type OverlayStore struct {
 	diffs map[string]Node
 }
 
+// NewOverlayStore creates an empty overlay over the lower store.
+func NewOverlayStore(lower Store) *OverlayStore {
+	return &OverlayStore{
+		Lower: lower,
+		diffs: make(map[string]Node),
+	}
+}
+
 // GetNode reads a node from the overlay or lower store.
+// Branches get copied to the overlay as the tree modifies them in place.
 func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 	// Node was overridden in overlay.
 	override, ok := o.diffs[string(nbs)]
@@ -14,17 +23,30 @@ func (o *OverlayStore) GetNode(nbs Nibbles) Node {
 		return override
 	}
 	// Request from lower layer.
-	return o.Lower.GetNode(nbs)
+	node := o.Lower.GetNode(nbs)
+	if branch, ok := node.(*Branch); ok {
+		branchCopy := *branch
+		node = &branchCopy
+		o.put(nbs, node)
+	}
+	return node
 }
 
 // PutNode puts a node in the overlay without affecting the lower store.
 func (o *OverlayStore) PutNode(nbs Nibbles, node Node) {
-	o.diffs[string(nbs)] = node
+	o.put(nbs, node)
 }
 
 // DelNode marks a deletion in the overlay without affecting the lower store.
 func (o *OverlayStore) DelNode(nbs Nibbles) {
-	o.diffs[string(nbs)] = nil
+	o.put(nbs, nil)
+}
+
+func (o *OverlayStore) put(nbs Nibbles, node Node) {
+	if o.diffs == nil {
+		o.diffs = make(map[string]Node)
+	}
+	o.diffs[string(nbs)] = node
 }
 
 // Flush clears and writes down the in-memory overlay to the lower layer.
diff --git a/tree/tree.go b/tree/tree.go
index 442814e..91344db 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -175,7 +175,7 @@ func (t *PMTree) prune(prefix Nibbles, path []Node) {
 			//  [Branch 1 (nChildren = X)] => [Node X]
 			// Pruning finishes, defer to the non-pruning recursive algorithm to update the path.
 			t.Store.DelNode(node.Prefix)
-			t.invalidatePath(append(node.Prefix, children[0].Suffix...), path)
+			t.invalidatePath(append(node.Prefix[:len(node.Prefix):len(node.Prefix)], children[0].Suffix...), path)
 			return
 		} else if len(children) > 0 || len(node.Prefix) == 0 {
 			// Nothing to be deleted, use non-pruning code path.
-- 
2.43.0


From d77bb163c114ed79571b13ad583311962713577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:11 +0000
Subject: [PATCH 20/33] fix: accounts: a rejected block left its first changes
 in the state

---
 accounts/accounts.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index a9c3848..2955d7e 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -36,6 +36,7 @@ func NewAccounts(tree *tree.PMTree) *Accounts {
 }
 
 // Push pushes a new block to the state.
+// If the block is invalid, the state does not change.
 func (a *Accounts) Push(block *wire.Block) error {
 	if block.Body == nil {
 		return fmt.Errorf("block without body")
@@ -43,6 +44,17 @@ func (a *Accounts) Push(block *wire.Block) error {
 	if block.Header.Height < 1 {
 		return fmt.Errorf("invalid block height: %d", block.Header.Height)
 	}
+	// Collect changes in an overlay and only write them down on success.
+	overlay := tree.NewOverlayStore(a.Tree.Store)
+	staged := NewAccounts(&tree.PMTree{Store: overlay})
+	if err := staged.pushBlock(block); err != nil {
+		return err
+	}
+	overlay.Flush()
+	return nil
+}
+
+func (a *Accounts) pushBlock(block *wire.Block) error {
 	if err := a.pushSenders(block, func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 		return acc.ApplyOutgoingTx(tx, height)
 	}); err != nil {
-- 
2.43.0


From d0f45e95000948e548cd1508e5bbfb8c21aaea23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 21/33] fix: tree, wire: Nibbles.Compress panicked

---
 tree/store.go   | 2 +-
 wire/nibbles.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tree/store.go b/tree/store.go
index ea149ab..983d678 100644
--- a/tree/store.go
+++ b/tree/store.go
@@ -36,7 +36,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
diff --git a/wire/nibbles.go b/wire/nibbles.go
index da2aa5a..a6598b5 100644
--- a/wire/nibbles.go
+++ b/wire/nibbles.go
@@ -29,7 +29,7 @@ func (nbs Nibbles) ToKey() (key [20]byte) {
 }
 
 func (nbs Nibbles) Compress() []byte {
-	buf := make([]byte, (len(nbs)-1)/2)
+	buf := make([]byte, (len(nbs)+1)/2)
 	for i, n := range nbs {
 		if i%2 == 0 {
 			buf[i/2] = n << 4
-- 
2.43.0


From 0685769239accc5c2e91a8088447ef48e55a2b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 22/33] fix: address: Decode accepted wrong country codes

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index b712bdf..0b53b23 100644
--- a/address/address.go
+++ b/address/address.go
@@ -33,7 +33,7 @@ func Decode(encoded string) (addr [20]byte, err error) {
 		return
 	}
 	// Verify string: Country code
-	if compact[0] != 'N' && compact[1] != 'Q' {
+	if compact[0] != 'N' || compact[1] != 'Q' {
 		err = ErrInvalidCountryCode
 		return
 	}
-- 
2.43.0


From d5e3360ed560237b2a9d8abb7d248843e51a520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 23/33] fix: policy: SupplyAfter wrapped around at the maximum
 height

---
 policy/policy.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/policy/policy.go b/policy/policy.go
index 70d59f5..78e6fe6 100644
--- a/policy/policy.go
+++ b/policy/policy.go
@@ -56,7 +56,9 @@ func SupplyAfter(height uint32) uint64 {
 	}
 	supplyCacheLock.Unlock()
 
-	return SupplyBetween(supply, endI*SupplyCacheInterval, height+1)
+	// The end of the range is exclusive, and height+1 might overflow.
+	supply = SupplyBetween(supply, endI*SupplyCacheInterval, height)
+	return supply + BlockRewardBySupply(supply, height)
 }
 
 func SupplyBetween(supply uint64, startHeight, endHeight uint32) uint64 {
-- 
2.43.0


From 136621d947a86f224acce4b914bb065ab5cd5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:16 +0000
Subject: [PATCH 24/33] fix: wire: TargetToCompact panicked on targets of less
 than three bytes

---
 wire/utils.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/wire/utils.go b/wire/utils.go
index bac51a3..4628139 100644
--- a/wire/utils.go
+++ b/wire/utils.go
@@ -10,17 +10,21 @@ import (
 func TargetToCompact(target big.Int) (compact uint32) {
 	tgtBytes := target.Bytes()
 
+	// The three most significant bytes of the target.
+	var msb [3]byte
+	copy(msb[:], tgtBytes)
+
 	// If the first (most significant) byte is
 	// greater than 127 (0x7f), prepend a zero byte.
-	if tgtBytes[0] >= 0x80 && len(tgtBytes) >= 3 {
+	if msb[0] >= 0x80 {
 		compact |= uint32(len(tgtBytes)+1) << 24
-		compact |= uint32(tgtBytes[0]) << 8
-		compact |= uint32(tgtBytes[1])
+		compact |= uint32(msb[0]) << 8
+		compact |= uint32(msb[1])
 	} else {
 		compact |= uint32(len(tgtBytes)) << 24
-		compact |= uint32(tgtBytes[0]) << 16
-		compact |= uint32(tgtBytes[1]) << 8
-		compact |= uint32(tgtBytes[2])
+		compact |= uint32(msb[0]) << 16
+		compact |= uint32(msb[1]) << 8
+		compact |= uint32(msb[2])
 	}
 
 	return
-- 
2.43.0


From 1dbe3f869889c6a696c3cd83bec9130bc4bbed78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:46 +0000
Subject: [PATCH 25/33] fix: genesis: most of the profile configuration was not
 read

---
 genesis/genesis.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/genesis/genesis.go b/genesis/genesis.go
index c82326d..b4eb2df 100644
--- a/genesis/genesis.go
+++ b/genesis/genesis.go
@@ -3,6 +3,7 @@ package genesis
 
 import (
 	"embed"
+	"encoding/hex"
 	"fmt"
 	"io/fs"
 	"os"
@@ -112,8 +113,29 @@ func readConfigFromFS(files fs.FS, path string) (conf *Config, err error) {
 		return nil, openErr
 	}
 	defer f.Close()
-	dec := toml.NewDecoder(f)
-	conf = new(Config)
-	err = dec.Decode(conf)
-	return
+	var raw struct {
+		NetworkID   uint8    `toml:"network_id"`
+		Name        string   `toml:"name"`
+		SeedPeers   []string `toml:"seed_peers"`
+		SeedLists   []string `toml:"seed_lists"`
+		GenesisHash string   `toml:"genesis_hash"`
+	}
+	if err := toml.NewDecoder(f).Decode(&raw); err != nil {
+		return nil, err
+	}
+	conf = &Config{
+		NetworkID: raw.NetworkID,
+		Name:      raw.Name,
+		SeedPeers: raw.SeedPeers,
+		SeedLists: raw.SeedLists,
+	}
+	hash, err := hex.DecodeString(raw.GenesisHash)
+	if err != nil {
+		return nil, fmt.Errorf("invalid genesis hash: %w", err)
+	}
+	if len(hash) != len(conf.GenesisHash) {
+		return nil, fmt.Errorf("invalid genesis hash: got %d bytes", len(hash))
+	}
+	copy(conf.GenesisHash[:], hash)
+	return conf, nil
 }
-- 
2.43.0


From 7e38978320c811482730370027f455fc62a15d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 26/33] fix: accounts: transactions naming account type 255
 bypassed the type check

---
 accounts/accounts.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 2955d7e..3de05a8 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -119,7 +119,7 @@ func (a *Accounts) PutAccount(addr *[20]byte, acc wire.Account) {
 func (a *Accounts) pushSenders(block *wire.Block, op AccountOp) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
-		if err := a.pushTx(&content.Sender, content.SenderType, tx.Tx, block.Header.Height, op); err != nil {
+		if err := a.pushTx(&content.Sender, &content.SenderType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
 		}
 	}
@@ -129,9 +129,10 @@ func (a *Accounts) pushSenders(block *wire.Block, op AccountOp) error {
 func (a *Accounts) pushRecipients(block *wire.Block, op AccountOp) error {
 	for _, tx := range block.Body.Txs {
 		content := tx.Tx.AsTxContent()
-		var recipientType uint8 = wire.AccountUnknown
+		// The recipient can have any type before its contract gets created.
+		var recipientType *uint8
 		if content.Flags&wire.TxFlagContractCreation == 0 {
-			recipientType = content.RecipientType
+			recipientType = &content.RecipientType
 		}
 		if err := a.pushTx(&content.Recipient, recipientType, tx.Tx, block.Header.Height, op); err != nil {
 			return err
@@ -164,7 +165,8 @@ func (a *Accounts) pushInherents(block *wire.Block) error {
 		Value:               reward,
 		ValidityStartHeight: block.Header.Height,
 	}
-	return a.pushTx(&block.Body.MinerAddr, wire.AccountBasic, &coinbase, block.Header.Height,
+	var minerType uint8 = wire.AccountBasic
+	return a.pushTx(&block.Body.MinerAddr, &minerType, &coinbase, block.Header.Height,
 		func(acc wire.Account, tx wire.Tx, height uint32) (wire.Account, error) {
 			return acc.ApplyIncomingTx(tx, height)
 		})
@@ -256,11 +258,13 @@ func (a *Accounts) createContract(tx wire.Tx, height uint32) error {
 	return nil
 }
 
-func (a *Accounts) pushTx(address *[20]byte, accType uint8, tx wire.Tx, height uint32, op AccountOp) error {
+// pushTx applies a transaction to one account.
+// The account needs to have the specified type, if any.
+func (a *Accounts) pushTx(address *[20]byte, accType *uint8, tx wire.Tx, height uint32, op AccountOp) error {
 	account := a.GetAccount(address)
-	if accType != wire.AccountUnknown && accType != account.Type() {
+	if accType != nil && *accType != account.Type() {
 		return &AccountTypeMismatchError{
-			Expected: accType,
+			Expected: *accType,
 			Got:      account.Type(),
 		}
 	}
-- 
2.43.0


From fd893295581f4e2d27b751cfb1e7b8ed2196f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:37 +0000
Subject: [PATCH 27/33] fix: accounts: fees of a block wrapped around

---
 accounts/accounts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/accounts/accounts.go b/accounts/accounts.go
index 3de05a8..edd270a 100644
--- a/accounts/accounts.go
+++ b/accounts/accounts.go
@@ -4,6 +4,7 @@ package accounts
 import (
 	"encoding/hex"
 	"fmt"
+	"math"
 
 	"terorie.dev/nimiq/address"
 	"terorie.dev/nimiq/policy"
@@ -158,6 +159,9 @@ func (a *Accounts) pushInherents(block *wire.Block) error {
 	reward = policy.BlockReward(block.Header.Height)
 	for _, tx := range block.Body.Txs {
 		_, fee := tx.Tx.Amount()
+		if fee > math.MaxUint64-reward {
+			return fmt.Errorf("overflow of block reward and fees")
+		}
 		reward += fee
 	}
 	coinbase := wire.BasicTx{
-- 
2.43.0


From 133ea922df9d554c760bec28fc3badedf042bdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:12 +0000
Subject: [PATCH 28/33] fix: address: trailing spaces were not ignored

---
 address/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/address/address.go b/address/address.go
index 0b53b23..1fa31a7 100644
--- a/address/address.go
+++ b/address/address.go
@@ -107,7 +107,7 @@ func truncateWhitespace(encodedStr string) (compact [36]byte, err error) {
 			}
 			// All chars have been read, and there is no overflow.
 			return
-		} else if len(compactRemainder) == 0 {
+		} else if len(compactRemainder) == 0 && remainder[0] != ' ' {
 			// All address chars have been read, but there are some remaining (overflow).
 			err = ErrInvalidLength
 			return
-- 
2.43.0


From b009a4ecf8968943882ad5c3a88f300f801d2653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:18 +0000
Subject: [PATCH 29/33] fix: beserial: decoding an array of a named byte type
 panicked

---
 beserial/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index b2933cd..b3247c0 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -123,7 +123,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 			if err != nil {
 				return err
 			}
-			reflect.Copy(v, reflect.ValueOf(b))
+			copy(v.Slice(0, typ.Len()).Bytes(), b)
 		} else {
 			for i := 0; i < typ.Len(); i++ {
 				if err := d.value(v.Index(i), tags{}); err != nil {
-- 
2.43.0


From 771f94e201971935e449ee5adb2750493fc6f4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:40 +0000
Subject: [PATCH 30/33] fix: beserial: elements with a codec of their own were
 treated as plain numbers

---
 beserial/decode.go |  4 ++--
 beserial/encode.go |  4 ++--
 beserial/size.go   | 15 +++++++++++++--
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index b3247c0..620f809 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -117,7 +117,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 		return d.value(ptrV.Elem(), ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if plainByte(typ.Elem()) {
 			// Byte arrays can be copied.
 			b, err := d.pop(typ.Len())
 			if err != nil {
@@ -157,7 +157,7 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 				return err
 			}
 			v.SetString(string(b))
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if plainByte(typ.Elem()) {
 			// Byte slices can be copied.
 			b, err := d.pop(int(u))
 			if err != nil {
diff --git a/beserial/encode.go b/beserial/encode.go
index 057a885..7de541d 100644
--- a/beserial/encode.go
+++ b/beserial/encode.go
@@ -62,7 +62,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		return marshal(v.Elem(), b, ts)
 	case reflect.Array:
 		typ := v.Type()
-		if typ.Elem().Kind() == reflect.Uint8 {
+		if plainByte(typ.Elem()) {
 			// Byte arrays can be copied.
 			b = append(b, v.Slice(0, typ.Len()).Bytes()...)
 		} else {
@@ -85,7 +85,7 @@ func marshal(v reflect.Value, b []byte, ts tags) ([]byte, error) {
 		typ := v.Type()
 		if kind == reflect.String {
 			b = append(b, []byte(v.String())...)
-		} else if typ.Elem().Kind() == reflect.Uint8 {
+		} else if plainByte(typ.Elem()) {
 			b = append(b, v.Bytes()...)
 		} else {
 			for i := 0; i < size; i++ {
diff --git a/beserial/size.go b/beserial/size.go
index 24e8b4c..2d4294f 100644
--- a/beserial/size.go
+++ b/beserial/size.go
@@ -54,7 +54,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += elem
 	case reflect.Array:
 		typ := v.Type()
-		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && plain(typ.Elem()) {
 			total = typ.Len() * elemSize
 		} else {
 			for i := 0; i < typ.Len(); i++ {
@@ -74,7 +74,7 @@ func valueSize(v reflect.Value, ts tags) (total int, err error) {
 		total += tagLen
 		if kind == reflect.String {
 			total += v.Len()
-		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok {
+		} else if elemSize, ok := sizeNumber(typ.Elem().Kind()); ok && plain(typ.Elem()) {
 			total += v.Len() * elemSize
 		} else {
 			for i := 0; i < v.Len(); i++ {
@@ -126,3 +126,14 @@ func sizeNumber(kind reflect.Kind) (n int, ok bool) {
 		return 0, false
 	}
 }
+
+// plain reports that a number type is predeclared,
+// so that it cannot have an encoding of its own.
+func plain(typ reflect.Type) bool {
+	return typ.PkgPath() == ""
+}
+
+// plainByte reports that values of a type can be copied from and to bytes.
+func plainByte(typ reflect.Type) bool {
+	return typ.Kind() == reflect.Uint8 && plain(typ)
+}
-- 
2.43.0


From 6b45ed2601bed6e23122bc7b5f50f367ce260188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:26 +0000
Subject: [PATCH 31/33] fix: wire: service flags were one bit off (nano 1,
 light 2, full 4)

---
 wire/services.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wire/services.go b/wire/services.go
index 60b85b3..a54a34b 100644
--- a/wire/services.go
+++ b/wire/services.go
@@ -3,7 +3,7 @@ package wire
 // Service type IDs.
 const (
 	ServicesNone = uint32(0)
-	ServicesNano = uint32(1 << iota)
+	ServicesNano = uint32(1 << (iota - 1))
 	ServicesLight
 	ServicesFull
 )
-- 
2.43.0


From 441506e6051e6d05310dec27c2da32e7535d98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:04 +0000
Subject: [PATCH 32/33] fix: beserial: a truncated slice was not reported as
 ErrUnexpectedEOF

---
 beserial/decode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beserial/decode.go b/beserial/decode.go
index 620f809..d6062b4 100644
--- a/beserial/decode.go
+++ b/beserial/decode.go
@@ -170,8 +170,8 @@ func (d *decodeState) value(v reflect.Value, ts tags) error {
 			if u > uint64(len(d.data)) {
 				// Sanity check: Defend against large, impossible allocations.
 				// FIXME: Set a hard limit on alloc size
-				return fmt.Errorf("cannot allocate slice of %d for only %d bytes",
-					u, len(d.data))
+				return fmt.Errorf("cannot allocate slice of %d for only %d bytes: %w",
+					u, len(d.data), ErrUnexpectedEOF)
 			}
 			v.Set(reflect.MakeSlice(typ, int(u), int(u)))
 			for i := 0; i < int(u); i++ {
-- 
2.43.0


From 3dce8107368fbe5ff93c8d55f3e6c0845206ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:18 +0000
Subject: [PATCH 33/33] fix: an overspend of locked vesting funds named the
 whole balance as available

---
 wire/account.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wire/account.go b/wire/account.go
index eb47a23..c5b180f 100644
--- a/wire/account.go
+++ b/wire/account.go
@@ -256,7 +256,11 @@ func (c *VestingAccount) ApplyOutgoingTx(tx Tx, height uint32) (Account, error)
 		return nil, err
 	}
 	if locked := c.amountLocked(height); newValue < locked {
-		return nil, &OverspendError{Available: c.Value, Spend: extTx.Value}
+		var unlocked uint64
+		if locked < c.Value {
+			unlocked = c.Value - locked
+		}
+		return nil, &OverspendError{Available: unlocked, Spend: extTx.Value + extTx.Fee}
 	}
 	// Verify transaction was signed by contract owner.
 	var proof SignatureProof
-- 
2.43.0

