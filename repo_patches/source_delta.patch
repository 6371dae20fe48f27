From af7d75fe18c80bc244ecd703d8d99ea38894cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 01/56] fix: decode the smallest 64-bit integer

The magnitude was parsed without its sign, so i-9223372036854775808e, which
Encode produces, was rejected as out of range.
---
 src/bencode/decode.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 3e86f01..693d843 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -166,11 +166,10 @@ func (dc *decoder) decodeInt() (int64, error) {
 
 	dc.curs++
 	var strInt string
-	negMult := int64(1)
 
 	// Handle negative ints
 	if dc.curByte() == '-' {
-		negMult = -1
+		strInt += "-"
 		dc.curs++
 	}
 
@@ -201,7 +200,7 @@ func (dc *decoder) decodeInt() (int64, error) {
 		return 0, err
 	}
 
-	return val * negMult, nil
+	return val, nil
 }
 
 // ============================================================================
-- 
2.43.0


From a134c43c30e922be18df33d1606eb0e4ce1b7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 02/56] fix: bound the nesting depth of decoded bencode

A few megabytes of 'l' from a tracker or in a torrent file overflowed the
goroutine stack, which is fatal to the process and cannot be recovered.
---
 src/bencode/decode.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 693d843..47b683f 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -57,6 +57,11 @@ func (dc *decoder) decodeDict() (Dict, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	dict := make(map[string]interface{})
 
@@ -98,6 +103,11 @@ func (dc *decoder) decodeList() (List, error) {
 		return nil, &DecoderError{"not pointing to dict"}
 	}
 
+	if err := dc.enter(); err != nil {
+		return nil, err
+	}
+	defer dc.leave()
+
 	dc.curs++
 	var list List
 
@@ -206,9 +216,29 @@ func (dc *decoder) decodeInt() (int64, error) {
 // ============================================================================
 // Decoder Struct =============================================================
 
+// maxDepth is the deepest nesting of lists and dictionaries that is decoded.
+// The decoder is recursive, and a goroutine that outgrows its stack kills the
+// whole process, which recover() cannot prevent.
+const maxDepth = 1024
+
 type decoder struct {
-	data []byte
-	curs uint64
+	data  []byte
+	curs  uint64
+	depth int
+}
+
+// enter records the start of a list or dictionary.
+func (dc *decoder) enter() error {
+	if dc.depth >= maxDepth {
+		return &DecoderError{"nested too deep at byte " + strconv.FormatUint(dc.curs, 10)}
+	}
+	dc.depth++
+	return nil
+}
+
+// leave records the end of a list or dictionary.
+func (dc *decoder) leave() {
+	dc.depth--
 }
 
 func (dc *decoder) curByte() byte {
-- 
2.43.0


From f8a11dd0b813a43ac824d99e3989f35b48154a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 03/56] fix: scan runs of digits in bencode in linear time

Appending digit by digit to a string copied the whole run for each digit, so a
few megabytes of digits kept the decoder busy for minutes.
---
 src/bencode/decode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 47b683f..76b690a 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -142,12 +142,13 @@ func (dc *decoder) decodeList() (List, error) {
 
 func (dc *decoder) decodeString() (string, error) {
 	var strLen string
+	start := dc.curs
 
 	for {
 		if dc.curByte() >= '0' && dc.curByte() <= '9' {
-			strLen += string(dc.curByte())
 			dc.curs++
 		} else if dc.curByte() == ':' {
+			strLen = string(dc.data[start:dc.curs])
 			dc.curs++
 			break
 		} else {
@@ -193,11 +194,12 @@ func (dc *decoder) decodeInt() (int64, error) {
 	}
 
 	// Read remaining bytes until 'e'
+	start := dc.curs
 	for {
 		if dc.curByte() >= '0' && dc.curByte() <= '9' {
-			strInt += string(dc.curByte())
 			dc.curs++
 		} else if dc.curByte() == 'e' {
+			strInt += string(dc.data[start:dc.curs])
 			dc.curs++
 			break
 		} else {
-- 
2.43.0


From 830912ab0c8d383f6657258d34b7224e73fed47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 04/56] fix: compute the infohash over the info bytes of the
 torrent file

The decoded dictionary was encoded again, and the error was dropped: a torrent
whose info dictionary holds an empty string got the hash of a truncated buffer,
and one that is not in canonical form got a hash no other client knows.
---
 src/bencode/decode.go  | 52 ++++++++++++++++++++++++++++++++++++++++++
 src/torrent/torrent.go |  7 +++++-
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 76b690a..66782af 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -48,6 +48,58 @@ func Decode(data []byte) (ret interface{}, err error) {
 	return ret, err
 }
 
+// RawValue returns the bytes of data that encode the value of the given key,
+// where data is a bencoded dictionary. As with Decode, the last one counts if
+// the key occurs more than once.
+func RawValue(data []byte, key string) (raw []byte, err error) {
+
+	dc := decoder{data: data, curs: 0}
+
+	defer func() {
+		if r := recover(); r != nil {
+			raw, err = nil, &DecoderError{"read end of data before completion"}
+		}
+	}()
+
+	if dc.curByte() != 'd' {
+		return nil, &DecoderError{"not pointing to dict"}
+	}
+	dc.curs++
+	dc.depth++
+
+	for dc.curByte() != 'e' {
+		k, err := dc.decodeString()
+		if err != nil {
+			return nil, err
+		}
+
+		start := dc.curs
+		switch dc.curByte() {
+		case 'i':
+			_, err = dc.decodeInt()
+		case 'l':
+			_, err = dc.decodeList()
+		case 'd':
+			_, err = dc.decodeDict()
+		default:
+			_, err = dc.decodeString()
+		}
+		if err != nil {
+			return nil, err
+		}
+
+		if k == key {
+			raw = data[start:dc.curs]
+		}
+	}
+
+	if raw == nil {
+		return nil, &DictMissingKeyError{key: key}
+	}
+
+	return raw, nil
+}
+
 // ============================================================================
 // Private ====================================================================
 
diff --git a/src/torrent/torrent.go b/src/torrent/torrent.go
index 3fd7168..ec9d8d5 100644
--- a/src/torrent/torrent.go
+++ b/src/torrent/torrent.go
@@ -97,7 +97,12 @@ func FromTorrentFile(torpath string, workingDir string) (*Torrent, error) {
 		return nil, err
 	}
 
-	enc, _ := bencode.Encode(infodict)
+	// The infohash is defined over the bytes in the file. Encoding the decoded
+	// dictionary again may give other bytes, or fail (on empty strings).
+	enc, err := bencode.RawValue(fdata, "info")
+	if err != nil {
+		return nil, err
+	}
 	tor.infohash = utils.SHA1(enc)
 
 	torInfo, err := info.FromDict(infodict, workingDir)
-- 
2.43.0


From f13f7cb2fbbe261f4fbaf5b67d3ab63540e85fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:01 +0000
Subject: [PATCH 05/56] fix: reject a torrent file entry with an empty path

An empty path list made the slice bound -1 and crashed the client.
---
 src/torrent/filesd/entrybase.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index 269abcd..b0ccb93 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -82,6 +82,9 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			strb.WriteByte('/')
 		}
 		l := len(strb.String())
+		if l == 0 {
+			return nil, errors.New("file entry contains an empty path")
+		}
 
 		// exclude last '/'
 		entries = append(entries, MakeFileEntry(strb.String()[:l-1], fLen))
-- 
2.43.0


From 1fe3b3d7c31d82fc4a473bfa9a1a3273006c6af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:02 +0000
Subject: [PATCH 06/56] fix: keep the files of a torrent inside the working
 directory

The name and the path elements of a torrent file were joined to the working
directory as they are, so ".." or an element with a slash could create,
truncate or grow any file the user can write.
---
 src/torrent/filesd/entrybase.go | 13 +++++++++++++
 src/torrent/info/info.go        |  6 ++++++
 2 files changed, 19 insertions(+)

diff --git a/src/torrent/filesd/entrybase.go b/src/torrent/filesd/entrybase.go
index b0ccb93..6c67946 100644
--- a/src/torrent/filesd/entrybase.go
+++ b/src/torrent/filesd/entrybase.go
@@ -3,6 +3,7 @@ package filesd
 import (
 	"errors"
 	"fmt"
+	"path/filepath"
 	"strings"
 
 	"gotor/bencode"
@@ -51,6 +52,15 @@ func MakeFileEntry(torPath string, length int64) EntryBase {
 	}
 }
 
+// SafePathPart returns true if name, which comes from a torrent file, can be
+// used as a single path element without leaving its directory.
+func SafePathPart(name string) bool {
+	if name == "" || name == "." || name == ".." {
+		return false
+	}
+	return !strings.ContainsAny(name, "/\x00"+string(filepath.Separator))
+}
+
 func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 	entries := make([]EntryBase, 0, 1)
 
@@ -78,6 +88,9 @@ func FromBenList(benlist bencode.List) ([]EntryBase, error) {
 			if !ok {
 				return nil, fmt.Errorf(fmt.Sprintf("file entry contains invalid path [%v]", fPathEntry))
 			}
+			if !SafePathPart(pathPiece) {
+				return nil, fmt.Errorf("file entry contains unsafe path element [%v]", pathPiece)
+			}
 			strb.WriteString(pathPiece)
 			strb.WriteByte('/')
 		}
diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index c948d57..f2eda5d 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -200,6 +200,12 @@ func FromDict(info bencode.Dict, workingDir string) (*TorInfo, error) {
 		return nil, err
 	}
 
+	// The name becomes the name of the file, or of the directory that holds
+	// the files, inside the working directory.
+	if !filesd.SafePathPart(name) {
+		return nil, &FileMetaError{msg: fmt.Sprintf("unsafe name [%v]", name)}
+	}
+
 	pieceLen, err := info.GetInt("piece length")
 	if err != nil {
 		return nil, err
-- 
2.43.0


From b9b735ce56e2a16950198cf8bab14a150a4be552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:40 +0000
Subject: [PATCH 07/56] fix: reject torrents whose lengths and hashes do not
 agree

A piece length of zero or a hash too few crashed the client, negative lengths
crashed it when the files were created, and hashes too many gave pieces that
hold no bytes and a negative length of the last piece.
---
 src/torrent/info/info.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index f2eda5d..615fff2 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -160,12 +161,25 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 		return nil, errors.New("hashes must be multiple of 20")
 	}
 
+	// The offsets in a piece are 32 bits in the peer protocol, and a buffer of
+	// this size is made for each peer.
+	if pieceLen < 1 || pieceLen > math.MaxInt32 {
+		return nil, fmt.Errorf("invalid piece length [%v]", pieceLen)
+	}
+
 	length := int64(0)
 
 	for _, fentry := range files {
+		if fentry.Length() < 0 || fentry.Length() > math.MaxInt64-pieceLen-length {
+			return nil, fmt.Errorf("invalid length [%v] of file [%v]", fentry.Length(), fentry.TorPath())
+		}
 		length += fentry.Length()
 	}
 
+	if n := filesd.CalcNumPieces(files, pieceLen); n != int64(len(hashes)/20) {
+		return nil, fmt.Errorf("have hashes of %v pieces, need %v", len(hashes)/20, n)
+	}
+
 	flist := filesd.MakeFileList(files, pieceLen)
 
 	npieces := int64(len(hashes) / 20)
-- 
2.43.0


From 06702e55d8f63e9a111181b5d707bf284ea49d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 08/56] fix: create torrents with pieces larger than 5 MiB

The buffer had no room for a single piece, so CreateTorInfo read zero bytes at
a time for ever.
---
 src/torrent/info/info.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 615fff2..307eb5e 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -84,7 +84,14 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
+	if pieceLen < 1 {
+		return nil, fmt.Errorf("invalid piece length [%v]", pieceLen)
+	}
+
 	npieces := maxBuf / pieceLen
+	if npieces == 0 {
+		npieces = 1
+	}
 	bufSize := npieces * pieceLen
 
 	buf := make([]byte, bufSize, bufSize)
-- 
2.43.0


From a4571c6433cf5d1397494f3a4590e55cb80e4337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:43 +0000
Subject: [PATCH 09/56] fix: do not count a whole spare byte of a bitfield

SetNbits accepted a number of bits that needs one byte less, and then counted
the bits of the last byte as well.
---
 src/bf/bitfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index 5a4ab05..cbcbdbf 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -162,7 +162,7 @@ func (bf *Bitfield) Nset() int64 {
 // 00000000 00000000 00000xxx
 
 func (bf *Bitfield) SetNbits(nbits int64) {
-	if nbits < (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
+	if nbits <= (bf.nbytes-1)*8 || nbits > (bf.nbytes)*8 {
 		panic("cannot set nbits such that nbytes would change")
 	}
 	bf.nbits = nbits
-- 
2.43.0


From 09c205e77c13901cc3ef12b087084ae2c3779dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 10/56] fix: keep the spare bits of a filled bitfield zero

Peers drop connections whose bitfield has spare bits set (BEP 3).
---
 src/bf/bitfield.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bf/bitfield.go b/src/bf/bitfield.go
index cbcbdbf..868bac0 100644
--- a/src/bf/bitfield.go
+++ b/src/bf/bitfield.go
@@ -104,6 +104,10 @@ func (bf *Bitfield) Fill() {
 	for i, _ := range bf.data5 {
 		bf.data5[i] = 255
 	}
+	// The bits past the end must be zero when sent to a peer
+	if rem := bf.nbits % 8; rem != 0 {
+		bf.data[bf.nbytes-1] <<= 8 - rem
+	}
 	bf.nset = bf.nbits
 }
 
-- 
2.43.0


From 1ce86f7da82ea06209c3000c455609a035b45689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 11/56] fix: encode request messages

The index, the offset and the length were all written over the length prefix,
so what was sent was 5 bytes that no peer can decode.
---
 src/p2p/request.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/p2p/request.go b/src/p2p/request.go
index d494bce..5cfeef7 100644
--- a/src/p2p/request.go
+++ b/src/p2p/request.go
@@ -61,10 +61,11 @@ func (mr *MsgRequest) ReqLen() uint32 {
 // IMPL =======================================================================
 
 func (mr *MsgRequest) Encode() []byte {
-	pl := mr.msgBase.Encode()
-	binary.BigEndian.PutUint32(pl, mr.index)
-	binary.BigEndian.PutUint32(pl, mr.begin)
-	binary.BigEndian.PutUint32(pl, mr.reqlen)
+	pl := make([]byte, MsgRequestTotalLen, MsgRequestTotalLen)
+	mr.msgBase.fillBase(pl)
+	binary.BigEndian.PutUint32(pl[PayloadStart:], mr.index)
+	binary.BigEndian.PutUint32(pl[PayloadStart+4:], mr.begin)
+	binary.BigEndian.PutUint32(pl[PayloadStart+8:], mr.reqlen)
 	return pl
 }
 
-- 
2.43.0


From edd0be4bf82f87479990aa1315328c7e134f9a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:40 +0000
Subject: [PATCH 12/56] fix: decode piece messages

The length of the payload was compared with a length that counts the ID as
well, so each piece message was an error, and then the length of the nil
message was read, which crashed the client.
---
 src/p2p/message.go | 2 +-
 src/p2p/piece.go   | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index 2f4c281..d2cff9e 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -208,7 +208,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgRequestTotalLen)
 	case TypePiece:
 		msg, err = DecodeMsgPiece(payload, msglen)
-		n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	default:
 		msg = nil
 		err = fmt.Errorf("unknown message type %v", mtype)
diff --git a/src/p2p/piece.go b/src/p2p/piece.go
index 85ff91f..ca4aa79 100644
--- a/src/p2p/piece.go
+++ b/src/p2p/piece.go
@@ -78,14 +78,16 @@ func (mp *MsgPiece) String() string {
 // FUNC =======================================================================
 
 func DecodeMsgPiece(payload []byte, length uint32) (*MsgPiece, error) {
-	if uint32(len(payload)) != length {
-		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", MsgHavePayloadLen, len(payload))
+	// length includes the message's ID, the payload does not
+	if uint32(len(payload)) != length-1 {
+		return nil, fmt.Errorf("piece message must have %v byte payload, got %v", length-1, len(payload))
 	}
 	if uint32(len(payload)) < MsgPieceMinPayloadLen {
 		return nil, fmt.Errorf("piece message payload must be at least %v bytes, got %v", MsgPieceMinPayloadLen, len(payload))
 	}
 	index := binary.BigEndian.Uint32(payload[0:4])
 	begin := binary.BigEndian.Uint32(payload[4:8])
-	block := payload[8:]
+	// Copied, since the caller reuses the buffer it receives into
+	block := append([]byte(nil), payload[8:]...)
 	return NewMsgPiece(index, begin, block), nil
 }
-- 
2.43.0


From 22742016562ae051c73db942e624c3417207ee34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 13/56] fix: get past an invalid bitfield message

Decode said that nothing was read, so DecodeAll tried the same bytes for ever
when a peer sent a bitfield message without bits.
---
 src/p2p/message.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index d2cff9e..b3e5bd1 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -200,9 +200,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		n = uint64(MsgHaveTotalLen)
 	case TypeBitfield:
 		msg, err = DecodeMsgBitfield(data, msglen)
-		if err == nil {
-			n = uint64(uint32(MsgLengthPrefixLen) + msg.Length())
-		}
+		n = uint64(MsgLengthPrefixLen) + uint64(msglen)
 	case TypeRequest:
 		msg, err = DecodeMsgRequest(payload)
 		n = uint64(MsgRequestTotalLen)
-- 
2.43.0


From 1cda08a926bedc7456c2d2e22f684dd6e2954e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:44 +0000
Subject: [PATCH 14/56] fix: do not wrap around at the length of a message

With a length prefix of 0xfffffffc or more the sum was a small number, and
slicing the payload crashed the client.
---
 src/p2p/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index b3e5bd1..e1c8c61 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -165,7 +165,7 @@ func Decode(data []byte) (DecodeResult, error) {
 		// Type 2 = Interested
 		// Type 3 = Not Interested
 		return badResult, fmt.Errorf("invalid message, length for id [0-3] must be 1, got %v", msglen)
-	} else if uint32(len(data)) < 4+msglen {
+	} else if uint64(len(data)) < 4+uint64(msglen) {
 		// Messages with payload
 		return badResult, fmt.Errorf("length specified as %v, payload length is %v", msglen, len(data))
 	}
-- 
2.43.0


From 29a0c1785c05a1aa06dbc37dd11377c14f3571e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 15/56] fix: keep pieces that many peers have in the last
 bucket

The 64th peer that has a piece moved it to a bucket past the last one, which
crashed the client.
---
 src/swarm/piecetracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d18999d..d3be16d 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -104,7 +104,7 @@ func (ppt *PeerPieceTracker) register(whom *PeerHandler, index uint32) {
 	if !node.Data.peerSet.Has(whom) {
 		// Move to next bucket, unless this is the largest bucket
 		oldCount := node.Data.peerSet.Size()
-		if oldCount < numBuckets {
+		if oldCount < numBuckets-1 {
 			ppt.buckets[oldCount].Remove(node)
 			ppt.buckets[oldCount+1].AddNodeFront(node)
 		}
@@ -130,9 +130,9 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 		if node.Data.peerSet.Has(whom) {
 			// Move to previous bucket, unless decrementing value by 1
 			// leaves it in the largest bucket. I.e, numBuckets = 50
-			// and oldCount = 52, then the node should remain in bucket 50.
+			// and oldCount = 52, then the node should remain in bucket 49.
 			oldCount := node.Data.peerSet.Size()
-			if oldCount <= numBuckets {
+			if oldCount < numBuckets {
 				ppt.buckets[oldCount].Remove(node)
 				ppt.buckets[oldCount-1].AddNodeFront(node)
 			}
-- 
2.43.0


From 970af0c2ba84253f0e9931977fc0ecc15ddc2783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:47 +0000
Subject: [PATCH 16/56] fix: mark the piece handed out by NextPiece as active

Only a copy was marked, so the same piece was handed out again on each call,
to the same peer and to all others.
---
 src/swarm/piecetracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index d3be16d..38d220a 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -155,14 +155,14 @@ func (ppt *PeerPieceTracker) NextPiece(whom *PeerHandler) (uint32, bool) {
 
 		cur := ppt.buckets[i].Head()
 		for cur != nil {
-			curPiece := cur.Data
+			curPiece := &cur.Data
 			// If the piece is needed
 			if !ppt.bf.Get(int64(curPiece.index)) {
 				// If the piece isn't taken by another peer, and
 				// the peer has the piece
 				if !curPiece.active && curPiece.peerSet.Has(whom) {
 					curPiece.active = true
-					ppt.requests[whom] = append(ppt.requests[whom], &curPiece)
+					ppt.requests[whom] = append(ppt.requests[whom], curPiece)
 					return curPiece.index, true
 				}
 			}
-- 
2.43.0


From eec30eaf3055e51dd78727fc7f855d97f284c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 17/56] fix: forget the requests of a peer that is unregistered

Unregistering it again released pieces that another peer had got since.
---
 src/swarm/piecetracker.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/piecetracker.go b/src/swarm/piecetracker.go
index 38d220a..13dfc66 100644
--- a/src/swarm/piecetracker.go
+++ b/src/swarm/piecetracker.go
@@ -123,6 +123,7 @@ func (ppt *PeerPieceTracker) Unregister(whom *PeerHandler) {
 	for _, p := range ppt.requests[whom] {
 		p.active = false
 	}
+	delete(ppt.requests, whom)
 
 	// Remove peer from all index peer sets
 	for _, node := range ppt.nodes {
-- 
2.43.0


From 6962b4484f2ee77797b1dec2936f47922e0e449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 18/56] fix: advance through the piece when requesting it

The offset stayed at 0, so requests were made until memory ran out.
---
 src/swarm/peerhandler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 0eb1fdc..106a59c 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -276,6 +276,7 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 	for offset < length {
 		reqlen := uint32(math.Min(requestLength, float64(length-offset)))
 		msgs = append(msgs, p2p.NewMsgRequest(index, offset, reqlen))
+		offset += reqlen
 	}
 
 	return msgs
-- 
2.43.0


From 3c4be2d398bb9809f448929f39afd6f883233997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 19/56] fix: return only the items of the set

Items started with as many zero values as there are items.
---
 src/utils/ds/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/ds/set.go b/src/utils/ds/set.go
index 9bb8687..5f593c0 100644
--- a/src/utils/ds/set.go
+++ b/src/utils/ds/set.go
@@ -38,7 +38,7 @@ func (s *Set[T]) Size() int {
 }
 
 func (s *Set[T]) Items() []T {
-	items := make([]T, len(s.set))
+	items := make([]T, 0, len(s.set))
 	for _, v := range s.set {
 		items = append(items, v)
 	}
-- 
2.43.0


From 23cf4658e522a653021e610e62212feeb1b69c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:36 +0000
Subject: [PATCH 20/56] fix: check the bounds of requests

A request for a piece that does not exist, or for bytes past the end of the
buffer, crashed the client. One past the end of a short last piece was answered
with bytes of another piece.
---
 src/swarm/msghandler.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index d2bfadc..a5465a0 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -2,6 +2,7 @@ package swarm
 
 import (
 	"errors"
+	"fmt"
 	"log"
 
 	"gotor/p2p"
@@ -59,11 +60,17 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 	// TODO: Cache pieces
 	s := ph.swarm
 	idx := int64(reqMsg.Index())
+	if idx >= s.Bf.Nbits() {
+		return fmt.Errorf("request for invalid piece %v", idx)
+	}
 	if s.Bf.Complete() || s.Bf.Get(idx) {
-		_, e := s.Fileio.ReadPiece(idx, ph.buf)
+		n, e := s.Fileio.ReadPiece(idx, ph.buf)
 		if e != nil {
 			return e
 		}
+		if int64(reqMsg.Begin())+int64(reqMsg.ReqLen()) > n {
+			return fmt.Errorf("request past the end of piece %v", idx)
+		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
 		e = s.RLIO.Write(ph.conn, mPiece.Encode())
-- 
2.43.0


From 187ed5dadcbb2488bfc58780dd61657d4749b697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 21/56] fix: handle messages that are split or follow an
 unknown one

Messages arrive in a byte stream, but the data of each read was decoded on its
own: what was split between two reads was lost, and its tail was decoded as if
a message started there. A message with an unknown type, such as cancel, made
the client drop all that came after it in the same read.
---
 src/p2p/message.go       | 11 +++++++++++
 src/swarm/msghandler.go  | 32 +++++++++++++++++++++++++++++++-
 src/swarm/peerhandler.go | 11 +----------
 3 files changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/p2p/message.go b/src/p2p/message.go
index e1c8c61..dfd659b 100644
--- a/src/p2p/message.go
+++ b/src/p2p/message.go
@@ -93,6 +93,17 @@ func (m *msgBase) fillBase(buf []byte) {
 	buf[4] = m.mtype
 }
 
+// FrameLen returns the length in bytes of the message that data starts with,
+// including the length prefix, and whether data holds all of it. The length is
+// 0 if data is too short to hold the length prefix.
+func FrameLen(data []byte) (uint64, bool) {
+	if len(data) < int(MsgLengthPrefixLen) {
+		return 0, false
+	}
+	n := uint64(MsgLengthPrefixLen) + uint64(binary.BigEndian.Uint32(data))
+	return n, uint64(len(data)) >= n
+}
+
 // DecodeAll reads through all the messages encoded in the data byte slice and
 // returns a DecodeAllResult containing the decoded Message struct and the
 // number of bytes read from the data byte slice.
diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index a5465a0..5d7058b 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -8,8 +8,38 @@ import (
 	"gotor/p2p"
 )
 
-// handleMessage decodes the data in the buffer and handles the messages appropriately.
+// maxExtraLen is how much longer a message may be than a piece or a bitfield,
+// for the messages that are skipped.
+const maxExtraLen = 131072
+
+// handleMessage takes the data received and handles the messages that are now
+// complete. The bytes of an incomplete message are kept for the next call.
 func (ph *PeerHandler) handleMessage(buf []byte) error {
+	ph.pending = append(ph.pending, buf...)
+	limit := ph.swarm.Tor.Info().PieceLen() + ph.swarm.Bf.Nbytes() + maxExtraLen
+
+	rest := ph.pending
+	for {
+		n, complete := p2p.FrameLen(rest)
+		if n > uint64(limit) {
+			return fmt.Errorf("message of %v bytes is too long", n)
+		}
+		if !complete {
+			break
+		}
+		e := ph.handleFrame(rest[:n])
+		if e != nil {
+			return e
+		}
+		rest = rest[n:]
+	}
+
+	ph.pending = append(ph.pending[:0], rest...)
+	return nil
+}
+
+// handleFrame decodes the data of a message and handles it appropriately.
+func (ph *PeerHandler) handleFrame(buf []byte) error {
 	var e error
 	dar := p2p.DecodeAll(buf)
 	pcent := 100.0 * float32(dar.Read) / float32(len(buf))
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 106a59c..1983053 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -38,6 +38,7 @@ type PeerHandler struct {
 	bf        *bf.Bitfield
 	procs     sync.WaitGroup // How many loops are running for this handler
 	buf       []byte         // Buffer for file io operations
+	pending   []byte         // Received bytes of messages that are not complete
 
 	chErr chan<- error // Report errors
 }
@@ -186,16 +187,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	// TODO: Should probably handle split messages
-	// What if we need to recv more than we can handle?
-	// 1. Decode all messages
-	// 2. Any subsections of bytes that were not decoded AND come
-	//    before any successfully decoded messages are discarded
-	// 3. This could leave a tail of non-decoded bytes. These should
-	//    be stored in another buffer. When we go to read again,
-	//    append new data to previous data and try decoding all again.
-	// 4. Rinse repeat.
-
 	ph.procs.Add(1)
 	defer ph.procs.Done()
 
-- 
2.43.0


From e6346f50bcac30f7190250d12a1f179defc6e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:37 +0000
Subject: [PATCH 22/56] fix: read the whole handshake of an incoming peer

A handshake that did not arrive in a single read was taken for a bad one.
---
 src/swarm/peerhandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 1983053..ceea0c3 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -3,6 +3,7 @@ package swarm
 import (
 	"errors"
 	"fmt"
+	stdio "io"
 	"log"
 	"math"
 	"net"
@@ -83,7 +84,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	}
 
 	// Read the handshake
-	_, e = conn.Read(buf)
+	_, e = stdio.ReadFull(conn, buf)
 	if e != nil {
 		return nil, e
 	}
-- 
2.43.0


From 3b7abb2d660c9f5819597bf5efdb682f05d1444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:38 +0000
Subject: [PATCH 23/56] fix: close incoming connections that fail the handshake

Those that timed out stayed open for ever.
---
 src/swarm/swarm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fa301a1..724facf 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -157,6 +157,7 @@ func (s *Swarm) runListener() {
 			ph, e := FromIncoming(c, s)
 			if e != nil {
 				log.Println(e)
+				_ = c.Close()
 			} else {
 				phs = append(phs, ph)
 				ph.Loop()
-- 
2.43.0


From 5e787b75c74b552717f1f33ef35d063bc6bd8257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 24/56] fix: read the handshake of a bootstrapped peer

It was never read: the peer's handshake was decoded as a message, which threw
away the messages received along with it, and peers of another torrent were
accepted.
---
 src/swarm/peerhandler.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index ceea0c3..a708c27 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -59,9 +59,27 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 
 	_, e = conn.Write(hs)
 	if e != nil {
+		_ = conn.Close()
 		return nil, e
 	}
 
+	// The peer answers with its own handshake
+	e = conn.SetReadDeadline(time.Now().Add(HandshakeTimeout))
+	if e != nil {
+		_ = conn.Close()
+		return nil, e
+	}
+	peerHs := make(Handshake, HandshakeLen)
+	_, e = stdio.ReadFull(conn, peerHs)
+	if e != nil {
+		_ = conn.Close()
+		return nil, e
+	}
+	if !ValidHandshake(peerHs, swarm.Tor.Infohash()) {
+		_ = conn.Close()
+		return nil, fmt.Errorf("bad peer handshake")
+	}
+
 	return NewPeerHandler(pInfo, swarm, conn), nil
 }
 
-- 
2.43.0


From 7b690c767e8f11ec4ad032397e043ad544709158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 25/56] fix: let Finish end a read loop that is reading

Finish waited for Run to receive its signal before it set the deadline, but Run
only receives it between reads, so neither of them ever returned. Run also
waited for ever to report an error that nobody reads any more.
---
 src/io/readloop.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index c1e5ea8..de9d363 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -3,6 +3,7 @@ package io
 import (
 	"log"
 	"net"
+	"sync"
 	"time"
 )
 
@@ -16,7 +17,8 @@ type ReadLoop struct {
 	chBuf   chan []byte   // Written to when conn.Read has data
 	chReady chan struct{} // Once data in chBuf is processed, this signals user is ready to read again
 	chErr   chan error    // Errors encountered when reading
-	chDone  chan struct{} // Once user is done, Run() will exit
+	chDone  chan struct{} // Closed once user is done, Run() will exit
+	finish  sync.Once     // Closes chDone
 
 	conn    net.Conn
 	timeout time.Duration
@@ -52,12 +54,20 @@ func (rl *ReadLoop) ReadError() <-chan error {
 
 // Finish cancels the current conn.Read() call and terminates the call to Run().
 func (rl *ReadLoop) Finish() {
-	rl.chDone <- struct{}{}
+	rl.finish.Do(func() { close(rl.chDone) })
 	// Set the cancel time to now. Rather than using time.Now() which involves
 	// a syscall, use Unix(1,0)
 	_ = rl.conn.SetReadDeadline(time.Unix(1, 0))
 }
 
+// fail reports the error, unless the user is done and no longer reads it.
+func (rl *ReadLoop) fail(e error) {
+	select {
+	case rl.chErr <- e:
+	case <-rl.chDone:
+	}
+}
+
 // Run will enter an infinite loop reading from the connection. When data is
 // read, it will write a byte slice to the buffer channel, which is accessed
 // via ReadData. If there are any errors, they are reported on the error
@@ -70,13 +80,21 @@ func (rl *ReadLoop) Run() {
 	for !done {
 		e := rl.conn.SetReadDeadline(time.Now().Add(rl.timeout))
 		if e != nil {
-			rl.chErr <- e
+			rl.fail(e)
 			break
 		}
 
+		// Finish first closes chDone, then sets the deadline. If it is not
+		// closed yet, the deadline it sets is not overwritten by ours.
+		select {
+		case <-rl.chDone:
+			return
+		default:
+		}
+
 		n, e := rl.conn.Read(rl.buf)
 		if n == 0 || e != nil {
-			rl.chErr <- e
+			rl.fail(e)
 			break
 		} else {
 			rl.chBuf <- rl.buf[:n]
-- 
2.43.0


From f1e73ae8e96eaa7afb6d6de3cb4cbc1cfd5cbcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:32 +0000
Subject: [PATCH 26/56] fix: end the handler of a peer that is gone

Only one of the two loops that wait for the signal got it, the request loop ran
(and used a whole CPU) until the torrent was complete, and the error was sent
to a channel that is never made. So each peer that disconnected left behind its
connection and its goroutines, and kept the pieces requested from it.
---
 src/swarm/peerhandler.go | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index a708c27..f33472a 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -24,6 +24,9 @@ const (
 	SendKeepAlive    = 60 * time.Second
 	HandshakeTimeout = 1 * time.Second
 
+	// requestInterval is how often we look for new pieces to request
+	requestInterval = 100 * time.Millisecond
+
 	// requestLength is the same piece request length as qBittorrent
 	requestLength = 16384
 )
@@ -162,7 +165,8 @@ func (ph *PeerHandler) Choke() error {
 func (ph *PeerHandler) Loop() {
 
 	// Any goroutines spawned should report errors on this chan
-	chErr := make(chan error)
+	// (buffered, since all of them may fail while we are waiting for them)
+	chErr := make(chan error, 3)
 
 	// Use to stop to all spawned goroutines
 	chDone := make(chan bool)
@@ -174,6 +178,8 @@ func (ph *PeerHandler) Loop() {
 		log.Printf("error unchoking: %v\n", e)
 	}
 
+	ph.procs.Add(3)
+
 	go ph.pingLoop(chErr, chDone)
 
 	go ph.recvLoop(chErr, chDone)
@@ -192,11 +198,16 @@ func (ph *PeerHandler) Loop() {
 		case e = <-chErr:
 			done = true
 			log.Printf("error peer [%v] (killing): %v", ph.peerInfo.String(), e)
-			chDone <- true
+			close(chDone)
+			_ = ph.conn.Close()
 			ph.procs.Wait()
+			// The pieces it was to send can be requested from other peers
+			ph.swarm.PPT.Unregister(ph)
 			// We will eventually wrap this in a struct so that we can
 			// tell the main loop which PeerHandler has errored
-			ph.chErr <- e
+			if ph.chErr != nil {
+				ph.chErr <- e
+			}
 		}
 	}
 
@@ -206,7 +217,6 @@ func (ph *PeerHandler) Loop() {
 // recvLoop handles reading in data from the peer and sending
 // replies if needed.
 func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	defer log.Printf("end recvLoop [%v]", ph.peerInfo.String())
@@ -214,6 +224,7 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 	readLoop := io.NewReadLoop(RecvBufSize, ph.conn, GetKeepAlive)
 	go readLoop.Run()
+	defer readLoop.Finish()
 
 	var e error
 	done := false
@@ -239,7 +250,6 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 // requestLoop sends out piece requests to the peer.
 func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 
 	log.Printf("start requestLoop [%v]", ph.peerInfo.String())
@@ -262,13 +272,21 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				// TODO: Handle
-				_ = ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				if e != nil {
+					chErr <- e
+					return
+				}
 				fmt.Printf("sent request for %v : %v", msg.Index(), msg.ReqLen())
 			}
 			fmt.Printf("sent %v msgs", len(msgs))
 		}
 
+		select {
+		case <-chDone:
+			return
+		case <-time.After(requestInterval):
+		}
 	}
 }
 
@@ -296,7 +314,6 @@ func (ph *PeerHandler) createReqMessages(index uint32) []*p2p.MsgRequest {
 // defined by SendKeepAlive.
 func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 
-	ph.procs.Add(1)
 	defer ph.procs.Done()
 	defer log.Printf("end pingLoop [%v]", ph.peerInfo.String())
 
-- 
2.43.0


From 1b81371d631d2edbe421ce96318b54b00b8c3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 27/56] fix: do not append to a slice from many goroutines

Each new peer appended its handler without a lock, to a slice nobody reads.
---
 src/swarm/swarm.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index 724facf..a0d36e3 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -144,8 +144,6 @@ func (s *Swarm) runListener() {
 	}
 	log.Printf("Listening on port %v\n", opts.Port())
 
-	phs := make([]*PeerHandler, 0, 4)
-
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
@@ -159,7 +157,6 @@ func (s *Swarm) runListener() {
 				log.Println(e)
 				_ = c.Close()
 			} else {
-				phs = append(phs, ph)
 				ph.Loop()
 			}
 		}(conn)
-- 
2.43.0


From bf91de5c949a4df354a3e46211d2445401f63b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:34 +0000
Subject: [PATCH 28/56] fix: keep running when a connection cannot be accepted

Running out of file descriptors for a moment crashed the client.
---
 src/swarm/swarm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index a0d36e3..fb042f5 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"strings"
+	"time"
 
 	"gotor/bf"
 	"gotor/io"
@@ -147,7 +148,10 @@ func (s *Swarm) runListener() {
 	for {
 		conn, err := listener.Accept()
 		if err != nil {
-			panic(err)
+			// Out of file descriptors, or the peer is already gone
+			log.Printf("failed to accept: %v", err)
+			time.Sleep(100 * time.Millisecond)
+			continue
 		}
 		log.Printf("new client @ %v", conn.RemoteAddr())
 
-- 
2.43.0


From dd5b35b76348432a1c0ffaddbe4d8fa7946688e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 29/56] fix: do not write to a shared bitfield when encoding it

The handlers of all new peers filled in the prefix of the same slice at once.
---
 src/p2p/bitfield.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/p2p/bitfield.go b/src/p2p/bitfield.go
index 214c661..f58e6b2 100644
--- a/src/p2p/bitfield.go
+++ b/src/p2p/bitfield.go
@@ -41,7 +41,8 @@ func (bf *MsgBitfield) Bitfield() *bf.Bitfield {
 // IMPL =======================================================================
 
 func (bf *MsgBitfield) Encode() []byte {
-	data := bf.bitfield.Data5()
+	// Copied, since our own bitfield is encoded for many peers at once
+	data := append([]byte(nil), bf.bitfield.Data5()...)
 	bf.msgBase.fillBase(data[:5])
 	return data
 }
-- 
2.43.0


From 79b1b27fe7d36a4918fd7350d0df794fae6e86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 30/56] fix: access the state of the rate limiter atomically

The limits and the used amounts were read without synchronisation while Run and
the setters change them, in a loop that used a whole CPU while waiting.
---
 src/io/ratelimit.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 5edfe5a..3fe127f 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -9,6 +9,9 @@ import (
 
 const (
 	NoLimit = -1
+
+	// pollInterval is how often a call that has to wait looks if it may go on
+	pollInterval = time.Millisecond
 )
 
 type RateLimitIO struct {
@@ -42,7 +45,7 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	}
 	rl.rlock.Lock()
 	defer rl.rlock.Unlock()
-	rl.rRate = limit // Only place this is modified, don't need atomic
+	atomic.StoreInt64(&rl.rRate, limit)
 }
 
 func (rl *RateLimitIO) SetWriteRate(limit int64) {
@@ -51,14 +54,14 @@ func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	}
 	rl.wlock.Lock()
 	defer rl.wlock.Unlock()
-	rl.wRate = limit // Only place this is modified, don't need atomic
+	atomic.StoreInt64(&rl.wRate, limit)
 }
 
 // Run will maintain the set rate limit in an infinite loop, until Stop() is
 // called. This method should almost certainly be in its own goroutine.
 func (rl *RateLimitIO) Run() {
-	rl.rUsed = 0
-	rl.wUsed = 0
+	atomic.StoreInt64(&rl.rUsed, 0)
+	atomic.StoreInt64(&rl.wUsed, 0)
 
 	done := false
 	for !done {
@@ -88,7 +91,7 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Write,
 	// the lock would only be acquired after the in-progress Write finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.wRate == NoLimit {
+	if atomic.LoadInt64(&rl.wRate) == NoLimit {
 		_, e := writer.Write(data)
 		atomic.AddInt64(&rl.wUsed, lenData)
 		atomic.AddInt64(&rl.wTotal, lenData)
@@ -101,9 +104,10 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if rl.wUsed < rl.wRate {
+		if atomic.LoadInt64(&rl.wUsed) < atomic.LoadInt64(&rl.wRate) {
 			break
 		}
+		time.Sleep(pollInterval)
 	}
 
 	atomic.AddInt64(&rl.wUsed, lenData)
@@ -125,7 +129,7 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	// No sense locking here, if we introduce a limit during a call to Read,
 	// the lock would only be acquired after the in-progress Read finishes
 	// and the rate-limit would be effectively ignored.
-	if rl.rRate == NoLimit {
+	if atomic.LoadInt64(&rl.rRate) == NoLimit {
 		_, e := reader.Read(buf)
 		atomic.AddInt64(&rl.rUsed, lenBuf)
 		atomic.AddInt64(&rl.rTotal, lenBuf)
@@ -138,9 +142,10 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if rl.rUsed < rl.rRate {
+		if atomic.LoadInt64(&rl.rUsed) < atomic.LoadInt64(&rl.rRate) {
 			break
 		}
+		time.Sleep(pollInterval)
 	}
 
 	atomic.AddInt64(&rl.rUsed, lenBuf)
-- 
2.43.0


From 24487e09a9f20517c8be0f5d13c5a200f377a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 31/56] fix: return an error for an invalid announce URL

The request was nil and using it crashed the client.
---
 src/tracker/tracker.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 0ccb16a..fcd5c0b 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -75,7 +75,10 @@ func (s State) Leechers() uint64 {
 // FUNK =======================================================================
 
 func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Response, error) {
-	req := newRequest(tor, stats, port, peerId)
+	req, e := newRequest(tor, stats, port, peerId)
+	if e != nil {
+		return nil, e
+	}
 	resp, e := do(req)
 	if e != nil {
 		return nil, e
@@ -83,8 +86,11 @@ func Get(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*Respo
 	return resp, nil
 }
 
-func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) *http.Request {
-	req, _ := http.NewRequest("GET", tor.Announce(), nil)
+func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string) (*http.Request, error) {
+	req, err := http.NewRequest("GET", tor.Announce(), nil)
+	if err != nil {
+		return nil, err
+	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
 	query.Add("peer_id", url.QueryEscape(peerId))
@@ -94,7 +100,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	query.Add("left", fmt.Sprintf("%v", stats.Left()))
 	query.Add("compact", "1") // For compact peer list (BEP_0023)
 	req.URL.RawQuery = query.Encode()
-	return req
+	return req, nil
 }
 
 func do(req *http.Request) (*Response, error) {
-- 
2.43.0


From 80ae5d8a1a7f89b72cde5af189c1ca934022156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 32/56] fix: escape the peer ID once

It was escaped before it was added to the query, which escapes it again, so a
tracker saw another ID if it holds characters that are escaped.
---
 src/tracker/tracker.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index fcd5c0b..02bfc66 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -6,7 +6,6 @@ import (
 	"io/ioutil"
 	"net"
 	"net/http"
-	"net/url"
 	"strings"
 
 	"gotor/bencode"
@@ -93,7 +92,7 @@ func newRequest(tor *torrent.Torrent, stats *Stats, port uint16, peerId string)
 	}
 	query := req.URL.Query()
 	query.Add("info_hash", tor.Infohash())
-	query.Add("peer_id", url.QueryEscape(peerId))
+	query.Add("peer_id", peerId)
 	query.Add("port", fmt.Sprintf("%v", port))
 	query.Add("uploaded", fmt.Sprintf("%v", stats.Uploaded()))
 	query.Add("downloaded", fmt.Sprintf("%v", stats.Dnloaded()))
-- 
2.43.0


From ddb094ca4de80fa53171641bc74751b04398729a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 33/56] fix: close the response of the tracker

---
 src/tracker/tracker.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 02bfc66..d008be7 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -110,6 +110,8 @@ func do(req *http.Request) (*Response, error) {
 		return nil, err
 	}
 
+	defer func() { _ = resp.Body.Close() }()
+
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 21f480387d8f1a09160250932e1f09736f49a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 34/56] fix: do not read negative integers as huge unsigned
 ones

A tracker's interval of -1 became 18446744073709551615 seconds.
---
 src/bencode/dict.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bencode/dict.go b/src/bencode/dict.go
index fb0fe1c..7e5ed53 100644
--- a/src/bencode/dict.go
+++ b/src/bencode/dict.go
@@ -75,6 +75,14 @@ func (d Dict) GetUint(key string) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
+	if v < 0 {
+		return 0, &DictBadTypeError{
+			key:   key,
+			tWant: "uint64",
+			tHave: "negative int64",
+			dict:  d,
+		}
+	}
 	return uint64(v), nil
 }
 
-- 
2.43.0


From 91562c2e6ae822a358c3d6d4380c301efbdaa47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 35/56] fix: reject peers with a port out of range

Only the low 16 bits were kept, which is the port of something else.
---
 src/tracker/tracker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index d008be7..642aede 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"io/ioutil"
+	"math"
 	"net"
 	"net/http"
 	"strings"
@@ -247,6 +248,9 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
+		if port > math.MaxUint16 {
+			return nil, &Error{msg: fmt.Sprintf("invalid port of peer [%v]", port)}
+		}
 		id, err := peerDict.GetString("peer id")
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 192541de21c9fdf2a08cd3f57fbc385b005080d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:25 +0000
Subject: [PATCH 36/56] fix: tell the tracker how many bytes are left

The tracker was always told 0, so it counted a client without any piece as a
seeder.
---
 src/swarm/swarm.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/swarm/swarm.go b/src/swarm/swarm.go
index fb042f5..1f4e8c1 100644
--- a/src/swarm/swarm.go
+++ b/src/swarm/swarm.go
@@ -73,9 +73,7 @@ func NewSwarm(opts *utils.Opts) (*Swarm, error) {
 	pcent := 100 * float64(_bf.Nset()) / float64(_bf.Nbits())
 	log.Printf("have %v/%v (%v%%) pieces", _bf.Nset(), _bf.Nbits(), pcent)
 
-	// TODO: Compute remaining bytes left
-	//swarm.Stats = tracker.NewStats(0, 0, swarm.Tor.Length())  // Full leech
-	swarm.Stats = tracker.NewStats(0, 0, 0) // Seed
+	swarm.Stats = tracker.NewStats(0, 0, swarm.bytesLeft())
 
 	// Make first contact with tracker
 	log.Printf("sending get to tracker [%v]\n", swarm.Tor.Announce())
@@ -118,6 +116,25 @@ func (s *Swarm) Validate() error {
 	return nil
 }
 
+// bytesLeft returns the number of bytes in the pieces that are missing.
+func (s *Swarm) bytesLeft() uint64 {
+	torInfo := s.Tor.Info()
+
+	left := int64(0)
+	for i := int64(0); i < torInfo.NumPieces(); i++ {
+		if s.Bf.Get(i) {
+			continue
+		}
+		if i == torInfo.NumPieces()-1 {
+			left += torInfo.LastPieceLen()
+		} else {
+			left += torInfo.PieceLen()
+		}
+	}
+
+	return uint64(left)
+}
+
 func (s *Swarm) Start() {
 
 	go s.runListener()
-- 
2.43.0


From db15c99f99a921bbe7bb8fcb078ab4e8dda003a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 37/56] fix: reject limits that are out of range

A large limit such as 9999999999G wrapped around to some other limit, or to no
limit at all.
---
 src/utils/opts.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 92f3bb4..f67ee78 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"flag"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 )
@@ -91,6 +92,14 @@ func (o *Opts) Validate() error {
 	return nil
 }
 
+// mulSize multiplies val by unit, unless the result is out of range.
+func mulSize(val int64, unit int64) (int64, error) {
+	if val > math.MaxInt64/unit || val < math.MinInt64/unit {
+		return 0, errors.New("size out of range")
+	}
+	return val * unit, nil
+}
+
 func parseSizeUnits(str string) (int64, error) {
 	str = strings.ToUpper(str)
 	lenstr := len(str)
@@ -138,11 +147,11 @@ func parseSizeUnits(str string) (int64, error) {
 	case 'B':
 		return val, nil
 	case 'K':
-		return val * 1024, nil
+		return mulSize(val, 1024)
 	case 'M':
-		return val * 1024 * 1024, nil
+		return mulSize(val, 1024*1024)
 	case 'G':
-		return val * 1024 * 1024 * 1024, nil
+		return mulSize(val, 1024*1024*1024)
 	default:
 		return 0, errors.New("invalid units")
 	}
-- 
2.43.0


From f63e44889c4b71f357381e16f97f938ff7956670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 38/56] fix: reject ports that are out of range

Only the low 16 bits were used, so the client listened on another port.
---
 src/utils/opts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index f67ee78..09d0f7c 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -66,6 +66,10 @@ func (o *Opts) Validate() error {
 		return errors.New("missing argument 'working directory'")
 	}
 
+	if *o.port > math.MaxUint16 {
+		return fmt.Errorf("invalid port given, [%v]", *o.port)
+	}
+
 	switch *o.cmd {
 	case StartSwarm, TorInfo:
 		break
-- 
2.43.0


From e45b0f6b2998a265f130f2c5cf0d349f5e66b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 39/56] fix: do not use a whole CPU while waiting

The main goroutine ran in an empty loop.
---
 src/main.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main.go b/src/main.go
index c38f018..5cc6cec 100644
--- a/src/main.go
+++ b/src/main.go
@@ -38,9 +38,8 @@ func CmdSwarm(opts *utils.Opts) {
 
 	s.Start()
 
-	for {
-
-	}
+	// The swarm runs in its own goroutines
+	select {}
 }
 
 func CmdTorInfo(opts *utils.Opts) {
-- 
2.43.0


From 6a93584d794458c9cae400ef0cf1b3daaa34fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 40/56] fix: map the pieces of a torrent in linear time

Finding the offset of a piece walked over all the pieces before it, so
that opening a torrent with some hundred thousand pieces took minutes.
---
 src/torrent/filesd/entry.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/torrent/filesd/entry.go b/src/torrent/filesd/entry.go
index 4719137..0888964 100644
--- a/src/torrent/filesd/entry.go
+++ b/src/torrent/filesd/entry.go
@@ -98,15 +98,10 @@ func (few *Entry) PieceInfo(index int64, pieceLen int64) (PieceInfo, error) {
 	cursorIdx := few.startPieceIdx
 	cursorOff := few.startPieceOff
 
-	// Adjust seekAmnt
-	for {
-		if cursorIdx == index {
-			break
-		}
-
-		seekAmnt += pieceLen - cursorOff
+	// Adjust seekAmnt (directly, since torrents can have millions of pieces)
+	if index > cursorIdx {
+		seekAmnt = (index-cursorIdx)*pieceLen - cursorOff
 		cursorOff = 0
-		cursorIdx++
 	}
 
 	// Adjust readAmnt
-- 
2.43.0


From 5346b07aad1128211d3fc183ecc2672c7226cce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 41/56] fix: do not decode strings past the end of the data

A string whose length reaches past the end of the data was completed with
whatever is in the capacity of the slice, instead of being rejected.
---
 src/bencode/decode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 66782af..009224b 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -213,6 +213,11 @@ func (dc *decoder) decodeString() (string, error) {
 		return "", err
 	}
 
+	// Slicing alone can reach past the end, into the capacity of the slice
+	if uint64(lenVal) > uint64(len(dc.data))-dc.curs {
+		return "", &DecoderError{"read end of data before completion"}
+	}
+
 	str := string(dc.data[dc.curs : dc.curs+uint64(lenVal)])
 	dc.curs += uint64(lenVal)
 
-- 
2.43.0


From ea36adb1bb944257a56fc63e9ae8ad495b61de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:38 +0000
Subject: [PATCH 42/56] fix: do not overwrite a file that cannot be opened

---
 src/utils/futils.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/utils/futils.go b/src/utils/futils.go
index 787af5c..dcdef1d 100644
--- a/src/utils/futils.go
+++ b/src/utils/futils.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"errors"
 	"io"
 	"os"
 	"path/filepath"
@@ -67,12 +68,12 @@ func OCAT(fpath string, length int64) (*os.File, error) {
 
 	fp, e := os.OpenFile(fpath, os.O_RDWR, 0666)
 
-	// Create new file
-	if e != nil {
+	// Create new file, but do not overwrite one that we failed to open
+	if errors.Is(e, os.ErrNotExist) {
 		fp, e = CreateZeroFilledFile(fpath, length)
-		if e != nil {
-			return nil, e
-		}
+	}
+	if e != nil {
+		return nil, e
 	}
 
 	// Check size
-- 
2.43.0


From bac55592c18cf5f7e08f20bc70369e670236bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 43/56] fix: connect to peers with an IPv6 address

---
 src/peer/info.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 927832c..8ccc150 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -3,7 +3,6 @@ package peer
 import (
 	"fmt"
 	"net"
-	"strings"
 )
 
 type Info struct {
@@ -15,16 +14,11 @@ type Info struct {
 }
 
 func MakePeer(id string, ip net.IP, port uint16) Info {
-	strb := strings.Builder{}
-	strb.WriteString(ip.String())
-	strb.WriteByte(':')
-	strb.WriteString(fmt.Sprintf("%v", port))
-
 	return Info{
 		id:   id,
 		ip:   ip,
 		port: port,
-		addr: strb.String(),
+		addr: net.JoinHostPort(ip.String(), fmt.Sprintf("%v", port)),
 		str:  fmt.Sprintf("%v @ %v:%v", id, ip, port),
 	}
 }
-- 
2.43.0


From 0e142b49d4df9ed53c4aada952f73a9e9da3969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:04 +0000
Subject: [PATCH 44/56] fix: report a missing working directory

---
 src/utils/opts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index 09d0f7c..b0b5f77 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -62,7 +62,7 @@ func (o *Opts) Validate() error {
 		return errors.New("missing argument 'input'")
 	}
 
-	if o.Input() == "" {
+	if o.WorkingDir() == "" {
 		return errors.New("missing argument 'working directory'")
 	}
 
-- 
2.43.0


From 9e0d907441e2e6960e9f9b5925012b6601b476ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 45/56] fix: disconnect peers that do not read

---
 src/swarm/peerhandler.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index f33472a..c24df59 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -47,6 +47,21 @@ type PeerHandler struct {
 	chErr chan<- error // Report errors
 }
 
+// writeTimeoutConn is a connection on which a Write fails if the peer does not
+// take the data in time.
+type writeTimeoutConn struct {
+	net.Conn
+	timeout time.Duration
+}
+
+func (c writeTimeoutConn) Write(data []byte) (int, error) {
+	e := c.SetWriteDeadline(time.Now().Add(c.timeout))
+	if e != nil {
+		return 0, e
+	}
+	return c.Conn.Write(data)
+}
+
 // ============================================================================
 // FUNK =======================================================================
 
@@ -57,6 +72,7 @@ func FromBootstrap(pInfo peer.Info, swarm *Swarm) (*PeerHandler, error) {
 	if e != nil {
 		return nil, e
 	}
+	conn = writeTimeoutConn{conn, GetKeepAlive}
 
 	hs := MakeHandshake(swarm.Tor.Infohash(), swarm.Id)
 
@@ -95,6 +111,7 @@ func FromIncoming(conn net.Conn, swarm *Swarm) (*PeerHandler, error) {
 	if !ok {
 		return nil, errors.New("connection is not TCP")
 	}
+	conn = writeTimeoutConn{conn, GetKeepAlive}
 
 	buf := make([]byte, HandshakeLen)
 
-- 
2.43.0


From 1c5f237fac24eab0a0a4862d56b454e389a38b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:16 +0000
Subject: [PATCH 46/56] fix: do not hang when a rate limit is changed

---
 src/io/ratelimit.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 3fe127f..c1ceccd 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -43,8 +43,6 @@ func (rl *RateLimitIO) SetReadRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.rlock.Lock()
-	defer rl.rlock.Unlock()
 	atomic.StoreInt64(&rl.rRate, limit)
 }
 
@@ -52,8 +50,6 @@ func (rl *RateLimitIO) SetWriteRate(limit int64) {
 	if limit < NoLimit {
 		limit = NoLimit
 	}
-	rl.wlock.Lock()
-	defer rl.wlock.Unlock()
 	atomic.StoreInt64(&rl.wRate, limit)
 }
 
@@ -104,7 +100,8 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 	defer unlocker.Do(rl.wlock.Unlock)
 
 	for {
-		if atomic.LoadInt64(&rl.wUsed) < atomic.LoadInt64(&rl.wRate) {
+		rate := atomic.LoadInt64(&rl.wRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.wUsed) < rate {
 			break
 		}
 		time.Sleep(pollInterval)
@@ -142,7 +139,8 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	defer unlocker.Do(rl.rlock.Unlock)
 
 	for {
-		if atomic.LoadInt64(&rl.rUsed) < atomic.LoadInt64(&rl.rRate) {
+		rate := atomic.LoadInt64(&rl.rRate)
+		if rate == NoLimit || atomic.LoadInt64(&rl.rUsed) < rate {
 			break
 		}
 		time.Sleep(pollInterval)
-- 
2.43.0


From 3954ea544a62c18ccba48bc3f5976c5423b2620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:32 +0000
Subject: [PATCH 47/56] fix: do not decode negative zero

---
 src/bencode/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bencode/decode.go b/src/bencode/decode.go
index 009224b..2499be0 100644
--- a/src/bencode/decode.go
+++ b/src/bencode/decode.go
@@ -239,6 +239,9 @@ func (dc *decoder) decodeInt() (int64, error) {
 	if dc.curByte() == '-' {
 		strInt += "-"
 		dc.curs++
+		if dc.curByte() == '0' {
+			return 0, &DecoderError{"bad int (negative 0) at byte " + strconv.FormatUint(dc.curs, 10)}
+		}
 	}
 
 	// Should not have leading 0s, unless value is 0
-- 
2.43.0


From c7df584e51fdeb740d35b08f4f26134429039f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 48/56] fix: tell peers with the same ID and address apart

---
 src/swarm/peerhandler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index c24df59..1916b71 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -358,6 +358,8 @@ func (ph *PeerHandler) pingLoop(chErr chan<- error, chDone <-chan bool) {
 	}
 }
 
+// Key identifies the handler. The peer's ID and address do not, as a tracker may
+// list a peer more than once.
 func (ph *PeerHandler) Key() string {
-	return ph.peerInfo.String()
+	return fmt.Sprintf("%p", ph)
 }
-- 
2.43.0


From d12297eb8adf1aafb3feeb9969d3fe575c310e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:44 +0000
Subject: [PATCH 49/56] fix: refuse piece lengths that are too large before a
 buffer is made

---
 src/torrent/info/info.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index 307eb5e..b127c48 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -84,7 +84,7 @@ func CreateTorInfo(paths []string, workingDir string, name string, pieceLen int6
 	const mib = 1048576
 	const maxBuf = 5 * mib
 
-	if pieceLen < 1 {
+	if pieceLen < 1 || pieceLen > math.MaxInt32 {
 		return nil, fmt.Errorf("invalid piece length [%v]", pieceLen)
 	}
 
-- 
2.43.0


From c86c9f6befdfa7d665d2035f7602d5f280acfb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:54 +0000
Subject: [PATCH 50/56] fix: refuse torrents that name a file twice

---
 src/torrent/info/info.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/torrent/info/info.go b/src/torrent/info/info.go
index b127c48..8d2eb09 100644
--- a/src/torrent/info/info.go
+++ b/src/torrent/info/info.go
@@ -175,8 +175,13 @@ func NewTorInfo(name string, pieceLen int64, hashes string, files []filesd.Entry
 	}
 
 	length := int64(0)
+	paths := make(map[string]bool, len(files))
 
 	for _, fentry := range files {
+		if paths[fentry.TorPath()] {
+			return nil, fmt.Errorf("file [%v] occurs more than once", fentry.TorPath())
+		}
+		paths[fentry.TorPath()] = true
 		if fentry.Length() < 0 || fentry.Length() > math.MaxInt64-pieceLen-length {
 			return nil, fmt.Errorf("invalid length [%v] of file [%v]", fentry.Length(), fentry.TorPath())
 		}
-- 
2.43.0


From 62ffd0f4e7c8e3ddc6566ba5228d4dc129bb6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:37 +0000
Subject: [PATCH 51/56] fix: handlers of peers that left no longer wait for
 their turn to write

A call of the rate limiter waits until the limit admits it, which takes long
under a low limit and forever under one of 0. A handler whose peer had gone
waited there: its connection was not closed, its pieces not given to other
peers, its goroutines stayed. A wait for the turn to write now ends with the
connection.
---
 src/io/ratelimit.go      | 31 ++++++++++++++++++++++++-------
 src/swarm/msghandler.go  |  2 +-
 src/swarm/peerhandler.go |  8 +++++---
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index c1ceccd..1512973 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -1,6 +1,7 @@
 package io
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"sync/atomic"
@@ -14,13 +15,16 @@ const (
 	pollInterval = time.Millisecond
 )
 
+// ErrCancelled is returned by a call that was told to wait no longer.
+var ErrCancelled = errors.New("rate-limited call was cancelled")
+
 type RateLimitIO struct {
 	rRate     int64
 	rUsed     int64
 	rlock     sync.Mutex
 	wRate     int64
 	wUsed     int64
-	wlock     sync.Mutex
+	wlock     chan struct{} // Held by the call that is next to write
 	sig       chan struct{} // Signal that controls the run() loop
 	tick      *time.Ticker
 	rTotal    int64
@@ -34,6 +38,7 @@ func NewRateLimitIO() *RateLimitIO {
 		wRate: NoLimit,
 		rUsed: 0,
 		wUsed: 0,
+		wlock: make(chan struct{}, 1),
 		sig:   make(chan struct{}),
 		tick:  time.NewTicker(1 * time.Second),
 	}
@@ -82,6 +87,12 @@ func (rl *RateLimitIO) Stop() {
 // 20 bytes when the write rate is 5 bytes will write the full 20 bytes,
 // rather than splitting into 4 seperate writes.
 func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
+	return rl.WriteUntil(nil, writer, data)
+}
+
+// WriteUntil is Write, except that it gives up and returns ErrCancelled if
+// chDone is closed before it is its turn.
+func (rl *RateLimitIO) WriteUntil(chDone <-chan bool, writer io.Writer, data []byte) error {
 	lenData := int64(len(data))
 
 	// No sense locking here, if we introduce a limit during a call to Write,
@@ -94,21 +105,27 @@ func (rl *RateLimitIO) Write(writer io.Writer, data []byte) error {
 		return e
 	}
 
-	var unlocker sync.Once
-
-	rl.wlock.Lock()
-	defer unlocker.Do(rl.wlock.Unlock)
+	select {
+	case rl.wlock <- struct{}{}:
+	case <-chDone:
+		return ErrCancelled
+	}
 
 	for {
 		rate := atomic.LoadInt64(&rl.wRate)
 		if rate == NoLimit || atomic.LoadInt64(&rl.wUsed) < rate {
 			break
 		}
-		time.Sleep(pollInterval)
+		select {
+		case <-time.After(pollInterval):
+		case <-chDone:
+			<-rl.wlock
+			return ErrCancelled
+		}
 	}
 
 	atomic.AddInt64(&rl.wUsed, lenData)
-	unlocker.Do(rl.wlock.Unlock)
+	<-rl.wlock
 	atomic.AddInt64(&rl.wTotal, lenData)
 
 	_, e := writer.Write(data)
diff --git a/src/swarm/msghandler.go b/src/swarm/msghandler.go
index 5d7058b..ad565d5 100644
--- a/src/swarm/msghandler.go
+++ b/src/swarm/msghandler.go
@@ -103,7 +103,7 @@ func (ph *PeerHandler) handleRequest(reqMsg *p2p.MsgRequest) error {
 		}
 		subdata := ph.buf[reqMsg.Begin() : reqMsg.Begin()+reqMsg.ReqLen()]
 		mPiece := p2p.NewMsgPiece(reqMsg.Index(), reqMsg.Begin(), subdata)
-		e = s.RLIO.Write(ph.conn, mPiece.Encode())
+		e = s.RLIO.WriteUntil(ph.chDone, ph.conn, mPiece.Encode())
 		if e != nil {
 			return e
 		}
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index 1916b71..f5d57a0 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -44,7 +44,8 @@ type PeerHandler struct {
 	buf       []byte         // Buffer for file io operations
 	pending   []byte         // Received bytes of messages that are not complete
 
-	chErr chan<- error // Report errors
+	chErr  chan<- error // Report errors
+	chDone chan bool    // Closed when the connection ends
 }
 
 // writeTimeoutConn is a connection on which a Write fails if the peer does not
@@ -161,6 +162,7 @@ func NewPeerHandler(pInfo peer.Info, swarm *Swarm, conn net.Conn) *PeerHandler {
 		swarm:    swarm,
 		conn:     conn,
 		chErr:    swarm.ChErr,
+		chDone:   make(chan bool),
 		procs:    sync.WaitGroup{},
 		buf:      make([]byte, torInfo.PieceLen(), torInfo.PieceLen()),
 		bf:       bf.NewBitfield(torInfo.NumPieces()),
@@ -186,7 +188,7 @@ func (ph *PeerHandler) Loop() {
 	chErr := make(chan error, 3)
 
 	// Use to stop to all spawned goroutines
-	chDone := make(chan bool)
+	chDone := ph.chDone
 
 	// For now, just unchoke everyone
 	msg := p2p.NewMsgUnchoke()
@@ -289,7 +291,7 @@ func (ph *PeerHandler) requestLoop(chErr chan<- error, chDone <-chan bool) {
 			// Make the request. qBittorrent uses 16KiB requests
 			msgs := ph.createReqMessages(next)
 			for _, msg := range msgs {
-				e := ph.swarm.RLIO.Write(ph.conn, msg.Encode())
+				e := ph.swarm.RLIO.WriteUntil(chDone, ph.conn, msg.Encode())
 				if e != nil {
 					chErr <- e
 					return
-- 
2.43.0


From bf32ed3a5eb7db69b0df6975d65be7df87c2d648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:57 +0000
Subject: [PATCH 52/56] fix: hand over data that a Read returns together with
 an error

---
 src/io/readloop.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/readloop.go b/src/io/readloop.go
index de9d363..e9add0a 100644
--- a/src/io/readloop.go
+++ b/src/io/readloop.go
@@ -93,7 +93,7 @@ func (rl *ReadLoop) Run() {
 		}
 
 		n, e := rl.conn.Read(rl.buf)
-		if n == 0 || e != nil {
+		if n == 0 {
 			rl.fail(e)
 			break
 		} else {
@@ -104,6 +104,12 @@ func (rl *ReadLoop) Run() {
 			case <-rl.chDone:
 				done = true
 			}
+
+			// A Read may return data together with an error
+			if e != nil {
+				rl.fail(e)
+				break
+			}
 		}
 	}
 }
-- 
2.43.0


From 10346168614dabe2c1fcbfb3889724c64ec5d6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 53/56] fix: peers that the tracker names by a host name are
 known by it

---
 src/peer/info.go       | 11 +++++++++++
 src/tracker/tracker.go | 23 ++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/peer/info.go b/src/peer/info.go
index 8ccc150..878af49 100644
--- a/src/peer/info.go
+++ b/src/peer/info.go
@@ -23,6 +23,17 @@ func MakePeer(id string, ip net.IP, port uint16) Info {
 	}
 }
 
+// MakeHostPeer returns a peer that is known by its host name.
+func MakeHostPeer(id string, host string, port uint16) Info {
+	addr := net.JoinHostPort(host, fmt.Sprintf("%v", port))
+	return Info{
+		id:   id,
+		port: port,
+		addr: addr,
+		str:  fmt.Sprintf("%v @ %v", id, addr),
+	}
+}
+
 func (p Info) Id() string {
 	return p.id
 }
diff --git a/src/tracker/tracker.go b/src/tracker/tracker.go
index 642aede..a254115 100644
--- a/src/tracker/tracker.go
+++ b/src/tracker/tracker.go
@@ -255,11 +255,32 @@ func (l listSource) GetPeers() (peer.List, error) {
 		if err != nil {
 			return nil, err
 		}
-		peerList = append(peerList, peer.MakePeer(id, net.ParseIP(ip), uint16(port)))
+		addr := net.ParseIP(ip)
+		if addr != nil {
+			peerList = append(peerList, peer.MakePeer(id, addr, uint16(port)))
+		} else if validHost(ip) {
+			peerList = append(peerList, peer.MakeHostPeer(id, ip, uint16(port)))
+		} else {
+			return nil, &Error{msg: fmt.Sprintf("invalid address of peer [%v]", ip)}
+		}
 	}
 	return peerList, nil
 }
 
+// validHost says whether s can be a DNS name, which trackers may give instead
+// of an IP address.
+func validHost(s string) bool {
+	for _, c := range s {
+		switch {
+		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9':
+		case c == '-', c == '.', c == '_':
+		default:
+			return false
+		}
+	}
+	return s != ""
+}
+
 // ============================================================================
 // STRING =====================================================================
 
-- 
2.43.0


From 1f8fef8ec4e8cc59fadfccf38f02a592e39f476c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 54/56] fix: refuse port 0

---
 src/utils/opts.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index b0b5f77..ec9fa43 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -66,7 +66,8 @@ func (o *Opts) Validate() error {
 		return errors.New("missing argument 'working directory'")
 	}
 
-	if *o.port > math.MaxUint16 {
+	// There is no port 0: we would listen on another one than we announce
+	if *o.port == 0 || *o.port > math.MaxUint16 {
 		return fmt.Errorf("invalid port given, [%v]", *o.port)
 	}
 
-- 
2.43.0


From d1330a87e2d17b4d80e36eb72e7e70316e4709d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 55/56] fix: refuse arguments that are no options

---
 src/utils/opts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utils/opts.go b/src/utils/opts.go
index ec9fa43..34d5d81 100644
--- a/src/utils/opts.go
+++ b/src/utils/opts.go
@@ -49,6 +49,11 @@ func initOpts() *Opts {
 
 	flag.Parse()
 
+	// Options after an argument that is none are not parsed
+	if flag.NArg() > 0 {
+		panic(fmt.Errorf("invalid argument [%v]", flag.Arg(0)))
+	}
+
 	e := opts.Validate()
 	if e != nil {
 		panic(e)
-- 
2.43.0


From 2529ed75cdaaedd2668239583db6ff9bcb6dce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:25 +0000
Subject: [PATCH 56/56] fix: the download limit applies to what peers send

The limit given with -d was stored, but nothing that comes from peers was
ever counted or delayed by it.
---
 src/io/ratelimit.go      | 24 ++++++++++++++++++++++++
 src/swarm/peerhandler.go |  5 ++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/io/ratelimit.go b/src/io/ratelimit.go
index 1512973..ea9b39b 100644
--- a/src/io/ratelimit.go
+++ b/src/io/ratelimit.go
@@ -170,3 +170,27 @@ func (rl *RateLimitIO) Read(reader io.Reader, buf []byte) error {
 	_, e := reader.Read(buf)
 	return e
 }
+
+// Received counts n bytes that were read by someone else. As Read, it blocks
+// until the read rate admits them, but it gives up and returns ErrCancelled if
+// chDone is closed before that.
+func (rl *RateLimitIO) Received(chDone <-chan bool, n int64) error {
+	for {
+		rate := atomic.LoadInt64(&rl.rRate)
+		used := atomic.LoadInt64(&rl.rUsed)
+		if rate == NoLimit || used < rate {
+			if atomic.CompareAndSwapInt64(&rl.rUsed, used, used+n) {
+				break
+			}
+			continue
+		}
+		select {
+		case <-time.After(pollInterval):
+		case <-chDone:
+			return ErrCancelled
+		}
+	}
+
+	atomic.AddInt64(&rl.rTotal, n)
+	return nil
+}
diff --git a/src/swarm/peerhandler.go b/src/swarm/peerhandler.go
index f5d57a0..7edd94d 100644
--- a/src/swarm/peerhandler.go
+++ b/src/swarm/peerhandler.go
@@ -251,7 +251,10 @@ func (ph *PeerHandler) recvLoop(chErr chan<- error, chKill <-chan bool) {
 
 		select {
 		case buf := <-readLoop.ReadData():
-			e = ph.handleMessage(buf)
+			e = ph.swarm.RLIO.Received(chKill, int64(len(buf)))
+			if e == nil {
+				e = ph.handleMessage(buf)
+			}
 			readLoop.Ready()
 		case e = <-readLoop.ReadError():
 			done = true
-- 
2.43.0

