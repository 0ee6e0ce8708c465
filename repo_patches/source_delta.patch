From 3eecfd2361ef911d95a91702128724761399d4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:43 +0000
Subject: [PATCH 01/76] fix: bit reader mishandled short reads

io.Reader may return fewer bytes than asked for, or the last bytes together
with io.EOF. Both lost data or failed the read.
---
 jxlio/bitreader.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 48ca4ab..f0d1a9a 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,14 +97,13 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	n, err := br.stream.Read(buffer[:numBytes])
+	_, err := io.ReadFull(br.stream, buffer[:numBytes])
+	if err == io.ErrUnexpectedEOF {
+		return errors.New("unable to read all bytes")
+	}
 	if err != nil {
 		return err
 	}
-
-	if n != int(numBytes) {
-		return errors.New("unable to read all bytes")
-	}
 	return nil
 }
 
@@ -112,7 +111,7 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 func (br *BitStreamReader) readBit() (uint8, error) {
 	if br.index == 0 {
 
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -162,7 +161,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 
 	// Read full bytes directly while we need 8+ more bits
 	for bits-bitsRead >= 8 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
@@ -174,7 +173,7 @@ func (br *BitStreamReader) ReadBits(bits uint32) (uint64, error) {
 	// Read remaining bits (less than 8)
 	remaining := bits - bitsRead
 	if remaining > 0 {
-		_, err := br.stream.Read(br.buffer)
+		_, err := io.ReadFull(br.stream, br.buffer)
 		if err != nil {
 			return 0, err
 		}
-- 
2.43.0


From ec24df072423910de668af90567226d880417da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 02/76] fix: skipping and reading whole bytes did not count
 them, and short skips went unnoticed

SkipBits and ReadBytesToBuffer left the bits-read count unchanged, a skip past the
end of the data succeeded, and Skip overflowed for 512MB and more.
---
 jxlio/bitreader.go | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index f0d1a9a..6ed6cf8 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -97,7 +97,8 @@ func (br *BitStreamReader) ReadBytesToBuffer(buffer []uint8, numBytes uint32) er
 		return errors.New("BitStreamReader cache not aligned")
 	}
 
-	_, err := io.ReadFull(br.stream, buffer[:numBytes])
+	n, err := io.ReadFull(br.stream, buffer[:numBytes])
+	br.bitsRead += uint64(n) * 8
 	if err == io.ErrUnexpectedEOF {
 		return errors.New("unable to read all bytes")
 	}
@@ -406,13 +407,8 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 func (br *BitStreamReader) SkipBits(bits uint32) error {
 
 	numBytes := bits / 8
-	if numBytes > 0 {
-		buffer := make([]byte, numBytes)
-		_, err := br.stream.Read(buffer)
-		if err != nil {
-			return err
-		}
-		br.currentByte = buffer[numBytes-1]
+	if err := br.skipBytes(int64(numBytes)); err != nil {
+		return err
 	}
 
 	// read bits so we can keep track of where we are.
@@ -426,13 +422,34 @@ func (br *BitStreamReader) SkipBits(bits uint32) error {
 }
 
 func (br *BitStreamReader) Skip(bytes uint32) (int64, error) {
-	err := br.SkipBits(bytes << 3)
+	err := br.skipBytes(int64(bytes))
 	if err != nil {
 		return 0, err
 	}
 	return int64(bytes), nil
 }
 
+// skipBytes skips whole bytes. If part way through a byte, then the position within the byte is kept.
+func (br *BitStreamReader) skipBytes(numBytes int64) error {
+	if numBytes == 0 {
+		return nil
+	}
+
+	if numBytes > 1 {
+		n, err := io.CopyN(io.Discard, br.stream, numBytes-1)
+		br.bitsRead += uint64(n) * 8
+		if err != nil {
+			return err
+		}
+	}
+	if _, err := io.ReadFull(br.stream, br.buffer); err != nil {
+		return err
+	}
+	br.currentByte = br.buffer[0]
+	br.bitsRead += 8
+	return nil
+}
+
 func (br *BitStreamReader) ReadBytesUint64(noBytes int) (uint64, error) {
 	if noBytes < 1 || noBytes > 8 {
 		return 0, fmt.Errorf("number of bytes number should be between 1 and 8.")
-- 
2.43.0


From c38b2250b7139702e74446bd2ed4a5ac89f4d5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 03/76] fix: failed peek lost the reader position

ShowBits (and so AtEnd) left the bits before the end of the data consumed when
fewer bits than asked for remained.
---
 jxlio/bitreader.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 6ed6cf8..fe3a144 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -388,18 +388,19 @@ func (br *BitStreamReader) ShowBits(bits int) (uint64, error) {
 	oldIndex := br.index
 	oldBitsRead := br.bitsRead
 
-	b, err := br.ReadBits(uint32(bits))
-	if err != nil {
-		return 0, err
-	}
+	b, readErr := br.ReadBits(uint32(bits))
 
+	// restore the position even if the read failed, peeking must not consume anything.
 	_, err = br.Seek(curPos, io.SeekStart)
-	if err != nil {
-		return 0, err
-	}
 	br.currentByte = oldCur
 	br.index = oldIndex
 	br.bitsRead = oldBitsRead
+	if readErr != nil {
+		return 0, readErr
+	}
+	if err != nil {
+		return 0, err
+	}
 
 	return b, nil
 }
-- 
2.43.0


From 0f8ae0547bb2d13ff16aa3cd7eaf2accd3501969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:43 +0000
Subject: [PATCH 04/76] fix: bits of the old position were returned after a
 seek

Seek kept the partially read byte, so reads after seeking from the middle of a
byte returned its remaining bits first.
---
 jxlio/bitreader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index fe3a144..239838b 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -68,6 +68,12 @@ func (br *BitStreamReader) Seek(offset int64, whence int) (int64, error) {
 	if err != nil {
 		return 0, err
 	}
+
+	// drop the partially read byte, unless just asking for the current position.
+	if offset != 0 || whence != io.SeekCurrent {
+		br.index = 0
+		br.currentByte = 0
+	}
 	return n, err
 }
 
-- 
2.43.0


From d1f34c6562f0899be2d8c3e97153b65786d30890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 05/76] fix: zig-zag decoding of large odd values

The conversion to a signed type overflowed for values above the signed maximum.
---
 jxlio/bitreader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 239838b..3602477 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -496,7 +496,7 @@ func UnpackSigned(value uint32) int32 {
 		return int32(value >> 1)
 	}
 
-	return -(int32(value) + 1) >> 1
+	return ^int32(value >> 1)
 }
 
 func UnpackSigned64(value uint64) int64 {
@@ -504,5 +504,5 @@ func UnpackSigned64(value uint64) int64 {
 		return int64(value >> 1)
 	}
 
-	return -(int64(value) + 1) >> 1
+	return ^int64(value >> 1)
 }
-- 
2.43.0


From 20ac5bc63d979acca91fdf7976788ec28221aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 06/76] fix: ANS histogram with one certain symbol in the
 general form changed the state

---
 entropy/ANSSymbolDistribution.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index 805e645..e3a5bf6 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -212,6 +212,12 @@ func (asd *ANSSymbolDistribution) generateAliasMapping(uniqPos int32) {
 	asd.symbols = make([]int32, tableSize)
 	asd.cutoffs = make([]int32, tableSize)
 	asd.offsets = make([]int32, tableSize)
+	for i := range asd.frequencies {
+		// a symbol holding the whole table must not change the state, however it was described
+		if asd.frequencies[i] == 1<<12 {
+			uniqPos = int32(i)
+		}
+	}
 	if uniqPos >= 0 {
 		for i := int32(0); i < tableSize; i++ {
 			asd.symbols[i] = uniqPos
-- 
2.43.0


From b1b5f63a93ba6179f135a6c1f3d27318863550f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 07/76] fix: LZ77 special distances below one were not raised
 to one

---
 entropy/EntropyStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 3917298..ad971fe 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -350,7 +350,7 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if distanceMultiplier == 0 {
 			distance++
 		} else if distance < 120 {
-			distance = SPECIAL_DISTANCES[distance][0] + distanceMultiplier*SPECIAL_DISTANCES[distance][1]
+			distance = max(1, SPECIAL_DISTANCES[distance][0]+distanceMultiplier*SPECIAL_DISTANCES[distance][1])
 		} else {
 			distance -= 119
 		}
-- 
2.43.0


From 3a267cf59d05cb7b3b17788d8e862317eda9e139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:28 +0000
Subject: [PATCH 08/76] fix: malformed code descriptions panicked or were
 accepted

---
 entropy/ANSSymbolDistribution.go    |  6 ++++++
 entropy/EntropyStream.go            |  6 ++++++
 entropy/PrefixSymbolDistribution.go | 13 +++++++++++--
 3 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/entropy/ANSSymbolDistribution.go b/entropy/ANSSymbolDistribution.go
index e3a5bf6..033bcad 100644
--- a/entropy/ANSSymbolDistribution.go
+++ b/entropy/ANSSymbolDistribution.go
@@ -68,6 +68,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				return nil, err
 			}
 			asd.alphabetSize = 1 + int32(x)
+			if asd.alphabetSize > (1 << asd.logAlphabetSize) {
+				return nil, fmt.Errorf("Illegal Alphabet size : %d", asd.alphabetSize)
+			}
 			asd.frequencies = make([]int32, asd.alphabetSize)
 			asd.frequencies[x] = 1 << 12
 			uniqPos = int32(x)
@@ -195,6 +198,9 @@ func NewANSSymbolDistribution(reader jxlio.BitReader, logAlphabetSize int32) (*A
 				}
 				totalCount += asd.frequencies[i]
 			}
+			if totalCount >= 1<<12 {
+				return nil, errors.New("Invalid ANS frequencies")
+			}
 			asd.frequencies[omitPos] = (1 << 12) - totalCount
 		}
 	}
diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index ad971fe..4342373 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -137,6 +137,9 @@ func ReadClusterMap(reader jxlio.BitReader, clusterMap []int, maxClusters int) (
 				}
 				for i := 0; i < numDists; i++ {
 					index := clusterMap[i]
+					if index < 0 || index > 255 {
+						return 0, errors.New("Cluster index out of range")
+					}
 					clusterMap[i] = mtf[index]
 					if index != 0 {
 						value := mtf[index]
@@ -265,6 +268,9 @@ func (es *EntropyStream) LoadWithReader(reader jxlio.BitReader, numDists int, di
 					return err
 				} else {
 					alphabetSizes[i] = 1 + int32(1<<n+alphaSize)
+					if alphabetSizes[i] > 1<<15 {
+						return errors.New("Prefix alphabet is too large")
+					}
 				}
 			} else {
 				alphabetSizes[i] = 1
diff --git a/entropy/PrefixSymbolDistribution.go b/entropy/PrefixSymbolDistribution.go
index a65717e..282666d 100644
--- a/entropy/PrefixSymbolDistribution.go
+++ b/entropy/PrefixSymbolDistribution.go
@@ -100,7 +100,7 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 	var prevZeroCount int32
 	level2Lengths := make([]int32, rcvr.alphabetSize)
 	level2Symbols := make([]int32, rcvr.alphabetSize)
-	level2Counts := make([]int32, rcvr.alphabetSize+1)
+	level2Counts := make([]int32, max(rcvr.alphabetSize+1, 16))
 	prev := int32(8)
 	for i := int32(0); i < int32(rcvr.alphabetSize); i++ {
 		code, err := level1Table.GetVLC(reader)
@@ -116,6 +116,9 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 			if prevRepeatCount > 0 {
 				extra = 4*(prevRepeatCount-2) - prevRepeatCount + extra
 			}
+			if extra > rcvr.alphabetSize-i {
+				return errors.New("Prefix code lengths exceed the alphabet")
+			}
 			for j := int32(0); j < extra; j++ {
 				level2Lengths[i+j] = prev
 			}
@@ -133,6 +136,9 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 			if prevZeroCount > 0 {
 				extra = 8*(prevZeroCount-2) - prevZeroCount + extra
 			}
+			if extra > rcvr.alphabetSize-i {
+				return errors.New("Prefix code lengths exceed the alphabet")
+			}
 			i += extra - 1
 			prevRepeatCount = 0
 			prevZeroCount += extra
@@ -157,7 +163,7 @@ func (rcvr *PrefixSymbolDistribution) populateComplexPrefix(reader jxlio.BitRead
 	if totalCode != 32768 && level2Counts[0] < rcvr.alphabetSize-1 {
 		return errors.New("Invalid Level 2 Prefix Codes")
 	}
-	for i := int32(1); i <= rcvr.alphabetSize; i++ {
+	for i := 1; i < len(level2Counts); i++ {
 		level2Counts[i] += level2Counts[i-1]
 	}
 	level2LengthsScrambled := make([]int32, rcvr.alphabetSize)
@@ -191,6 +197,9 @@ func (rcvr *PrefixSymbolDistribution) populateSimplePrefix(reader jxlio.BitReade
 			return err
 		}
 		symbols[i] = int32(s)
+		if symbols[i] >= rcvr.alphabetSize || slices.Contains(symbols[:i], symbols[i]) {
+			return errors.New("Invalid simple prefix code symbol")
+		}
 	}
 	if nsym == 4 {
 		if treeSelect, err = reader.ReadBool(); err != nil {
-- 
2.43.0


From 9a1c2f1527c258b78ca3955ed8a7bfcd8453755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:56 +0000
Subject: [PATCH 09/76] fix: extension payload lengths are in bits, not bytes

---
 bundle/Extensions.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/bundle/Extensions.go b/bundle/Extensions.go
index 32edf44..c873660 100644
--- a/bundle/Extensions.go
+++ b/bundle/Extensions.go
@@ -25,27 +25,27 @@ func NewExtensionsWithReader(reader jxlio.BitReader) (*Extensions, error) {
 		return nil, err
 	}
 
-	var length uint64
+	// payload lengths are in bits
+	var lengths [64]uint64
 	for i := uint64(0); i < 64; i++ {
 		if (1<<i)&ex.ExtensionsKey != 0 {
-			if length, err = reader.ReadU64(); err != nil {
+			if lengths[i], err = reader.ReadU64(); err != nil {
 				return nil, err
 			}
-			if length > math.MaxUint32 {
+			if lengths[i] > math.MaxUint32 {
 				return nil, errors.New("Large Extensions unsupported")
 			}
-			ex.Payloads[i] = make([]byte, length)
 		}
 	}
 	for i := 0; i < 64; i++ {
-		if len(ex.Payloads[i]) > 0 {
-			for j := 0; j < len(ex.Payloads[i]); j++ {
-				if bits, err := reader.ReadBits(8); err != nil {
-					return nil, err
-				} else {
-					ex.Payloads[i][j] = byte(bits)
-				}
+		for remaining := lengths[i]; remaining > 0; {
+			n := min(remaining, 8)
+			bits, err := reader.ReadBits(uint32(n))
+			if err != nil {
+				return nil, err
 			}
+			ex.Payloads[i] = append(ex.Payloads[i], byte(bits))
+			remaining -= n
 		}
 	}
 	return ex, nil
-- 
2.43.0


From a4cd905b5bff3cc6dc3d10830d42e6e79b50854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:05 +0000
Subject: [PATCH 10/76] fix: image area limit was checked on a wrapped product

---
 bundle/image_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index d44511b..69769bd 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -833,7 +833,7 @@ func readSizeHeader(reader jxlio.BitReader, level int32) (util.Dimension, error)
 		log.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Invalid size header: %d x %d", dim.Width, dim.Height)
 	}
-	if uint64(dim.Width*dim.Height) > maxTimes {
+	if uint64(dim.Width)*uint64(dim.Height) > maxTimes {
 		log.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 		return util.Dimension{}, fmt.Errorf("Width times Height too large: %d %d", dim.Width, dim.Height)
 	}
-- 
2.43.0


From 3224699e907c7aeea7f28ad94b3fa05efd802743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:15 +0000
Subject: [PATCH 11/76] fix: preview sizes in units of eight were not
 multiplied

---
 bundle/image_header.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index 69769bd..ecfb050 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -734,7 +734,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 		if height, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 			return nil, err
 		} else {
-			dim.Height = height
+			dim.Height = height << 3
 		}
 	} else {
 		if height, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
@@ -758,7 +758,7 @@ func readPreviewHeader(reader jxlio.BitReader) (*util.Dimension, error) {
 			if width, err := reader.ReadU32(16, 0, 32, 0, 1, 5, 33, 9); err != nil {
 				return nil, err
 			} else {
-				dim.Width = width
+				dim.Width = width << 3
 			}
 		} else {
 			if width, err := reader.ReadU32(1, 6, 65, 8, 321, 10, 1345, 12); err != nil {
-- 
2.43.0


From fa7c8f9a3dc6e120219e180c8f99bf1cb4c2de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 12/76] fix: bit depths the format forbids were accepted

---
 bundle/BitDepthHeader.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bundle/BitDepthHeader.go b/bundle/BitDepthHeader.go
index 368cdd5..ec9372e 100644
--- a/bundle/BitDepthHeader.go
+++ b/bundle/BitDepthHeader.go
@@ -1,6 +1,10 @@
 package bundle
 
-import "github.com/kpfaulkner/jxl-go/jxlio"
+import (
+	"errors"
+
+	"github.com/kpfaulkner/jxl-go/jxlio"
+)
 
 type BitDepthHeader struct {
 	BitsPerSample    uint32
@@ -32,11 +36,18 @@ func NewBitDepthHeaderWithReader(reader jxlio.BitReader) (*BitDepthHeader, error
 		} else {
 			bh.ExpBits = 1 + uint32(expBits)
 		}
+		mantissaBits := int(bh.BitsPerSample) - int(bh.ExpBits) - 1
+		if bh.ExpBits < 2 || bh.ExpBits > 8 || mantissaBits < 2 || mantissaBits > 23 {
+			return nil, errors.New("Invalid floating point sample format")
+		}
 	} else {
 		if bh.BitsPerSample, err = reader.ReadU32(8, 0, 10, 0, 12, 0, 1, 6); err != nil {
 			return nil, err
 		}
 
+		if bh.BitsPerSample > 31 {
+			return nil, errors.New("Invalid bits per sample")
+		}
 		bh.ExpBits = 0
 	}
 	return bh, nil
-- 
2.43.0


From 3311cccb3d99a5aed9183f464ec4fc233a25941d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 13/76] fix: prefix codes in the last bits of the data were
 refused

---
 entropy/VLCTable.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/entropy/VLCTable.go b/entropy/VLCTable.go
index c422153..61bc963 100644
--- a/entropy/VLCTable.go
+++ b/entropy/VLCTable.go
@@ -83,7 +83,18 @@ func (rcvr *VLCTable) GetVLC(reader jxlio.BitReader) (int32, error) {
 
 	index, err := reader.ShowBits(int(rcvr.bits))
 	if err != nil {
-		return 0, err
+		// fewer bits are left than the longest code needs, a shorter code may still fit.
+		// Skipping its length fails below if it does not.
+		n := int(rcvr.bits) - 1
+		for ; n > 0; n-- {
+			var showErr error
+			if index, showErr = reader.ShowBits(n); showErr == nil {
+				break
+			}
+		}
+		if n <= 0 {
+			return 0, err
+		}
 	}
 	symbol := rcvr.table[index][0]
 	length := rcvr.table[index][1]
-- 
2.43.0


From e29c65d3b2d4df09b857220e724db136960b6142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:11 +0000
Subject: [PATCH 14/76] fix: clamp flag of multiplicative blending was skipped
 without extra channels

---
 frame/BlendingInfo.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 0e4ade4..3e9cef6 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -40,9 +40,8 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 	}
 
 	var err error
-	if extra && (bi.Mode == BLEND_BLEND ||
-		bi.Mode == BLEND_MULT ||
-		bi.Mode == BLEND_MULADD) {
+	if extra && (bi.Mode == BLEND_BLEND || bi.Mode == BLEND_MULADD) ||
+		bi.Mode == BLEND_MULT {
 		if bi.Clamp, err = reader.ReadBool(); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From dedffe5e06b7e0795be546f2a15aab18e34c0b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:21 +0000
Subject: [PATCH 15/76] fix: unknown blend modes and missing alpha channels
 were accepted

---
 frame/BlendingInfo.go |  5 +++++
 frame/FrameHeader.go  | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/frame/BlendingInfo.go b/frame/BlendingInfo.go
index 3e9cef6..519e8c4 100644
--- a/frame/BlendingInfo.go
+++ b/frame/BlendingInfo.go
@@ -1,6 +1,8 @@
 package frame
 
 import (
+	"errors"
+
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
 
@@ -28,6 +30,9 @@ func NewBlendingInfoWithReader(reader jxlio.BitReader, extra bool, fullFrame boo
 	} else {
 		bi.Mode = mode
 	}
+	if bi.Mode > BLEND_MULT {
+		return nil, errors.New("invalid blend mode")
+	}
 
 	if extra && (bi.Mode == BLEND_BLEND || bi.Mode == BLEND_MULADD) {
 		if alphaChannel, err := reader.ReadU32(0, 0, 1, 0, 2, 0, 3, 3); err != nil {
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index d422185..429382b 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -1,6 +1,7 @@
 package frame
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
@@ -292,6 +293,9 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			// store value not pointer. TODO(kpfaulkner) check this is fine.
 			fh.EcBlendingInfo[i] = *bi
 		}
+		if err = fh.checkAlphaChannels(); err != nil {
+			return nil, err
+		}
 	} else {
 		fh.BlendingInfo = NewBlendingInfo()
 		for i := 0; i < len(fh.EcBlendingInfo); i++ {
@@ -401,6 +405,21 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	return fh, nil
 }
 
+// checkAlphaChannels verifies that the alpha channels used for blending exist
+func (fh *FrameHeader) checkAlphaChannels() error {
+	if len(fh.EcBlendingInfo) == 0 {
+		return nil
+	}
+	invalid := int(fh.BlendingInfo.AlphaChannel) >= len(fh.EcBlendingInfo)
+	for _, bi := range fh.EcBlendingInfo {
+		invalid = invalid || int(bi.AlphaChannel) >= len(fh.EcBlendingInfo)
+	}
+	if invalid {
+		return errors.New("invalid alpha channel for blending")
+	}
+	return nil
+}
+
 // DisplayDebug will output header information to stdout for debugging purposes.
 func (fh *FrameHeader) DisplayDebug() {
 	if fh == nil {
-- 
2.43.0


From 8b37a08366bb2f2153774bfce10506c5a3cab7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 16/76] fix: contradictory pass descriptions were accepted

---
 frame/PassesInfo.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/frame/PassesInfo.go b/frame/PassesInfo.go
index 70d4109..c2f02c9 100644
--- a/frame/PassesInfo.go
+++ b/frame/PassesInfo.go
@@ -1,6 +1,10 @@
 package frame
 
-import "github.com/kpfaulkner/jxl-go/jxlio"
+import (
+	"errors"
+
+	"github.com/kpfaulkner/jxl-go/jxlio"
+)
 
 type PassesInfo struct {
 	shift      []uint32
@@ -62,6 +66,17 @@ func NewPassesInfoWithReader(reader jxlio.BitReader) (*PassesInfo, error) {
 			pi.lastPass[i] = lastPass
 		}
 	}
+	if pi.numDS > pi.numPasses {
+		return nil, errors.New("more downsampling entries than passes")
+	}
+	for i := 0; i < int(pi.numDS); i++ {
+		if pi.lastPass[i] >= pi.numPasses {
+			return nil, errors.New("downsampling entry for a pass that does not exist")
+		}
+		if i > 0 && (pi.downSample[i] >= pi.downSample[i-1] || pi.lastPass[i] <= pi.lastPass[i-1]) {
+			return nil, errors.New("downsampling entries out of order")
+		}
+	}
 	pi.downSample[pi.numDS] = 1
 	pi.lastPass[pi.numDS] = pi.numPasses - 1
 
-- 
2.43.0


From 109ce9ca21d83be59406352a7764a21188465fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 17/76] fix: frames without pixels were accepted

---
 frame/FrameHeader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index 429382b..a307922 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -257,6 +257,10 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			fh.Height = height
 			fh.Bounds.Size.Height = height
 		}
+
+		if fh.Width == 0 || fh.Height == 0 {
+			return nil, errors.New("frame without pixels")
+		}
 	} else {
 		if fh.Bounds == nil {
 			fh.Bounds = &util.Rectangle{
-- 
2.43.0


From 46b75b7b8f7bd16df439a76a8dac2272324ab742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:10 +0000
Subject: [PATCH 18/76] fix: impossible upsampling of extra channels was
 accepted

---
 frame/FrameHeader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index a307922..cdfec2a 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -143,6 +143,10 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 				return nil, err
 			}
 			fh.EcUpsampling[i] = 1 << ecUpsampling
+			total := fh.EcUpsampling[i] << parent.ExtraChannelInfo[i].DimShift
+			if total < fh.Upsampling || total > 8 {
+				return nil, errors.New("invalid upsampling of extra channel")
+			}
 		}
 	} else {
 		fh.Upsampling = 1
-- 
2.43.0


From b23d610133260d51b2393cef3fa076400d020918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:20 +0000
Subject: [PATCH 19/76] fix: reference frames smaller than the image were
 accepted

---
 frame/FrameHeader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index cdfec2a..a736bdc 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -362,6 +362,10 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 		if fh.SaveBeforeCT, err = reader.ReadBool(); err != nil {
 			return nil, err
 		}
+		if fh.FrameType == REFERENCE_ONLY && !fh.SaveBeforeCT && fh.haveCrop &&
+			(fh.Width < parent.Size.Width || fh.Height < parent.Size.Height) {
+			return nil, errors.New("reference frame smaller than the image")
+		}
 	} else {
 		fh.SaveBeforeCT = false
 	}
-- 
2.43.0


From 07564d732776392f52ad94a228dba4d492be60d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:30 +0000
Subject: [PATCH 20/76] fix: number of groups was computed on a wrapped product

---
 frame/Frame.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/frame/Frame.go b/frame/Frame.go
index 67ccedf..5e63d05 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -17,6 +17,9 @@ import (
 	"github.com/kpfaulkner/jxl-go/util"
 )
 
+// maxGroups bounds the groups of a frame, so that a header alone cannot ask for any amount of memory
+const maxGroups = 1 << 20
+
 var (
 	cMap = []int{1, 0, 2}
 
@@ -119,6 +122,9 @@ func (f *Frame) ReadFrameHeader() (FrameHeader, error) {
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
+	if uint64(f.groupRowStride)*uint64(util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)) > maxGroups {
+		return FrameHeader{}, errors.New("too many groups")
+	}
 	f.numLFGroups = f.lfGroupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim<<3)
 
 	return *f.Header, nil
-- 
2.43.0


From 17895f6afcebc34733f7db8ac83949775dc608fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 21/76] fix: LZ77 lengths and distances beyond 31 bits panicked

---
 entropy/EntropyStream.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/entropy/EntropyStream.go b/entropy/EntropyStream.go
index 4342373..449756b 100644
--- a/entropy/EntropyStream.go
+++ b/entropy/EntropyStream.go
@@ -2,6 +2,7 @@ package entropy
 
 import (
 	"errors"
+	"math"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
@@ -344,6 +345,9 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if err != nil {
 			return 0, err
 		}
+		if hi < 0 || es.lz77MinLength > math.MaxInt32-hi {
+			return 0, errors.New("LZ77 length is too large")
+		}
 		es.numToCopy77 = es.lz77MinLength + hi
 		token, err = lz77dist.ReadSymbol(reader, es.ansState)
 		if err != nil {
@@ -353,7 +357,10 @@ func (es *EntropyStream) ReadSymbolWithMultiplier(reader jxlio.BitReader, contex
 		if err != nil {
 			return 0, err
 		}
-		if distanceMultiplier == 0 {
+		if distance < 0 || distance > 1<<30 {
+			// beyond 31 bits, and in any case beyond the window
+			distance = 1 << 20
+		} else if distanceMultiplier == 0 {
 			distance++
 		} else if distance < 120 {
 			distance = max(1, SPECIAL_DISTANCES[distance][0]+distanceMultiplier*SPECIAL_DISTANCES[distance][1])
-- 
2.43.0


From 3277360b8bc5c403156ec3e2d217e62c0f4f05ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:12 +0000
Subject: [PATCH 22/76] fix: squeeze parameters were read with scrambled tables

---
 frame/ModularStream.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index c7d5ff3..5c063af 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -52,13 +52,13 @@ func NewSqueezeParam(reader jxlio.BitReader) (SqueezeParam, error) {
 	if sp.inPlace, err = reader.ReadBool(); err != nil {
 		return sp, err
 	}
-	if beginC, err := reader.ReadU32(3, 6, 10, 13, 0, 8, 72, 1096); err != nil {
+	if beginC, err := reader.ReadU32(0, 3, 8, 6, 72, 10, 1096, 13); err != nil {
 		return sp, err
 	} else {
 		sp.beginC = int(beginC)
 	}
 
-	if numC, err := reader.ReadU32(0, 0, 0, 4, 1, 2, 3, 4); err != nil {
+	if numC, err := reader.ReadU32(1, 0, 2, 0, 3, 0, 4, 4); err != nil {
 		return sp, err
 	} else {
 		sp.numC = int(numC)
-- 
2.43.0


From 3cb8c53c3cc459fd95899cd0976900b3899fc8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:42 +0000
Subject: [PATCH 23/76] fix: default squeeze looked at the size of a meta
 channel

---
 frame/ModularStream.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 5c063af..e49c2a7 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -265,7 +265,10 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			if len(ms.transforms[i].sp) == 0 {
 				first := ms.nbMetaChannels
 				count := len(ms.channels) - first
-				size := ms.channels[0].size
+				if first < 0 || count < 1 {
+					return nil, errors.New("squeeze without channels")
+				}
+				size := ms.channels[first].size
 				if count > 2 && size.Width == ms.channels[first+1].size.Width && size.Height == ms.channels[first+1].size.Height {
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: true, inPlace: false, beginC: first + 1, numC: 2})
 					squeezeList = append(squeezeList, SqueezeParam{horizontal: false, inPlace: false, beginC: first + 1, numC: 2})
-- 
2.43.0


From f6036b6243a4edce63c85d23d3e964d8f872c09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 24/76] fix: transforms of channels that do not exist or do not
 match panicked

---
 frame/ModularStream.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index e49c2a7..055483c 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -185,6 +185,24 @@ func NewModularStreamWithReader(reader jxlio.BitReader, frame Framer, streamInde
 	return NewModularStreamWithChannels(reader, frame, streamIndex, channelCount, ecStart, nil)
 }
 
+// checkRange makes sure that the channels a transform works on exist, lie on one
+// side of the meta channels and have equal sizes.
+func (ms *ModularStream) checkRange(begin int, num int) error {
+	if begin < 0 || num < 0 || begin+num > len(ms.channels) {
+		return errors.New("transform of channels that do not exist")
+	}
+	if begin < ms.nbMetaChannels && begin+num > ms.nbMetaChannels {
+		return errors.New("transform mixes meta channels and others")
+	}
+	for _, c := range ms.channels[begin : begin+num] {
+		first := ms.channels[begin]
+		if c.size != first.size || c.hshift != first.hshift || c.vshift != first.vshift {
+			return errors.New("transform of channels of different sizes")
+		}
+	}
+	return nil
+}
+
 func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIndex int, channelCount int, ecStart int, channelArray []ModularChannel) (ModularStreamer, error) {
 	ms := &ModularStream{}
 	ms.streamIndex = streamIndex
@@ -241,6 +259,12 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 
 		if ms.transforms[i].tr == PALETTE {
 
+			if err := ms.checkRange(ms.transforms[i].beginC, ms.transforms[i].numC); err != nil {
+				return nil, err
+			}
+			if ms.transforms[i].dPred > 13 {
+				return nil, errors.New("illegal palette predictor")
+			}
 			if ms.transforms[i].beginC < ms.nbMetaChannels {
 				ms.nbMetaChannels += 2 - ms.transforms[i].numC
 			} else {
@@ -298,6 +322,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 			for j := 0; j < len(squeezeList); j++ {
 				begin := spa[j].beginC
 				end := begin + spa[j].numC - 1
+				if end >= len(ms.channels) {
+					return nil, errors.New("squeeze of channels that do not exist")
+				}
 				var offset int
 				if spa[j].inPlace {
 					offset = end + 1
@@ -336,7 +363,12 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 				}
 			}
 		} else if ms.transforms[i].tr == RCT {
-			continue
+			if err := ms.checkRange(ms.transforms[i].beginC, 3); err != nil {
+				return nil, err
+			}
+			if ms.transforms[i].rctType >= 42 {
+				return nil, errors.New("illegal RCT type")
+			}
 		} else {
 			return nil, fmt.Errorf("illegal transform type %d", ms.transforms[i].tr)
 		}
-- 
2.43.0


From da55b2b17ae8e850e1f6528184a63ce7ddb44365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:49 +0000
Subject: [PATCH 25/76] fix: use of a missing global tree panicked

---
 frame/ModularStream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 055483c..74a89c6 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -382,6 +382,9 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 		ms.tree = tree
 	} else {
 		ms.tree = frame.getGlobalTree()
+		if ms.tree == nil {
+			return nil, errors.New("modular stream needs a global tree and there is none")
+		}
 	}
 
 	ms.stream = entropy.NewEntropyStreamWithStream(ms.tree.stream)
-- 
2.43.0


From edcaf731d779273c72b3f1035ff1d18b3ee4db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 26/76] fix: cut off decision trees panicked

---
 frame/MATree.go | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/frame/MATree.go b/frame/MATree.go
index be99ee5..c108333 100644
--- a/frame/MATree.go
+++ b/frame/MATree.go
@@ -22,6 +22,20 @@ type MATreeNode struct {
 	multiplier      int32
 }
 
+// tryReadSymbol turns the panic of TryReadSymbol at a read error back into the error
+func tryReadSymbol(stream entropy.EntropyStreamer, reader jxlio.BitReader, context int) (symbol int32, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			e, ok := r.(error)
+			if !ok {
+				panic(r)
+			}
+			err = e
+		}
+	}()
+	return stream.TryReadSymbol(reader, context), nil
+}
+
 func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc entropy.EntropyStreamWithReaderAndNumDistsFunc, newEntropyStreamFunc entropy.EntropyStreamWithReaderFunc) (*MATreeNode, error) {
 	mt := &MATreeNode{}
 	mt.parent = nil
@@ -55,7 +69,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 		}
 
 		if property >= 0 {
-			value := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 0)))
+			packed, err := tryReadSymbol(stream, reader, 0)
+			if err != nil {
+				return nil, err
+			}
+			value := jxlio.UnpackSigned(uint32(packed))
 			leftChild := len(nodes) + nodesRemaining + 1
 			node.property = property
 			node.predictor = -1
@@ -76,7 +94,11 @@ func NewMATreeWithReader(reader jxlio.BitReader, newEntropyStreamAndNumDistsFunc
 				return nil, errors.New("invalid predictor value")
 			}
 
-			offset := jxlio.UnpackSigned(uint32(stream.TryReadSymbol(reader, 3)))
+			packed, err := tryReadSymbol(stream, reader, 3)
+			if err != nil {
+				return nil, err
+			}
+			offset := jxlio.UnpackSigned(uint32(packed))
 
 			var mulLog int32
 			if mulLog, err = stream.ReadSymbol(reader, 4); err != nil {
-- 
2.43.0


From 1835a8d0bbc72f647ad04cd745052394786ad78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 27/76] fix: large prediction errors made the weighted
 predictor index out of range

---
 frame/ModularChannel.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index f36a97b..fb8f038 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -154,9 +154,10 @@ func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (in
 
 	wSum := int32(0)
 	for e := int32(0); e < 4; e++ {
-		eSum := mc.errorNorth(x, y, e) + mc.errorWest(x, y, e) + mc.errorNorthWest(x, y, e) + mc.errorWestWest(x, y, e) + mc.errorNorthEast(x, y, e)
+		// unsigned, so that sums beyond 31 bits still index the table
+		eSum := uint32(mc.errorNorth(x, y, e) + mc.errorWest(x, y, e) + mc.errorNorthWest(x, y, e) + mc.errorWestWest(x, y, e) + mc.errorNorthEast(x, y, e))
 		if x+1 == int32(mc.size.Width) {
-			eSum += mc.errorWest(x, y, e)
+			eSum += uint32(mc.errorWest(x, y, e))
 		}
 		shift := util.FloorLog1pUint64(uint64(eSum)) - 5
 		if shift < 0 {
-- 
2.43.0


From de6e346d6cb4be44e3ea0a5baa886150e9ba065d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:33 +0000
Subject: [PATCH 28/76] fix: undoing a palette overwrote the channels after it

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 74a89c6..3d5ff79 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -561,7 +561,7 @@ func (ms *ModularStream) applyTransforms() error {
 			firstChannel := ms.channels[first]
 			c0 := ms.channels[0]
 			for j := first + 1; j <= last; j++ {
-				ms.channels = util.Add(ms.channels, j, NewModularChannelFromChannel(*firstChannel))
+				ms.channels = util.AddToSlice(ms.channels, j, NewModularChannelFromChannel(*firstChannel))
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
-- 
2.43.0


From 72f94128d749fc0e07eec12a342fc75ffcf1cdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 29/76] fix: implicit palette colours of images below 3 bits
 were wrong

---
 frame/ModularStream.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 3d5ff79..7d35e39 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -575,7 +575,7 @@ func (ms *ModularStream) applyTransforms() error {
 						} else if index >= int32(ms.transforms[i].nbColours) {
 							index -= int32(ms.transforms[i].nbColours)
 							if index < 64 {
-								value = ((index>>(2*c)%4)*((1<<bitDepth)-1)/4 + (1 << util.Max(0, bitDepth-3)))
+								value = ((index>>(2*c)%4)*((1<<bitDepth)-1)/4 + (1 << util.Max(0, int32(bitDepth)-3)))
 							} else {
 								index -= 64
 								for k := 0; k < c; k++ {
-- 
2.43.0


From 59b578b7a335a80d0fd49b43334c0a28182758fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 30/76] fix: palette deltas with the weighted predictor
 panicked

---
 frame/ModularChannel.go | 27 +++++++++++++++++++--------
 frame/ModularStream.go  | 13 +++++++++++++
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index fb8f038..16a123c 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -132,6 +132,23 @@ func (mc *ModularChannel) prediction(y int32, x int32, k int32) (int32, error) {
 	}
 }
 
+// allocateWP prepares the state of the weighted predictor
+func (mc *ModularChannel) allocateWP() {
+	mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
+	mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
+	mc.subpred = make([]int32, 4)
+	mc.weight = make([]int32, 4)
+}
+
+// updateWP records the errors of the weighted predictor at a sample
+func (mc *ModularChannel) updateWP(x int32, y int32) {
+	trueValue := mc.buffer[y][x]
+	for e := 0; e < 4; e++ {
+		mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
+	}
+	mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+}
+
 func (mc *ModularChannel) prePredictWP(wpParams *WPParams, x int32, y int32) (int32, error) {
 
 	n3 := mc.north(x, y) << 3
@@ -427,10 +444,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 	tree = tree.compactify(channelIndex, streamIndex)
 	useWP := mc.forceWP || tree.useWeightedPredictor()
 	if useWP {
-		mc.err = util.MakeMatrix3D[int32](5, int(mc.size.Height), int(mc.size.Width))
-		mc.pred = util.MakeMatrix2D[int32](int(mc.size.Height), int(mc.size.Width))
-		mc.subpred = make([]int32, 4)
-		mc.weight = make([]int32, 4)
+		mc.allocateWP()
 	} else {
 		wpParams = nil
 	}
@@ -469,10 +483,7 @@ func (mc *ModularChannel) decode(reader jxlio.BitReader, stream entropy.EntropyS
 			trueValue := diff + p
 			mc.buffer[y][x] = trueValue
 			if useWP {
-				for e := 0; e < 4; e++ {
-					mc.err[e][y][x] = (absInt32(mc.subpred[e]-(trueValue<<3)) + 3) >> 3
-				}
-				mc.err[4][y][x] = mc.pred[y][x] - (trueValue << 3)
+				mc.updateWP(x, y)
 			}
 		}
 	}
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 7d35e39..4f804b0 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -565,8 +565,18 @@ func (ms *ModularStream) applyTransforms() error {
 			}
 			for c := 0; c < ms.transforms[i].numC; c++ {
 				ch := ms.channels[first+c]
+				// the weighted predictor runs anew over the colours of each channel
+				useWP := ms.transforms[i].dPred == 6
+				if useWP {
+					ch.allocateWP()
+				}
 				for y := uint32(0); y < firstChannel.size.Height; y++ {
 					for x := uint32(0); x < firstChannel.size.Width; x++ {
+						if useWP {
+							if _, err := ch.prePredictWP(ms.wpParams, int32(x), int32(y)); err != nil {
+								return err
+							}
+						}
 						index := ch.buffer[y][x]
 						isDelta := index < int32(ms.transforms[i].nbDeltas)
 						var value int32
@@ -604,6 +614,9 @@ func (ms *ModularStream) applyTransforms() error {
 							}
 							ch.buffer[y][x] += pred
 						}
+						if useWP {
+							ch.updateWP(int32(x), int32(y))
+						}
 					}
 				}
 			}
-- 
2.43.0


From 42784f55efbb835dc6be2619bb44811c632a2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:53 +0000
Subject: [PATCH 31/76] fix: sections of a frame with a permuted table of
 contents were mixed up

---
 frame/Frame.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frame/Frame.go b/frame/Frame.go
index 5e63d05..34045f9 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -316,6 +316,11 @@ func (f *Frame) getBitreader(index int) (jxlio.BitReader, error) {
 		i = uint32(index)
 	}
 
+	// a permuted TOC says where in the file each section is
+	if f.permutatedTOC && int(i) < len(f.tocPermutation) {
+		i = f.tocPermutation[i]
+	}
+
 	return f.bitreaders[i], nil
 }
 
-- 
2.43.0


From 72aed4c6dab0c5f528e7913d4569b48d024dfe1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 32/76] fix: sections were not confined to their bytes, and
 what follows a frame of one section was looked for at the wrong place

---
 frame/Frame.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 34045f9..cdf71a3 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -490,16 +490,12 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 
 func (f *Frame) setupBitReaders() error {
 	f.bitreaders = make([]jxlio.BitReader, len(f.tocLengths))
-	if len(f.tocLengths) != 1 {
-		for i := 0; i < len(f.tocLengths); i++ {
-			buffer, err := f.readBuffer(i)
-			if err != nil {
-				return err
-			}
-			f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer))
+	for i := 0; i < len(f.tocLengths); i++ {
+		buffer, err := f.readBuffer(i)
+		if err != nil {
+			return err
 		}
-	} else {
-		f.bitreaders[0] = f.reader
+		f.bitreaders[i] = jxlio.NewBitStreamReader(bytes.NewReader(buffer[:f.tocLengths[i]]))
 	}
 	return nil
 }
-- 
2.43.0


From 1484bc6cd0e7529146d47df9617f8a6a9a82a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 33/76] fix: table of contents could ask for any amount of
 memory

---
 frame/Frame.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index cdf71a3..1d5f5d0 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -20,6 +20,9 @@ import (
 // maxGroups bounds the groups of a frame, so that a header alone cannot ask for any amount of memory
 const maxGroups = 1 << 20
 
+// maxPiece is how much of a section is read at once
+const maxPiece = 1 << 20
+
 var (
 	cMap = []int{1, 0, 2}
 
@@ -190,16 +193,19 @@ func (f *Frame) readBuffer(index int) ([]uint8, error) {
 
 	length := f.tocLengths[index]
 
-	buffer := make([]uint8, length+4)
-	err := f.reader.ReadBytesToBuffer(buffer, length)
-	if err != nil {
-		return nil, err
-	}
-	if len(buffer) < int(length) {
-		return nil, errors.New("unable to read full TOC entry")
+	// read in pieces, so that memory follows the bytes that are there and not the length that is claimed
+	buffer := make([]uint8, 0, min(length, maxPiece)+4)
+	for remaining := length; remaining > 0; {
+		n := min(remaining, maxPiece)
+		start := len(buffer)
+		buffer = append(buffer, make([]uint8, n)...)
+		if err := f.reader.ReadBytesToBuffer(buffer[start:], n); err != nil {
+			return nil, err
+		}
+		remaining -= n
 	}
 
-	return buffer, nil
+	return append(buffer, 0, 0, 0, 0), nil
 }
 
 func ctxFunc(x int64) int {
-- 
2.43.0


From a139ae40f054f3153fe1975db799d595f99903ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:05 +0000
Subject: [PATCH 34/76] fix: channels the last pass has to bring were never
 decoded

---
 frame/FrameHeader.go | 4 ++++
 frame/Pass.go        | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index a736bdc..b4f192a 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -196,7 +196,11 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 			return nil, err
 		}
 	} else {
+		// a single pass, which brings every resolution
 		fh.passes = NewPassesInfo()
+		fh.passes.shift = []uint32{0}
+		fh.passes.downSample = []uint32{1}
+		fh.passes.lastPass = []uint32{0}
 	}
 
 	if fh.FrameType == LF_FRAME {
diff --git a/frame/Pass.go b/frame/Pass.go
index 9e7e79f..b05077f 100644
--- a/frame/Pass.go
+++ b/frame/Pass.go
@@ -31,8 +31,8 @@ func NewPassWithReader(reader jxlio.BitReader, frame Framer, passIndex uint32, p
 	passes := frame.getFrameHeader().passes
 	for i := 0; i < len(passes.lastPass); i++ {
 		if passes.lastPass[i] == passIndex {
+			// the last entry counts: the final pass goes down to full resolution
 			n = i
-			break
 		}
 	}
 
-- 
2.43.0


From 8eb74e831772736e81e9861f3d753a7c2ddbf18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 35/76] fix: samples of channels decoded in groups landed in
 the wrong place

---
 frame/Frame.go | 182 ++++++++++++++++++++++---------------------------
 1 file changed, 80 insertions(+), 102 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 1d5f5d0..5c3ee5c 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -552,41 +552,17 @@ func (f *Frame) GetPaddedFrameSize() (util.Dimension, error) {
 
 func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
-	lfReplacementChannels := []*ModularChannel{}
-	lfReplacementChannelIndicies := []int{}
-
-	for i := 0; i < len(f.LfGlobal.globalModular.getChannels()); i++ {
-		ch := f.LfGlobal.globalModular.getChannels()[i]
-		if !ch.decoded {
-			if ch.hshift >= 3 && ch.vshift >= 3 {
-				lfReplacementChannelIndicies = append(lfReplacementChannelIndicies, i)
-				height := f.Header.lfGroupDim >> ch.vshift
-				width := f.Header.lfGroupDim >> ch.hshift
-				lfReplacementChannels = append(lfReplacementChannels, NewModularChannelWithAllParams(int32(height), int32(width), ch.vshift, ch.hshift, false))
-			}
+	// channels whose samples come with the LF groups
+	channels := f.LfGlobal.globalModular.getChannels()
+	lfChannels := make([]*ModularChannel, len(channels))
+	for i, ch := range channels {
+		if !ch.decoded && ch.hshift >= 3 && ch.vshift >= 3 {
+			lfChannels[i] = ch
 		}
 	}
 
 	f.lfGroups = make([]*LFGroup, f.numLFGroups)
-
-	// Hoist invariant computation out of the loop
-	frameSize, err := f.GetPaddedFrameSize()
-	if err != nil {
-		return err
-	}
-
-	// Pre-compute lfHeight/lfWidth for each replacement channel (invariant per channel)
-	numReplacements := len(lfReplacementChannels)
-	lfHeights := make([]uint32, numReplacements)
-	lfWidths := make([]uint32, numReplacements)
-	templateHeights := make([]uint32, numReplacements)
-	templateWidths := make([]uint32, numReplacements)
-	for i, r := range lfReplacementChannels {
-		lfHeights[i] = frameSize.Height >> r.vshift
-		lfWidths[i] = frameSize.Width >> r.hshift
-		templateHeights[i] = r.size.Height
-		templateWidths[i] = r.size.Width
-	}
+	places := make([][]groupPlace, f.numLFGroups)
 
 	errChan := make(chan error, f.numLFGroups)
 	var wg sync.WaitGroup
@@ -616,25 +592,8 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 			lfGroupPos := f.getLFGroupLocation(int32(id))
 
-			// Pre-allocate with correct capacity, use index assignment instead of append
-			replaced := make([]ModularChannel, numReplacements)
-			for i, r := range lfReplacementChannels {
-				// Copy the template channel directly instead of calling NewModularChannelFromChannel
-				replaced[i] = ModularChannel{
-					size:    r.size,
-					origin:  r.origin,
-					hshift:  r.hshift,
-					vshift:  r.vshift,
-					decoded: r.decoded,
-					// buffer is nil - will be allocated by NewLFGroupWithReader if needed
-				}
-
-				// Update origin and size for this specific LF group
-				replaced[i].origin.Y = lfGroupPos.Y * int32(templateHeights[i])
-				replaced[i].origin.X = lfGroupPos.X * int32(templateWidths[i])
-				replaced[i].size.Height = util.Min(templateHeights[i], lfHeights[i]-uint32(replaced[i].origin.Y))
-				replaced[i].size.Width = util.Min(templateWidths[i], lfWidths[i]-uint32(replaced[i].origin.X))
-			}
+			replaced, place := cutGroup(lfChannels, uint32(lfGroupPos.X)*f.Header.lfGroupDim, uint32(lfGroupPos.Y)*f.Header.lfGroupDim, f.Header.lfGroupDim)
+			places[id] = place
 
 			lfg, err := NewLFGroupWithReader(reader, f, int32(id), replaced, lfBuffer, NewLFCoefficientsWithReader, NewHFMetadataWithReader)
 			if err != nil {
@@ -652,22 +611,61 @@ func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 	}
 
 	// Allocate all replacement channels once BEFORE copying data from LF groups
-	// (previously was allocating redundantly for each LF group)
-	channels := f.LfGlobal.globalModular.getChannels()
-	for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-		channels[lfReplacementChannelIndicies[j]].allocate()
+	for _, ch := range lfChannels {
+		if ch != nil {
+			ch.allocate()
+		}
 	}
 
 	// Copy data from each LF group into the pre-allocated channels
-	for lfGroupID := uint32(0); lfGroupID < f.numLFGroups; lfGroupID++ {
-		for j := 0; j < len(lfReplacementChannelIndicies); j++ {
-			index := lfReplacementChannelIndicies[j]
-			channel := channels[index]
-			newChannelInfo := f.lfGroups[lfGroupID].modularLFGroup.getChannels()[index]
-			newChannel := newChannelInfo.buffer
-			for y := 0; y < len(newChannel); y++ {
-				copy(channel.buffer[int32(y)+newChannelInfo.origin.Y], newChannel[y])
-			}
+	for id, lfg := range f.lfGroups {
+		if err := pasteGroup(channels, lfg.modularLFGroup.getChannels(), places[id]); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// groupPlace says which channel of the frame a channel of a group belongs to, and where
+type groupPlace struct {
+	channel int
+	origin  util.Point
+}
+
+// cutGroup returns the parts of the given channels that lie in the group of dim x dim
+// samples at (x0, y0), and where they belong. Channels that are nil, and parts without
+// samples, are left out.
+func cutGroup(channels []*ModularChannel, x0 uint32, y0 uint32, dim uint32) ([]ModularChannel, []groupPlace) {
+	parts := []ModularChannel{}
+	places := []groupPlace{}
+	for i, ch := range channels {
+		if ch == nil {
+			continue
+		}
+		x, y := x0>>ch.hshift, y0>>ch.vshift
+		if x >= ch.size.Width || y >= ch.size.Height {
+			continue
+		}
+		width := min(dim>>ch.hshift, ch.size.Width-x)
+		height := min(dim>>ch.vshift, ch.size.Height-y)
+		if width == 0 || height == 0 {
+			continue
+		}
+		parts = append(parts, *NewModularChannelWithAllParams(int32(height), int32(width), ch.vshift, ch.hshift, ch.forceWP))
+		places = append(places, groupPlace{channel: i, origin: util.Point{X: int32(x), Y: int32(y)}})
+	}
+	return parts, places
+}
+
+// pasteGroup copies the channels of a decoded group to where they belong
+func pasteGroup(channels []*ModularChannel, parts []*ModularChannel, places []groupPlace) error {
+	if len(parts) != len(places) {
+		return errors.New("group does not have the channels it should have")
+	}
+	for i, place := range places {
+		target := channels[place.channel].buffer
+		for y, row := range parts[i].buffer {
+			copy(target[y+int(place.origin.Y)][place.origin.X:], row)
 		}
 	}
 	return nil
@@ -691,42 +689,29 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup) {
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup, places [][][]groupPlace) {
 	for inp := range inputChan {
-		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups); err != nil {
+		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups, places); err != nil {
 			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
 		}
 
 	}
 }
 
-func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup) error {
+func (f *Frame) doProcessing(iPass int, iGroup int, passGroups [][]PassGroup, places [][][]groupPlace) error {
 
 	br, err := f.getBitreader(2 + int(f.numLFGroups) + iPass*int(f.numGroups) + iGroup)
 	if err != nil {
 		return err
 	}
 
-	replaced := []ModularChannel{}
-	for _, r := range f.passes[iPass].replacedChannels {
-		// remove any replacedChannels that are nil/empty
-		if r != nil {
-			mc := NewModularChannelFromChannel(*r)
-			replaced = append(replaced, *mc)
-		}
-	}
-
-	for i := 0; i < len(replaced); i++ {
-		info := replaced[i]
-		groupHeight := f.Header.groupDim >> info.vshift
-		groupWidth := f.Header.groupDim >> info.hshift
-		rowStride := util.CeilDiv(info.size.Width, groupWidth)
-		info.origin.Y = int32((uint32(iGroup) / rowStride) * groupHeight)
-		info.origin.X = int32((uint32(iGroup) % rowStride) * groupWidth)
-		info.size.Height = util.Min(info.size.Height-uint32(info.origin.Y), uint32(groupHeight))
-		info.size.Width = util.Min(info.size.Width-uint32(info.origin.X), uint32(groupWidth))
-		replaced[i] = info
+	var x0, y0 uint32
+	if f.groupRowStride > 0 {
+		x0 = (uint32(iGroup) % f.groupRowStride) * f.Header.groupDim
+		y0 = (uint32(iGroup) / f.groupRowStride) * f.Header.groupDim
 	}
+	replaced, place := cutGroup(f.passes[iPass].replacedChannels, x0, y0, f.Header.groupDim)
+	places[iPass][iGroup] = place
 
 	pg, err := NewPassGroupWithReader(br, f, uint32(iPass), uint32(iGroup), replaced)
 	if err != nil {
@@ -741,6 +726,7 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	numPasses := len(f.passes)
 	numGroups := int(f.numGroups)
 	passGroups := util.MakeMatrix2D[PassGroup](numPasses, numGroups)
+	places := util.MakeMatrix2D[[]groupPlace](numPasses, numGroups)
 
 	inputChan := make(chan Inp, numPasses*numGroups)
 
@@ -767,7 +753,7 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups)
+			f.startWorker(inputChan, passGroups, places)
 			wg.Done()
 		}()
 	}
@@ -775,24 +761,16 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	wg.Wait()
 
 	for pass := 0; pass < numPasses; pass++ {
-		j := 0
-		for i := 0; i < len(f.passes[pass].replacedChannels); i++ {
-			if f.passes[pass].replacedChannels[i] == nil {
-				continue
+		channels := f.LfGlobal.globalModular.getChannels()
+		for i := range f.passes[pass].replacedChannels {
+			if f.passes[pass].replacedChannels[i] != nil {
+				channels[i].allocate()
 			}
-			ii := i
-			jj := j
-			channel := f.LfGlobal.globalModular.getChannels()[ii]
-			channel.allocate()
-			for group := 0; group < int(f.numGroups); group++ {
-				newChannelInfo := passGroups[pass][group].modularStream.getChannels()[jj]
-				buff := newChannelInfo.buffer
-				for y := 0; y < len(buff); y++ {
-					idx := y + int(newChannelInfo.origin.Y)
-					copy(channel.buffer[idx][newChannelInfo.origin.X:], buff[y][:len(buff[y])])
-				}
+		}
+		for group := 0; group < numGroups; group++ {
+			if err := pasteGroup(channels, passGroups[pass][group].modularStream.getChannels(), places[pass][group]); err != nil {
+				return err
 			}
-			j++
 		}
 	}
 
-- 
2.43.0


From fb1adb1b2f7178af05c1b93f3c02d30ed1ed2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:11 +0000
Subject: [PATCH 36/76] fix: errors in pass groups were only logged

---
 frame/Frame.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 5c3ee5c..0834e4d 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -689,12 +689,11 @@ func (f *Frame) decodePasses(reader jxlio.BitReader) error {
 	return nil
 }
 
-func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup, places [][][]groupPlace) {
+func (f *Frame) startWorker(inputChan chan Inp, passGroups [][]PassGroup, places [][][]groupPlace, errChan chan error) {
 	for inp := range inputChan {
 		if err := f.doProcessing(inp.iPass, inp.iGroup, passGroups, places); err != nil {
-			log.Errorf("Error processing %v %v %v", inp.iPass, inp.iGroup, err)
+			errChan <- fmt.Errorf("error in pass %d of group %d: %w", inp.iPass, inp.iGroup, err)
 		}
-
 	}
 }
 
@@ -729,6 +728,7 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	places := util.MakeMatrix2D[[]groupPlace](numPasses, numGroups)
 
 	inputChan := make(chan Inp, numPasses*numGroups)
+	errChan := make(chan error, numPasses*numGroups)
 
 	for pass0 := 0; pass0 < numPasses; pass0++ {
 		pass := pass0
@@ -753,12 +753,16 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	for i := 0; i < maxGoroutines; i++ {
 		wg.Add(1)
 		go func() {
-			f.startWorker(inputChan, passGroups, places)
+			f.startWorker(inputChan, passGroups, places, errChan)
 			wg.Done()
 		}()
 	}
 
 	wg.Wait()
+	close(errChan)
+	if len(errChan) > 0 {
+		return <-errChan
+	}
 
 	for pass := 0; pass < numPasses; pass++ {
 		channels := f.LfGlobal.globalModular.getChannels()
-- 
2.43.0


From 0b4e460c5a4c80274c9e2c9f55480fa0acaf4a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:21 +0000
Subject: [PATCH 37/76] fix: samples beyond 24 bits were rounded

---
 frame/Frame.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 0834e4d..3512d25 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -468,10 +468,8 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
 			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				//copy(outBuffer[y], modularBuffer[cIn][y])
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
-					outBuffer[y][x] = int32(scaleFactor * float32(modularBuffer[cIn][y][x]))
-				}
+				// integer samples are not scaled: a float32 cannot hold all of them
+				copy(outBuffer[y], modularBuffer[cIn][y][:f.Header.Bounds.Size.Width])
 			}
 		}
 	}
-- 
2.43.0


From 1bfac1cd4547989f5d524deab07cd397dc3e6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 38/76] fix: errors of chroma upsampling were dropped

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 3512d25..66427ea 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -475,7 +475,7 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 	}
 
 	if err := f.invertSubsampling(); err != nil {
-		return nil
+		return err
 	}
 
 	if f.Header.restorationFilter.gab {
@@ -881,7 +881,7 @@ func displayModularChannel(label string, frameBuffer [][]int32) float64 {
 }
 
 func (f *Frame) invertSubsampling() error {
-	for c := 0; c < 3; c++ {
+	for c := 0; c < min(3, len(f.Buffer)); c++ {
 		xShift := f.Header.jpegUpsamplingX[c]
 		yShift := f.Header.jpegUpsamplingY[c]
 
-- 
2.43.0


From 0b1586c577c8cc31c657f6d92d51c8048eb79de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:32 +0000
Subject: [PATCH 39/76] fix: palettes of channels without columns panicked

---
 frame/ModularChannel.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/frame/ModularChannel.go b/frame/ModularChannel.go
index 16a123c..c606832 100644
--- a/frame/ModularChannel.go
+++ b/frame/ModularChannel.go
@@ -53,7 +53,8 @@ func NewModularChannelFromChannel(ch ModularChannel) *ModularChannel {
 	mc.decoded = ch.decoded
 	if ch.buffer != nil {
 		mc.allocate()
-		for y := uint32(0); y < mc.size.Height; y++ {
+		// a channel without columns has no rows in its buffer either
+		for y := range mc.buffer {
 			copy(mc.buffer[y], ch.buffer[y])
 		}
 	}
-- 
2.43.0


From 85be9f977c6a90a5679b467c901c457832cf008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 40/76] fix: composing a frame drew over its references, or
 onto a stale canvas, or panicked without reference

---
 core/jxl_codestream_decoder.go | 103 +++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 43 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index bef88fd..7584f21 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -105,7 +105,6 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 	jxl.imageHeader = imageHeader
-	size := imageHeader.Size
 	jxl.canvas = make([]image2.ImageBuffer, imageHeader.GetColourChannelCount()+len(imageHeader.ExtraChannelInfo))
 	if imageHeader.AnimationHeader != nil {
 		return nil, errors.New("animation not implemented")
@@ -238,31 +237,11 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				panic("VARDCT not implemented yet")
 			}
 
-			if jxl.canvas[0].Height == 0 && jxl.canvas[0].Width == 0 {
-				for c := 0; c < len(jxl.canvas); c++ {
-					canvas, err := image2.NewImageBuffer(imgFrame.Buffer[0].BufferType, int32(size.Height), int32(size.Width))
-					if err != nil {
-						return nil, err
-					}
-					jxl.canvas[c] = *canvas
-				}
-			}
 			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
-				found := false
-				for i := uint32(0); i < 4; i++ {
-					if image2.ImageBufferSliceEquals(jxl.reference[i], jxl.canvas) && i != header.SaveAsReference {
-						found = true
-						break
-					}
-				}
-
-				if found {
-					canvas2 := make([]image2.ImageBuffer, 0, len(jxl.canvas))
-					for _, ib := range jxl.canvas {
-						ib2 := image2.NewImageBufferFromImageBuffer(&ib, true)
-						canvas2 = append(canvas2, *ib2)
-					}
-					jxl.canvas = canvas2
+				// always a new canvas: the old one may be kept as a reference
+				jxl.canvas, err = jxl.newCanvas(imgFrame)
+				if err != nil {
+					return nil, err
 				}
 				err = jxl.blendFrame(jxl.canvas, imgFrame)
 				if err != nil {
@@ -731,6 +710,56 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	return nil
 }
 
+// frameChannel returns which channel of a frame belongs to channel c of the image: the frame
+// of a grey image has three colour channels if it is XYB encoded.
+func (jxl *JXLCodestreamDecoder) frameChannel(imgFrame *frame.Frame, c int32) int32 {
+	if imgFrame.GetColourChannelCount() == jxl.imageHeader.GetColourChannelCount() {
+		return c
+	}
+	if c == 0 {
+		return 1
+	}
+	return c + 2
+}
+
+// channelBlending returns how channel frameC of a frame is to be blended
+func channelBlending(imgFrame *frame.Frame, frameC int32) *frame.BlendingInfo {
+	frameColours := int32(imgFrame.GetColourChannelCount())
+	if frameC < frameColours {
+		return imgFrame.Header.BlendingInfo
+	}
+	return &imgFrame.Header.EcBlendingInfo[frameC-frameColours]
+}
+
+// newCanvas makes the canvas a frame is drawn onto: in each channel what the frame's blending
+// source shows, or nothing if there is no such source. The sources are not touched.
+func (jxl *JXLCodestreamDecoder) newCanvas(imgFrame *frame.Frame) ([]image2.ImageBuffer, error) {
+	size := jxl.imageHeader.GetSize()
+	canvas := make([]image2.ImageBuffer, len(jxl.canvas))
+	for c := range canvas {
+		frameC := jxl.frameChannel(imgFrame, int32(c))
+		reference := jxl.reference[channelBlending(imgFrame, frameC).Source]
+		bufferType := imgFrame.Buffer[frameC].BufferType
+		if c < len(reference) {
+			bufferType = reference[c].BufferType
+		}
+		buffer, err := image2.NewImageBuffer(bufferType, int32(size.Height), int32(size.Width))
+		if err != nil {
+			return nil, err
+		}
+		if c < len(reference) {
+			for y := range min(len(buffer.IntBuffer), len(reference[c].IntBuffer)) {
+				copy(buffer.IntBuffer[y], reference[c].IntBuffer[y])
+			}
+			for y := range min(len(buffer.FloatBuffer), len(reference[c].FloatBuffer)) {
+				copy(buffer.FloatBuffer[y], reference[c].FloatBuffer[y])
+			}
+		}
+		canvas[c] = *buffer
+	}
+	return canvas, nil
+}
+
 func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFrame *frame.Frame) error {
 
 	imageSize := jxl.imageHeader.GetSize()
@@ -754,32 +783,20 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 	hasAlpha := jxl.imageHeader.HasAlpha()
 	frameBuffers := imgFrame.Buffer
 	for c := int32(0); c < int32(len(canvas)); c++ {
-		var frameC int32
-		if frameColours != imageColours {
-			if c == 0 {
-				frameC = 1
-			} else {
-				frameC = c + 2
-			}
-		} else {
-			frameC = c
-		}
+		frameC := jxl.frameChannel(imgFrame, c)
 		frameBuffer := imgFrame.Buffer[frameC]
-		var info *frame.BlendingInfo
-		if frameC < int32(frameColours) {
-			info = imgFrame.Header.BlendingInfo
-		} else {
-			info = &imgFrame.Header.EcBlendingInfo[frameC-int32(frameColours)]
-		}
+		info := channelBlending(imgFrame, frameC)
 		isAlpha := c >= int32(imageColours) && jxl.imageHeader.ExtraChannelInfo[c-int32(imageColours)].EcType == bundle.ALPHA
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
-		refBuffer := jxl.reference[info.Source]
+		// the channels of the reference are converted below: not those that are kept
+		refBuffer := make([]image2.ImageBuffer, len(canvas))
+		copy(refBuffer, jxl.reference[info.Source])
 		err := jxl.convertCanvasWithDifferentBufferType(canvas, c, &frameBuffer, imageColours, frameC, frameColours)
 		if err != nil {
 			return err
 		}
-		if info.Mode == frame.BLEND_REPLACE || refBuffer == nil && info.Mode == frame.BLEND_ADD {
+		if info.Mode == frame.BLEND_REPLACE {
 			offY := frameStartY - header.Bounds.Origin.Y
 			offX := frameStartX - header.Bounds.Origin.X
 			if err := jxl.copyToCanvas(&canvas[c], util.Point{Y: frameStartY, X: frameStartX}, util.Point{X: offX, Y: offY},
-- 
2.43.0


From 562af0d527a06a34363ee2831b8c91601710f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 41/76] fix: frames that begin above or end outside the image
 were misplaced or panicked

---
 core/jxl_codestream_decoder.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 7584f21..54c1387 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -764,19 +764,17 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 
 	imageSize := jxl.imageHeader.GetSize()
 	header := imgFrame.Header
-	frameStartY := int32(0)
-	if header.Bounds.Origin.X >= 0 {
-		frameStartY = header.Bounds.Origin.Y
-	}
-	frameStartX := int32(0)
-	if header.Bounds.Origin.X >= 0 {
-		frameStartX = header.Bounds.Origin.X
-	}
+	frameStartY := max(0, header.Bounds.Origin.Y)
+	frameStartX := max(0, header.Bounds.Origin.X)
 	frameOffsetY := frameStartY - header.Bounds.Origin.Y
 	frameOffsetX := frameStartX - header.Bounds.Origin.X
 	lowerCorner := header.Bounds.ComputeLowerCorner()
 	frameHeight := util.Min(lowerCorner.Y, int32(imageSize.Height)) - frameStartY
 	frameWidth := util.Min(lowerCorner.X, int32(imageSize.Width)) - frameStartX
+	if frameHeight <= 0 || frameWidth <= 0 {
+		// the frame lies outside of the image
+		return nil
+	}
 
 	frameColours := imgFrame.GetColourChannelCount()
 	imageColours := jxl.imageHeader.GetColourChannelCount()
-- 
2.43.0


From 051db8b24951ee9e328eb31fe6331f50d1ce1399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:00 +0000
Subject: [PATCH 42/76] fix: reference-only frames kept the canvas instead of
 themselves

---
 core/jxl_codestream_decoder.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 54c1387..449046a 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -250,7 +250,16 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if save && !header.SaveBeforeCT {
-				jxl.reference[header.SaveAsReference] = jxl.canvas
+				if header.FrameType == frame.REFERENCE_ONLY {
+					// such a frame is kept as it is, it is not part of the canvas
+					reference := make([]image2.ImageBuffer, len(jxl.canvas))
+					for c := range reference {
+						reference[c] = imgFrame.Buffer[jxl.frameChannel(imgFrame, int32(c))]
+					}
+					jxl.reference[header.SaveAsReference] = reference
+				} else {
+					jxl.reference[header.SaveAsReference] = jxl.canvas
+				}
 			}
 
 			if header.IsLast && header.Duration == 0 {
-- 
2.43.0


From b524a74d804a964ba83b72d0265f653f85cb1345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:06 +0000
Subject: [PATCH 43/76] fix: extra channels with another alpha channel were
 replaced by that alpha

---
 core/jxl_codestream_decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 449046a..93f96dc 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -793,7 +793,8 @@ func (jxl *JXLCodestreamDecoder) blendFrame(canvas []image2.ImageBuffer, imgFram
 		frameC := jxl.frameChannel(imgFrame, c)
 		frameBuffer := imgFrame.Buffer[frameC]
 		info := channelBlending(imgFrame, frameC)
-		isAlpha := c >= int32(imageColours) && jxl.imageHeader.ExtraChannelInfo[c-int32(imageColours)].EcType == bundle.ALPHA
+		// the channel whose values the blending mode takes as alpha
+		isAlpha := hasAlpha && c == int32(imageColours)+int32(info.AlphaChannel)
 		premult := hasAlpha && jxl.imageHeader.ExtraChannelInfo[info.AlphaChannel].AlphaAssociated
 
 		// the channels of the reference are converted below: not those that are kept
-- 
2.43.0


From 93c79132c13d574228377adde76963be3166c547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:33 +0000
Subject: [PATCH 44/76] fix: blending transparent onto transparent gave NaN

---
 core/jxl_codestream_decoder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 93f96dc..ae4e0ef 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -952,8 +952,10 @@ func (jxl *JXLCodestreamDecoder) performBlending(canvas []image2.ImageBuffer,
 					cf[cy][cx] = alpha
 				} else if !hasAlpha || premult {
 					cf[cy][cx] = newSample + oldSample*(1-newAlpha)
-				} else {
+				} else if alpha != 0 {
 					cf[cy][cx] = (newSample*newAlpha + oldSample*oldAlpha*(1-newAlpha)) / alpha
+				} else {
+					cf[cy][cx] = 0
 				}
 			}
 		}
-- 
2.43.0


From b7a6f82b6b63c1e34e660ffec9aeb302f14d9fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 45/76] fix: containers: codestream split over boxes, boxes up
 to the end of the file, empty, undersized and truncated boxes

---
 core/jxl_codestream_decoder.go |  55 ++++------
 core/read_jxl_boxes.go         | 185 +++++++++++++++++++++------------
 2 files changed, 139 insertions(+), 101 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index ae4e0ef..127d263 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -21,17 +21,20 @@ type JXLCodestreamDecoder struct {
 	lfBuffer    [][]image2.ImageBuffer
 	canvas      []image2.ImageBuffer
 	boxHeaders  []ContainerBoxHeader
-	bitReader   jxlio.BitReader
+	bitReader   jxlio.BitReader // of the codestream
+	fileReader  jxlio.BitReader
 	imageHeader *bundle.ImageHeader
 
 	options        options.JXLOptions
 	level          int
 	foundSignature bool
+	isContainer    bool
 }
 
 func NewJXLCodestreamDecoder(br jxlio.BitReader, opts *options.JXLOptions) *JXLCodestreamDecoder {
 	jxl := &JXLCodestreamDecoder{}
 	jxl.bitReader = br
+	jxl.fileReader = br
 	jxl.foundSignature = false
 	jxl.lfBuffer = make([][]image2.ImageBuffer, 5)
 	if opts != nil {
@@ -58,13 +61,7 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 		return nil, err
 	}
 
-	if len(jxl.boxHeaders) > 1 {
-		return nil, errors.New("multiple boxes found, cannot get image header alone")
-	}
-
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-	if err != nil {
+	if err = jxl.startCodestream(); err != nil {
 		return nil, err
 	}
 
@@ -89,9 +86,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return nil, err
 	}
 
-	box := jxl.boxHeaders[0]
-	_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-	if err != nil {
+	if err = jxl.startCodestream(); err != nil {
 		return nil, err
 	}
 
@@ -132,29 +127,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	visibleFrames := 0
 	header := frame.FrameHeader{}
 
-	// If we have multiple box headers...  then we want to loop over from the second one.
-	// Need to also seek to that box offset.
-	ii := 0
-	shouldSeekBoxOffset := false
-	if len(jxl.boxHeaders) > 1 {
-		ii = 1
-		shouldSeekBoxOffset = true
-	}
-
-	for _, box := range jxl.boxHeaders[ii:] {
-
-		// only seek if we're not dealing with a single box.
-		if shouldSeekBoxOffset {
-			_, err = jxl.bitReader.Seek(box.Offset, io.SeekStart)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		if jxl.atEnd() {
-			return nil, nil
-		}
-
+	if !jxl.atEnd() {
 		for {
 			imgFrame := frame.NewFrameWithReader(jxl.bitReader, jxl.imageHeader, &jxl.options)
 			header, err = imgFrame.ReadFrameHeader()
@@ -301,7 +274,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 // Read signature
 func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 
-	br := NewBoxReader(jxl.bitReader)
+	br := NewBoxReader(jxl.fileReader)
 	boxHeaders, err := br.ReadBoxHeader()
 	if err != nil {
 		return err
@@ -309,9 +282,21 @@ func (jxl *JXLCodestreamDecoder) ReadSignatureAndBoxes() error {
 
 	jxl.boxHeaders = boxHeaders
 	jxl.level = br.level
+	jxl.isContainer = br.isContainer
 	return nil
 }
 
+// startCodestream goes to the start of the codestream
+func (jxl *JXLCodestreamDecoder) startCodestream() error {
+	if jxl.isContainer {
+		jxl.bitReader = jxlio.NewBitStreamReader(&codestreamReader{reader: jxl.fileReader, boxes: jxl.boxHeaders, at: -1})
+		return nil
+	}
+	jxl.bitReader = jxl.fileReader
+	_, err := jxl.bitReader.Seek(jxl.boxHeaders[0].Offset, io.SeekStart)
+	return err
+}
+
 func (jxl *JXLCodestreamDecoder) computePatches(_ *frame.Frame) error {
 
 	// do not support patches yet.
diff --git a/core/read_jxl_boxes.go b/core/read_jxl_boxes.go
index 44425da..52bd1e0 100644
--- a/core/read_jxl_boxes.go
+++ b/core/read_jxl_boxes.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"io"
+	"math"
 
 	"github.com/kpfaulkner/jxl-go/jxlio"
 )
@@ -25,8 +26,9 @@ type ContainerBoxHeader struct {
 }
 
 type BoxReader struct {
-	reader jxlio.BitReader
-	level  int
+	reader      jxlio.BitReader
+	level       int
+	isContainer bool
 }
 
 func NewBoxReader(reader jxlio.BitReader) *BoxReader {
@@ -39,14 +41,11 @@ func NewBoxReader(reader jxlio.BitReader) *BoxReader {
 func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 	buffer := make([]byte, 12)
 	err := br.reader.ReadByteArrayWithOffsetAndLength(buffer, 0, 12)
-	if err != nil {
-		return nil, err
-	}
 
 	var containerBoxHeaders []ContainerBoxHeader
 
 	// Believe this header is used when performing lossless decoding. Need to verify
-	if !bytes.Equal(buffer, JPEGXL_CONTAINER_HEADER[:]) {
+	if err != nil || !bytes.Equal(buffer, JPEGXL_CONTAINER_HEADER[:]) {
 		//log.Errorf("invalid magic number: %+v", buffer)
 		// setup fake box header (if we dont have a container...?)
 		bh := ContainerBoxHeader{
@@ -62,9 +61,13 @@ func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 		return containerBoxHeaders, nil
 	}
 
+	br.isContainer = true
 	if containerBoxHeaders, err = br.readAllBoxes(); err != nil {
 		return nil, err
 	}
+	if len(containerBoxHeaders) == 0 {
+		return nil, errors.New("container without codestream")
+	}
 
 	return containerBoxHeaders, nil
 }
@@ -72,7 +75,6 @@ func (br *BoxReader) ReadBoxHeader() ([]ContainerBoxHeader, error) {
 func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 
 	var boxHeaders []ContainerBoxHeader
-	//boxSizeArray := make([]byte, 4)
 	boxSizeArray := make([]byte, 8)
 	boxTag := make([]byte, 4)
 	for {
@@ -84,37 +86,53 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			}
 			return nil, err
 		}
+		if err = br.reader.ReadBytesToBuffer(boxTag, 4); err != nil {
+			return nil, noEOF(err)
+		}
+		tag := makeTag(boxTag, 0, 4)
 
+		// boxSize becomes the size of the contents
 		boxSize := makeTag(boxSizeArray, 0, 4)
+		headerSize := uint64(8)
 		if boxSize == 1 {
-			err = br.reader.ReadBytesToBuffer(boxSizeArray, 8)
+			if err = br.reader.ReadBytesToBuffer(boxSizeArray, 8); err != nil {
+				return nil, noEOF(err)
+			}
+			boxSize = makeTag(boxSizeArray, 0, 8)
+			headerSize = 16
+		} else if boxSize == 0 {
+			// up to the end of the file
+			pos, err := br.reader.Seek(0, io.SeekCurrent)
 			if err != nil {
 				return nil, err
 			}
-			boxSize = makeTag(boxSizeArray, 0, 8)
-			if boxSize > 0 {
-				boxSize -= 8
+			end, err := br.reader.Seek(0, io.SeekEnd)
+			if err != nil {
+				return nil, err
 			}
+			if _, err = br.reader.Seek(pos, io.SeekStart); err != nil {
+				return nil, err
+			}
+			boxSize = uint64(end-pos) + headerSize
 		}
-		if boxSize > 0 {
-			boxSize -= 8
-		}
-
-		err = br.reader.ReadBytesToBuffer(boxTag, 4)
-		if err != nil {
-			return nil, err
+		if boxSize < headerSize || boxSize > math.MaxInt64 {
+			return nil, errors.New("invalid box size")
 		}
-		tag := makeTag(boxTag, 0, 4)
+		boxSize -= headerSize
 
 		// check boxType...  if we dont know the box type, just skip over the bytes and keep reading.
 		switch tag {
-		case JXLP:
-			// reads next 4 bytes as additional tag?
-			err = br.reader.ReadBytesToBuffer(boxTag, 4)
-			if err != nil {
-				return nil, err
+		case JXLP, JXLC:
+			if tag == JXLP {
+				// sequence number of this part of the codestream
+				if boxSize < 4 {
+					return nil, errors.New("invalid box size")
+				}
+				if err = br.reader.ReadBytesToBuffer(boxTag, 4); err != nil {
+					return nil, noEOF(err)
+				}
+				boxSize -= 4
 			}
-			boxSize -= 4
 
 			// fileoffset...  directly from ReadSeeker?
 			pos, err := br.reader.Seek(0, io.SeekCurrent)
@@ -129,11 +147,6 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 				Processed: false,
 			}
 			boxHeaders = append(boxHeaders, bh)
-			// skip past this box.
-			_, err = br.SkipFully(int64(boxSize))
-			if err != nil {
-				return nil, err
-			}
 
 		case JXLL:
 			if boxSize != 1 {
@@ -141,55 +154,95 @@ func (br *BoxReader) readAllBoxes() ([]ContainerBoxHeader, error) {
 			}
 			l, err := br.reader.ReadByte()
 			if err != nil {
-				return nil, err
+				return nil, noEOF(err)
 			}
 			if l != 5 && l != 10 {
 				return nil, errors.New("invalid level")
 			}
 			br.level = int(l)
+			boxSize = 0
+		}
 
-		case JXLC:
-			// fileoffset...  directly from ReadSeeker?
-			pos, err := br.reader.Seek(0, io.SeekCurrent)
-			if err != nil {
-				return nil, err
-			}
-			bh := ContainerBoxHeader{
-				BoxType:   tag,
-				BoxSize:   boxSize,
-				IsLast:    false,
-				Offset:    pos,
-				Processed: false,
-			}
-			boxHeaders = append(boxHeaders, bh)
+		// skip past this box.
+		s, err := br.SkipFully(int64(boxSize))
+		if err != nil {
+			return nil, noEOF(err)
+		}
+		if s != 0 {
+			return nil, errors.New("truncated box")
+		}
+	}
+}
 
-			// skip past this box.
-			_, err = br.SkipFully(int64(boxSize))
-			if err != nil {
-				return nil, err
-			}
+// noEOF makes the end of the file within a box an error that is not taken for the proper end.
+func noEOF(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return err
+}
 
-		default:
-			// skip over the bytes
-			if boxSize > 0 {
-				s, err := br.SkipFully(int64(boxSize))
-				if err != nil {
-					return nil, err
-				}
-				if s != 0 {
-					return nil, errors.New("truncated extra box")
-				}
-			} else {
-				panic("java read supplyExceptionally... unsure why?")
+// returns number of bytes that were NOT skipped.
+func (br *BoxReader) SkipFully(i int64) (int64, error) {
+	for i > 0 {
+		n, err := br.reader.Skip(uint32(min(i, math.MaxInt32)))
+		if err != nil {
+			return i, err
+		}
+		i -= n
+	}
+	return i, nil
+}
+
+// codestreamReader reads the codestream of a container: what its codestream boxes hold, one after another.
+type codestreamReader struct {
+	reader jxlio.BitReader
+	boxes  []ContainerBoxHeader
+	pos    int64 // in the codestream
+	at     int64 // in the file, -1 if not known
+}
+
+func (r *codestreamReader) Read(p []byte) (int, error) {
+	if len(p) == 0 {
+		return 0, nil
+	}
+	rest := r.pos
+	for _, box := range r.boxes {
+		if rest >= int64(box.BoxSize) {
+			rest -= int64(box.BoxSize)
+			continue
+		}
+		if r.at != box.Offset+rest {
+			if _, err := r.reader.Seek(box.Offset+rest, io.SeekStart); err != nil {
+				return 0, err
 			}
 		}
+		n := min(int64(len(p)), int64(box.BoxSize)-rest)
+		r.at = -1
+		if err := r.reader.ReadBytesToBuffer(p, uint32(n)); err != nil {
+			return 0, noEOF(err)
+		}
+		r.pos += n
+		r.at = box.Offset + rest + n
+		return int(n), nil
 	}
+	return 0, io.EOF
 }
 
-// returns number of bytes that were NOT skipped.
-func (br *BoxReader) SkipFully(i int64) (int64, error) {
-	n, err := br.reader.Skip(uint32(i))
-	return i - n, err
+func (r *codestreamReader) Seek(offset int64, whence int) (int64, error) {
+	switch whence {
+	case io.SeekCurrent:
+		offset += r.pos
+	case io.SeekEnd:
+		for _, box := range r.boxes {
+			offset += int64(box.BoxSize)
+		}
+	}
+	if offset < 0 {
+		return 0, errors.New("invalid offset")
+	}
+	r.pos = offset
+	return offset, nil
 }
 
 func makeTag(bytes []uint8, offset int, length int) uint64 {
-- 
2.43.0


From 27abd81dde333992a868ab8c8a59d53a13a93447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 46/76] fix: a file without frames gave neither an image nor an
 error, parsing only never ended

---
 core/jxl_codestream_decoder.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 127d263..0310c52 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -66,7 +66,7 @@ func (jxl *JXLCodestreamDecoder) GetImageHeader() (*bundle.ImageHeader, error) {
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	level := int32(jxl.level)
@@ -91,7 +91,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	}
 
 	if jxl.atEnd() {
-		return nil, nil
+		return nil, io.ErrUnexpectedEOF
 	}
 
 	level := int32(jxl.level)
@@ -149,6 +149,9 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 				if err := imgFrame.SkipFrameData(); err != nil {
 					return nil, err
 				}
+				if header.IsLast && header.Duration == 0 {
+					break
+				}
 				continue
 			}
 
@@ -268,7 +271,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 		return img, nil
 	}
 
-	return nil, nil
+	return nil, io.ErrUnexpectedEOF
 }
 
 // Read signature
-- 
2.43.0


From def827407164ed906553c0243b26838dc2ab187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:08 +0000
Subject: [PATCH 47/76] fix: samples far outside the range became 0 or wrapped
 around when cast to integers

---
 image/imagebuffer.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/image/imagebuffer.go b/image/imagebuffer.go
index 7c27fe1..b1b62d9 100644
--- a/image/imagebuffer.go
+++ b/image/imagebuffer.go
@@ -208,18 +208,19 @@ func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
 
 	oldBuffer := ib.FloatBuffer
 	newBuffer := util.MakeMatrix2D[int32](ib.Height, ib.Width)
-	scaleFactor := float32(maxValue)
+	scaleFactor := float64(maxValue)
 
 	for y := 0; y < int(ib.Height); y++ {
 		for x := 0; x < int(ib.Width); x++ {
-			v := int32(oldBuffer[y][x]*scaleFactor + 0.5)
+			// in the float domain, large samples do not fit an int32
+			v := float64(oldBuffer[y][x])*scaleFactor + 0.5
 			var vv int32
-			if v < 0 {
+			if !(v >= 0) {
 				vv = 0
-			} else if v > maxValue {
+			} else if v >= float64(maxValue) {
 				vv = maxValue
 			} else {
-				vv = v
+				vv = int32(v)
 			}
 			newBuffer[y][x] = vv
 		}
-- 
2.43.0


From 21e934314864ac9b6924a9d2ea5fe1b96ec14a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 48/76] fix: rendering an image changed it, panicked on
 encodings it cannot convert, and ToImage cut deep samples off instead of
 rescaling them

---
 core/jxl_image.go  | 20 +++++++++++---------
 core/png_writer.go |  6 ++++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index dde581b..8989be5 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -1,6 +1,7 @@
 package core
 
 import (
+	"errors"
 	"fmt"
 	"image"
 
@@ -101,7 +102,7 @@ func NewJXLImageFromJXLImage(img *JXLImage, copyBuffer bool) (*JXLImage, error)
 	jxl.bitDepths = make([]uint32, len(img.bitDepths))
 	copy(jxl.bitDepths, img.bitDepths)
 
-	for _, ib := range jxl.Buffer {
+	for _, ib := range img.Buffer {
 		buf := image2.NewImageBufferFromImageBuffer(&ib, copyBuffer)
 		jxl.Buffer = append(jxl.Buffer, *buf)
 	}
@@ -215,11 +216,13 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 // ToImage converts to standard Go image.Image NRGBA format for the R,G,B and alpha channels
 func (jxl *JXLImage) ToImage() (image.Image, error) {
 
-	var bitDepth int32
-	if jxl.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
+	// the images created below have 8 bits per channel
+	bitDepth := int32(8)
+
+	// rendering must not change the image
+	jxl, err := NewJXLImageFromJXLImage(jxl, true)
+	if err != nil {
+		return nil, err
 	}
 
 	//gray := jxlImage.ColourEncoding == color.CE_GRAY
@@ -231,7 +234,6 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	}
 	whitePoint := colour.CM_WP_D65
 	iccProfile := jxl.iccProfile
-	var err error
 	if iccProfile == nil {
 		// transforms in place
 		img, err := jxl.transform(primaries, whitePoint, tf, PEAK_DETECT_AUTO)
@@ -532,7 +534,7 @@ func (jxl *JXLImage) linearize() (*JXLImage, error) {
 		return jxl, nil
 	}
 
-	panic("not implemented")
+	return nil, errors.New("converting this colour encoding is not implemented")
 }
 
 func (jxl *JXLImage) toneMapLinear() error {
@@ -547,7 +549,7 @@ func (jxl *JXLImage) transferInPlace(transferFunction func(float64) float64) err
 
 	buffers := util.MakeMatrix3D[float32](colours, 0, 0)
 	for c := 0; c < colours; c++ {
-		if err := jxl.Buffer[c].CastToFloatIfMax(int32(jxl.bitDepths[c])); err != nil {
+		if err := jxl.Buffer[c].CastToFloatIfMax(^(^0 << jxl.bitDepths[c])); err != nil {
 			return err
 		}
 		buffers[c] = jxl.Buffer[c].FloatBuffer
diff --git a/core/png_writer.go b/core/png_writer.go
index ca2a5d7..c22ee8e 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -24,6 +24,12 @@ type PNGWriter struct {
 // to write out ICC Profile which doesn't seem to be supported by the standard package.
 func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 
+	// rendering must not change the image
+	jxlImage, err := NewJXLImageFromJXLImage(jxlImage, true)
+	if err != nil {
+		return err
+	}
+
 	w.hdr = jxlImage.isHDR()
 	var bitDepth int32
 	if w.hdr {
-- 
2.43.0


From c4b187dc7cf372ba227ddf4cdc7d5091242e518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:37 +0000
Subject: [PATCH 49/76] fix: alpha of grey images, premultiplied alpha, alpha
 that is not the first extra channel, channel images and PNGs of other depths
 than 8 and 16, PNGs with an empty profile and PFMs of integer images were
 wrong or panicked

---
 core/jxl_image.go  | 51 ++++++++++++++++++++++++++++++++++++++--------
 core/pfm_writer.go | 10 +++------
 core/png_writer.go | 21 ++++++++-----------
 3 files changed, 53 insertions(+), 29 deletions(-)

diff --git a/core/jxl_image.go b/core/jxl_image.go
index 8989be5..7b7cbb4 100644
--- a/core/jxl_image.go
+++ b/core/jxl_image.go
@@ -187,12 +187,24 @@ func (jxl *JXLImage) ChannelToImage(channelNo int) (image.Image, error) {
 	if channelNo < 0 || channelNo >= len(buffer) {
 		return nil, fmt.Errorf("Invalid channel index %d", channelNo)
 	}
-	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
+	if buffer[channelNo].IsInt() && jxl.bitDepths[channelNo] != 8 {
+		if err := buffer[channelNo].CastToFloatIfMax(^(^0 << jxl.bitDepths[channelNo])); err != nil {
+			return nil, err
+		}
+	}
+	if buffer[channelNo].IsInt() {
+		if err := buffer[channelNo].Clamp(255); err != nil {
+			return nil, err
+		}
+	} else if err := buffer[channelNo].CastToIntIfMax(255); err != nil {
+		return nil, err
+	}
+	img := image.NewGray(image.Rect(0, 0, int(buffer[channelNo].Width), int(buffer[channelNo].Height)))
 	pix := img.Pix
 	dx := img.Bounds().Dx()
 	dy := img.Bounds().Dy()
 	pos := 0
-	if buffer[0].IsFloat() {
+	if buffer[channelNo].IsFloat() {
 		for y := 0; y < dy; y++ {
 			for x := 0; x < dx; x++ {
 
@@ -264,7 +276,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 		}
 	}
 	if jxl.alphaIsPremultiplied {
-		panic("not implemented")
+		jxl.unpremultiply(buffer)
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxl.bitDepths[c] == uint32(bitDepth) {
@@ -280,7 +292,7 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 
 	var img image.Image
 	colourCount := jxl.imageHeader.GetColourChannelCount()
-	if colourCount == 1 {
+	if colourCount == 1 && !jxl.HasAlpha() {
 		img = jxl.createGrayScaleImage(buffer)
 	} else {
 		img = jxl.create24BitImage(buffer)
@@ -288,6 +300,21 @@ func (jxl *JXLImage) ToImage() (image.Image, error) {
 	return img, nil
 }
 
+// unpremultiply divides the colour channels, which are floats, by the alpha channel.
+func (jxl *JXLImage) unpremultiply(buffer []image2.ImageBuffer) {
+	colourCount := jxl.imageHeader.GetColourChannelCount()
+	alpha := buffer[colourCount+int(jxl.alphaIndex)].FloatBuffer
+	for c := 0; c < colourCount; c++ {
+		for y, row := range buffer[c].FloatBuffer {
+			for x := range row {
+				if alpha[y][x] > 0 {
+					row[x] /= alpha[y][x]
+				}
+			}
+		}
+	}
+}
+
 func (jxl *JXLImage) createGrayScaleImage(buffer []image2.ImageBuffer) image.Image {
 	img := image.NewGray(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
 	pix := img.Pix
@@ -318,6 +345,12 @@ func (jxl *JXLImage) createGrayScaleImage(buffer []image2.ImageBuffer) image.Ima
 }
 
 func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
+	colourCount := jxl.imageHeader.GetColourChannelCount()
+	green, blue := 1, 2
+	if colourCount == 1 {
+		green, blue = 0, 0
+	}
+	alpha := colourCount + int(jxl.alphaIndex)
 	img := image.NewNRGBA(image.Rect(0, 0, int(buffer[0].Width), int(buffer[0].Height)))
 	pix := img.Pix
 	dx := img.Bounds().Dx()
@@ -331,9 +364,9 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 				// assumption of 8 bits per channel.
 				pix[pos] = uint8(buffer[0].FloatBuffer[y][x] * 255)
 				pos++
-				pix[pos] = uint8(buffer[1].FloatBuffer[y][x] * 255)
+				pix[pos] = uint8(buffer[green].FloatBuffer[y][x] * 255)
 				pos++
-				pix[pos] = uint8(buffer[2].FloatBuffer[y][x] * 255)
+				pix[pos] = uint8(buffer[blue].FloatBuffer[y][x] * 255)
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
@@ -351,13 +384,13 @@ func (jxl *JXLImage) create24BitImage(buffer []image2.ImageBuffer) image.Image {
 			for x := 0; x < dx; x++ {
 				pix[pos] = uint8(buffer[0].IntBuffer[y][x])
 				pos++
-				pix[pos] = uint8(buffer[1].IntBuffer[y][x])
+				pix[pos] = uint8(buffer[green].IntBuffer[y][x])
 				pos++
-				pix[pos] = uint8(buffer[2].IntBuffer[y][x])
+				pix[pos] = uint8(buffer[blue].IntBuffer[y][x])
 				pos++
 
 				if jxl.imageHeader.HasAlpha() {
-					pix[pos] = uint8(buffer[3].IntBuffer[y][x])
+					pix[pos] = uint8(buffer[alpha].IntBuffer[y][x])
 					pos++
 				} else {
 					pix[pos] = 255
diff --git a/core/pfm_writer.go b/core/pfm_writer.go
index b0f2376..e83d1be 100644
--- a/core/pfm_writer.go
+++ b/core/pfm_writer.go
@@ -7,7 +7,6 @@ import (
 	"io"
 
 	"github.com/kpfaulkner/jxl-go/colour"
-	image2 "github.com/kpfaulkner/jxl-go/image"
 )
 
 func WritePFM(jxlImage *JXLImage, output io.Writer) error {
@@ -30,16 +29,13 @@ func WritePFM(jxlImage *JXLImage, output io.Writer) error {
 		cCount = 3
 	}
 
-	buffer2, err := jxlImage.getBuffer(false)
+	nb, err := jxlImage.getBuffer(true)
 	if err != nil {
 		return err
 	}
-	nb := make([]image2.ImageBuffer, len(buffer2))
 	for c := 0; c < len(nb); c++ {
-		if buffer2[c].IsInt() {
-			panic("not implemented")
-		} else {
-			nb[c] = buffer2[c]
+		if err := nb[c].CastToFloatIfMax(^(^0 << jxlImage.bitDepths[c])); err != nil {
+			return err
 		}
 	}
 
diff --git a/core/png_writer.go b/core/png_writer.go
index c22ee8e..3f8d516 100644
--- a/core/png_writer.go
+++ b/core/png_writer.go
@@ -104,7 +104,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 	}
 
 	if jxlImage.alphaIsPremultiplied {
-		panic("not implemented")
+		jxlImage.unpremultiply(buffer)
 	}
 	for c := 0; c < len(buffer); c++ {
 		if buffer[c].IsInt() && jxlImage.bitDepths[c] == uint32(bitDepth) {
@@ -142,7 +142,7 @@ func (w *PNGWriter) WritePNG(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	if w.hdr || len(jxlImage.iccProfile) != 0 || w.writeSRGBICC {
+	if len(jxlImage.iccProfile) != 0 {
 		if err := w.writeICCP(jxlImage, output); err != nil {
 			return err
 		}
@@ -299,13 +299,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		return err
 	}
 
-	var bitDepth int32
-	if jxlImage.imageHeader.BitDepth.BitsPerSample > 8 {
-		bitDepth = 16
-	} else {
-		bitDepth = 8
-	}
-
+	bitDepth := w.bitDepth
 	maxValue := int32(^(^0 << bitDepth))
 
 	if err = jxlImage.Buffer[0].CastToIntIfMax(maxValue); err != nil {
@@ -324,8 +318,9 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 		}
 	}
 
+	alpha := jxlImage.imageHeader.GetColourChannelCount() + int(jxlImage.alphaIndex)
 	if jxlImage.HasAlpha() {
-		if err = jxlImage.Buffer[3].CastToIntIfMax(maxValue); err != nil {
+		if err = jxlImage.Buffer[alpha].CastToIntIfMax(maxValue); err != nil {
 			return err
 		}
 	}
@@ -350,7 +345,7 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 			// FIXME(kpfaulkner) remove 3 assumption
 			for c := 0; c < jxlImage.imageHeader.GetColourChannelCount(); c++ {
 				dat := jxlImage.Buffer[c].IntBuffer[y][x]
-				if jxlImage.bitDepths[c] == 8 {
+				if bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
@@ -365,8 +360,8 @@ func (w *PNGWriter) writeIDAT(jxlImage *JXLImage, output io.Writer) error {
 
 			}
 			if jxlImage.HasAlpha() {
-				dat := jxlImage.Buffer[3].IntBuffer[y][x]
-				if jxlImage.bitDepths[3] == 8 {
+				dat := jxlImage.Buffer[alpha].IntBuffer[y][x]
+				if bitDepth == 8 {
 					if _, err := wr.Write([]byte{byte(dat)}); err != nil {
 						return err
 					}
-- 
2.43.0


From bd60be0675432df4b2beea2125a28673213950a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 50/76] fix: ICC reconstruction panicked on malformed streams,
 mixed up bytes shuffled in uneven runs, dropped the data of profiles without
 tags and kept partial profiles

---
 bundle/image_header.go | 73 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 10 deletions(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index ecfb050..c038463 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -86,8 +86,10 @@ var (
 		"desc", "chrm", "dmnd", "dmdd", "lumi",
 	}
 
-	MNTRGB = []byte{'m', 'n', 't', 'r', 'R', 'G', 'B', ' ', 'X', 'Y', 'Z', ' '}
-	ACSP   = []byte{'a', 'c', 's', 'p'}
+	MNTRGB        = []byte{'m', 'n', 't', 'r', 'R', 'G', 'B', ' ', 'X', 'Y', 'Z', ' '}
+	errICCTooLong = errors.New("ICC profile longer than declared")
+
+	ACSP = []byte{'a', 'c', 's', 'p'}
 )
 
 type ImageHeader struct {
@@ -402,6 +404,16 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 		return nil, nil
 	}
 
+	icc, err := h.decodeICC()
+	if err != nil {
+		h.DecodedICC = nil // only partly decoded
+		return nil, err
+	}
+	return icc, nil
+}
+
+func (h *ImageHeader) decodeICC() ([]byte, error) {
+
 	commandReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC))
 	outputSize, err := commandReader.ReadICCVarint()
 	if err != nil {
@@ -413,11 +425,20 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 	}
 
 	commandStart := int32(commandReader.GetBitsCount() >> 3)
+	if commandSize < 0 || commandSize > int32(len(h.EncodedICC))-commandStart {
+		return nil, errors.New("ICC commands end outside the stream")
+	}
+	// a command byte becomes 36 bytes at most
+	if outputSize < 0 || int64(outputSize) > 36*int64(len(h.EncodedICC)) {
+		return nil, errors.New("invalid size of ICC profile")
+	}
 	dataStart := commandStart + commandSize
+	commandReader = jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC[commandStart:dataStart]))
 	dataReader := jxlio.NewBitStreamReader(bytes.NewReader(h.EncodedICC[dataStart:]))
 	headerSize := util.Min(128, outputSize)
 	h.DecodedICC = make([]byte, outputSize)
 	resultPos := int32(0)
+	hasRoom := func(n int32) bool { return n >= 0 && n <= outputSize-resultPos }
 
 	for i := int32(0); i < headerSize; i++ {
 		e, err := dataReader.ReadBits(8)
@@ -438,14 +459,17 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 	}
 	tagCount--
 
-	if tagCount >= 0 {
-		for i := 24; i >= 0; i -= 8 {
+	if tagCount >= -1 {
+		for i := 24; i >= 0 && tagCount >= 0; i -= 8 {
+			if !hasRoom(1) {
+				return nil, errICCTooLong
+			}
 			h.DecodedICC[resultPos] = byte(tagCount>>i) & 0xFF
 			resultPos++
 		}
 		prevTagStart := 128 + tagCount*12
 		prevTagSize := int32(0)
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
+		for tagCount >= 0 && !commandReader.AtEnd() {
 			command, err := commandReader.ReadBits(8)
 			if err != nil {
 				return nil, err
@@ -470,7 +494,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				tag = "rTRC"
 			} else if tagCode == 3 {
 				tag = "rXYZ"
-			} else if tagCode >= 4 && tagCode <= 21 {
+			} else if tagCode >= 4 && tagCode <= 20 {
 				tag = iccTags[tagCode-4]
 			} else {
 				return nil, errors.New("illegal ICC tag code")
@@ -511,6 +535,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			} else {
 				tags = []string{tag}
 			}
+			if !hasRoom(int32(12 * len(tags))) {
+				return nil, errICCTooLong
+			}
 			for _, wTag := range tags {
 				tcr = []byte(wTag)
 				for i := 0; i < 4; i++ {
@@ -531,7 +558,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			}
 		}
 
-		for !commandReader.AtEnd() && (commandReader.GetBitsCount()>>3) < uint64(dataStart) {
+		for !commandReader.AtEnd() {
 			command, err := commandReader.ReadBits(8)
 			if err != nil {
 				return nil, err
@@ -541,6 +568,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				if err != nil {
 					return nil, err
 				}
+				if !hasRoom(num) {
+					return nil, errICCTooLong
+				}
 				for i := 0; i < int(num); i++ {
 					dat, err := dataReader.ReadBits(8)
 					if err != nil {
@@ -554,6 +584,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				if err != nil {
 					return nil, err
 				}
+				if !hasRoom(num) {
+					return nil, errICCTooLong
+				}
 				b := make([]byte, num)
 				for p := 0; p < int(num); p++ {
 					dat, err := dataReader.ReadBits(8)
@@ -594,7 +627,7 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				} else {
 					stride = int32(width)
 				}
-				if stride*4 >= resultPos {
+				if int64(stride)*4 >= int64(resultPos) {
 					return nil, errors.New("stride too large")
 				}
 				if stride < int32(width) {
@@ -604,6 +637,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 				if err != nil {
 					return nil, err
 				}
+				if !hasRoom(num) {
+					return nil, errICCTooLong
+				}
 				b := make([]byte, num)
 				for p := 0; p < int(num); p++ {
 					dat, err := dataReader.ReadBits(8)
@@ -639,6 +675,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 					}
 				}
 			} else if command == 10 {
+				if !hasRoom(20) {
+					return nil, errICCTooLong
+				}
 				h.DecodedICC[resultPos] = 'X'
 				resultPos++
 				h.DecodedICC[resultPos] = 'Y'
@@ -659,6 +698,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			} else if command >= 16 && command < 24 {
 				s := []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}
 				trc := []byte(s[command-16])
+				if !hasRoom(8) {
+					return nil, errICCTooLong
+				}
 				for i := 0; i < 4; i++ {
 					h.DecodedICC[resultPos] = trc[i]
 					resultPos++
@@ -670,6 +712,9 @@ func (h *ImageHeader) GetDecodedICC() ([]byte, error) {
 			}
 		}
 	}
+	if resultPos != outputSize {
+		return nil, errors.New("ICC profile shorter than declared")
+	}
 
 	return h.DecodedICC, nil
 }
@@ -678,8 +723,13 @@ func shuffle(buffer []byte, width int32) []byte {
 
 	height := int32(util.CeilDiv(uint32(len(buffer)), uint32(width)))
 	result := make([]byte, len(buffer))
-	for i := int32(0); i < int32(len(buffer)); i++ {
-		result[(i%height)*width+(i/height)] = buffer[i]
+	start, j := int32(0), int32(0)
+	for i := range result {
+		result[i] = buffer[j]
+		if j += height; j >= int32(len(buffer)) {
+			start++
+			j = start
+		}
 	}
 	return result
 }
@@ -933,6 +983,9 @@ func (h *ImageHeader) GetICCPrediction(buffer []byte, i int32) int32 {
 	if i >= 36 && i <= 39 {
 		return int32(ACSP[i-36])
 	}
+	if i <= 40 {
+		return 0
+	}
 	if buffer[40] == 'A' {
 		if i == 41 || i == 42 {
 			return 'P'
-- 
2.43.0


From 9983ababa0f5e55f732b72b4de174b0555b1a1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 51/76] fix: ICC varints above 2^31-1 were cut off instead of
 refused

---
 jxlio/bitreader.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jxlio/bitreader.go b/jxlio/bitreader.go
index 3602477..848b645 100644
--- a/jxlio/bitreader.go
+++ b/jxlio/bitreader.go
@@ -258,18 +258,21 @@ func (br *BitStreamReader) ReadF16() (float32, error) {
 }
 
 func (br *BitStreamReader) ReadICCVarint() (int32, error) {
-	value := int32(0)
+	value := uint64(0)
 	for shift := 0; shift < 63; shift += 7 {
 		b, err := br.ReadBits(8)
 		if err != nil {
 			return 0, err
 		}
-		value |= int32(b) & 127 << shift
+		value |= b & 127 << shift
 		if b <= 127 {
 			break
 		}
 	}
-	return value, nil
+	if value > math.MaxInt32 {
+		return 0, errors.New("ICC varint too large")
+	}
+	return int32(value), nil
 }
 
 func (br *BitStreamReader) ReadU32(c0 int, u0 int, c1 int, u1 int, c2 int, u2 int, c3 int, u3 int) (uint32, error) {
-- 
2.43.0


From 68343c125efbbf3429331ccdb105c6b8e81524db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 52/76] fix: header-only queries gave the size before
 orientation and another colour model than the image, and the image package
 could not decode files at all

---
 reader.go | 57 +++++++++++++++++++++++++++++--------------------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/reader.go b/reader.go
index c13f603..7e1158e 100644
--- a/reader.go
+++ b/reader.go
@@ -1,35 +1,48 @@
 package jxl_go
 
 import (
-	"errors"
+	"bytes"
 	"image"
 	color2 "image/color"
 	"io"
 
-	"github.com/kpfaulkner/jxl-go/colour"
 	"github.com/kpfaulkner/jxl-go/core"
 )
 
-const jxlHeader = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
+const (
+	jxlHeader        = "\x00\x00\x00\x0C\x4A\x58\x4C\x20\x0D\x0A\x87\x0A"
+	codestreamHeader = "\xFF\x0A"
+)
 
 func init() {
 	image.RegisterFormat("jxl", jxlHeader, Decode, DecodeConfig)
+	image.RegisterFormat("jxl", codestreamHeader, Decode, DecodeConfig)
 }
 
-func Decode(r io.Reader) (image.Image, error) {
+// asReadSeeker reads r to its end if it cannot seek. The image package always
+// passes readers that cannot.
+func asReadSeeker(r io.Reader) (io.ReadSeeker, error) {
+	if rs, ok := r.(io.ReadSeeker); ok {
+		return rs, nil
+	}
+	data, err := io.ReadAll(r)
+	if err != nil {
+		return nil, err
+	}
+	return bytes.NewReader(data), nil
+}
 
-	var rs io.ReadSeeker
-	var ok bool
+func Decode(r io.Reader) (image.Image, error) {
 
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return nil, errors.New("required ReadSeeker")
+	rs, err := asReadSeeker(r)
+	if err != nil {
+		return nil, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
 
 	var img image.Image
 	var jxlImg *core.JXLImage
-	var err error
 	if jxlImg, err = jxl.Decode(); err != nil {
 		return nil, err
 	}
@@ -41,11 +54,9 @@ func Decode(r io.Reader) (image.Image, error) {
 }
 
 func DecodeConfig(r io.Reader) (image.Config, error) {
-	var rs io.ReadSeeker
-	var ok bool
-
-	if rs, ok = r.(io.ReadSeeker); !ok {
-		return image.Config{}, errors.New("required ReadSeeker")
+	rs, err := asReadSeeker(r)
+	if err != nil {
+		return image.Config{}, err
 	}
 
 	jxl := core.NewJXLDecoder(rs, nil)
@@ -54,24 +65,16 @@ func DecodeConfig(r io.Reader) (image.Config, error) {
 		return image.Config{}, err
 	}
 
-	var colourModel color2.Model
-
-	switch header.GetColourModel() {
-	case colour.CE_RGB:
-		colourModel = color2.RGBAModel
-	case colour.CE_XYB:
-		colourModel = color2.GrayModel // unsure how to deal with XYB
-	case colour.CE_GRAY:
+	// the model of what Decode returns
+	colourModel := color2.NRGBAModel
+	if header.GetColourChannelCount() == 1 && !header.HasAlpha() {
 		colourModel = color2.GrayModel
-	default:
-		colourModel = color2.RGBAModel
 	}
 
-	dim := header.GetSize()
 	return image.Config{
 		ColorModel: colourModel,
-		Width:      int(dim.Width),
-		Height:     int(dim.Height),
+		Width:      int(header.OrientedWidth),
+		Height:     int(header.OrientedHeight),
 	}, nil
 
 }
-- 
2.43.0


From b78fc476201303bf8c636d7257b2908f94754232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 53/76] fix: the second lossy image of a size came out black:
 the samples of a frame were returned to the buffer pool

---
 frame/Frame.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 66427ea..57af63e 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -779,8 +779,7 @@ func (f *Frame) decodePassGroupsConcurrent() error {
 	if f.Header.Encoding == VARDCT {
 
 		// get floating point version of frame buffer
-		buffers := util.MakeMatrix3DPooled[float32](3, 0, 0)
-		defer util.ReturnMatrix3DToPool(buffers)
+		buffers := util.MakeMatrix3D[float32](3, 0, 0)
 		for c := 0; c < 3; c++ {
 			if err := f.Buffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
 				return err
-- 
2.43.0


From a11b2334702991e3eb06f8ff89f9c88271206f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 54/76] fix: buffer pools handed out matrices of another shape
 after one with rows of different lengths was returned

---
 util/buffer_pool.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/util/buffer_pool.go b/util/buffer_pool.go
index 7a04344..ed218a0 100644
--- a/util/buffer_pool.go
+++ b/util/buffer_pool.go
@@ -27,6 +27,20 @@ var (
 	int32Pool2D   = &Matrix2DPool[int32]{pools: make(map[poolKey2D]*sync.Pool)}
 )
 
+// isUniform tells if all of the matrix has the given size: the pools are keyed by size, and what
+// they hand out must have it throughout
+func isUniform[T any](matrix [][]T, height int, width int) bool {
+	if len(matrix) != height {
+		return false
+	}
+	for i := range matrix {
+		if len(matrix[i]) != width {
+			return false
+		}
+	}
+	return true
+}
+
 // Get retrieves a matrix from the pool or creates a new one
 func (p *Matrix3DPool[T]) Get(depth, height, width int) [][][]T {
 	if depth == 0 || height == 0 || width == 0 {
@@ -79,6 +93,11 @@ func (p *Matrix3DPool[T]) Put(matrix [][][]T) {
 	}
 
 	width := len(matrix[0][0])
+	for i := range matrix {
+		if !isUniform(matrix[i], height, width) {
+			return
+		}
+	}
 	key := poolKey3D{d: depth, h: height, w: width}
 
 	p.mu.RLock()
@@ -160,6 +179,9 @@ func (p *Matrix2DPool[T]) Put(matrix [][]T) {
 
 	height := len(matrix)
 	width := len(matrix[0])
+	if !isUniform(matrix, height, width) {
+		return
+	}
 	key := poolKey2D{h: height, w: width}
 
 	p.mu.RLock()
-- 
2.43.0


From e3874326d1e99936ccbc8059148f174e31ba87bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:02 +0000
Subject: [PATCH 55/76] fix: unsupported lossy features ended the process
 instead of being refused

---
 core/jxl_codestream_decoder.go | 2 +-
 frame/PassGroup.go             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 0310c52..6e68e44 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -210,7 +210,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 			}
 
 			if header.Encoding == frame.VARDCT && jxl.options.RenderVarblocks {
-				panic("VARDCT not implemented yet")
+				return nil, errors.New("rendering varblocks not implemented yet")
 			}
 
 			if header.FrameType == frame.REGULAR_FRAME || header.FrameType == frame.SKIP_PROGRESSIVE {
diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 29a3b34..8784908 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -109,7 +109,7 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 
 	header := g.frame.Header
 	if prev != nil {
-		panic("not implemented")
+		return errors.New("progressive VarDCT not implemented")
 	}
 
 	// differs from jxlatte
@@ -264,7 +264,7 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				panic("not implemented")
+				return errors.New("transform not implemented")
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From d1f6aca7d056d77d79e24bf4baa526d31d66e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:12 +0000
Subject: [PATCH 56/76] fix: varblocks that cross the border of their group
 panicked instead of being refused

---
 frame/hfmetadata.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/frame/hfmetadata.go b/frame/hfmetadata.go
index 2250543..f372041 100644
--- a/frame/hfmetadata.go
+++ b/frame/hfmetadata.go
@@ -98,6 +98,11 @@ outerY:
 				X: x,
 				Y: y,
 			}
+			// blocks stay within the LF group and do not cross the borders of the groups
+			if y+block.dctSelectHeight > int32(len(m.dctSelect)) ||
+				x&31+block.dctSelectWidth > 32 || y&31+block.dctSelectHeight > 32 {
+				return util.Point{}, errors.New("block crosses the border of its group")
+			}
 			//m.hfMultiplier[y][x] = mul
 			for iy := int32(0); iy < block.dctSelectHeight; iy++ {
 				for f := x; f < x+block.dctSelectWidth; f++ {
-- 
2.43.0


From 68532150311dabdb48fa1eda58164614f522e090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 57/76] fix: a coefficient count beyond the size of its
 varblock panicked instead of being refused

---
 frame/HFCoefficients.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 14f4207..142978d 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -108,6 +108,9 @@ func NewHFCoefficientsWithReader(reader jxlio.BitReader, frame Framer, pass uint
 			if err != nil {
 				return nil, err
 			}
+			if nonZero < 0 || nonZero > 63*numBlocks {
+				return nil, errors.New("more coefficients than the block has")
+			}
 			nz := nonZeros[c]
 			for iy := int32(0); iy < tt.dctSelectHeight; iy++ {
 				for ix := int32(0); ix < tt.dctSelectWidth; ix++ {
-- 
2.43.0


From 38478ee599a2ecec51528c8dfb4b1c5908beaa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:31 +0000
Subject: [PATCH 58/76] fix: decoding again with the same decoder blended with
 the reference frames of the time before

---
 core/jxl_codestream_decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 6e68e44..275239d 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -101,6 +101,9 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 	}
 	jxl.imageHeader = imageHeader
 	jxl.canvas = make([]image2.ImageBuffer, imageHeader.GetColourChannelCount()+len(imageHeader.ExtraChannelInfo))
+	// nothing stays from what was decoded before
+	jxl.lfBuffer = make([][]image2.ImageBuffer, 5)
+	jxl.reference = make([][]image2.ImageBuffer, 4)
 	if imageHeader.AnimationHeader != nil {
 		return nil, errors.New("animation not implemented")
 	}
-- 
2.43.0


From 94a2398d24e4ab41055ba96056985269d36867ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:15 +0000
Subject: [PATCH 59/76] fix: a refused conversion to integers still marked the
 buffer as integer

---
 image/imagebuffer.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/image/imagebuffer.go b/image/imagebuffer.go
index b1b62d9..c505bca 100644
--- a/image/imagebuffer.go
+++ b/image/imagebuffer.go
@@ -192,9 +192,7 @@ func (ib *ImageBuffer) CastToIntIfMax(maxValue int32) error {
 		return nil
 	}
 
-	err := ib.castToIntBuffer(maxValue)
-	ib.BufferType = TYPE_INT
-	return err
+	return ib.castToIntBuffer(maxValue)
 }
 
 func (ib *ImageBuffer) castToIntBuffer(maxValue int32) error {
-- 
2.43.0


From da1b7572ae96d2fe02bbcc7225678750c61ae96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 60/76] fix: the AFV transforms were all inverted in the
 orientation of the first

---
 frame/PassGroup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 8784908..893868c 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -318,10 +318,10 @@ func (g *PassGroup) invertAFV(coeffs [][]float32, buffer [][]float32, tt *Transf
 
 	var flipX int32
 	var flipY int32
-	if tt == AFV2 || tt == AFV3 {
+	if tt.ttType == AFV2.ttType || tt.ttType == AFV3.ttType {
 		flipY = 1
 	}
-	if tt == AFV1 || tt == AFV3 {
+	if tt.ttType == AFV1.ttType || tt.ttType == AFV3.ttType {
 		flipX = 1
 	}
 	totalSample := float32(0)
-- 
2.43.0


From b2566cb0053eed9d43516ac18639df96ae11a5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 61/76] fix: quantization weights of the AFV transform were
 transposed and interpolated on the wrong scale

---
 frame/HFGlobal.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 2b8797c..33c1af1 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -638,8 +638,8 @@ func (hfg *HFGlobal) getAFVTransformWeights(index int, c int) ([][]float32, erro
 			if x < 2 && y < 2 {
 				continue
 			}
-			pos := (afvFreqs[y*4+x] - low) / (high - low)
-			weight[2*x][2*y] = interpolate(float32(pos), bands)
+			pos := (afvFreqs[y*4+x] - low) / (high - low) * float64(len(bands)-1)
+			weight[2*y][2*x] = interpolate(float32(pos), bands)
 		}
 		for x := 0; x < 8; x++ {
 			if x == 0 && y == 0 {
-- 
2.43.0


From dd52130f7df2caf7dd840cac5ae3320fcc83c8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 62/76] fix: LF chroma from luma factors under 128 became huge

---
 frame/lfcoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index 422b263..a449650 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -91,8 +91,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 
 		// TOOD(kpfaulkner) investigate what this really does.
 		lfc := frame.getLFGlobal().lfChanCorr
-		kX := lfc.baseCorrelationX + float32(lfc.xFactorLF-128)/float32(lfc.colorFactor)
-		kB := lfc.baseCorrelationB + float32(lfc.bFactorLF-128)/float32(lfc.colorFactor)
+		kX := lfc.baseCorrelationX + (float32(lfc.xFactorLF)-128)/float32(lfc.colorFactor)
+		kB := lfc.baseCorrelationB + (float32(lfc.bFactorLF)-128)/float32(lfc.colorFactor)
 		dqLFY := dequantLFCoeff[1]
 		dqLFX := dequantLFCoeff[0]
 		dqLFB := dequantLFCoeff[2]
-- 
2.43.0


From 0dc14eb2349cdc5b23a4091d6571878bc9e9f675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 63/76] fix: the product of the global scale and the LF
 quantizer overflowed

---
 frame/LFGlobal.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/LFGlobal.go b/frame/LFGlobal.go
index 3c3c73a..36d3eb0 100644
--- a/frame/LFGlobal.go
+++ b/frame/LFGlobal.go
@@ -109,7 +109,7 @@ func NewLFGlobalWithReader(reader jxlio.BitReader, parent Framer, hfBlockContext
 		}
 		lf.quantLF = int32(quantLF)
 		for i := 0; i < 3; i++ {
-			lf.scaledDequant[i] = (1 << 16) * lf.lfDequant[i] / float32(lf.globalScale*lf.quantLF)
+			lf.scaledDequant[i] = (1 << 16) * lf.lfDequant[i] / (float32(lf.globalScale) * float32(lf.quantLF))
 		}
 		lf.hfBlockCtx, err = hfBlockContextFunc(reader, entropy.ReadClusterMap)
 		if err != nil {
-- 
2.43.0


From 2b8bc5d95cd6e14e09dcba5a9c8bfac26afc6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 64/76] fix: blocks placed before the corner of their colour
 tile got no chroma from luma

---
 frame/HFCoefficients.go | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index 142978d..d14ef8c 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -346,8 +346,6 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 	lfc := hf.frame.getLFGlobal().lfChanCorr
 	xFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[0]
 	bFactorHF := hf.lfg.hfMetadata.hfStreamBuffer[1]
-	xFactors := util.MakeMatrix2D[float32](len(xFactorHF), len(xFactorHF[0]))
-	bFactors := util.MakeMatrix2D[float32](len(bFactorHF), len(bFactorHF[0]))
 
 	// Cache the float32 conversion outside the loops to avoid per-pixel conversion
 	invColorFactor := 1.0 / float32(lfc.colorFactor)
@@ -365,25 +363,13 @@ func (hf *HFCoefficients) chromaFromLuma() error {
 		for iy := int32(0); iy < tt.pixelHeight; iy++ {
 			y := pPosY + iy
 			fy := y >> 6
-			by := fy<<6 == y
-			xF := xFactors[fy]
-			bF := bFactors[fy]
 			hfX := xFactorHF[fy]
 			hfB := bFactorHF[fy]
 			for ix := int32(0); ix < tt.pixelWidth; ix++ {
 				x := pPosX + ix
 				fx := x >> 6
-				var kX float32
-				var kB float32
-				if by && fx<<6 == x {
-					kX = baseCorrelationX + float32(hfX[fx])*invColorFactor
-					kB = baseCorrelationB + float32(hfB[fx])*invColorFactor
-					xF[fx] = kX
-					bF[fx] = kB
-				} else {
-					kX = xF[fx]
-					kB = bF[fx]
-				}
+				kX := baseCorrelationX + float32(hfX[fx])*invColorFactor
+				kB := baseCorrelationB + float32(hfB[fx])*invColorFactor
 				dequantY := hf.dequantHFCoeff[1][y&0xFF][x&0xFF]
 				hf.dequantHFCoeff[0][y&0xFF][x&0xFF] += kX * dequantY
 				hf.dequantHFCoeff[2][y&0xFF][x&0xFF] += kB * dequantY
-- 
2.43.0


From 3fb91c3fdecaf77f5f0027b2dc6fd328d770ec6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 65/76] fix: the 4x4 DCT was refused as not implemented

---
 frame/PassGroup.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/frame/PassGroup.go b/frame/PassGroup.go
index 893868c..2d8628f 100644
--- a/frame/PassGroup.go
+++ b/frame/PassGroup.go
@@ -264,7 +264,29 @@ func (g *PassGroup) invertVarDCT(frameBuffer [][][]float32, prev *PassGroup) err
 				}
 				layBlock(scratchBlock[0], frameBuffer[c], util.ZERO, ppf, tt.getPixelSize())
 			case METHOD_DCT4:
-				return errors.New("transform not implemented")
+				g.auxDCT2(coeffs[c], scratchBlock[1], ppg, util.ZERO, 2)
+				for y := int32(0); y < 2; y++ {
+					for x := int32(0); x < 2; x++ {
+						scratchBlock[0][0][0] = scratchBlock[1][y][x]
+						for iy := int32(0); iy < 4; iy++ {
+							startX := int32(0)
+							if iy == 0 {
+								startX = 1
+							}
+							for ix := startX; ix < 4; ix++ {
+								scratchBlock[0][iy][ix] = coeffs[c][ppg.Y+y+iy*2][ppg.X+x+ix*2]
+							}
+						}
+						ppf2 := util.Point{
+							X: ppf.X + x<<2,
+							Y: ppf.Y + y<<2,
+						}
+						if err := util.InverseDCT2D(scratchBlock[0], frameBuffer[c], util.ZERO, ppf2,
+							util.Dimension{Height: 4, Width: 4}, scratchBlock[2], scratchBlock[3], true); err != nil {
+							return err
+						}
+					}
+				}
 			default:
 				return errors.New("transform not implemented")
 			}
-- 
2.43.0


From 4c98bd2fca1ab161191fb5259247bfe56f2545e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:30 +0000
Subject: [PATCH 66/76] fix: quantization tables of the 4x8 DCT mode were
 refused

---
 frame/HFGlobal.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/frame/HFGlobal.go b/frame/HFGlobal.go
index 33c1af1..231fc4c 100644
--- a/frame/HFGlobal.go
+++ b/frame/HFGlobal.go
@@ -350,6 +350,20 @@ func (hfg *HFGlobal) setupDCTParam(reader jxlio.BitReader, frame *Frame, index i
 			return err
 		}
 		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4, denominator: 1, params4x4: nil}
+	case MODE_DCT4_8:
+		m := util.MakeMatrix2D[float32](3, 1)
+		for y := int32(0); y < 3; y++ {
+			mm, err := reader.ReadF16()
+			if err != nil {
+				return err
+			}
+			m[y][0] = mm
+		}
+		dctParam, err := hfg.readDCTParams(reader)
+		if err != nil {
+			return err
+		}
+		hfg.params[index] = DCTParam{dctParam: dctParam, param: m, mode: MODE_DCT4_8, denominator: 1, params4x4: nil}
 	case MODE_DCT:
 		dctParam, err := hfg.readDCTParams(reader)
 		if err != nil {
-- 
2.43.0


From 8932e20931aeb94cf393154049a7cc8fb0f8c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:24 +0000
Subject: [PATCH 67/76] fix: quantizer scales under 2 of the X and B channels
 removed their coefficients

---
 frame/HFCoefficients.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/HFCoefficients.go b/frame/HFCoefficients.go
index d14ef8c..7744219 100644
--- a/frame/HFCoefficients.go
+++ b/frame/HFCoefficients.go
@@ -270,9 +270,9 @@ func (hf *HFCoefficients) dequantizeHFCoefficients() error {
 	header := hf.frame.getFrameHeader()
 	globalScale := 65536.0 / float32(hf.frame.getLFGlobal().globalScale)
 	scaleFactor := [3]float32{
-		globalScale * float32(math.Pow(0.8, float64(header.xqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(header.xqmScale)-2)),
 		globalScale,
-		globalScale * float32(math.Pow(0.8, float64(header.bqmScale-2))),
+		globalScale * float32(math.Pow(0.8, float64(header.bqmScale)-2)),
 	}
 	weights := hf.frame.getHFGlobal().weights
 	qbclut := [][]float32{
-- 
2.43.0


From e1838761e2ad9b867bff47a980f69e9796ab9eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 68/76] fix: extra channels of a lower resolution were read at
 the size of the colour channels

---
 frame/Frame.go         | 26 +++++++++++++++++---------
 frame/FrameHeader.go   | 10 ++++++++++
 frame/ModularStream.go |  9 +++++----
 3 files changed, 32 insertions(+), 13 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 57af63e..fc3619b 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -375,6 +375,10 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		if c < 3 && c < f.GetColourChannelCount() {
 			channelSize.Height >>= f.Header.jpegUpsamplingY[c]
 			channelSize.Width >>= f.Header.jpegUpsamplingX[c]
+		} else if ec := c - numColours; ec >= 0 {
+			shift := f.Header.extraChannelShift(ec, f.GlobalMetadata.ExtraChannelInfo[ec].DimShift)
+			channelSize.Height = util.CeilDiv(channelSize.Height, 1<<shift)
+			channelSize.Width = util.CeilDiv(channelSize.Width, 1<<shift)
 		}
 		var isFloat bool
 		if c < f.GetColourChannelCount() {
@@ -450,26 +454,27 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 			scaleFactor = 1.0
 		}
 
+		samples := modularBuffer[cIn]
 		if isModularXYB && cIn == 2 {
 			outBuffer := f.Buffer[cOut].FloatBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
-					outBuffer[y][x] = scaleFactor * float32(modularBuffer[0][y][x]+modularBuffer[2][y][x])
+			for y := range samples {
+				for x := range samples[y] {
+					outBuffer[y][x] = scaleFactor * float32(modularBuffer[0][y][x]+samples[y][x])
 				}
 			}
 		} else if f.Buffer[cOut].IsFloat() {
 
 			outBuffer := f.Buffer[cOut].FloatBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
-				for x := uint32(0); x < f.Header.Bounds.Size.Width; x++ {
-					outBuffer[y][x] = scaleFactor * float32(modularBuffer[cIn][y][x])
+			for y := range samples {
+				for x := range samples[y] {
+					outBuffer[y][x] = scaleFactor * float32(samples[y][x])
 				}
 			}
 		} else {
 			outBuffer := f.Buffer[cOut].IntBuffer
-			for y := uint32(0); y < f.Header.Bounds.Size.Height; y++ {
+			for y := range samples {
 				// integer samples are not scaled: a float32 cannot hold all of them
-				copy(outBuffer[y], modularBuffer[cIn][y][:f.Header.Bounds.Size.Width])
+				copy(outBuffer[y], samples[y])
 			}
 		}
 	}
@@ -1459,11 +1464,14 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 	if c < colour {
 		k = f.Header.Upsampling
 	} else {
-		k = f.Header.EcUpsampling[c-colour]
+		k = f.Header.EcUpsampling[c-colour] << f.GlobalMetadata.ExtraChannelInfo[c-colour].DimShift
 	}
 	if k == 1 {
 		return &ib, nil
 	}
+	if k > 8 {
+		return nil, errors.New("invalid upsampling")
+	}
 
 	var depth uint32
 	if c < colour {
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index b4f192a..e8bb87e 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -3,6 +3,7 @@ package frame
 import (
 	"errors"
 	"fmt"
+	"math/bits"
 
 	"github.com/kpfaulkner/jxl-go/bundle"
 	"github.com/kpfaulkner/jxl-go/jxlio"
@@ -421,6 +422,15 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	return fh, nil
 }
 
+// extraChannelShift returns by how many powers of two the samples of an extra channel are
+// coarser than those of the colour channels.
+func (fh *FrameHeader) extraChannelShift(extra int, dimShift int32) int32 {
+	if extra >= len(fh.EcUpsampling) {
+		return dimShift
+	}
+	return dimShift + int32(bits.Len32(fh.EcUpsampling[extra])) - int32(bits.Len32(fh.Upsampling))
+}
+
 // checkAlphaChannels verifies that the alpha channels used for blending exist
 func (fh *FrameHeader) checkAlphaChannels() error {
 	if len(fh.EcBlendingInfo) == 0 {
diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index 4f804b0..f165c11 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -241,10 +241,11 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 		for i := 0; i < channelCount; i++ {
 			size := frame.getFrameHeader().Bounds.Size
 			var dimShift int32
-			if i < ecStart {
-				dimShift = 0
-			} else {
-				dimShift = frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift
+			if i >= ecStart {
+				// extra channels may have a lower resolution than the colour channels
+				dimShift = frame.getFrameHeader().extraChannelShift(i-ecStart, frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift)
+				size.Height = util.CeilDiv(size.Height, 1<<dimShift)
+				size.Width = util.CeilDiv(size.Width, 1<<dimShift)
 			}
 			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
 		}
-- 
2.43.0


From 6da2cc1116073e627a7b7e163311b0dfea62824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:30 +0000
Subject: [PATCH 69/76] fix: enlarged samples below zero were raised to it

---
 frame/Frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index fc3619b..e0bf735 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1525,7 +1525,7 @@ func (f *Frame) performUpsampling(ib image.ImageBuffer, c int) (*image.ImageBuff
 							weights := upWeights[ky][kx]
 							total := float32(0.0)
 							min := float32(math.MaxFloat32)
-							max := float32(math.SmallestNonzeroFloat32)
+							max := float32(-math.MaxFloat32)
 							for iy := 0; iy < 5; iy++ {
 								for ix := 0; ix < 5; ix++ {
 									newY := util.MirrorCoordinate(int32(y)+int32(iy)-2, int32(len(buffer)))
-- 
2.43.0


From 576fdc108b16fc7cbee5be0e4050531d6ee04caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:29 +0000
Subject: [PATCH 70/76] fix: enlarged frames were moved and kept what lies
 beyond their size

---
 core/jxl_codestream_decoder.go | 19 ++++++++++++++++++-
 frame/Frame.go                 |  8 +++-----
 frame/FrameHeader.go           |  4 ++++
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/core/jxl_codestream_decoder.go b/core/jxl_codestream_decoder.go
index 275239d..35748da 100644
--- a/core/jxl_codestream_decoder.go
+++ b/core/jxl_codestream_decoder.go
@@ -233,7 +233,7 @@ func (jxl *JXLCodestreamDecoder) decode() (*JXLImage, error) {
 					// such a frame is kept as it is, it is not part of the canvas
 					reference := make([]image2.ImageBuffer, len(jxl.canvas))
 					for c := range reference {
-						reference[c] = imgFrame.Buffer[jxl.frameChannel(imgFrame, int32(c))]
+						reference[c] = withoutPadding(imgFrame.Buffer[jxl.frameChannel(imgFrame, int32(c))], header.Bounds.Size)
 					}
 					jxl.reference[header.SaveAsReference] = reference
 				} else {
@@ -710,6 +710,23 @@ func (jxl *JXLCodestreamDecoder) performColourTransforms(matrix *colour.OpsinInv
 	return nil
 }
 
+// withoutPadding returns the part of a channel that belongs to a frame of the given size
+func withoutPadding(buffer image2.ImageBuffer, size util.Dimension) image2.ImageBuffer {
+	buffer.Height = min(buffer.Height, int32(size.Height))
+	buffer.Width = min(buffer.Width, int32(size.Width))
+	buffer.IntBuffer = cropRows(buffer.IntBuffer, buffer.Height, buffer.Width)
+	buffer.FloatBuffer = cropRows(buffer.FloatBuffer, buffer.Height, buffer.Width)
+	return buffer
+}
+
+func cropRows[T any](rows [][]T, height int32, width int32) [][]T {
+	result := make([][]T, min(len(rows), int(height)))
+	for y := range result {
+		result[y] = rows[y][:width]
+	}
+	return result
+}
+
 // frameChannel returns which channel of a frame belongs to channel c of the image: the frame
 // of a grey image has three colour channels if it is XYB encoded.
 func (jxl *JXLCodestreamDecoder) frameChannel(imgFrame *frame.Frame, c int32) int32 {
diff --git a/frame/Frame.go b/frame/Frame.go
index e0bf735..3f3f866 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -1445,11 +1445,9 @@ func (f *Frame) Upsample() error {
 			f.Buffer[c] = *buf
 		}
 	}
-	f.Header.Bounds.Size.Height *= f.Header.Upsampling
-	f.Header.Bounds.Size.Width *= f.Header.Upsampling
-
-	f.Header.Bounds.Origin.Y *= int32(f.Header.Upsampling)
-	f.Header.Bounds.Origin.X *= int32(f.Header.Upsampling)
+	// the position of a frame is given in samples of the image
+	f.Header.Bounds.Size.Height = f.Header.Bounds.Size.Height*f.Header.Upsampling - f.Header.excess.Height
+	f.Header.Bounds.Size.Width = f.Header.Bounds.Size.Width*f.Header.Upsampling - f.Header.excess.Width
 	f.groupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim)
 	f.lfGroupRowStride = util.CeilDiv(f.Header.Bounds.Size.Width, f.Header.groupDim<<3)
 	f.numGroups = f.groupRowStride * util.CeilDiv(f.Header.Bounds.Size.Height, f.Header.groupDim)
diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index e8bb87e..8b7d9f1 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -39,6 +39,7 @@ type FrameHeader struct {
 	jpegUpsamplingX   []int32
 	jpegUpsamplingY   []int32
 	EcUpsampling      []uint32
+	excess            util.Dimension // by how much the enlarged frame is larger than it should be
 	EcBlendingInfo    []BlendingInfo
 	name              string
 	Bounds            *util.Rectangle
@@ -287,8 +288,11 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 	fullFrame := fh.Bounds.Origin.Y <= 0 && fh.Bounds.Origin.X <= 0 &&
 		lowerCorner.Y >= int32(parent.Size.Height) && lowerCorner.X >= int32(parent.Size.Width)
 
+	full := fh.Bounds.Size
 	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, fh.Upsampling)
 	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, fh.Upsampling)
+	fh.excess.Height = fh.Bounds.Size.Height*fh.Upsampling - full.Height
+	fh.excess.Width = fh.Bounds.Size.Width*fh.Upsampling - full.Width
 	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<(3*fh.LfLevel))
 	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, 1<<(3*fh.LfLevel))
 
-- 
2.43.0


From 86f6436941a540f523195cfbfd84dd8605705373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:37 +0000
Subject: [PATCH 71/76] fix: extra channels of lossy frames were enlarged
 together with their padding

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 3f3f866..988e1cd 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -377,8 +377,8 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 			channelSize.Width >>= f.Header.jpegUpsamplingX[c]
 		} else if ec := c - numColours; ec >= 0 {
 			shift := f.Header.extraChannelShift(ec, f.GlobalMetadata.ExtraChannelInfo[ec].DimShift)
-			channelSize.Height = util.CeilDiv(channelSize.Height, 1<<shift)
-			channelSize.Width = util.CeilDiv(channelSize.Width, 1<<shift)
+			channelSize.Height = util.CeilDiv(f.Header.Bounds.Size.Height, 1<<shift)
+			channelSize.Width = util.CeilDiv(f.Header.Bounds.Size.Width, 1<<shift)
 		}
 		var isFloat bool
 		if c < f.GetColourChannelCount() {
-- 
2.43.0


From 9c1b8b523825fa4d62ece97446db38dd6178a990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 72/76] fix: grey frames coded in YCbCr have three colour
 channels

---
 frame/Frame.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frame/Frame.go b/frame/Frame.go
index 988e1cd..637b03f 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -514,7 +514,7 @@ func (f *Frame) IsVisible() bool {
 }
 
 func (f *Frame) GetColourChannelCount() int {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.DoYCbCr || f.Header.Encoding == VARDCT {
 		return 3
 	}
 	return f.GlobalMetadata.GetColourChannelCount()
@@ -1629,7 +1629,7 @@ func (f *Frame) getGroupSize(groupID int32) (util.Dimension, error) {
 }
 
 func (f *Frame) getColourChannelCount() int32 {
-	if f.GlobalMetadata.XybEncoded || f.Header.Encoding == VARDCT {
+	if f.GlobalMetadata.XybEncoded || f.Header.DoYCbCr || f.Header.Encoding == VARDCT {
 		return 3
 	}
 	return int32(f.GlobalMetadata.GetColourChannelCount())
-- 
2.43.0


From c2983f2ed2c7bdb0af1b1b586cee6fd92b0e7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:35 +0000
Subject: [PATCH 73/76] fix: the width of an image with height 2^28 and ratio
 16:9 wrapped around to 0

---
 bundle/image_header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bundle/image_header.go b/bundle/image_header.go
index c038463..ce8c68c 100644
--- a/bundle/image_header.go
+++ b/bundle/image_header.go
@@ -902,7 +902,7 @@ func getWidthFromRatio(ratio uint32, height uint32) (uint32, error) {
 	case 4:
 		return height * 3 / 2, nil
 	case 5:
-		return height * 16 / 9, nil
+		return uint32(uint64(height) * 16 / 9), nil
 	case 6:
 		return height * 5 / 4, nil
 	case 7:
-- 
2.43.0


From b127b712f757a1ee2325be81edd4a047a3d97ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:31 +0000
Subject: [PATCH 74/76] fix: frames with subsampled colours were made larger,
 and extra channels read at that size

---
 frame/FrameHeader.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/frame/FrameHeader.go b/frame/FrameHeader.go
index 8b7d9f1..73b673a 100644
--- a/frame/FrameHeader.go
+++ b/frame/FrameHeader.go
@@ -415,9 +415,6 @@ func NewFrameHeaderWithReader(reader jxlio.BitReader, parent *bundle.ImageHeader
 
 	maxJPY := util.Max(fh.jpegUpsamplingY...)
 	maxJPX := util.Max(fh.jpegUpsamplingX...)
-	fh.Bounds.Size.Height = util.CeilDiv(fh.Bounds.Size.Height, 1<<maxJPY) << maxJPY
-	fh.Bounds.Size.Width = util.CeilDiv(fh.Bounds.Size.Width, 1<<maxJPX) << maxJPX
-
 	for i := 0; i < 3; i++ {
 		fh.jpegUpsamplingY[i] = maxJPY - fh.jpegUpsamplingY[i]
 		fh.jpegUpsamplingX[i] = maxJPX - fh.jpegUpsamplingX[i]
-- 
2.43.0


From 1ffbea2ae2b966c3edfe836f216b39fcd0bee7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:31 +0000
Subject: [PATCH 75/76] fix: subsampled colours of modular frames were read at
 the full resolution

---
 frame/ModularStream.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/frame/ModularStream.go b/frame/ModularStream.go
index f165c11..c978158 100644
--- a/frame/ModularStream.go
+++ b/frame/ModularStream.go
@@ -240,14 +240,20 @@ func NewModularStreamWithChannels(reader jxlio.BitReader, frame Framer, streamIn
 	if len(channelArray) == 0 {
 		for i := 0; i < channelCount; i++ {
 			size := frame.getFrameHeader().Bounds.Size
-			var dimShift int32
+			var hshift, vshift int32
 			if i >= ecStart {
 				// extra channels may have a lower resolution than the colour channels
-				dimShift = frame.getFrameHeader().extraChannelShift(i-ecStart, frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift)
+				dimShift := frame.getFrameHeader().extraChannelShift(i-ecStart, frame.getGlobalMetadata().ExtraChannelInfo[i-ecStart].DimShift)
 				size.Height = util.CeilDiv(size.Height, 1<<dimShift)
 				size.Width = util.CeilDiv(size.Width, 1<<dimShift)
+				hshift, vshift = dimShift, dimShift
+			} else if i < 3 {
+				// so may the colour channels of YCbCr frames
+				hshift, vshift = frame.getFrameHeader().jpegUpsamplingX[i], frame.getFrameHeader().jpegUpsamplingY[i]
+				size.Height = util.CeilDiv(size.Height, 1<<vshift)
+				size.Width = util.CeilDiv(size.Width, 1<<hshift)
 			}
-			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), dimShift, dimShift, false))
+			ms.channels = append(ms.channels, NewModularChannelWithAllParams(int32(size.Height), int32(size.Width), vshift, hshift, false))
 		}
 	} else {
 		//ms.channels = append(ms.channels, channelArray...)
-- 
2.43.0


From 1e0bcb4ad4d6b7486b1366bff21bbf725bfdeeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:36 +0000
Subject: [PATCH 76/76] fix: low frequencies that come with an LF frame were
 read from the stream again

---
 frame/Frame.go          | 26 ++++++++++++++++++++++++++
 frame/lfcoefficients.go |  2 ++
 2 files changed, 28 insertions(+)

diff --git a/frame/Frame.go b/frame/Frame.go
index 637b03f..8a1aab6 100644
--- a/frame/Frame.go
+++ b/frame/Frame.go
@@ -398,6 +398,12 @@ func (f *Frame) DecodeFrame(lfBuffer []image.ImageBuffer, newLFGlobalWithReader
 		f.Buffer[c] = *buf
 	}
 
+	if f.Header.Encoding == VARDCT && f.Header.Flags&USE_LF_FRAME != 0 {
+		if err = f.prepareLFFrame(lfBuffer); err != nil {
+			return err
+		}
+	}
+
 	err = f.decodeLFGroups(lfBuffer)
 	if err != nil {
 		log.Errorf("Error decoding LFGroups %v", err)
@@ -553,6 +559,26 @@ func (f *Frame) GetPaddedFrameSize() (util.Dimension, error) {
 	}
 }
 
+// prepareLFFrame makes sure that the LF frame has a float sample for each block of this frame
+func (f *Frame) prepareLFFrame(lfBuffer []image.ImageBuffer) error {
+	paddedSize, err := f.GetPaddedFrameSize()
+	if err != nil {
+		return err
+	}
+	if len(lfBuffer) < 3 {
+		return errors.New("LF frame without colours")
+	}
+	for c := range lfBuffer[:3] {
+		if uint32(lfBuffer[c].Height) < paddedSize.Height>>3 || uint32(lfBuffer[c].Width) < paddedSize.Width>>3 {
+			return errors.New("LF frame is smaller than the frame that uses it")
+		}
+		if err = lfBuffer[c].CastToFloatIfMax(^(^0 << f.GlobalMetadata.BitDepth.BitsPerSample)); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (f *Frame) decodeLFGroups(lfBuffer []image.ImageBuffer) error {
 
 	// channels whose samples come with the LF groups
diff --git a/frame/lfcoefficients.go b/frame/lfcoefficients.go
index a449650..328b87f 100644
--- a/frame/lfcoefficients.go
+++ b/frame/lfcoefficients.go
@@ -55,6 +55,8 @@ func NewLFCoefficientsWithReader(reader jxlio.BitReader, parent *LFGroup, frame
 				}
 			}
 		}
+		// nothing is coded of low frequencies that come with another frame
+		return lf, nil
 	}
 
 	extraPrecision, err := reader.ReadBits(2)
-- 
2.43.0

