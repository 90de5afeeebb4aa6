From 3c5d858bc54be4adfca96f54a62bcdd611748cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 01/55] fix: areCompatible must compare the sample rates of the
 two records

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..87aded3 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -817,7 +817,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
-- 
2.43.0


From f0db6fc3dd41638ca6c70cf13915c11fac6b1957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:40 +0000
Subject: [PATCH 02/55] fix: keep record order when merging past records that
 cannot be decompressed

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 87aded3..e299a03 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -797,6 +797,10 @@ def readMSeed3Records(
                 else:
                     prev = mlist[0]
             else:
+                if prev is not None:
+                    # keep order, cannot merge past a non-decompressible record
+                    yield prev
+                    prev = None
                 yield ms3
         else:
             # failed match, can skip ahead to next record
-- 
2.43.0


From 8cd2145c81f8b2991f981bd3eee47b9f7112e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:08 +0000
Subject: [PATCH 03/55] fix: sample period of zero for unspecified (zero)
 sample rate instead of ZeroDivisionError

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index e299a03..e5e7422 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -183,7 +183,7 @@ class MSeed3Header:
         return (
             -1 * self.sampleRatePeriod
             if self.sampleRatePeriod < 0
-            else 1.0 / self.sampleRatePeriod
+            else (0.0 if self.sampleRatePeriod == 0 else 1.0 / self.sampleRatePeriod)
         )
 
     @samplePeriod.setter
-- 
2.43.0


From cd4229eaba02ffa9e9b0df036b2b27a6d92b89bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 04/55] fix: merge only the actual samples of each record, not
 padding after them

---
 src/simplemseed/mseed3.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index e5e7422..ae90772 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -10,6 +10,7 @@ import crc32c
 
 from .seedcodec import (
     canDecompress,
+    isPrimitiveCompression,
     decompress,
     encode,
     STEIM1,
@@ -856,15 +857,22 @@ def mseed3merge(ms3a: MSeed3Record, ms3b: MSeed3Record) -> list[MSeed3Record]:
     elif ms3a is None and ms3b is None:
         # maybe should raise instead???
         out = [None]
-    elif ms3a.header.encoding == 0 or ms3a.header.encoding > 5:
+    elif not isPrimitiveCompression(ms3a.header.encoding):
         # only primitve encoding currently are mergable
         pass
     elif areCompatible(ms3a, ms3b):
         header = ms3a.header.clone()
         header.numSamples += ms3b.header.numSamples
         encodedDataBytes = bytearray()
-        encodedDataBytes.extend(ms3a.encodedDataBytes())
-        encodedDataBytes.extend(ms3b.encodedDataBytes())
+        sampleSize = np.dtype(numpyDTFromMseed3Encoding(header.encoding)).itemsize
+        for ms3 in (ms3a, ms3b):
+            # only actual samples, payload may be longer than samples it contains
+            sampleBytes = ms3.encodedDataBytes()[: ms3.header.numSamples * sampleSize]
+            if len(sampleBytes) < ms3.header.numSamples * sampleSize:
+                raise Miniseed3Exception(
+                    f"Not enough bytes for {ms3.header.numSamples} samples, only {len(sampleBytes)} bytes."
+                )
+            encodedDataBytes.extend(sampleBytes)
         if ms3a.hasExtraHeaders():
             eh = json.loads(json.dumps(ms3a.eh))
         else:
-- 
2.43.0


From 52903d25e12b6ddbd15dd7dd0c78e7e0fdab9326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 05/55] fix: deleting extra headers must leave a usable record

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index ae90772..2b0f508 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -417,7 +417,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From 55e23513c4262934ca9d2530988511b19d13b6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:44 +0000
Subject: [PATCH 06/55] fix: big endian primitive EncodedDataSegment must be
 byte swapped for miniseed3

---
 src/simplemseed/mseed3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 2b0f508..e36f112 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -343,7 +343,11 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
-            self._data = data.dataBytes
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # primitive types are always little endian in miniseed3
+                self._data = data.decode().byteswap().tobytes()
+            else:
+                self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
         elif isinstance(data, (bytes, bytearray)):
-- 
2.43.0


From 57e0bd57c459ac50a6c76cb39761cbf75f8b2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 07/55] fix: check both ends of range when storing wide
 integers as 32 bit in miniseed3

---
 src/simplemseed/mseed3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index e36f112..da6506a 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -367,8 +367,11 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
-                    raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                if len(data) > 0 and (
+                    np.max(data) > np.iinfo(np.int32).max
+                    or np.min(data) < np.iinfo(np.int32).min
+                ):
+                    raise Miniseed3Exception(f"values of numpy array, {np.min(data)} to {np.max(data)}, cannot fit into 32 bit integer")
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
-- 
2.43.0


From 59d1d5ef91642b20f236536eb5f0d606c5a5e22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:48 +0000
Subject: [PATCH 08/55] fix: refuse non-integer list values for integer
 encodings instead of truncating

---
 src/simplemseed/miniseed.py | 2 ++
 src/simplemseed/mseed3.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..cfb8183 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -329,6 +329,8 @@ class MiniseedRecord:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if np.issubdtype(self._data.dtype, np.integer) and self._data.tolist() != data:
+                raise MiniseedException(f"list cannot be stored as integers without loss, encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
             byteorder = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index da6506a..60afaf8 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -385,6 +385,8 @@ class MSeed3Record:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if np.issubdtype(self._data.dtype, np.integer) and self._data.tolist() != data:
+                raise Miniseed3Exception(f"list cannot be stored as integers without loss, encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
         else:
-- 
2.43.0


From 86ab222bea09eb24fb78a98ae7360d86e838cbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 09/55] fix: refuse to pack extra headers that are not an
 object instead of dropping them

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 60afaf8..1dc6b47 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -553,7 +553,7 @@ class MSeed3Record:
         elif isinstance(self._eh, str):
             extraHeadersStr = self._eh
         else:
-            extraHeadersStr = ""
+            raise Miniseed3Exception(f"extra headers must be dict or str, but was {type(self._eh)}")
         extraHeadersBytes = extraHeadersStr.encode("UTF-8")
         self.header.extraHeadersLength = len(extraHeadersBytes)
         if self._data is None:
-- 
2.43.0


From 04c8708a718c801b3e5d206fec99faac1bd76cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:52 +0000
Subject: [PATCH 10/55] fix: Steim differences must be calculated as 32 bit
 whatever type the samples are

---
 src/simplemseed/steim1.py          | 19 ++-----------------
 src/simplemseed/steim2.py          | 20 ++------------------
 src/simplemseed/steimframeblock.py | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..33230f2 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -8,7 +8,7 @@ from .exceptions import (
     CodecException,
     SteimException,
 )
-from .steimframeblock import SteimFrameBlock
+from .steimframeblock import SteimFrameBlock, asInt32Samples
 from .steimframeblock import getUint32, getInt32
 
 #
@@ -204,8 +204,7 @@ def encodeSteim1FrameBlock(
     samples: Union[np.ndarray, list[int]], frames: int = 0, bias: np.int32 = 0, offset: int = 0
 ) -> SteimFrameBlock:
 
-    if len(samples) == 0:
-        raise SteimException("samples array is zero size")
+    samples = asInt32Samples(samples, 1)
 
     if frames < 0:
         raise SteimException("number of frames is a negative value")
@@ -218,20 +217,6 @@ def encodeSteim1FrameBlock(
             "Offset bigger than samples array: " + offset + " >= " + len(samples)
         )
 
-    # check if numpy array
-    if isinstance(samples, np.ndarray):
-        if len(np.shape(samples)) != 1:
-            raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
-
     # all encoding will be contained within a frame block
     # Steim encoding 1
     frameBlock = SteimFrameBlock(frames, 1)
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..64b0fb4 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -7,7 +7,7 @@ from .exceptions import (
     CodecException,
     SteimException,
 )
-from .steimframeblock import SteimFrameBlock
+from .steimframeblock import SteimFrameBlock, asInt32Samples
 from .steimframeblock import getUint32, getInt32
 
 
@@ -313,27 +313,11 @@ def encodeSteim2(samples: Union[np.ndarray, list[int]], frames: int = 0, bias: n
 def encodeSteim2FrameBlock(
     samples: Union[np.ndarray, list[int]], frames: int = 0, bias: np.int32 = 0
 ) -> SteimFrameBlock:
-    if len(samples) == 0:
-        raise SteimException("samples array is zero size")
+    samples = asInt32Samples(samples, 2)
 
     if frames < 0:
         raise SteimException("number of frames is  a negative value")
 
-    # check if numpy array
-    # check if numpy array
-    if isinstance(samples, np.ndarray):
-        if len(np.shape(samples)) != 1:
-            raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
-
     # all encoding will be contained within a frame block
     # Steim encoding 2
     frameBlock = SteimFrameBlock(frames, 2)
diff --git a/src/simplemseed/steimframeblock.py b/src/simplemseed/steimframeblock.py
index 098c40a..95cdec4 100644
--- a/src/simplemseed/steimframeblock.py
+++ b/src/simplemseed/steimframeblock.py
@@ -2,6 +2,8 @@ import struct
 
 import numpy as np
 
+from .exceptions import SteimException
+
 
 def getInt16(dataBytes, offset, littleEndian):
     endianChar = "<" if littleEndian else ">"
@@ -27,6 +29,28 @@ def getUint32(dataBytes, offset, littleEndian):
     return vals[0]
 
 
+def asInt32Samples(samples, steimVersion: int) -> np.ndarray:
+    """
+    Samples as a 1-d array of 32 bit integers.
+
+    Differences must be calculated as 32 bit, and never in a smaller type.
+    @throws SteimException samples are not integers that fit into 32 bits
+    """
+    try:
+        out = np.asarray(samples)
+    except ValueError as exc:
+        raise SteimException(f"samples not a one dimensional array: {exc}") from exc
+    if out.ndim != 1:
+        raise SteimException(f"numpy array not one dimensional: {np.shape(out)}")
+    if len(out) == 0:
+        raise SteimException("samples array is zero size")
+    if out.dtype.kind not in "iub":
+        raise SteimException(f"Cannot steim{steimVersion} compress non-integer samples: {out.dtype}")
+    if np.max(out) > np.iinfo(np.int32).max or np.min(out) < np.iinfo(np.int32).min:
+        raise SteimException(f"samples from {np.min(out)} to {np.max(out)} cannot fit into 32 bit integer")
+    return out.astype(np.int32)
+
+
 class SteimFrame:
     """
     This represents a single Steim compression frame.  It stores values
-- 
2.43.0


From 72c09a01eb2e54cef901e7f5f47af0f8f532ad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:54 +0000
Subject: [PATCH 11/55] fix: codec errors raised TypeError while formatting
 their message

---
 src/simplemseed/seedcodec.py | 2 +-
 src/simplemseed/steim1.py    | 4 ++--
 src/simplemseed/steim2.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..ecf82c0 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 33230f2..c72b9db 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -210,11 +210,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negatuve: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # all encoding will be contained within a frame block
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 64b0fb4..dcdf609 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -410,7 +410,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From 612c9a89f10822beb279d6285237b664769771b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:20 +0000
Subject: [PATCH 12/55] fix: Steim decoders must not use unused words of the
 first frame as differences

---
 src/simplemseed/steim1.py | 11 +++++------
 src/simplemseed/steim2.py | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index c72b9db..280e053 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -75,13 +75,12 @@ def decodeSteim1(
             #  end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
+            if current == 0 and bias == 0:
+                # if bias was zero, then we want the first sample to be X(0) constant
+                lastValue = start - tempSamples[j]  # X(-1) = X(0) - d(0)
             samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
@@ -141,8 +140,8 @@ def extractSteim1Samples(
         # switch (currNibble):
         if currNibble == 0:
             #  ("0 means header info")
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info if offset is 0, zero after that is unused word
+            if offset == 0 and i < 3:
                 temp.append(getInt32(dataBytes, offset + i * 4, False))
                 currNum += 1
         elif currNibble == 1:
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index dcdf609..350a63a 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -103,13 +103,12 @@ def decodeSteim2(
             # end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
+            if current == 0 and bias == 0:
+                # if bias was zero, then we want the first sample to be X(0) constant
+                lastValue = start - tempSamples[j]  # X(-1) = X(0) - d(0)
             samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
@@ -171,8 +170,8 @@ def extractSteim2Samples(
         # switch (currNibble):
         if currNibble == 0:
             # "0 means header info"
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info if offset is 0, zero after that is unused word
+            if offset == 0 and i < 3:
                 temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
                 currNum += 1
 
-- 
2.43.0


From f3709e71161685d7ef3a4f9de48201f1e20feba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:22 +0000
Subject: [PATCH 13/55] fix: setting extra headers must keep non-matching
 records and allow replacing all

---
 src/simplemseed/mseed3details.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..0f407fc 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -110,13 +111,18 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     setjson = json.loads(setval)
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
-    usePointer = len(setptr) > 1
+    usePointer = setptr not in ("", "/")
+    if not usePointer and not isinstance(setjson, dict):
+        raise ValueError(f"extra headers must be a json object: {setval}")
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                # read all, as records that do not match must be kept in file
+                for ms3 in readMSeed3Records(inms3file):
+                    matched = matchPat is None or matchPat.search(ms3.identifier)
+                    if matched and (looking or setall):
                         looking = False
                         # only set in first record
                         if usePointer:
@@ -124,6 +130,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
+                        ms3.eh = ehptr
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From 133cd1c916c958f0a7994cc729ef55671494a1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 14/55] fix: start time in a leap second (second is 60) raised
 ValueError

---
 src/simplemseed/miniseed.py | 3 +--
 src/simplemseed/mseed3.py   | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index cfb8183..0e15053 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -256,10 +256,9 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 1dc6b47..3a293ff 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -238,12 +238,11 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
             microsecond=int(self.nanosecond / 1000),
             tzinfo=timezone.utc,
         )
-        # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
+        # start Jan 1, so shift by dayOfYear minus 1, second may be 60 for leap second
+        doyMinusOne = timedelta(days=self.dayOfYear - 1, seconds=self.second)
         return st + doyMinusOne
 
     @starttime.setter
-- 
2.43.0


From e32b1204eac8dc455e8dab9542271339ee9a8a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:48 +0000
Subject: [PATCH 15/55] fix: miniseed2 sample rate factor and multiplier are
 signed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 0e15053..cc2fd76 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -574,7 +574,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From 755eae93b359a63b02db6ca92ae49f07a8055ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 16/55] fix: miniseed2 header pack dropped quality, flags and
 time correction

---
 src/simplemseed/miniseed.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index cc2fd76..031d1f3 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -162,7 +162,7 @@ class MiniseedHeader:
             header,
             0,
             seq,
-            b"D",
+            self.dataquality.ljust(1).encode("UTF-8"),
             b" ",
             sta,
             loc,
@@ -182,6 +182,15 @@ class MiniseedHeader:
             tempsampRateFactor,
             tempsampRateMult,
         )
+        struct.pack_into(
+            self.endianChar + "BBBxi",
+            header,
+            36,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.timeCorr,
+        )
         return header
 
     def calcSeedMultipilerFactor(self):
-- 
2.43.0


From 2f8506e79f080cacf9482c0fc55917765c114947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:53 +0000
Subject: [PATCH 17/55] fix: refuse miniseed2 codes too long for the header
 instead of truncating them

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 031d1f3..3be2636 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -157,6 +157,9 @@ class MiniseedHeader:
         loc = self.location.ljust(2).encode("UTF-8")
         chan = self.channel.ljust(3).encode("UTF-8")
         seq = ("%06d" % self.sequence_number).encode("UTF-8")
+        for val, size in ((net, 2), (sta, 5), (loc, 2), (chan, 3), (seq, 6)):
+            if len(val) > size:
+                raise MiniseedException(f"{val} too long for header field of {size} bytes")
         struct.pack_into(
             self.endianChar + "6scc5s2s3s2s",
             header,
-- 
2.43.0


From 301e6164f6d73d43183ebfd6b73e8231fe2dc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 18/55] fix: blockette 100 is 12 bytes with floating point
 rate, and blockette 100 and 1001 numbers

---
 src/simplemseed/miniseed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 3be2636..376a339 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -238,7 +238,7 @@ class MiniseedHeader:
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
         self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
+            microseconds=0 if self.sampleRate == 0 else MICRO / self.sampleRate
         )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
@@ -448,18 +448,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -502,7 +502,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
@@ -646,7 +646,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From 96a771910fa9ae3f7490804bc9ec5c235f8b3d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:11 +0000
Subject: [PATCH 19/55] fix: recalculate blockette chain and Steim data offset
 when packing miniseed2

---
 src/simplemseed/miniseed.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 376a339..cbaff63 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -412,11 +412,16 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
-        for b in self.blockettes:
-            offset = self.packBlockette(recordBytes, offset, b)
+        for i, b in enumerate(self.blockettes):
+            bOffset = offset
+            offset = self.packBlockette(recordBytes, bOffset, b)
+            # chain to next blockette, zero if last
+            nextOffset = offset if i < len(self.blockettes) - 1 else 0
+            struct.pack_into(self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset)
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2):
+            # steim frames start on 64 byte boundary
+            offset = (offset + 63) // 64 * 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None and self._data is None:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
-- 
2.43.0


From b59403ec2c6462047896fb8e5265f3fde1b7adea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:13 +0000
Subject: [PATCH 20/55] fix: refuse encoded data and blockettes that do not fit
 in the miniseed2 record

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index cbaff63..76ec4aa 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -422,8 +422,16 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2):
             # steim frames start on 64 byte boundary
             offset = (offset + 63) // 64 * 64
+        if offset > self.header.recordLength:
+            raise MiniseedException(
+                f"not enough bytes in record to fit blockettes: {self.header.recordLength:d} offset: {offset:d}"
+            )
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None and self._data is None:
+            if self.header.recordLength < offset + len(self.encodedDataBytes):
+                raise MiniseedException(
+                    f"not enough bytes in record to fit data: byte:{self.header.recordLength:d} offset: {offset:d} len(encoded): {len(self.encodedDataBytes):d}  enc:{self.header.encoding:d}"
+                )
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From ed6c5d16d04623b530f9a63962c0476e7d66ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:51 +0000
Subject: [PATCH 21/55] fix: decompressing a Steim miniseed2 record made it
 impossible to pack

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 76ec4aa..4eecea6 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -370,7 +370,7 @@ class MiniseedRecord:
         if self._data is not None:
             return self._data
         if self.encodedDataBytes is not None:
-            self._data = decompressEncodedData(
+            return decompressEncodedData(
                 self.header.encoding,
                 self.header.byteorder,
                 self.header.numSamples,
-- 
2.43.0


From 54f69dd48133f1c5a633c963500053e00d63e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:53 +0000
Subject: [PATCH 22/55] fix: refuse to pack miniseed2 sample rates that cannot
 be represented instead of writing zero

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 4eecea6..b42e22d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -177,6 +177,10 @@ class MiniseedHeader:
         tempsampRateMult = self.sampRateMult
         if self.sampleRate != 0 and self.sampRateFactor == 0 and self.sampRateMult == 0:
             tempsampRateFactor, tempsampRateMult = self.calcSeedMultipilerFactor()
+            if tempsampRateFactor == 0 or tempsampRateMult == 0:
+                raise MiniseedException(
+                    f"sample rate {self.sampleRate} cannot be represented as factor and multiplier"
+                )
         struct.pack_into(
             self.endianChar + "Hhh",
             header,
-- 
2.43.0


From f39f80dfc137e446086726790c32c0bf76bb293f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:55 +0000
Subject: [PATCH 23/55] fix: blockette 1000 byte order is for the data, not for
 the rest of the blockettes

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index b42e22d..6aee75a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -774,8 +774,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     blockettes.append(b)
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
+                        # byte order of data, header and blockettes may differ
                         header.byteorder = b.byteorder
-                        endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
-- 
2.43.0


From 0a31b0b10bd5cbedf7e103cdccda0f6cefb87050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:57 +0000
Subject: [PATCH 24/55] fix: first blockette may not be directly after the
 miniseed2 fixed header

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 6aee75a..0f2009a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -748,6 +748,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
             prevBOffset = blocketteNextOffset
+            if prevBOffset > numRecBytesRead:
+                # skip to first blockette
+                numRecBytesRead += len(fileptr.read(prevBOffset - numRecBytesRead))
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = fileptr.read(4)
-- 
2.43.0


From 3d0fc663f0f6f894c56fc0dd4b5f36aa25db17b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 25/55] fix: mseed2to3 must not byte swap already decompressed
 values

---
 src/simplemseed/mseed2to3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..ceea34a 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -53,7 +53,7 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2.encodedDataBytes is not None:
         if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
             # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
+            data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From c0ae645edce2977b72ca0100ed54a45f5fb95352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:22 +0000
Subject: [PATCH 26/55] fix: mseed2to3 flags mapping

---
 src/simplemseed/mseed2to3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index ceea34a..6b833bb 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        (ms2H.actFlag & 1)  # bit 0, calibration signals present
+        + ((ms2H.qualFlag >> 7) & 1) * 2  # bit 1, time tag is questionable
+        + ((ms2H.ioFlag >> 5) & 1) * 4  # bit 2, clock locked
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From 97725d1fd7ef301401f58e53c38426525c2cb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:24 +0000
Subject: [PATCH 27/55] fix: mseed2to3 start time lost or doubled blockette
 1001 microseconds

---
 src/simplemseed/mseed2to3.py | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 6b833bb..21ab697 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -30,7 +30,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.hour = ms2H.btime.hour
     ms3Header.minute = ms2H.btime.minute
     ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # includes microseconds from blockette 1001, btime only to tenth of milli
+    ms3Header.nanosecond = ms2H.starttime.microsecond * 1000
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -70,7 +71,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -78,31 +78,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From 7f611bf2e35c566c0afb8c35e91b5c2fc0df6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:26 +0000
Subject: [PATCH 28/55] fix: mseed2to3 tool failed as there is no version in
 args

---
 src/simplemseed/mseed2to3.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 21ab697..f723987 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -128,9 +128,7 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
+
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0


From 9ffc30757152ac9b1675a70d353d2c9347bdb937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:53 +0000
Subject: [PATCH 29/55] fix: mseed2to3 of a record without data

---
 src/simplemseed/mseed2to3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index f723987..d52d8c2 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -62,6 +62,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             data = ms2.encodedDataBytes
     else:
         data = ms2.decompressed()
+        if data is None and ms2H.numSamples == 0:
+            # record without data, but encoding is kept
+            data = bytes(0)
     identifier = FDSNSourceId.fromNslc(
         ms2H.network, ms2H.station, ms2H.location, ms2H.channel
     )
-- 
2.43.0


From 1a75a513c94e3a369f9feeb53a1b64c51b7c348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:56 +0000
Subject: [PATCH 30/55] fix: location code of None is the empty location in
 FDSNSourceId as in LocationSourceId

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..f7c812c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -149,6 +149,8 @@ class FDSNSourceId:
         else:
             self.networkCode = networkCode
         self.stationCode = stationCode
+        if locationCode is None:
+            locationCode = ""
         self.locationCode = locationCode
         self.bandCode = bandCode
         self.sourceCode = sourceCode
-- 
2.43.0


From 7b8e499a8c2b834df1c0ed940a71b10d09d3e3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:58 +0000
Subject: [PATCH 31/55] fix: source id codes allow only ascii digits

---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index f7c812c..7930f3f 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[0-9XYZ][A-Z0-9]")
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[0-9XYZ][A-Z0-9][0-9]{4}")
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z0-9]{1,4}[0-9]{4}")
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z0-9]{1,8}")
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z0-9-]{1,8}")
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z0-9-]{0,8}")
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z0-9]+") # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From 2ca08bdeb752e8be1b801aa8067caec97301b6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:00 +0000
Subject: [PATCH 32/55] fix: validate the band code of a source id

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 7930f3f..d74c632 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -272,6 +272,8 @@ class FDSNSourceId:
         if not valid:
             return (valid, reason)
         # band code allowed to be empty
+        if len(self.bandCode)>0 and not SOURCE_SUBSOURCE_VALID.fullmatch(self.bandCode):
+            return (False, f"BandCode code allowed chars only A-Z and 0-9, {self.bandCode}")
         if len(self.sourceCode) == 0:
             return (False, "Source code empty")
         if not SOURCE_SUBSOURCE_VALID.fullmatch(self.sourceCode):
-- 
2.43.0


From 4450f3d36276e812c02edc62d3b37b3095dbec94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:02 +0000
Subject: [PATCH 33/55] fix: response lower bound of exactly 10 seconds is
 broadband as in band code table

---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d74c632..2195596 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -564,19 +564,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From 643a1816d95782c0e397a5ef9a5090a3de74f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:05 +0000
Subject: [PATCH 34/55] fix: truncated record could be accepted as crc does not
 cover the length

---
 src/simplemseed/mseed3.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 3a293ff..85561b3 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -735,6 +735,10 @@ def unpackMSeed3Record(recordBytes, check_crc=True):
     if check_crc:
         crc = crc32c.crc32c(encodedDataBytes, crc)
     offset += ms3header.dataLength
+    if check_crc and len(recordBytes) < offset:
+        raise Miniseed3Exception(
+            f"Not enough bytes for record: {len(recordBytes)} < {offset}"
+        )
     if check_crc and ms3header.crc != crc:
         raise Miniseed3Exception(f"crc fail:  Calc: {crc}  Header: {ms3header.crc}")
     ms3Rec = MSeed3Record(
@@ -787,6 +791,13 @@ def readMSeed3Records(
             encodedDataBytes = fileptr.read(ms3header.dataLength)
             if check_crc:
                 crc = crc32c.crc32c(encodedDataBytes, crc)
+                if (
+                    len(identifierBytes) + len(ehBytes) + len(encodedDataBytes)
+                    < ms3header.recordSize() - FIXED_HEADER_SIZE
+                ):
+                    raise Miniseed3Exception(
+                        f"Not enough bytes for record: {ms3header.recordSize()}"
+                    )
                 if ms3header.crc != crc:
                     raise Miniseed3Exception(
                         f"crc fail:  Calc: {crc}  Header: {ms3header.crc}"
-- 
2.43.0


From 622436e838bcb8daa4ba86c61206a309a85f5941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:28 +0000
Subject: [PATCH 35/55] fix: start time drifted when packing a record read with
 100 or more microseconds in blockette 1001

---
 src/simplemseed/miniseed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 0f2009a..ce92678 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -404,6 +404,11 @@ class MiniseedRecord:
     def pack(self):
         recordBytes = bytearray(self.header.recordLength)
         recordBytes[0:48] = self.header.pack()
+        # microseconds in blockette 1001 are added to start time on read
+        micros = sum(b.microseconds for b in self.blockettes if type(b).__name__ == "Blockette1001")
+        self.header.packBTime(
+            recordBytes, self.header.starttime - timedelta(microseconds=micros)
+        )
 
         offset = 48
         struct.pack_into(self.header.endianChar + "H", recordBytes, 46, offset)
-- 
2.43.0


From b3835078ad99a999bcfbf1dba25cd8ed0f7b5237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 36/55] fix: miniSEED 2 end time from the sample rate, not from
 the period rounded to a microsecond

---
 src/simplemseed/miniseed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ce92678..ae3ee33 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -245,6 +245,12 @@ class MiniseedHeader:
             microseconds=0 if self.sampleRate == 0 else MICRO / self.sampleRate
         )  # Nominal sample period (Sec) */
 
+    def samplesDuration(self, numSamples):
+        # from the rate, as sampPeriod is only to the microsecond
+        return timedelta(
+            microseconds=0 if self.sampleRate == 0 else MICRO * numSamples / self.sampleRate
+        )
+
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
             fixTZ = starttime.replace("Z", "+00:00")
@@ -393,10 +399,10 @@ class MiniseedRecord:
         return self.header.starttime
 
     def endtime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples - 1)
+        return self.starttime() + self.header.samplesDuration(self.header.numSamples - 1)
 
     def next_starttime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples)
+        return self.starttime() + self.header.samplesDuration(self.header.numSamples)
 
     def clone(self):
         return unpackMiniseedRecord(self.pack())
-- 
2.43.0


From 6b4314333a524d131cb957db39ac8dde84722126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:24 +0000
Subject: [PATCH 37/55] fix: records without data shorter than 512 bytes were
 read past their end if blockette 1000 is last

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ae3ee33..ad36f8a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -774,6 +774,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         )
                     if blocketteNextOffset > prevBOffset+4:
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
+                    elif _blocketteNum == 1000:
+                        # last, so length of record is not known yet
+                        numBytesToRead = B1000_SIZE-4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
                     else:
-- 
2.43.0


From 21296f614191fc9052a2aca0086e86784e0010dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:27 +0000
Subject: [PATCH 38/55] fix: blockette without body swallowed the following
 blockettes

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ad36f8a..25ffad9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -772,7 +772,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         raise MiniseedException(
                             f"blockette larger than miniseed record: {blocketteNextOffset:d} {header.recordLength:d}"
                         )
-                    if blocketteNextOffset > prevBOffset+4:
+                    if blocketteNextOffset >= prevBOffset+4:
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
                     elif _blocketteNum == 1000:
                         # last, so length of record is not known yet
-- 
2.43.0


From 40c0050881488fef2c50a089aa5de9121b327b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:30 +0000
Subject: [PATCH 39/55] fix: record with zero sample rate factor and nonzero
 multiplier could not be read

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 25ffad9..1d39c6d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -100,7 +100,7 @@ class MiniseedHeader:
 
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
-        if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
+        if sampleRate == 0 and sampRateFactor != 0:
             # calc sampleRate from sampRateFactor and sampRateMult
             if sampRateFactor > 0:
                 if sampRateMult > 0:
-- 
2.43.0


From e7c1646029704a7f1a5db0b44a9f6ef3afcd0a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:01 +0000
Subject: [PATCH 40/55] fix: negative sample rate silently packed as a
 different rate

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1d39c6d..1e67c7f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -177,7 +177,7 @@ class MiniseedHeader:
         tempsampRateMult = self.sampRateMult
         if self.sampleRate != 0 and self.sampRateFactor == 0 and self.sampRateMult == 0:
             tempsampRateFactor, tempsampRateMult = self.calcSeedMultipilerFactor()
-            if tempsampRateFactor == 0 or tempsampRateMult == 0:
+            if self.sampleRate < 0 or tempsampRateFactor == 0 or tempsampRateMult == 0:
                 raise MiniseedException(
                     f"sample rate {self.sampleRate} cannot be represented as factor and multiplier"
                 )
-- 
2.43.0


From 7a0854c19487d27f901525ffc660bee9245e8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 41/55] fix: conversion of a big-endian primitive record
 without samples but with data offset raised

---
 src/simplemseed/mseed2to3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index d52d8c2..996f021 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -54,7 +54,11 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     ms3Header.encoding = b1000.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
     if ms2.encodedDataBytes is not None:
-        if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
+        if (
+            isPrimitiveCompression(b1000.encoding)
+            and ms2H.byteorder == BIG_ENDIAN
+            and ms2H.numSamples > 0
+        ):
             # need to decompress to byte swap primitive array
             data = ms2.decompressed()
         else:
-- 
2.43.0


From a2b08a499e68899a07c0ec329c5e3ea910706abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:59 +0000
Subject: [PATCH 42/55] fix: values of big-endian DWWSSN records byte swapped
 by conversion

---
 src/simplemseed/mseed2to3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 996f021..5cac391 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .fdsnsourceid import FDSNSourceId
-from .seedcodec import isPrimitiveCompression, BIG_ENDIAN
+from .seedcodec import isPrimitiveCompression, BIG_ENDIAN, DWWSSN
 from .version import VERSION
 
 
@@ -61,6 +61,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
         ):
             # need to decompress to byte swap primitive array
             data = ms2.decompressed()
+        elif b1000.encoding == DWWSSN and ms2H.byteorder == BIG_ENDIAN:
+            # 16 bit integers, little endian in miniseed3
+            data = ms2.decompressed().astype("<i2").tobytes()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From ce67be60cbceeae8fb9a302cd9d69ed2ff9e8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:48 +0000
Subject: [PATCH 43/55] fix: source ids are equal only if every code is equal

---
 src/simplemseed/fdsnsourceid.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 2195596..13220b6 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -330,8 +330,12 @@ class FDSNSourceId:
     def __eq__(self, other: object, /) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        # both FDSNSourceId, so compare as strings is easy
-        return str(self) == str(other)
+        return self.networkCode == other.networkCode \
+            and self.stationCode == other.stationCode \
+            and self.locationCode == other.locationCode \
+            and self.bandCode == other.bandCode \
+            and self.sourceCode == other.sourceCode \
+            and self.subsourceCode == other.subsourceCode
 
 class NetworkSourceId:
     """
@@ -419,7 +423,7 @@ class NetworkSourceId:
     def __eq__(self, other: object, /) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return str(self) == str(other)
+        return self.networkCode == other.networkCode
 
 
 class StationSourceId:
@@ -470,7 +474,8 @@ class StationSourceId:
     def __eq__(self, other: object, /) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return str(self) == str(other)
+        return self.networkCode == other.networkCode \
+            and self.stationCode == other.stationCode
 
 
 class LocationSourceId:
@@ -535,7 +540,9 @@ class LocationSourceId:
     def __eq__(self, other: object, /) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return str(self) == str(other)
+        return self.networkCode == other.networkCode \
+            and self.stationCode == other.stationCode \
+            and self.locationCode == other.locationCode
 
 
 def bandCodeForRate(
@@ -679,7 +686,10 @@ class NslcId:
     def __eq__(self, other: object, /) -> bool:
         if not isinstance(other, self.__class__):
             return False
-        return str(self) == str(other)
+        return self.networkCode == other.networkCode \
+            and self.stationCode == other.stationCode \
+            and self.locationCode == other.locationCode \
+            and self.channelCode == other.channelCode
 
 
 class FDSNSourceIdException(Exception):
-- 
2.43.0


From 442edae5676b3982020b1890b3df003f32436199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:51 +0000
Subject: [PATCH 44/55] fix: channel code with more than band, source and
 subsource is refused

---
 src/simplemseed/fdsnsourceid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 13220b6..43b6def 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -234,7 +234,7 @@ class FDSNSourceId:
             subsource = channelCode[2]
         else:
             b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
+            match = re.fullmatch(b_s_ss, channelCode)
             if match:
                 band = match[1]
                 source = match[2]
-- 
2.43.0


From 70e33c902982d41636fbb7d7e6eb72d088b5b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 45/55] fix: get of the end of a list pointer is reported as
 not found

---
 src/simplemseed/mseed3details.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 0f407fc..76a9c47 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -6,7 +6,7 @@ import json
 import os
 import re
 import sys
-from jsonpointer import set_pointer, JsonPointer, JsonPointerException
+from jsonpointer import EndOfList, set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
 from .version import VERSION
 
@@ -92,6 +92,8 @@ def do_get_eh(
                         print(ms3.summary())
                     try:
                         ehptr = pointer.resolve(ms3.eh)
+                        if isinstance(ehptr, EndOfList):
+                            raise JsonPointerException("end of list has no value")
                         ehStr = json.dumps(ehptr)
                         if outfile is None or outfile == sys.stdout:
                             print(f"  {ehStr}")
-- 
2.43.0


From 8bdb0a662b88e38fa99e231620ce9c7f656863ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 46/55] fix: size of a record without data is a number, not
 None

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 85561b3..c16c588 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -515,7 +515,7 @@ class MSeed3Record:
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            and self.header.dataLength is not None
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From e6a44f272af927a63019059cb2e8cf0de1587a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 47/55] fix: fdsnsourceid tool prints abbreviated source ids
 and codes without description

---
 src/simplemseed/fdsnsourceid.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 43b6def..e24202b 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -762,11 +762,22 @@ def main():
         sid = FDSNSourceId.parse(a)
         print(f"      {sid}")
         print(f"       Net: {sid.networkCode}")
-        print(f"       Sta: {sid.stationCode}")
-        print(f"       Loc: {sid.locationCode}")
-        print(f"      Band: {sid.bandCode} - {bandCodeDescribe(sid.bandCode)}")
-        print(f"    Source: {sid.sourceCode} - {sourceCodeDescribe(sid.sourceCode)}")
-        print(f" Subsource: {sid.subsourceCode}")
+        # abbreviated ids for network, station and location have fewer codes
+        if not isinstance(sid, NetworkSourceId):
+            print(f"       Sta: {sid.stationCode}")
+        if isinstance(sid, (LocationSourceId, FDSNSourceId)):
+            print(f"       Loc: {sid.locationCode}")
+        if isinstance(sid, FDSNSourceId):
+            # band may be empty and source may be non-standard, so no description
+            band = sid.bandCode
+            if band in BAND_CODE_JSON:
+                band += f" - {bandCodeDescribe(band)}"
+            print(f"      Band: {band}")
+            source = sid.sourceCode
+            if source in SOURCE_CODE_JSON:
+                source += f" - {sourceCodeDescribe(source)}"
+            print(f"    Source: {source}")
+            print(f" Subsource: {sid.subsourceCode}")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 499b44cdb683695ecdce7379968e54aa84459de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:29 +0000
Subject: [PATCH 48/55] fix: miniseed2 record that ends before its record
 length is refused, not returned cut short

---
 src/simplemseed/miniseed.py | 39 ++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1e67c7f..3663294 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -726,7 +726,12 @@ def unpackFixedHeaderGuessByteOrder(recordBytes):
 def unpackMiniseedRecord(recordBytes):
     f = io.BytesIO(recordBytes)
     # just send first msr
-    return next(readMiniseed2Records(f))
+    msr = next(readMiniseed2Records(f), None)
+    if msr is None:
+        raise MiniseedException(
+            f"Not enough bytes for header: {len(recordBytes)} < {HEADER_SIZE}"
+        )
+    return msr
 
 
 def decompressEncodedData(encoding, byteorder, numSamples, recordBytes):
@@ -737,6 +742,20 @@ class MiniseedException(Exception):
     pass
 
 
+def _readAll(fileptr, numBytes, header):
+    """Read exactly this many bytes of the record, which must not end before."""
+    if numBytes < 0:
+        raise MiniseedException(
+            f"record length {header.recordLength} less than its contents: {header.codes()} start: {header.starttime}"
+        )
+    out = fileptr.read(numBytes)
+    if len(out) < numBytes:
+        raise MiniseedException(
+            f"Not enough bytes for record, {len(out)} < {numBytes}: {header.codes()} start: {header.starttime}"
+        )
+    return out
+
+
 def readMiniseed2Records(fileptr, matchsid=None):
     """
     Read miniseed2 records from a file.
@@ -761,10 +780,12 @@ def readMiniseed2Records(fileptr, matchsid=None):
             prevBOffset = blocketteNextOffset
             if prevBOffset > numRecBytesRead:
                 # skip to first blockette
-                numRecBytesRead += len(fileptr.read(prevBOffset - numRecBytesRead))
+                numRecBytesRead += len(
+                    _readAll(fileptr, prevBOffset - numRecBytesRead, header)
+                )
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
-                    blocketteFourBytes = fileptr.read(4)
+                    blocketteFourBytes = _readAll(fileptr, 4, header)
                     _blocketteNum, blocketteNextOffset = struct.unpack(
                         endianChar + "HH", blocketteFourBytes
                     )
@@ -781,7 +802,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         numBytesToRead = header.dataOffset-prevBOffset-4
                     else:
                         numBytesToRead = header.recordLength-prevBOffset-4
-                    blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
+                    blocketteBytes = blocketteFourBytes + _readAll(
+                        fileptr, numBytesToRead, header
+                    )
                     b = unpackBlockette(
                         blocketteBytes,
                         0,
@@ -816,11 +839,13 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     f"dataOffset before last blockette ends: {header.dataOffset} < {numRecBytesRead:d} rec len: {header.recordLength:d}"
                 )
             numBytesToRead = header.dataOffset - numRecBytesRead
-            _skipBytes = fileptr.read(numBytesToRead)
-            encodedDataBytes = fileptr.read(header.recordLength - header.dataOffset)
+            _skipBytes = _readAll(fileptr, numBytesToRead, header)
+            encodedDataBytes = _readAll(
+                fileptr, header.recordLength - header.dataOffset, header
+            )
         else:
             numBytesToRead = header.recordLength - numRecBytesRead
-            _skipBytes = fileptr.read(numBytesToRead)
+            _skipBytes = _readAll(fileptr, numBytesToRead, header)
         identifier = str(header.fdsnSourceId())
         if matchPat is None or matchPat.search(identifier) is not None:
             yield MiniseedRecord(
-- 
2.43.0


From 127d2f7c12f391ab9d45408bfa315f2f921be06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:33 +0000
Subject: [PATCH 49/55] fix: miniseed3 record with missing bytes is refused
 also without crc check

---
 src/simplemseed/mseed3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index c16c588..6489243 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -735,7 +735,7 @@ def unpackMSeed3Record(recordBytes, check_crc=True):
     if check_crc:
         crc = crc32c.crc32c(encodedDataBytes, crc)
     offset += ms3header.dataLength
-    if check_crc and len(recordBytes) < offset:
+    if len(recordBytes) < offset:
         raise Miniseed3Exception(
             f"Not enough bytes for record: {len(recordBytes)} < {offset}"
         )
@@ -789,15 +789,15 @@ def readMSeed3Records(
                 crc = crc32c.crc32c(ehBytes, crc)
             extraHeadersStr = ehBytes.decode("utf-8")
             encodedDataBytes = fileptr.read(ms3header.dataLength)
+            if (
+                len(identifierBytes) + len(ehBytes) + len(encodedDataBytes)
+                < ms3header.recordSize() - FIXED_HEADER_SIZE
+            ):
+                raise Miniseed3Exception(
+                    f"Not enough bytes for record: {ms3header.recordSize()}"
+                )
             if check_crc:
                 crc = crc32c.crc32c(encodedDataBytes, crc)
-                if (
-                    len(identifierBytes) + len(ehBytes) + len(encodedDataBytes)
-                    < ms3header.recordSize() - FIXED_HEADER_SIZE
-                ):
-                    raise Miniseed3Exception(
-                        f"Not enough bytes for record: {ms3header.recordSize()}"
-                    )
                 if ms3header.crc != crc:
                     raise Miniseed3Exception(
                         f"crc fail:  Calc: {crc}  Header: {ms3header.crc}"
-- 
2.43.0


From fcb15eb7e0d5d661b6eacc5b442c43827d7995c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 50/55] fix: sample rate set on a miniseed2 header that was
 read or has factor and multiplier is packed

---
 src/simplemseed/miniseed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 3663294..4867328 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -241,6 +241,9 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
+        # recalculated from the rate when packed
+        self.sampRateFactor = 0
+        self.sampRateMult = 0
         self.sampPeriod = timedelta(
             microseconds=0 if self.sampleRate == 0 else MICRO / self.sampleRate
         )  # Nominal sample period (Sec) */
@@ -820,7 +823,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
                     elif type(b).__name__ == "Blockette100":
+                        factor, mult = header.sampRateFactor, header.sampRateMult
                         header.setSampleRate(b.sampleRate)
+                        # nominal rate of the fixed header stays as it was read
+                        header.sampRateFactor, header.sampRateMult = factor, mult
                     elif type(b).__name__ == "Blockette1001":
                         header.setStartTime(
                             header.starttime + timedelta(microseconds=b.microseconds)
-- 
2.43.0


From e06e3c7a80babb625cf420ac7192435e13d7a453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 51/55] fix: mseed3merge whose outfile is its input refuses
 instead of wiping the data

---
 src/simplemseed/mseed3merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3merge.py b/src/simplemseed/mseed3merge.py
index b156673..e35d5f8 100644
--- a/src/simplemseed/mseed3merge.py
+++ b/src/simplemseed/mseed3merge.py
@@ -6,6 +6,7 @@ records for merging.
 """
 
 import argparse
+import os
 import sys
 from .mseed3 import readMSeed3Records
 from .version import VERSION
@@ -43,6 +44,9 @@ def do_parseargs():
 def main():
     "main function"
     args = do_parseargs()
+    if os.path.exists(args.outfile) and os.path.samefile(args.ms3file, args.outfile):
+        # opening for output would wipe the records before they are read
+        sys.exit(f"outfile is also the file to merge: {args.outfile}")
     with open(args.outfile, "wb") as outms3file:
         with open(args.ms3file, "rb") as inms3file:
             for ms3 in readMSeed3Records(inms3file, merge=True, verbose=args.verbose):
-- 
2.43.0


From 29e2acf917ae04ef06ee65cdb8264f6f83ac104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:06 +0000
Subject: [PATCH 52/55] fix: mseed2to3 whose miniseed3 file is its miniseed2
 file refuses instead of wiping the data

---
 src/simplemseed/mseed2to3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 5cac391..05a678f 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -1,6 +1,7 @@
 
 import argparse
 import json
+import os
 import sys
 
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
@@ -130,7 +131,6 @@ def do_parseargs():
         "--ms3",
         required=True,
         help="mseed3 file",
-        type=argparse.FileType("wb"),
     )
     return parser.parse_args()
 
@@ -139,9 +139,12 @@ def main():
 
     args = do_parseargs()
 
+    if os.path.exists(args.ms3) and os.path.samestat(os.fstat(args.ms2.fileno()), os.stat(args.ms3)):
+        # opening for output would wipe the records before they are read
+        sys.exit(f"ms3 file is also the ms2 file: {args.ms3}")
     bytesWritten = 0
     with args.ms2 as inms2:
-        with args.ms3 as outms3:
+        with argparse.FileType("wb")(args.ms3) as outms3:
             for ms2rec in readMiniseed2Records(inms2):
                 ms3rec = mseed2to3(ms2rec)
                 outBytes = ms3rec.pack()
-- 
2.43.0


From d5cb9bce783c818b1ad3ba28ba8202cb5d6fdaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:13 +0000
Subject: [PATCH 53/55] fix: mseed3details whose outfile is one of its
 miniseed3 files refuses instead of wiping the data

---
 src/simplemseed/mseed3details.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 76a9c47..239d29f 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -34,7 +34,6 @@ def do_parseargs():
     parser.add_argument(
         "-o",
         "--outfile",
-        type=argparse.FileType("w", encoding="UTF-8"),
         help="""output to file. For get, the output will be json, but for
         getall it will be jsonl, with a separate json object on each line.
         If a record does not have extra headers, a blank line will be output.
@@ -148,7 +147,11 @@ def do_details():
     totSamples = 0
     numRecords = 0
     if args.outfile is not None:
-        outfile = args.outfile
+        for ms3file in args.ms3files:
+            if os.path.exists(args.outfile) and os.path.samefile(ms3file, args.outfile):
+                # opening for output would wipe the records before they are read
+                sys.exit(f"outfile is also a miniseed3 file: {args.outfile}")
+        outfile = argparse.FileType("w", encoding="UTF-8")(args.outfile)
     else:
         outfile = sys.stdout
     if args.get is not None:
-- 
2.43.0


From c43be3fbbeea2e0ee99420e2257c1d9c085bb045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 54/55] fix: mseed3merge opens its input before its outfile, so
 a missing input is told also when it is the outfile

---
 src/simplemseed/mseed3merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3merge.py b/src/simplemseed/mseed3merge.py
index e35d5f8..266bc6d 100644
--- a/src/simplemseed/mseed3merge.py
+++ b/src/simplemseed/mseed3merge.py
@@ -47,8 +47,8 @@ def main():
     if os.path.exists(args.outfile) and os.path.samefile(args.ms3file, args.outfile):
         # opening for output would wipe the records before they are read
         sys.exit(f"outfile is also the file to merge: {args.outfile}")
-    with open(args.outfile, "wb") as outms3file:
-        with open(args.ms3file, "rb") as inms3file:
+    with open(args.ms3file, "rb") as inms3file:
+        with open(args.outfile, "wb") as outms3file:
             for ms3 in readMSeed3Records(inms3file, merge=True, verbose=args.verbose):
                 if args.verbose:
                     print(ms3)
-- 
2.43.0


From 89bf401b6479d68914b9667821d580b763cfc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:23 +0000
Subject: [PATCH 55/55] fix: mseed2to3 strips padding blanks from codes

---
 src/simplemseed/mseed2to3.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 05a678f..84f8ba3 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,6 @@ import sys
 
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
-from .fdsnsourceid import FDSNSourceId
 from .seedcodec import isPrimitiveCompression, BIG_ENDIAN, DWWSSN
 from .version import VERSION
 
@@ -73,9 +72,8 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
         if data is None and ms2H.numSamples == 0:
             # record without data, but encoding is kept
             data = bytes(0)
-    identifier = FDSNSourceId.fromNslc(
-        ms2H.network, ms2H.station, ms2H.location, ms2H.channel
-    )
+    # codes may be padded with blanks, as in the packed header
+    identifier = ms2H.fdsnSourceId()
 
     ms3Extras = {}
     fdsnExtras = {}
-- 
2.43.0

