From 0bec8e057307a88c496c3ec8e2ebe862be38e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 01/24] fix: UTrie2 lookup treated U+10FFFF as out of range

---
 UnicodeData/Utrie2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index 54846cc..fbd3a86 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -86,7 +86,7 @@ class UTrie2(object):
             offset = 0 if c >= 0xDC00 else self.LSCP_INDEX_2_OFFSET - (0xD800 >> self.SHIFT_2)
             return self.indexRaw(offset, c)
 
-        if c >= 0x10FFFF:
+        if c > 0x10FFFF:
             return asciiOffset + self.BAD_UTF8_DATA_OFFSET
 
         return self.highValueIndex if c >= self.highStart else self.indexFromSupp(c)
-- 
2.43.0


From 532847c4498cea6c8800418fd8399107d0d56633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 02/24] fix: UnicodeSet union left adjacent ranges unmerged

---
 UnicodeData/UnicodeSet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e81737e..b4fba62 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -252,7 +252,7 @@ class UnicodeSet(object):
                     i += 1
                     polarity ^= 1
                 elif b < a: # take b
-                    if len(buffer) > 0 and b < buffer[-1]:
+                    if len(buffer) > 0 and b <= buffer[-1]:
                         b = max(other[j], buffer.pop())
                     else:
                         buffer.append(b)
@@ -263,7 +263,7 @@ class UnicodeSet(object):
                 else: # a == b: take a, drop b
                     if a == UNICODE_SET_HIGH:
                         break
-                    if len(buffer) > 0 and a < buffer[-1]:
+                    if len(buffer) > 0 and a <= buffer[-1]:
                         a = max(self.list[i], buffer.pop())
                     else:
                         buffer.append(a)
-- 
2.43.0


From f62097f26ca545c749b83c418854120339128987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 03/24] fix: UnicodeSet xor with a complemented operand skipped
 its first boundary

---
 UnicodeData/UnicodeSet.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index b4fba62..a7a405f 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -362,11 +362,12 @@ class UnicodeSet(object):
         b = other[0]
 
         if polarity == 1 or polarity == 2:
-            b = UNICODE_SET_LOW
-            if other[0] == UNICODE_SET_LOW: # skip base if already LOW
+            if b == UNICODE_SET_LOW: # skip base if already LOW
                 b = other[1]
-        else:
-            b = other[0]
+                j = 2
+            else:
+                b = UNICODE_SET_LOW
+                j = 0
 
         # simple: sort values, discarding identicals!
         while True:
-- 
2.43.0


From 709b236cfc30db06d6d54ea384ecc4e8717c5655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 04/24] fix: UnicodeSet remove, retain and complement ignored
 single code points

---
 UnicodeData/UnicodeSet.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a7a405f..a22625d 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -473,7 +473,10 @@ class UnicodeSet(object):
         :param end: the last code point in the range to remove.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 2) # polarity == 2 means set minus
 
@@ -505,9 +508,14 @@ class UnicodeSet(object):
         :param end: the last code point in the range to intersect.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._retainList(other, 0) # polarity == 0: intersect
+        else:
+            self.clear()
 
         return self
 
@@ -540,7 +548,10 @@ class UnicodeSet(object):
         :param end: the last code point in the range.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start <= end:
             other = [start, end + 1, UNICODE_SET_HIGH]
             self._exclusiveOrList(other)
 
-- 
2.43.0


From 433478f6f3b28ee5c91eae26ecf831f65bf6efb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 05/24] fix: UnicodeSet add and addRange stored unpinned code
 points

---
 UnicodeData/UnicodeSet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index a22625d..d3152f0 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -398,7 +398,8 @@ class UnicodeSet(object):
         :param cp: the code point to add.
         :return: self, to support chaining.
         """
-        i = self._findCodePoint(_pinCodePoint(cp))
+        cp = _pinCodePoint(cp)
+        i = self._findCodePoint(cp)
 
         if (i & 1) != 0:
             return self
@@ -427,7 +428,10 @@ class UnicodeSet(object):
         :param end: the last code point in the range to add.
         :return: self, to support chaining.
         """
-        if _pinCodePoint(start) < _pinCodePoint(end):
+        start = _pinCodePoint(start)
+        end = _pinCodePoint(end)
+
+        if start < end:
             length = len(self.list)
             limit = end + 1
 
-- 
2.43.0


From 36fc470818cfc250bd98a530dcb285e64579b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 06/24] fix: UnicodeSet.addRange did not return self on its
 fast path

---
 UnicodeData/UnicodeSet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index d3152f0..e139080 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -449,7 +449,7 @@ class UnicodeSet(object):
                             self.list.extend([limit, UNICODE_SET_HIGH])
                         else:
                             self.list.append(UNICODE_SET_HIGH)
-                    return
+                    return self
 
             # This is slow. Could be much faster using findCodePoint(start)
             # and modifying the list, dealing with adjacent & overlapping ranges.
-- 
2.43.0


From 61365427de375e3ace5b0eeae3e70d3b8d3b5bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 07/24] fix: UnicodeSet constructor built malformed lists for
 empty ranges and U+10FFFF

---
 UnicodeData/UnicodeSet.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index e139080..4c6a760 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -717,9 +717,11 @@ class UnicodeSet(object):
         elif type(arg) is UnicodeSet:
             self.list = arg.list.copy()
         elif type(arg) is int:
-            self.list = [arg, arg + 1, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.add(arg)
         elif type(arg) is range:
-            self.list = [arg.start, arg.stop, UNICODE_SET_HIGH]
+            self.list = [UNICODE_SET_HIGH]
+            self.addRange(arg.start, arg.stop - 1)
         else:
             raise(TypeError("Argument type must be UnicodeSet, int or range."))
 
-- 
2.43.0


From 9f34e0b7e5a9bd2e67ef0a67ea2851e94ed86ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 08/24] fix: UnicodeSet.contains could report code points above
 U+10FFFF as members

---
 UnicodeData/UnicodeSet.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/UnicodeData/UnicodeSet.py b/UnicodeData/UnicodeSet.py
index 4c6a760..c968998 100644
--- a/UnicodeData/UnicodeSet.py
+++ b/UnicodeData/UnicodeSet.py
@@ -611,6 +611,9 @@ class UnicodeSet(object):
         :return: True if the set contans the code point(s), False otherwise.
         """
         if type(arg) is int:
+            if arg >= UNICODE_SET_HIGH:
+                return False
+
             i = self._findCodePoint(arg)
             return (i & 1) != 0
         elif type(arg) is range:
-- 
2.43.0


From 46714d3684fd2d81ed131d8d68c62c014b9dcfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 09/24] fix: isIDIgnorable ignored the control characters

---
 UnicodeData/CharProps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index fa061fe..6271d32 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -152,8 +152,8 @@ def isIDPart(c: int) -> bool:
     return (gcMask(gc) & ( GC_ND_MASK | GC_NL_MASK | GC_L_MASK | GC_PC_MASK | GC_MC_MASK | GC_MN_MASK)) != 0 or isIDIgnorable(c)
 
 def isIDIgnorable(c: int) -> bool:
-    if c < 0x009F:
-        isISOControl(c) and not isThatASCIIControlSpace(c)
+    if c <= 0x009F:
+        return isISOControl(c) and not isThatASCIIControlSpace(c)
 
     gc = getGeneralCategory(c)
     return gc == GC_FORMAT_CHAR
-- 
2.43.0


From 0284d8e65419995ef378c5aaf277872850bdce56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 10/24] fix: getUnicodeProperties accepted one column too many

---
 UnicodeData/CharProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 6271d32..7552f5b 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -20,7 +20,7 @@ def unicodePropertiesFromVecIndex(vecIndex: int, column: int):
     return propsVectors[vecIndex + column]
 
 def getUnicodeProperties(c: int, column: int):
-    if column > propsVectorsColumns:
+    if column >= propsVectorsColumns:
         return 0
 
     vecIndex = propsVectorTrie.get(c)
-- 
2.43.0


From 2880beded036448be4f08aa4af1fc7255ee57f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 11/24] fix: getNumericType returned the general category

---
 UnicodeData/CharProps.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharProps.py b/UnicodeData/CharProps.py
index 7552f5b..53b5686 100644
--- a/UnicodeData/CharProps.py
+++ b/UnicodeData/CharProps.py
@@ -4,6 +4,7 @@ from .Utrie2 import UTrie2
 from .CharPropsData import *
 from .uprops_h import *
 from .uscript_h import *
+from .uchar_h import U_NT_NONE, U_NT_DECIMAL, U_NT_DIGIT, U_NT_NUMERIC
 # from .UCDTypeDictionaries import generalCategoryNames as generalCategories
 # from .UCDTypeDictionaries import scriptNames as scriptCodes
 # from .UCDTypeDictionaries import blockNames
@@ -171,7 +172,18 @@ def digitValue(c: int) -> int:
     return value if value <= 9 else -1
 
 def numericTypeFromProps(props: int) -> int:
-    return props & 0x1F
+    ntv = numericTypeValueFromProps(props)
+
+    if ntv == UPROPS_NTV_NONE:
+        return U_NT_NONE
+
+    if ntv < UPROPS_NTV_DIGIT_START:
+        return U_NT_DECIMAL
+
+    if ntv < UPROPS_NTV_NUMERIC_START:
+        return U_NT_DIGIT
+
+    return U_NT_NUMERIC
 
 def getNumericType(c: int) -> int:
     props = propsTrie.get(c)
-- 
2.43.0


From 47ff462d4ee4f46a152707ec003cff97b804b910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 12/24] fix: USCRIPT_UCAS was a tuple

---
 UnicodeData/Scripts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index e3a4649..b0effde 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -48,7 +48,7 @@ USCRIPT_THAANA       = 37  # 'Thaa'
 USCRIPT_THAI         = 38  # 'Thai'
 USCRIPT_TIBETAN      = 39  # 'Tibt'
 USCRIPT_CANADIAN_ABORIGINAL = 40  # 'Cans'
-USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL,
+USCRIPT_UCAS         = USCRIPT_CANADIAN_ABORIGINAL
 USCRIPT_YI           = 41  # 'Yiii'
 
 # New scripts in Unicode 3.2
-- 
2.43.0


From f01772e2facc5905865fcebce46ffaffb60a3dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 13/24] fix: UBIDI_MAX_VALUES_INDEX was a tuple

---
 UnicodeData/BidiProps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/BidiProps.py b/UnicodeData/BidiProps.py
index 57fb1e4..48ecf49 100644
--- a/UnicodeData/BidiProps.py
+++ b/UnicodeData/BidiProps.py
@@ -25,7 +25,7 @@ UBIDI_IX_JG_LIMIT = 5
 UBIDI_IX_JG_START2 = 6  # *new in format version 2.2, ICU 54
 UBIDI_IX_JG_LIMIT2 = 7
 
-UBIDI_MAX_VALUES_INDEX = 15,
+UBIDI_MAX_VALUES_INDEX = 15
 UBIDI_IX_TOP = 16
 
 # definitions for 16-bit bidi/shaping properties word
-- 
2.43.0


From e6fbfcd0ce6a7ade5136432ab190611e3d2b0255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 14/24] fix: simpleTitleCase held the raw attribute instead of
 the mapped string

---
 UnicodeData/CaseProperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CaseProperties.py b/UnicodeData/CaseProperties.py
index 3def9bc..42a807d 100644
--- a/UnicodeData/CaseProperties.py
+++ b/UnicodeData/CaseProperties.py
@@ -21,7 +21,7 @@ class CaseProperties(UCDProperties):
 
         self.simpleUpperCase = self.getCodePointsProperty("suc")
         self.simpleLowerCase = self.getCodePointsProperty("slc")
-        self.simpleTitleCase = self.getCharProperty("stc")
+        self.simpleTitleCase = self.getCodePointsProperty("stc")
 
         self.upperCase = self.getCodePointsProperty("uc")
         self.lowerCase = self.getCodePointsProperty("lc")
-- 
2.43.0


From 1f1cc2c5c92461b76868a6a264084ec7542350f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 15/24] fix: CharacterData evaluated text from the UCD file as
 Python code

---
 UnicodeData/CharacterData.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CharacterData.py b/UnicodeData/CharacterData.py
index e5c8032..88fa898 100644
--- a/UnicodeData/CharacterData.py
+++ b/UnicodeData/CharacterData.py
@@ -14,6 +14,12 @@ from .IndicProperties import IndicProperties
 from .BinaryProperties import BinaryProperties
 
 class CharacterData(UCDProperties):
+    @classmethod
+    def getNumericValue(cls, nv: str):
+        """Convert an integer or a fraction to a number."""
+        numerator, slash, denominator = nv.partition("/")
+        return int(numerator) / int(denominator) if slash else int(numerator)
+
     def __init__(self, char: Element, group: Element):
         UCDProperties.__init__(self, char, group)
 
@@ -30,7 +36,7 @@ class CharacterData(UCDProperties):
 
         self.numericType = self.getCharProperty("nt")
         nv = self.getCharProperty("nv")
-        self.numericValue = None if nv == "NaN" else eval(nv)
+        self.numericValue = None if nv == "NaN" else self.getNumericValue(nv)
 
         self.script = self.getCharProperty("sc")
         self.scriptExtensions = self.getCharProperty("scx").split(" ")
-- 
2.43.0


From b41c9565c2f165e2e32151b0188bc5611e625580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:49 +0000
Subject: [PATCH 16/24] fix: ICUData left the data file open

---
 UnicodeData/ICUDataFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/UnicodeData/ICUDataFile.py b/UnicodeData/ICUDataFile.py
index 3a1d9dc..061cff9 100644
--- a/UnicodeData/ICUDataFile.py
+++ b/UnicodeData/ICUDataFile.py
@@ -103,8 +103,8 @@ class ICUData(object):
         if cls._fileData:
             return
 
-        dataFile = open(_dataFilePath, "rb")
-        cls._fileData = dataFile.read()
+        with open(_dataFilePath, "rb") as dataFile:
+            cls._fileData = dataFile.read()
 
         dh = sstruct.unpack(dataHeaderFormat, cls._fileData[:dataHeaderLength], DataHeader())
         header = typing.cast(DataHeader, dh)
-- 
2.43.0


From 46e2a762719d8b37ec718fb76340d6507674ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 17/24] fix: UTrie2.enumerator read past its blocks and skipped
 code points

---
 UnicodeData/Utrie2.py | 57 ++++++++++++-------------------------------
 1 file changed, 16 insertions(+), 41 deletions(-)

diff --git a/UnicodeData/Utrie2.py b/UnicodeData/Utrie2.py
index fbd3a86..6c7923d 100644
--- a/UnicodeData/Utrie2.py
+++ b/UnicodeData/Utrie2.py
@@ -109,26 +109,19 @@ class UTrie2(object):
         # enumerate index-2 blocks
         c = start
         while c < limit and c < self.highStart:
-            tempLimit = min(c + self.CP_PER_INDEX_1_ENTRY, limit)
+            # the limit of the code points that use the same index-2 block as c
+            tempLimit = min((c | (self.CP_PER_INDEX_1_ENTRY - 1)) + 1, limit)
 
             if c <= 0xFFFF:
                 # We're in the BMP
-                if not isSurrogate(c):
-                    i2Block = (c >> self.SHIFT_2)
-
-                    # if tempLimit is above the BMP, limit it to the BMP
-                    if tempLimit > 0x10000:
-                        tempLimit = 0x10000
-                elif isSurrogateLead(c):
+                if isSurrogate(c) and isSurrogateLead(c):
                     # Enumerate values for lead surrogate code points, not code units:
                     # This special block has half the normal length.
                     i2Block = self.LSCP_INDEX_2_OFFSET
                     tempLimit = min(0xDC00, limit)
                 else:
-                    # Switch back to the normal part of the index-2 table.
-                    # Enumerate the second half of the surrogates block.
-                    i2Block = 0xDC00 >> self.SHIFT_2
-                    tempLimit = min(0xE000, limit)
+                    # the linear part of the index-2 table
+                    i2Block = (c >> self.SHIFT_2) & ~self.INDEX_2_MASK
             else:
                 # supplementary code point
                 i2Block = self.index[(self.INDEX_1_OFFSET - self.OMITTED_BMP_INDEX_1_LENGTH) +
@@ -138,7 +131,7 @@ class UTrie2(object):
                     # The index-2 block is the same as the previous one, and filled with prevValue.
                     # Only possible for supplementary code points because the linear-BMP index-2
                     # table creates unique i2Block values.
-                    c += self.CP_PER_INDEX_1_ENTRY
+                    c = tempLimit
                     continue
 
             prevI2Block = i2Block
@@ -147,34 +140,20 @@ class UTrie2(object):
                 if prevValue != initialValue:
                     if prev < c: yield range(prev, c), prevValue
 
-                    prevBlock = self.dataNullOffset
                     prev = c
                     prevValue = initialValue
 
-                c += self.CP_PER_INDEX_1_ENTRY
+                prevBlock = self.dataNullOffset
+                c = tempLimit
             else:
                 # enumerate data blocks for one index-2 block
-                if c <= 0xFFFF:
-                    # We're in the BMP
-                    i2Start = 0
-                    i2Limit = (tempLimit >> self.SHIFT_2) - i2Block
-
-                    # if we're in the high surrogate range, i2Limit will be negative,
-                    # so we want to just do the high surroaget block
-                    if i2Limit < 0: i2Limit = 0
-                else:
-                    i2Start = (c >> self.SHIFT_2) & self.INDEX_2_MASK
-                    i2Limit = (tempLimit >> self.SHIFT_2) & self.INDEX_2_MASK
-
-                    if (c >> self.SHIFT_1) != (tempLimit >> self.SHIFT_1):
-                        i2Limit = self.INDEX_2_BLOCK_LENGTH
-
-                for i2 in range(i2Start, i2Limit + 1):
-                    block = self.index[i2Block + i2] << self.INDEX_SHIFT
+                while c < tempLimit:
+                    block = self.index[i2Block + ((c >> self.SHIFT_2) & self.INDEX_2_MASK)] << self.INDEX_SHIFT
+                    blockLimit = min((c | self.DATA_MASK) + 1, tempLimit)
 
                     if block == prevBlock and (c - prev) >= self.DATA_BLOCK_LENGTH:
                         # the block is the same as the previous one, and filled with prevValue
-                        c += self.DATA_BLOCK_LENGTH
+                        c = blockLimit
                         continue
 
                     prevBlock = block
@@ -186,12 +165,10 @@ class UTrie2(object):
                             prev = c
                             prevValue = initialValue
 
-                        c += self.DATA_BLOCK_LENGTH
+                        c = blockLimit
                     else:
-                        jStart = c & self.DATA_MASK
-                        jLimit = min(self.DATA_BLOCK_LENGTH, jStart + tempLimit - c)
-                        for j in range(jStart, jLimit):
-                            value = valueFunction(self.index[block + j], **valueFunctionArgs)
+                        while c < blockLimit:
+                            value = valueFunction(self.index[block + (c & self.DATA_MASK)], **valueFunctionArgs)
                             if value != prevValue:
                                 if prev < c: yield range(prev, c), prevValue
 
@@ -200,9 +177,7 @@ class UTrie2(object):
 
                             c += 1
 
-        if c > limit:
-            c = limit  # could be higher if in the index2NullOffset
-        elif c < limit:
+        if c < limit:
             # c == highStart < limit
             value = valueFunction(self.index[self.highValueIndex], **valueFunctionArgs)
             if value != prevValue:
-- 
2.43.0


From 8be5398b935764fed62d7a55562215f3d7488a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 18/24] fix: CPTrie.enumerator left its blocks early and lost
 the last range

---
 UnicodeData/CPTrie.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index 646e0d3..bb976e4 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -244,7 +244,7 @@ class CPTrie(object):
         return self.data[dataIndex]
 
     def enumerator(self, start: int = 0, limit: int = 0x110000) -> typing.Iterator[tuple[range, typing.Any]]:
-        if start >= 0x110000 or start >= self.highStart:
+        if start >= 0x110000:
             return
 
         prevI3Block = -1
@@ -258,7 +258,7 @@ class CPTrie(object):
             if c <= 0xFFFF and (self.trieType == UCPTRIE_TYPE_FAST or c <= UCPTRIE_SMALL_MAX):
                 i3Block = 0
                 i3Start = c >> UCPTRIE_FAST_SHIFT
-                # i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
+                i3BlockLength = UCPTRIE_BMP_INDEX_LENGTH if self.trieType == UCPTRIE_TYPE_FAST else UCPTRIE_SMALL_INDEX_LENGTH
                 dataBlockLength = UCPTRIE_FAST_DATA_BLOCK_LENGTH
             else:
                 # use the multi-stage index
@@ -271,7 +271,7 @@ class CPTrie(object):
                     i1 += UCPTRIE_SMALL_INDEX_LENGTH
 
                 i3Block = self.index[self.index[i1] + ((c >> UCPTRIE_SHIFT_2) & UCPTRIE_INDEX_2_MASK)]
-                if i3Block == prevI3Block and (c - start) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
+                if i3Block == prevI3Block and (c - prev) >= UCPTRIE_CP_PER_INDEX_2_ENTRY:
                     # The index-3 block is the same as the previous one, and filled with value.
                     assert (c & (UCPTRIE_CP_PER_INDEX_2_ENTRY - 1)) == 0
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
@@ -290,11 +290,11 @@ class CPTrie(object):
                     continue
 
                 i3Start = (c >> UCPTRIE_SHIFT_3) & UCPTRIE_INDEX_3_MASK
-                # i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
+                i3BlockLength = UCPTRIE_INDEX_3_BLOCK_LENGTH
                 dataBlockLength = UCPTRIE_SMALL_DATA_BLOCK_LENGTH
 
             # Enumerate data blocks for one index-3 block.
-            for i3 in range(i3Start, dataBlockLength):
+            for i3 in range(i3Start, i3BlockLength):
                 if c >= limit: break
                 if (i3Block & 0x8000) == 0:
                     block = self.index[i3Block + i3]
@@ -305,7 +305,7 @@ class CPTrie(object):
                     block = (self.index[group] << (2 + (2 * gi))) & 0x30000
                     block |= self.index[group + gi + 1]  # C++ code indexes by group++ in previous line
 
-                if block == prevBlock and (c - start) >= dataBlockLength:
+                if block == prevBlock and (c - prev) >= dataBlockLength:
                     # The block is the same as the previous one, and filled with value.
                     assert (c & (dataBlockLength - 1)) == 0
                     c += dataBlockLength
@@ -346,6 +346,10 @@ class CPTrie(object):
             highValue = self.data[di]
             if highValue != prevValue:
                 if prev < c: yield range(prev, c), prevValue
+                prev = c
+                prevValue = highValue
+
+            c = limit
 
         # deliver last range
         if prev < c: yield range(prev, c), prevValue
-- 
2.43.0


From 569896a6b30865d41c8d3fb854f7f8f235ceba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 19/24] fix: CPTrie took its first index entry for the index
 length

---
 UnicodeData/CPTrie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index bb976e4..f7c972b 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -151,7 +151,7 @@ class CPTrie(object):
     def __init__(self, index: typing.Sequence[int], data: typing.Sequence[int], trieType: int, valueWidth: int, index3NullOffset: int, dataNullOffset: int, highStart: int, shifted12HighStart: int):
         self.trieType = trieType
         self.valueWidth = valueWidth
-        self.indexLength = index[0]
+        self.indexLength = len(index)
         self.dataLength = len(data)
         self.index3NullOffset = index3NullOffset
         self.dataNullOffset = dataNullOffset
-- 
2.43.0


From fa3937f9907629dabbcd5616e31ea47f4e8e0037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:58 +0000
Subject: [PATCH 20/24] fix: CPTrie.enumerator works on tries without a data
 null block

---
 UnicodeData/CPTrie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index f7c972b..bec0084 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -250,7 +250,10 @@ class CPTrie(object):
         prevI3Block = -1
         prevBlock = -1
         prev = start
-        nullValue = self.data[self.dataNullOffset]
+        # If there is no null block, use the high value as ucptrie_openFromBinary() does.
+        nullOffset = self.dataNullOffset
+        if nullOffset >= self.dataLength: nullOffset = self.dataLength - UCPTRIE_HIGH_VALUE_NEG_DATA_OFFSET
+        nullValue = self.data[nullOffset]
         prevValue = nullValue  # or 0?
 
         c = start
-- 
2.43.0


From df5648fdba0dabd8184f1209cb19aaee3ceae42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 21/24] fix: CPTrie.enumerator does not mistake a small data
 block for the fast block it starts

---
 UnicodeData/CPTrie.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/UnicodeData/CPTrie.py b/UnicodeData/CPTrie.py
index bec0084..324ffe9 100644
--- a/UnicodeData/CPTrie.py
+++ b/UnicodeData/CPTrie.py
@@ -280,6 +280,10 @@ class CPTrie(object):
                     c += UCPTRIE_CP_PER_INDEX_2_ENTRY
                     continue
 
+                if prevI3Block < 0:
+                    # A small data block can start where the last fast data block does, but is shorter.
+                    prevBlock = -1
+
                 prevI3Block = i3Block
                 if i3Block == self.index3NullOffset:
                     # This is the index-3 null block.
-- 
2.43.0


From 2f7025979ee54adf3435ea1f8de6b8c0d7ed0e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:58 +0000
Subject: [PATCH 22/24] fix: CharNames.nameIterator skipped algorithmic ranges
 shorter than a group

It only looked for a range at every 32nd character from the last stop, so a range between two of those was
passed over, and with it all the later ones.
---
 UnicodeData/CharNames.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/CharNames.py b/UnicodeData/CharNames.py
index 59100b4..39c9945 100644
--- a/UnicodeData/CharNames.py
+++ b/UnicodeData/CharNames.py
@@ -463,20 +463,20 @@ class CharNames(object):
         algRange = 0
         while char < charLimit:
             group = cls.getGroup(char)
-            if group and char in group.charRange:
+            if group:
                 # group.nameChoice = self.nameChoice
                 for (code, name) in group.nameIterator(nameChoice):
                     if name: yield (code, name)
-                char = group.charRange.stop
-            elif algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charInRange(char):
+
+            char = (char | GROUP_MASK) + 1
+
+            # all the ranges that start in this group of lines
+            while algRange < len(cls._algorithmicRanges) and cls._algorithmicRanges[algRange].charRange.start < char:
                 algorithmicRange = cls._algorithmicRanges[algRange]
                 # algorithmicRange.nameChoice = self.nameChoice
                 for (code, name) in algorithmicRange.nameIterator(nameChoice):
                     if name: yield (code, name)
-                char = algorithmicRange.charRange.stop
                 algRange += 1
-            else:
-                char += LINES_PER_GROUP
 
     @classmethod
     def charFromName(cls, theName: str, nameChoice:int=U_UNICODE_CHAR_NAME) -> int:
-- 
2.43.0


From 926350a4be220ef987fd80076ec50237b8e6d5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:46 +0000
Subject: [PATCH 23/24] fix: script and block aliases were tuples

---
 UnicodeData/Blocks.py  | 4 ++--
 UnicodeData/Scripts.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index e3f2af4..b53dfcd 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -261,7 +261,7 @@ UBLOCK_PRIVATE_USE_AREA = 78  # [E000]
 #
 #* @ stable ICU 2.0
 
-UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA,
+UBLOCK_PRIVATE_USE = UBLOCK_PRIVATE_USE_AREA
 
 # @stable ICU 2.0
 UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS = 79  # [F900]
@@ -319,7 +319,7 @@ UBLOCK_CYRILLIC_SUPPLEMENT = 97  # [0500]
 # Unicode 4.0.1 renames the "Cyrillic Supary" block to "Cyrillic Sup".
 # @ stable ICU 2.2
 
-UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT,
+UBLOCK_CYRILLIC_SUPPLEMENTARY = UBLOCK_CYRILLIC_SUPPLEMENT
 # @stable ICU 2.2
 UBLOCK_TAGALOG = 98  # [1700]
 # @stable ICU 2.2
diff --git a/UnicodeData/Scripts.py b/UnicodeData/Scripts.py
index b0effde..7093e90 100644
--- a/UnicodeData/Scripts.py
+++ b/UnicodeData/Scripts.py
@@ -103,17 +103,17 @@ USCRIPT_LATIN_GAELIC                  = 81  # 'Latg'
 USCRIPT_LEPCHA                        = 82  # 'Lepc'
 USCRIPT_LINEAR_A                      = 83  # 'Lina'
 USCRIPT_MANDAIC                       = 84  # 'Mand'
-USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC,
+USCRIPT_MANDAEAN                      = USCRIPT_MANDAIC
 USCRIPT_MAYAN_HIEROGLYPHS             = 85  # 'Maya'
 USCRIPT_MEROITIC_HIEROGLYPHS          = 86  # 'Mero'
-USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS,
+USCRIPT_MEROITIC                      = USCRIPT_MEROITIC_HIEROGLYPHS
 USCRIPT_NKO                           = 87  # 'Nkoo'
 USCRIPT_ORKHON                        = 88  # 'Orkh'
 USCRIPT_OLD_PERMIC                    = 89  # 'Perm'
 USCRIPT_PHAGS_PA                      = 90  # 'Phag'
 USCRIPT_PHOENICIAN                    = 91  # 'Phnx'
 USCRIPT_MIAO                          = 92  # 'Plrd'
-USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO,
+USCRIPT_PHONETIC_POLLARD              = USCRIPT_MIAO
 USCRIPT_RONGORONGO                    = 93  # 'Roro'
 USCRIPT_SARATI                        = 94  # 'Sara'
 USCRIPT_ESTRANGELO_SYRIAC             = 95  # 'Syre'
@@ -167,7 +167,7 @@ USCRIPT_OLD_NORTH_ARABIAN             = 142  # 'Narb'
 USCRIPT_NABATAEAN                     = 143  # 'Nbat'
 USCRIPT_PALMYRENE                     = 144  # 'Palm'
 USCRIPT_KHUDAWADI                     = 145  # 'Sind'
-USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI,
+USCRIPT_SINDHI                        = USCRIPT_KHUDAWADI
 USCRIPT_WARANG_CITI                   = 146  # 'Wara'
 USCRIPT_AFAKA                         = 147  # 'Afak'
 USCRIPT_JURCHEN                       = 148  # 'Jurc'
-- 
2.43.0


From a053a7f022aa1c38f275dcfcb1f429c67375f916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:54 +0000
Subject: [PATCH 24/24] fix: block and word break names that are not Unicode's
 short names

---
 UnicodeData/Blocks.py     | 10 +++++-----
 UnicodeData/Boundaries.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/UnicodeData/Blocks.py b/UnicodeData/Blocks.py
index b53dfcd..e907b64 100644
--- a/UnicodeData/Blocks.py
+++ b/UnicodeData/Blocks.py
@@ -786,7 +786,7 @@ UBLOCK_TANGUT_SUPPLEMENT = 307  # [18D00]
 UBLOCK_YEZIDI = 308  # [10E80]
 
 blockNames = {
-    UBLOCK_NO_BLOCK: "No Block",
+    UBLOCK_NO_BLOCK: "NB",
     UBLOCK_BASIC_LATIN: "ASCII",
     UBLOCK_LATIN_1_SUPPLEMENT: "Latin 1 Sup",
     UBLOCK_LATIN_EXTENDED_A: "Latin Ext A",
@@ -862,9 +862,9 @@ blockNames = {
     UBLOCK_YI_RADICALS: "Yi Radicals",
     UBLOCK_HANGUL_SYLLABLES: "Hangul",
     UBLOCK_HIGH_SURROGATES: "High Surrogates",
-    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High Private Use Surrogates",
+    UBLOCK_HIGH_PRIVATE_USE_SURROGATES: "High PU Surrogates",
     UBLOCK_LOW_SURROGATES: "Low Surrogates",
-    UBLOCK_PRIVATE_USE_AREA: "Private Use Area",
+    UBLOCK_PRIVATE_USE_AREA: "PUA",
     UBLOCK_CJK_COMPATIBILITY_IDEOGRAPHS: "CJK Compat Ideographs",
     UBLOCK_ALPHABETIC_PRESENTATION_FORMS: "Alphabetic PF",
     UBLOCK_ARABIC_PRESENTATION_FORMS_A: "Arabic PF A",
@@ -895,8 +895,8 @@ blockNames = {
     UBLOCK_SUPPLEMENTAL_MATHEMATICAL_OPERATORS: "Sup Math Operators",
     UBLOCK_KATAKANA_PHONETIC_EXTENSIONS: "Katakana Ext",
     UBLOCK_VARIATION_SELECTORS: "VS",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Supary Private Use Area A",
-    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Supary Private Use Area B",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_A: "Sup PUA A",
+    UBLOCK_SUPPLEMENTARY_PRIVATE_USE_AREA_B: "Sup PUA B",
     UBLOCK_LIMBU: "Limbu",
     UBLOCK_TAI_LE: "Tai Le",
     UBLOCK_KHMER_SYMBOLS: "Khmer Symbols",
diff --git a/UnicodeData/Boundaries.py b/UnicodeData/Boundaries.py
index 2e70a91..1ce6ca5 100644
--- a/UnicodeData/Boundaries.py
+++ b/UnicodeData/Boundaries.py
@@ -194,7 +194,7 @@ wordBreakNames = {
     WB_E_MODIFIER: "EM",
     WB_GLUE_AFTER_ZWJ: "GAZ",
     WB_ZWJ: "ZWJ",
-    WB_WSEGSPACE: "WSEGSPACE"
+    WB_WSEGSPACE: "WSegSpace"
 }
 
 sentenceBreakNames = {
-- 
2.43.0

