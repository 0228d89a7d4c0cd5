From 50ad8cfb327a19342b7004321046fed626b69ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 001/140] fix: CAnyValue::decode replaces the previous value
 instead of decoding on top of it

---
 include/CAnyValue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 4cb503d..b40ff7f 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1796,6 +1796,7 @@ namespace lce
 
             };
             check(dwDecodePos + 1, dwDataSize);
+            this->clear();
             m_ucSubType = *(pData + dwDecodePos);
             dwDecodePos++;
 
-- 
2.43.0


From f796f8571d277ca4c34877843de931cefe6a36be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 002/140] fix: CAnyValue assignment copies before it releases
 the old value and leaves no stale pointer behind a null

---
 include/CAnyValue.h | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index b40ff7f..e2d6621 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -233,7 +233,7 @@ namespace lce
         }
 
         CAnyValue(const CAnyValue &rhs)
-            : m_bInit(false)
+            : m_ucType(DType::Null), m_ucSubType(DType::Null), m_bInit(false), m_bHasData(false)
         {
             init();
             assign(rhs);
@@ -1927,49 +1927,57 @@ namespace lce
 
         void assign(const this_type &rhs)
         {
-            if (m_ucType == DType::String)
-                delete m_value.buf;
-            if (m_ucType == DType::Vector)
-                delete m_value.vec;
-            if (m_ucType == DType::Map)
-                delete m_value.map;
+            // copy first: rhs may live inside the value being replaced
+            const unsigned char ucType = rhs.m_ucType;
+            const unsigned char ucSubType = rhs.m_ucSubType;
+            const bool bHasData = rhs.m_bHasData;
+            ValueHolder newValue;
+            newValue.integer = 0;
 
             if (rhs.m_ucType == DType::Integer)
             {
-                m_value.integer = rhs.m_value.integer;
+                newValue.integer = rhs.m_value.integer;
             }
 
             if (rhs.m_ucType == DType::SInteger)
             {
-                m_value.integer = rhs.m_value.integer;
+                newValue.integer = rhs.m_value.integer;
             }
 
             if (rhs.m_ucType == DType::Bool)
             {
-                m_value.integer = rhs.m_value.integer;
+                newValue.integer = rhs.m_value.integer;
             }
 
             if (rhs.m_ucType == DType::Float)
             {
-                m_value.flValue = rhs.m_value.flValue;
+                newValue.flValue = rhs.m_value.flValue;
             }
 
             else if (rhs.m_ucType == DType::Map)
             {
-                m_value.map = new MapType(*(rhs.m_value.map));
+                newValue.map = new MapType(*(rhs.m_value.map));
             }
             else if (DType::Vector == rhs.m_ucType)
             {
-                m_value.vec = new VecType(*rhs.m_value.vec);
+                newValue.vec = new VecType(*rhs.m_value.vec);
             }
             else if (DType::String == rhs.m_ucType)
             {
-                m_value.buf = new BufType((*rhs.m_value.buf));
+                newValue.buf = new BufType((*rhs.m_value.buf));
             }
-            m_ucType = rhs.m_ucType;
-            m_ucSubType = rhs.m_ucSubType;
-            m_bHasData = rhs.m_bHasData;
-            m_bInit = rhs.m_bInit;
+
+            if (m_ucType == DType::String)
+                delete m_value.buf;
+            if (m_ucType == DType::Vector)
+                delete m_value.vec;
+            if (m_ucType == DType::Map)
+                delete m_value.map;
+            m_value = newValue;
+            m_ucType = ucType;
+            m_ucSubType = ucSubType;
+            m_bHasData = bHasData;
+            m_bInit = true;
         }
 
     private:
-- 
2.43.0


From 1db60e16e7bee23ecb8fc1b69b17f5223841b076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 003/140] fix: CAnyValue::decode rejects vector counts beyond
 the data and map members without a value

---
 include/CAnyValue.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index e2d6621..8c59500 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1167,6 +1167,7 @@ namespace lce
             check(dwDecodePos + 4, dwDataSize);
             uint32_t dwSize = ntohl(*(uint32_t *)(pData + dwDecodePos));
             dwDecodePos += 4;
+            check(dwDecodePos + dwSize, dwDataSize); // every item takes at least one byte
             thisobj.m_value.vec->resize(dwSize);
 
             for (uint32_t i = 0; i < dwSize; ++i)
@@ -1190,10 +1191,7 @@ namespace lce
                 check(dwDecodePos + ucNameLen, dwDataSize);
                 BufType sName(pData + dwDecodePos, ucNameLen);
                 dwDecodePos += ucNameLen;
-                if (dwDataSize > dwDecodePos)
-                {
-                    (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
-                }
+                (*thisobj.m_value.map)[sName].decode(dwDecodePos, pData, dwDataSize);
             }
         }
 
-- 
2.43.0


From da5dfb7fb47d17df20ac022bf0e7a18d42fd86fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 004/140] fix: CAnyValuePackage decodes only the bytes behind
 its head

---
 include/CAnyValue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8c59500..0cff23d 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -2064,7 +2064,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decode(pData + dwPos, dwDataSize);
+            m_oAnyValues.decode(pData + dwPos, dwDataSize - dwPos);
         }
 
         void decodeJSON(const unsigned char *pData, const size_t dwDataSize)
@@ -2087,7 +2087,7 @@ namespace lce
                 return;
             }
             size_t dwPos = sizeof(PKG_HEAD);
-            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize);
+            m_oAnyValues.decodeJSON(pData + dwPos, dwDataSize - dwPos);
         }
 
         const char *data()
-- 
2.43.0


From 97166260d81671e2735f9d518f1dbaf6fc032980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 005/140] fix: CAnyValue re-encodes non-negative signed
 integers at full width

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 0cff23d..b3eaa25 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1692,18 +1692,18 @@ namespace lce
 
             int64_t iValue = (int64_t)value.integer;
 
-            if (iValue > -129)
+            if (iValue > -129 && iValue < 128)
             {
                 sBuf.push_back((char)DType::SInteger1);
                 sBuf.push_back((char)value.integer);
             }
-            else if (iValue > -32769)
+            else if (iValue > -32769 && iValue < 32768)
             {
                 sBuf.push_back((char)DType::SInteger2);
                 unsigned short wTmp = htons(static_cast<uint16_t>(value.integer));
                 sBuf.append(reinterpret_cast<char *>(&wTmp), sizeof(wTmp));
             }
-            else if (iValue > -2147483649)
+            else if (iValue > -2147483649 && iValue < 2147483648)
             {
                 sBuf.push_back((char)DType::SInteger4);
                 uint32_t dwTmp = htonl(static_cast<uint32_t>(value.integer));
-- 
2.43.0


From 686a6c70ce2641cad7a237acc1e9d16487310646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 006/140] fix: CAnyValue text encodings no longer cut 20
 character integers

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index b3eaa25..26c8f44 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -828,14 +828,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
@@ -981,14 +981,14 @@ namespace lce
             break;
             case DType::Integer:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%llu", (long long unsigned)m_value.integer);
                 sBuf += szData;
             }
             break;
             case DType::SInteger:
             {
-                char szData[20];
+                char szData[24];
                 snprintf(szData, sizeof(szData), "%lld", (long long)m_value.integer);
                 sBuf += szData;
             }
-- 
2.43.0


From 03ae739e7fd5729446861775ff6579623c2d0ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 007/140] fix: CAnyValue::encodeJSON escapes NUL

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 26c8f44..7564b2a 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -956,7 +956,7 @@ namespace lce
 
         static inline bool isControlCharacter(char ch)
         {
-            return ch > 0 && ch <= 0x1F;
+            return ch >= 0 && ch <= 0x1F;
         }
 
     public:
-- 
2.43.0


From cb5d7bd2dcb1ec58494ca0e2cc69733173dbae59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 008/140] fix: CAnyValue::decodeJSON keeps a top-level string
 and replaces the previous value

---
 include/CAnyValue.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 7564b2a..d9d45a1 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -686,6 +686,7 @@ namespace lce
         void decodeJSON(const char *szBuf, const size_t iSize)
         {
             int dwPos = 0;
+            this->clear();
             skipSpaces(dwPos, szBuf, iSize);
 
             if (szBuf[dwPos] == '{')
@@ -706,7 +707,7 @@ namespace lce
                 dwPos++;
 
                 this->initAsBuf();
-                this->m_value.buf->assign(sValue.data(), sValue.size(), true);
+                this->m_value.buf->assign(sValue);
             }
             else if (szBuf[dwPos] == 't')
             {
-- 
2.43.0


From 27fe13240f066fd85f6f571bcbd9107234ea1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 009/140] fix: the JSON decoder stays inside its input and
 rejects documents that end early

---
 include/CAnyValue.h | 110 ++++++++++++++++++++++++--------------------
 1 file changed, 61 insertions(+), 49 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index d9d45a1..e1a1111 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -689,17 +689,17 @@ namespace lce
             this->clear();
             skipSpaces(dwPos, szBuf, iSize);
 
-            if (szBuf[dwPos] == '{')
+            if (charAt(szBuf, dwPos, iSize) == '{')
             {
                 dwPos++;
                 readObj(dwPos, *this, szBuf, iSize);
             }
-            else if (szBuf[dwPos] == '[')
+            else if (charAt(szBuf, dwPos, iSize) == '[')
             {
                 dwPos++;
                 readArray(dwPos, *this, szBuf, iSize);
             }
-            else if (szBuf[dwPos] == '"')
+            else if (charAt(szBuf, dwPos, iSize) == '"')
             {
                 string sValue;
                 dwPos++;
@@ -709,7 +709,7 @@ namespace lce
                 this->initAsBuf();
                 this->m_value.buf->assign(sValue);
             }
-            else if (szBuf[dwPos] == 't')
+            else if (charAt(szBuf, dwPos, iSize) == 't')
             {
                 if (dwPos + 4 > (int)iSize)
                 {
@@ -725,7 +725,7 @@ namespace lce
                 this->m_value.integer = 1;
                 dwPos += 4;
             }
-            else if (szBuf[dwPos] == 'n')
+            else if (charAt(szBuf, dwPos, iSize) == 'n')
             {
                 if (dwPos + 4 > (int)iSize)
                 {
@@ -738,7 +738,7 @@ namespace lce
                     throw runtime_error("not a bool value");
                 dwPos += 4;
             }
-            else if (szBuf[dwPos] == 'f')
+            else if (charAt(szBuf, dwPos, iSize) == 'f')
             {
                 if (dwPos + 5 > (int)iSize)
                 {
@@ -1276,6 +1276,12 @@ namespace lce
             }
         }
 
+        // 0 behind the end of the text
+        static inline char charAt(const char *szBuf, int dwPos, int iSize)
+        {
+            return dwPos < iSize ? szBuf[dwPos] : 0;
+        }
+
         static inline void skipSpaces(int &dwPos, const char *szBuf, int iSize)
         {
             while (dwPos < iSize)
@@ -1296,54 +1302,54 @@ namespace lce
             int dwFlag = 0;
             while (dwPos < iSize)
             {
-                if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == '"')
+                if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == '"')
                 {
                     sValue.append("\"");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == 't')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == 't')
                 {
                     sValue.append("\t");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == 'b')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == 'b')
                 {
                     sValue.append("\b");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == 'f')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == 'f')
                 {
                     sValue.append("\f");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == 'n')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == 'n')
                 {
                     sValue.append("\n");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == 'r')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == 'r')
                 {
                     sValue.append("\r");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == '\\')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == '\\')
                 {
                     sValue.append("\\");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == '/')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == '/')
                 {
                     sValue.append("/");
                     dwPos++;
                 }
-                else if (szBuf[dwPos] == '\\' && szBuf[dwPos + 1] == 'u')
+                else if (charAt(szBuf, dwPos, iSize) == '\\' && charAt(szBuf, dwPos + 1, iSize) == 'u')
                 {
                     dwPos++;
                     uint32_t unicode = 0;
                     readUnicode(dwPos, szBuf, iSize, unicode);
                     sValue.append(unicodeToUTF8(unicode));
                 }
-                else if (szBuf[dwPos] == '"')
+                else if (charAt(szBuf, dwPos, iSize) == '"')
                 {
                     dwFlag = 1;
                     break;
@@ -1366,20 +1372,24 @@ namespace lce
 
         static void readNumber(int &dwPos, string &sValue, const char *szBuf, int iSize)
         {
+            if (dwPos >= iSize)
+            {
+                throw runtime_error("expect a value");
+            }
             while (dwPos < iSize)
             {
                 sValue.append(szBuf + dwPos, 1);
                 dwPos++;
 
-                if (szBuf[dwPos] == ' ' ||
-                    szBuf[dwPos] == ',' ||
-                    szBuf[dwPos] == '}' ||
-                    szBuf[dwPos] == ']' ||
-                    szBuf[dwPos] == '\r' ||
-                    szBuf[dwPos] == '\n' ||
-                    szBuf[dwPos] == '\t' ||
-                    szBuf[dwPos] == '\b' ||
-                    szBuf[dwPos] == '\f')
+                if (charAt(szBuf, dwPos, iSize) == ' ' ||
+                    charAt(szBuf, dwPos, iSize) == ',' ||
+                    charAt(szBuf, dwPos, iSize) == '}' ||
+                    charAt(szBuf, dwPos, iSize) == ']' ||
+                    charAt(szBuf, dwPos, iSize) == '\r' ||
+                    charAt(szBuf, dwPos, iSize) == '\n' ||
+                    charAt(szBuf, dwPos, iSize) == '\t' ||
+                    charAt(szBuf, dwPos, iSize) == '\b' ||
+                    charAt(szBuf, dwPos, iSize) == '\f')
                 {
                     break;
                 }
@@ -1393,24 +1403,24 @@ namespace lce
             while (dwPos < iSize)
             {
                 skipSpaces(dwPos, szBuf, iSize);
-                if (szBuf[dwPos] == ']')
+                if (charAt(szBuf, dwPos, iSize) == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
-                else if (szBuf[dwPos] == '{')
+                else if (charAt(szBuf, dwPos, iSize) == '{')
                 {
                     dwPos++;
                     oValue.push_back(CAnyValue());
                     readObj(dwPos, oValue[oValue.size() - 1], szBuf, iSize);
                 }
-                else if (szBuf[dwPos] == '[')
+                else if (charAt(szBuf, dwPos, iSize) == '[')
                 {
                     dwPos++;
                     oValue.push_back(CAnyValue());
                     readArray(dwPos, oValue[oValue.size() - 1], szBuf, iSize);
                 }
-                else if (szBuf[dwPos] == '"')
+                else if (charAt(szBuf, dwPos, iSize) == '"')
                 {
                     string sValue;
                     dwPos++;
@@ -1418,7 +1428,7 @@ namespace lce
                     dwPos++;
                     oValue.push_back(sValue);
                 }
-                else if (szBuf[dwPos] == 't')
+                else if (charAt(szBuf, dwPos, iSize) == 't')
                 {
                     if (dwPos + 4 >= iSize)
                     {
@@ -1433,7 +1443,7 @@ namespace lce
                     oValue.push_back(true);
                     dwPos += 4;
                 }
-                else if (szBuf[dwPos] == 'n')
+                else if (charAt(szBuf, dwPos, iSize) == 'n')
                 {
                     if (dwPos + 4 >= iSize)
                     {
@@ -1448,7 +1458,7 @@ namespace lce
                     oValue.push_back(CAnyValue());
                     dwPos += 4;
                 }
-                else if (szBuf[dwPos] == 'f')
+                else if (charAt(szBuf, dwPos, iSize) == 'f')
                 {
                     if (dwPos + 5 >= iSize)
                     {
@@ -1486,12 +1496,12 @@ namespace lce
                     }
                 }
                 skipSpaces(dwPos, szBuf, iSize);
-                if (szBuf[dwPos] == ']')
+                if (charAt(szBuf, dwPos, iSize) == ']')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
-                else if (szBuf[dwPos] == ',')
+                else if (charAt(szBuf, dwPos, iSize) == ',')
                 {
                     dwPos++;
                 }
@@ -1503,6 +1513,7 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+            throw runtime_error("array is not closed");
         }
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
@@ -1512,12 +1523,12 @@ namespace lce
             while (dwPos < iSize)
             {
                 skipSpaces(dwPos, szBuf, iSize);
-                if (szBuf[dwPos] == '}')
+                if (charAt(szBuf, dwPos, iSize) == '}')
                 {
                     dwPos++;
-                    break;
+                    return;
                 }
-                if (szBuf[dwPos] == '"')
+                if (charAt(szBuf, dwPos, iSize) == '"')
                 {
                     string sKey;
                     dwPos++;
@@ -1525,7 +1536,7 @@ namespace lce
                     dwPos++;
                     skipSpaces(dwPos, szBuf, iSize);
 
-                    if (szBuf[dwPos] != ':')
+                    if (charAt(szBuf, dwPos, iSize) != ':')
                     {
                         string sOut;
                         sOut.append(szBuf + dwPos, min(100, iSize - dwPos));
@@ -1535,7 +1546,7 @@ namespace lce
 
                     dwPos++; // skip ":"
                     skipSpaces(dwPos, szBuf, iSize);
-                    if (szBuf[dwPos] == '"')
+                    if (charAt(szBuf, dwPos, iSize) == '"')
                     {
                         dwPos++;
                         string sValue;
@@ -1543,19 +1554,19 @@ namespace lce
                         dwPos++;
                         oValue[sKey] = sValue;
                     }
-                    else if (szBuf[dwPos] == '{')
+                    else if (charAt(szBuf, dwPos, iSize) == '{')
                     {
                         dwPos++;
                         CAnyValue &objValue = oValue[sKey];
                         readObj(dwPos, objValue, szBuf, iSize);
                     }
-                    else if (szBuf[dwPos] == '[')
+                    else if (charAt(szBuf, dwPos, iSize) == '[')
                     {
                         dwPos++;
                         CAnyValue &arrayValue = oValue[sKey];
                         readArray(dwPos, arrayValue, szBuf, iSize);
                     }
-                    else if (szBuf[dwPos] == 't')
+                    else if (charAt(szBuf, dwPos, iSize) == 't')
                     {
 
                         if (dwPos + 4 >= iSize)
@@ -1577,7 +1588,7 @@ namespace lce
                         oValue[sKey] = true;
                         dwPos += 4;
                     }
-                    else if (szBuf[dwPos] == 'n')
+                    else if (charAt(szBuf, dwPos, iSize) == 'n')
                     {
                         if (dwPos + 4 >= iSize)
                         {
@@ -1591,7 +1602,7 @@ namespace lce
                         oValue[sKey];
                         dwPos += 4;
                     }
-                    else if (szBuf[dwPos] == 'f')
+                    else if (charAt(szBuf, dwPos, iSize) == 'f')
                     {
                         if (dwPos + 5 >= iSize)
                         {
@@ -1632,12 +1643,12 @@ namespace lce
 
                     skipSpaces(dwPos, szBuf, iSize);
 
-                    if (szBuf[dwPos] == '}')
+                    if (charAt(szBuf, dwPos, iSize) == '}')
                     {
                         dwPos++;
-                        break;
+                        return;
                     }
-                    else if (szBuf[dwPos] == ',')
+                    else if (charAt(szBuf, dwPos, iSize) == ',')
                     {
                         dwPos++;
                     }
@@ -1657,6 +1668,7 @@ namespace lce
                     throw runtime_error(sOut.c_str());
                 }
             }
+            throw runtime_error("object is not closed");
         }
 
     private:
-- 
2.43.0


From a8ec071fd2a91358f8b48b79ccb0b36875aa511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 010/140] fix: the JSON decoder reads numbers with an exponent
 as floats

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index e1a1111..9c37bd6 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -757,7 +757,7 @@ namespace lce
             {
                 string sValue;
                 readNumber(dwPos, sValue, szBuf, iSize);
-                if (sValue.find('.') != string::npos)
+                if (sValue.find_first_of(".eE") != string::npos)
                 {
                     double flValue = atof(sValue.c_str());
                     this->m_ucType = DType::Float;
@@ -1476,7 +1476,7 @@ namespace lce
                 {
                     string sValue;
                     readNumber(dwPos, sValue, szBuf, iSize);
-                    if (sValue.find('.') != string::npos)
+                    if (sValue.find_first_of(".eE") != string::npos)
                     {
                         double flValue = atof(sValue.c_str());
                         oValue.push_back(flValue);
@@ -1620,7 +1620,7 @@ namespace lce
                     {
                         string sValue;
                         readNumber(dwPos, sValue, szBuf, iSize);
-                        if (sValue.find('.') != string::npos)
+                        if (sValue.find_first_of(".eE") != string::npos)
                         {
                             double flValue = atof(sValue.c_str());
                             oValue[sKey] = flValue;
-- 
2.43.0


From 323e12069beca7d3d3b6eccae459544b886a5a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 011/140] fix: the JSON decoder joins surrogate pairs into one
 character

---
 include/CAnyValue.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 9c37bd6..6579dee 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1347,6 +1347,17 @@ namespace lce
                     dwPos++;
                     uint32_t unicode = 0;
                     readUnicode(dwPos, szBuf, iSize, unicode);
+                    if (unicode >= 0xD800 && unicode <= 0xDBFF && charAt(szBuf, dwPos + 1, iSize) == '\\' && charAt(szBuf, dwPos + 2, iSize) == 'u')
+                    {
+                        int dwLowPos = dwPos + 2;
+                        uint32_t dwLow = 0;
+                        readUnicode(dwLowPos, szBuf, iSize, dwLow);
+                        if (dwLow >= 0xDC00 && dwLow <= 0xDFFF)
+                        {
+                            unicode = 0x10000 + ((unicode - 0xD800) << 10) + (dwLow - 0xDC00);
+                            dwPos = dwLowPos;
+                        }
+                    }
                     sValue.append(unicodeToUTF8(unicode));
                 }
                 else if (charAt(szBuf, dwPos, iSize) == '"')
-- 
2.43.0


From 0ab3a65ea76e4ffde492e2a9be32757caafd0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 012/140] fix: deeply nested input no longer exhausts the stack
 in the CAnyValue decoders

---
 include/CAnyValue.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 6579dee..8f32436 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -892,6 +892,23 @@ namespace lce
         static std::vector<DECODE_FUNC> m_vecDecodeFuncs;
 
     private:
+        // bounds the recursion of the decoders
+        struct DepthGuard
+        {
+            DepthGuard()
+            {
+                if (depth() >= 1000)
+                    throw Error("decode data error: nested too deeply.");
+                ++depth();
+            }
+            ~DepthGuard() { --depth(); }
+            static int &depth()
+            {
+                static __thread int iDepth = 0;
+                return iDepth;
+            }
+        };
+
         static void inline check(const size_t dwPos, const size_t sDataSize)
         {
             if (dwPos > sDataSize)
@@ -1409,6 +1426,7 @@ namespace lce
 
         static void readArray(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            DepthGuard oGuard;
             oValue.initAsVector();
 
             while (dwPos < iSize)
@@ -1529,6 +1547,7 @@ namespace lce
 
         static void readObj(int &dwPos, CAnyValue &oValue, const char *szBuf, int iSize)
         {
+            DepthGuard oGuard;
             oValue.initAsMap();
 
             while (dwPos < iSize)
@@ -1817,6 +1836,7 @@ namespace lce
                                                    &decode_sinteger1, &decode_sinteger2, &decode_sinteger4, &decode_sinteger8
 
             };
+            DepthGuard oGuard;
             check(dwDecodePos + 1, dwDataSize);
             this->clear();
             m_ucSubType = *(pData + dwDecodePos);
-- 
2.43.0


From 898c36164042467093e3219e2e2a60b39f037f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 013/140] fix: asInt64, asUInt and asUInt64 return their full
 width

---
 include/CAnyValue.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8f32436..8e53f22 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -256,21 +256,21 @@ namespace lce
             return 0;
         }
 
-        int asInt64() const
+        int64_t asInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<int64_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt() const
+        uint32_t asUInt() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint32_t>(m_value.integer);
             return 0;
         }
 
-        int asUInt64() const
+        uint64_t asUInt64() const
         {
             if (DType::Integer == m_ucType || DType::Bool == m_ucType || DType::SInteger == m_ucType)
                 return static_cast<uint64_t>(m_value.integer);
-- 
2.43.0


From 59dbc9bb7eb4af76e0eabab14449224d024236d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 014/140] fix: CAnyValue refuses negative indexes and pops on
 an empty vector

---
 include/CAnyValue.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 8e53f22..1ff5d0d 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -423,7 +423,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -435,7 +435,7 @@ namespace lce
         {
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
-                if (iIndex < (int)m_value.vec->size())
+                if (iIndex >= 0 && iIndex < (int)m_value.vec->size())
                     return (*m_value.vec)[iIndex];
                 else
                     throw Error("operator[inx]: index invalid");
@@ -555,7 +555,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_back();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_back();
             }
         }
         void push_front(const CAnyValue &oValue)
@@ -573,7 +574,8 @@ namespace lce
             if ((DType::Vector == m_ucType) && NULL != m_value.vec)
             {
                 m_bHasData = true;
-                m_value.vec->pop_front();
+                if (!m_value.vec->empty())
+                    m_value.vec->pop_front();
             }
         }
 
-- 
2.43.0


From 233e06e46ae150f69bbfafc7da3be69d31a9b3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 015/140] fix: CAnyValue looks long keys up under the 255 byte
 name they are stored with

---
 include/CAnyValue.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 1ff5d0d..30e5cb5 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -449,7 +449,7 @@ namespace lce
             static CAnyValue m_null;
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -462,7 +462,7 @@ namespace lce
             // std::string sName(pszName);
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(pszName);
+                MapType::iterator it = m_value.map->find(std::string(pszName).substr(0, 255));
                 if (it != m_value.map->end())
                     return it->second;
             }
@@ -503,7 +503,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                MapType::iterator it = m_value.map->find(sName);
+                MapType::iterator it = m_value.map->find(sName.substr(0, 255));
                 if (it != m_value.map->end())
                     return true;
             }
@@ -583,7 +583,7 @@ namespace lce
         {
             if ((DType::Map == m_ucType) && NULL != m_value.map)
             {
-                m_value.map->erase(sName);
+                m_value.map->erase(sName.substr(0, 255));
             }
         }
 
-- 
2.43.0


From c2a16fdedf93c8cfe508e098ba1bc578eb5033c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 016/140] fix: a decoded bool is 0 or 1 so that every reader
 and encoder agrees on it

---
 include/CAnyValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 30e5cb5..6b1df13 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -1087,7 +1087,7 @@ namespace lce
         {
             thisobj.m_ucType = DType::Bool;
             check(dwDecodePos + 1, dwDataSize);
-            thisobj.m_value.integer = (unsigned char)*(unsigned char *)(pData + dwDecodePos);
+            thisobj.m_value.integer = *(pData + dwDecodePos) != 0 ? 1 : 0;
             ++dwDecodePos;
         }
 
-- 
2.43.0


From 870f73c804d0c975c451b54d12dc3063d7493b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:04 +0000
Subject: [PATCH 017/140] fix: encodeXML splits CDATA sections at ]]>

---
 include/CAnyValue.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 6b1df13..187cceb 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -853,7 +853,15 @@ namespace lce
             case DType::String:
             {
                 sBuf += "<![CDATA[";
-                sBuf += (*m_value.buf);
+                size_t dwPos = 0;
+                size_t dwEnd;
+                while ((dwEnd = m_value.buf->find("]]>", dwPos)) != std::string::npos)
+                {
+                    sBuf.append(*m_value.buf, dwPos, dwEnd + 2 - dwPos);
+                    sBuf += "]]><![CDATA[";
+                    dwPos = dwEnd + 2;
+                }
+                sBuf.append(*m_value.buf, dwPos, std::string::npos);
                 sBuf += "]]>";
             }
             break;
-- 
2.43.0


From 9fc017ded7e61763ba169cdf2120257cf1f434d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 018/140] fix: floats of 16 integer digits are encoded with a
 digit behind the point

---
 include/CAnyValue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/CAnyValue.h b/include/CAnyValue.h
index 187cceb..f036b1e 100755
--- a/include/CAnyValue.h
+++ b/include/CAnyValue.h
@@ -848,6 +848,8 @@ namespace lce
                 char buffer[32];
                 snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
                 sBuf += buffer;
+                if (sBuf[sBuf.size() - 1] == '.')
+                    sBuf += '0';
             }
             break;
             case DType::String:
@@ -1026,6 +1028,8 @@ namespace lce
                 char buffer[32];
                 snprintf(buffer, sizeof(buffer), "%#.16g", m_value.flValue);
                 sBuf += buffer;
+                if (sBuf[sBuf.size() - 1] == '.')
+                    sBuf += '0';
             }
             break;
             case DType::String:
-- 
2.43.0


From 4b30e4d1fb65b3a036d498270610cc86c10ab346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 019/140] fix: CPackage can be assigned

---
 include/CPackage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a1b8b5f..7025ca9 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -55,7 +55,7 @@ namespace lce
 		{
 			if (this != &rhs)
 			{
-				this->assign();
+				this->assign(rhs);
 			}
 
 			return *this;
-- 
2.43.0


From f4e319fc7ab9273c4842796611b16e006ae763a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:24 +0000
Subject: [PATCH 020/140] fix: single bytes can be streamed into a CPackage

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 7025ca9..a692d0a 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -282,12 +282,12 @@ namespace lce
 
 		this_type &operator<<(const unsigned char ucVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&ucVal), sizeof(unsigned char));
+			m_pkgData.append(reinterpret_cast<const char *>(&ucVal), sizeof(unsigned char));
 			return *this;
 		}
 		this_type &operator<<(const char cVal)
 		{
-			m_pkgData.append(reinterpret_cast<char *>(&cVal), sizeof(char));
+			m_pkgData.append(reinterpret_cast<const char *>(&cVal), sizeof(char));
 			return *this;
 		}
 
-- 
2.43.0


From 96bacf5ed959f3c0361697fbf48adde7881a22e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 021/140] fix: CPackage::readString stays inside the package

---
 include/CPackage.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index a692d0a..9460bca 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -567,9 +567,13 @@ namespace lce
 		void readString(std::string &sData)
 		{
 			const char *pData = m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos;
-			int iStrLen = strlen(pData);
-			sData = pData;
-			m_iPos += iStrLen + 1;
+			const char *pEnd = static_cast<const char *>(memchr(pData, 0, m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos));
+			if (NULL == pEnd)
+			{
+				throw Error("data error:no string end.");
+			}
+			sData.assign(pData, pEnd - pData);
+			m_iPos += static_cast<int>(pEnd - pData) + 1;
 		}
 
 		void readString1(std::string &sData)
-- 
2.43.0


From 59c8c6ae672951cf021e233dd67d379cbddce34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 022/140] fix: CPackage refuses data shorter than its head
 everywhere

---
 include/CPackage.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index 9460bca..d68b00b 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -37,6 +37,10 @@ namespace lce
 			{
 				throw Error("pszPkgData is null.");
 			}
+			else if (static_cast<int>(sizeof(PKG_HEAD)) > iLen)
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData.erase();
 			m_pkgData.assign((char *)pszPkgData, iLen);
@@ -82,6 +86,10 @@ namespace lce
 
 		void setPkgData(const std::string sData)
 		{
+			if (sizeof(PKG_HEAD) > sData.size())
+			{
+				throw Error("data len less than pkg head len.");
+			}
 			m_iPos = 0;
 			m_pkgData = sData;
 		}
-- 
2.43.0


From 6b9e6f95347023b80313bae16fac51146d7aa7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 023/140] fix: CPackage::setPkgBody restarts reading at the new
 body

---
 include/CPackage.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CPackage.h b/include/CPackage.h
index d68b00b..2091c75 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -681,10 +681,12 @@ namespace lce
 		// 设置包体
 		void setPkgBody(const unsigned char *pszBody, const int iBodyLen)
 		{
+			m_iPos = 0;
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, reinterpret_cast<const char *>(pszBody), iBodyLen);
 		}
 		void setPkgBody(const char *pszBody, const int iBodyLen)
 		{
+			m_iPos = 0;
 			m_pkgData.replace(sizeof(PKG_HEAD), std::string::npos, pszBody, iBodyLen);
 		}
 
-- 
2.43.0


From 6687d3c5cc28ffcf24ba11782bab21ff088ec270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:13 +0000
Subject: [PATCH 024/140] fix: CPackage::read refuses negative lengths

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index 2091c75..b25c45d 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -548,7 +548,7 @@ namespace lce
 
 		void read(char *pszBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				memcpy(pszBuf, m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
@@ -561,7 +561,7 @@ namespace lce
 
 		void read(std::string &sBuf, const int iReadLen)
 		{
-			if (iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
+			if (iReadLen >= 0 && iReadLen <= static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD) - m_iPos))
 			{
 				sBuf.assign(m_pkgData.data() + sizeof(PKG_HEAD) + m_iPos, iReadLen);
 			}
-- 
2.43.0


From 0445a700860d6489ec7a3d58d395c67b49eb2d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 025/140] fix: CPackage::seek never leaves the body

---
 include/CPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CPackage.h b/include/CPackage.h
index b25c45d..af29cc8 100644
--- a/include/CPackage.h
+++ b/include/CPackage.h
@@ -646,14 +646,14 @@ namespace lce
 				}
 				break;
 			case S_CUR:
-				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) > iOffPos && m_iPos + iOffPos >= 0)
+				if (static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) - m_iPos > iOffPos && m_iPos + static_cast<long long>(iOffPos) >= 0)
 				{
 					m_iPos += iOffPos;
 					bOk = true;
 				}
 				break;
 			case S_END:
-				if (iOffPos <= 0 && (int)m_pkgData.size() > abs(iOffPos))
+				if (iOffPos <= 0 && static_cast<int>(m_pkgData.size() - sizeof(PKG_HEAD)) >= -static_cast<long long>(iOffPos))
 				{
 
 					m_iPos = (int)m_pkgData.size() - sizeof(PKG_HEAD) + iOffPos;
-- 
2.43.0


From ecff6730d2015a8e78f528ce0e45fb3fe0811f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:03 +0000
Subject: [PATCH 026/140] fix: AnyHeader keeps all 64 bits of the user id

---
 include/CAnyPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index 41587ba..cfbe77f 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -51,8 +51,8 @@ namespace lce
         void setFormat(uint32_t dwFormat) { this->dwFormat = htonl(dwFormat); }
         uint32_t getFormat() { return ntohl(dwFormat); }
 
-        void setUid(uint64_t ddwUid) { this->ddwUid = htonl(ddwUid); }
-        uint64_t getUid() { return ntohl(ddwUid); }
+        void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
+        uint64_t getUid() { return ntohll(ddwUid); }
 
         void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
         uint32_t getClientIp() { return ntohll(dwClientIp); }
-- 
2.43.0


From 02b1528ea569eeede57e3e8f7b9eeb8e2eee441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 027/140] fix: AnyHeader keeps the client address

---
 include/CAnyPackage.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CAnyPackage.h b/include/CAnyPackage.h
index cfbe77f..962bf54 100644
--- a/include/CAnyPackage.h
+++ b/include/CAnyPackage.h
@@ -54,8 +54,8 @@ namespace lce
         void setUid(uint64_t ddwUid) { this->ddwUid = htonll(ddwUid); }
         uint64_t getUid() { return ntohll(ddwUid); }
 
-        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonll(dwClientIp); }
-        uint32_t getClientIp() { return ntohll(dwClientIp); }
+        void setClientIp(uint32_t dwClientIp) { this->dwClientIp = htonl(dwClientIp); }
+        uint32_t getClientIp() { return ntohl(dwClientIp); }
 
         void setErrno(uint32_t dwErrno) { this->dwErrno = htonl(dwErrno); }
         uint32_t getErrno() { return ntohl(dwErrno); }
-- 
2.43.0


From 4d67fd68517b7b519bd7fc90ca592b176fc3e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 028/140] fix: HTTP framing looks only at the bytes received

---
 include/CHttpPackageFilter.h | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index 47f2f20..d8881bb 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,6 +1,8 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <string.h>
+
 namespace lce
 {
 	class CHttpPackageFilter : public CPackageFilter
@@ -15,15 +17,21 @@ namespace lce
 		inline int isWholePkg(const char *pszData, const int iDataSize, int &iRealPkgLen, int &iPkgLen)
 		{
 			int iRe = -1;
-			const char *pFirstLine = ::strstr(pszData, "\r\n");
+			if (iDataSize <= 0)
+			{
+				return iRe;
+			}
+			const char *pDataEnd = pszData + iDataSize;
+			const char *pFirstLine = find(pszData, pDataEnd, "\r\n");
 			if (NULL != pFirstLine)
 			{
-				const char *pEnd = ::strstr(pszData, "\r\n\r\n") + sizeof("\r\n\r\n") - 1;
+				const char *pEnd = find(pszData, pDataEnd, "\r\n\r\n");
 				if (NULL != pEnd)
 				{
+					pEnd += sizeof("\r\n\r\n") - 1;
 
 					bool bRecvData = false;
-					const char *pHTTP = ::strstr(pszData, "HTTP");
+					const char *pHTTP = find(pszData, pEnd, "HTTP");
 					if (pHTTP == pszData)
 					{
 						bRecvData = true;
@@ -34,12 +42,12 @@ namespace lce
 
 					if (bRecvData)
 					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
+						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
 							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
+								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
 									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
@@ -61,12 +69,12 @@ namespace lce
 					}
 					else
 					{
-						const char *pContentLenPos = ::strstr(pszData, "Content-Length: ");
+						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
 							{
-								const char *pContentLenEndPos = strstr(pContentLenPos, "\r\n");
+								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
 									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
@@ -89,6 +97,13 @@ namespace lce
 		{
 			return pszData;
 		}
+
+	private:
+		// strstr that stays inside [pBegin,pEnd)
+		static const char *find(const char *pBegin, const char *pEnd, const char *pszStr)
+		{
+			return static_cast<const char *>(memmem(pBegin, pEnd - pBegin, pszStr, strlen(pszStr)));
+		}
 	};
 
 };
-- 
2.43.0


From 887495adbbcb3e9c5a7dcdaa708f8870774ea8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 029/140] fix: HTTP framing reads Content-Length as a head line
 of its own and refuses impossible lengths

---
 include/CHttpPackageFilter.h | 48 +++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/include/CHttpPackageFilter.h b/include/CHttpPackageFilter.h
index d8881bb..a33b453 100644
--- a/include/CHttpPackageFilter.h
+++ b/include/CHttpPackageFilter.h
@@ -1,7 +1,9 @@
 #ifndef __NCE_CHTTPPACKAGE_H
 #define __NCE_CHTTPPACKAGE_H
 
+#include <limits.h>
 #include <string.h>
+#include <strings.h>
 
 namespace lce
 {
@@ -42,7 +44,7 @@ namespace lce
 
 					if (bRecvData)
 					{
-						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
+						const char *pContentLenPos = findHead(pszData, pEnd, "Content-Length:");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
@@ -50,7 +52,9 @@ namespace lce
 								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
+									int iContentLen = getLen(pContentLenPos + sizeof("Content-Length:") - 1, pContentLenEndPos, INT_MAX - iHeadLen);
+									if (iContentLen < 0)
+										return -2;
 									iHTMLLen += iContentLen;
 								}
 							}
@@ -69,7 +73,7 @@ namespace lce
 					}
 					else
 					{
-						const char *pContentLenPos = find(pszData, pEnd, "Content-Length: ");
+						const char *pContentLenPos = findHead(pszData, pEnd, "Content-Length:");
 						if (NULL != pContentLenPos)
 						{
 							if (pEnd > pContentLenPos)
@@ -77,7 +81,9 @@ namespace lce
 								const char *pContentLenEndPos = find(pContentLenPos, pEnd, "\r\n");
 								if (NULL != pContentLenEndPos && pContentLenPos < pEnd)
 								{
-									int iContentLen = atoi(pContentLenPos + sizeof("Content-Length: ") - 1);
+									int iContentLen = getLen(pContentLenPos + sizeof("Content-Length:") - 1, pContentLenEndPos, INT_MAX - iHeadLen);
+									if (iContentLen < 0)
+										return -2;
 									iHTMLLen += iContentLen;
 								}
 							}
@@ -104,6 +110,40 @@ namespace lce
 		{
 			return static_cast<const char *>(memmem(pBegin, pEnd - pBegin, pszStr, strlen(pszStr)));
 		}
+
+		// the head line that starts with pszName in any case; the head ends with an empty line
+		static const char *findHead(const char *pBegin, const char *pEnd, const char *pszName)
+		{
+			const char *pLine = pBegin;
+			while (NULL != (pLine = find(pLine, pEnd, "\r\n")))
+			{
+				pLine += sizeof("\r\n") - 1;
+				if (static_cast<size_t>(pEnd - pLine) > strlen(pszName) && strncasecmp(pLine, pszName, strlen(pszName)) == 0)
+					return pLine;
+			}
+			return NULL;
+		}
+
+		// the decimal number in [pBegin,pEnd), -1 if it is none or above iMax
+		static int getLen(const char *pBegin, const char *pEnd, const int iMax)
+		{
+			while (pBegin < pEnd && (*pBegin == ' ' || *pBegin == '\t'))
+				++pBegin;
+			while (pEnd > pBegin && (pEnd[-1] == ' ' || pEnd[-1] == '\t'))
+				--pEnd;
+			if (pBegin == pEnd)
+				return -1;
+			long long llLen = 0;
+			for (; pBegin < pEnd; ++pBegin)
+			{
+				if (*pBegin < '0' || *pBegin > '9')
+					return -1;
+				llLen = llLen * 10 + (*pBegin - '0');
+				if (llLen > iMax)
+					return -1;
+			}
+			return static_cast<int>(llLen);
+		}
 	};
 
 };
-- 
2.43.0


From 8847d1fb9f95cf2bd163c312b0401b79f569612f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 030/140] fix: FormUrlDecode keeps malformed and truncated
 escapes as they are

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 1f29a32..3abe7ef 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -530,7 +530,7 @@ namespace lce
             {
                 sResult += ' ';
             }
-            else if (ch == '%')
+            else if (ch == '%' && j + 2 < iLen && isxdigit((unsigned char)sSrc[j + 1]) && isxdigit((unsigned char)sSrc[j + 2]))
             {
                 char szTmpStr[] = "0x000";
                 int iChNum;
-- 
2.43.0


From abeab3235503ddcc33f8bb0cb8a8bd8a34667cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 031/140] fix: Gmt2Time stops at the end of the text

---
 src/Utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 3abe7ef..50e544c 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -338,6 +338,8 @@ namespace lce
         GC;
         if (c == ' ')
             GC;
+        if (!isdigit(c))
+            return BAD;
         if (day == -1)
         {
             day = c - '0';
-- 
2.43.0


From 15ae3cf34ccb299d95d01e6a0787bf406cc60157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 032/140] fix: SplitStr skips the whole separator

---
 include/StringHelper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index e340b72..00b5422 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -50,10 +50,10 @@ namespace lce
 		size_t start = 0;
 		size_t end = 0;
 
-		while ((end = str.find(separator, start)) != string::npos)
+		while (!separator.empty() && (end = str.find(separator, start)) != string::npos)
 		{
 			result.push_back(str.substr(start, end - start));
-			start = end + 1;
+			start = end + separator.size();
 		}
 
 		result.push_back(str.substr(start));
-- 
2.43.0


From 3540abcda366157ad27371fa41d16fd1776f6794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 033/140] fix: ReplaceStr of an empty string terminates

---
 include/StringHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/StringHelper.h b/include/StringHelper.h
index 00b5422..e434f60 100644
--- a/include/StringHelper.h
+++ b/include/StringHelper.h
@@ -26,7 +26,7 @@ namespace lce
 		string::size_type dwLen1 = sFind.size();
 		string::size_type dwLen2 = sReplace.size();
 
-		while ((pos = str.find(sFind, pos)) != string::npos)
+		while (dwLen1 > 0 && (pos = str.find(sFind, pos)) != string::npos)
 		{
 			str.replace(pos, dwLen1, sReplace);
 			pos += dwLen2;
-- 
2.43.0


From f4247464d030a4ffe1c560d32a743495abe6b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 034/140] fix: CHttpReader parses the query of HEAD requests

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b2a3235..52037c4 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -71,7 +71,7 @@ namespace lce
 				return false;
 			}
 
-			if (m_nCommand == GET)
+			if (m_nCommand == GET || m_nCommand == HEAD)
 			{
 				string::size_type tmpPos = m_sURI.find('?');
 				if (tmpPos != string::npos)
-- 
2.43.0


From 358670c58b754af0b7bc0632b532bf9bbe3eb8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 035/140] fix: CHttpReader decodes parameter names

---
 src/CHttpReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 52037c4..b23bc52 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -358,7 +358,7 @@ namespace lce
 			equalPos = sTmp.find('=');
 			if (equalPos == string::npos)
 				continue;
-			m_mapValueList[sTmp.substr(0, equalPos)] = FormUrlDecode(sTmp.substr(1 + equalPos));
+			m_mapValueList[FormUrlDecode(sTmp.substr(0, equalPos))] = FormUrlDecode(sTmp.substr(1 + equalPos));
 		}
 	}
 
-- 
2.43.0


From 33f6cd162bc6fd328ba532976ddb7b4624c4c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 036/140] fix: CHttpReader splits head lines at the colon

---
 src/CHttpReader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index b23bc52..6034e5c 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -129,7 +129,12 @@ namespace lce
 			sLine = m_sHttpContent.substr(pos1, pos2 - pos1);
 			pos1 = pos2 + 2;
 
-			colonPos = sLine.find(": ");
+			colonPos = sLine.find(':');
+			if (colonPos == string::npos)
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "head error: can't find colon<pos1=%d, pos2=%d>.", (uint32_t)pos1, (uint32_t)pos2);
+				return false;
+			}
 			sName = sLine.substr(0, colonPos);
 			if (sName.empty())
 			{
@@ -137,7 +142,8 @@ namespace lce
 				return false;
 			}
 
-			sValue = sLine.substr(colonPos + 2);
+			string::size_type valuePos = sLine.find_first_not_of(" \t", colonPos + 1);
+			sValue = valuePos == string::npos ? "" : sLine.substr(valuePos);
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
 			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
-- 
2.43.0


From 8db869004489e191872af5e6b013f090e0718c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 037/140] fix: CHttpReader forgets the files of the previous
 request

---
 include/CHttpReader.h | 1 +
 src/CHttpReader.cpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/CHttpReader.h b/include/CHttpReader.h
index 0e846db..4b76d2f 100755
--- a/include/CHttpReader.h
+++ b/include/CHttpReader.h
@@ -128,6 +128,7 @@ namespace lce
 			m_sHttpContent.clear();
 			m_sFile.clear();
 			m_sFileName.clear();
+			m_mapFiles.clear();
 		}
 
 	private:
diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 6034e5c..2bab20b 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -179,6 +179,7 @@ namespace lce
 		m_mapHeadInfo.clear();
 		m_sFile.clear();
 		m_sFileName.clear();
+		m_mapFiles.clear();
 	}
 
 	string &CHttpReader::getCookie(const string &sName, string &sValue, const string &sDefVal) const
-- 
2.43.0


From 773221096d0d6224ef74244e624a463c35e013dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 038/140] fix: CHttpReader keeps the Content-Type of multipart
 requests

---
 src/CHttpReader.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 2bab20b..0de9fdf 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -146,14 +146,12 @@ namespace lce
 			sValue = valuePos == string::npos ? "" : sLine.substr(valuePos);
 
 			static const string BOUNDARY_STR("multipart/form-data; boundary=");
-			if (sBoundary.empty() && sName == "Content-Type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
+			sName = toLower(sName.c_str());
+			if (sBoundary.empty() && sName == "content-type" && sValue.substr(0, BOUNDARY_STR.length()) == BOUNDARY_STR)
 			{
 				sBoundary = sValue.substr(BOUNDARY_STR.length());
 			}
-			else
-			{
-				m_mapHeadInfo[toLower(sName.c_str())] = sValue;
-			}
+			m_mapHeadInfo[sName] = sValue;
 		}
 
 		this->parseCookies();
-- 
2.43.0


From 80ec520c064c29ddee4e95d073128ebebeaaa0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 039/140] fix: CHttpReader does not read multipart bodies as
 url-encoded parameters

---
 src/CHttpReader.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index 0de9fdf..c674bb3 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -155,13 +155,16 @@ namespace lce
 		}
 
 		this->parseCookies();
-		this->parseValues();
 
 		if (m_nCommand == POST && !sBoundary.empty())
 		{
 			sBoundary.insert(0, "--");
 			this->parsePostFormData(sBoundary, headEndPos);
 		}
+		else
+		{
+			this->parseValues();
+		}
 
 		return bOk;
 	}
@@ -443,7 +446,7 @@ namespace lce
 			{
 				sValue.erase(sValue.size() - 2);
 			}
-			m_mapValueList[sName] = FormUrlDecode(sValue);
+			m_mapValueList[sName] = sValue;
 			m_sFileName = getStrBetween(sNV, 0, "filename=\"", "\"", pos);
 			if (pos == string::npos || m_sFileName.empty())
 			{
-- 
2.43.0


From 57c2f04773f51ace9232a315de73a8d7ba70ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 040/140] fix: CHttpReader separates the head of a multipart
 part from its content

---
 src/CHttpReader.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index c674bb3..c32759a 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -442,7 +442,8 @@ namespace lce
 				break;
 			}
 			sValue = sNV.substr(pos + 4);
-			if (sValue.size() > 2)
+			sNV.erase(pos + 2);
+			if (sValue.size() >= 2)
 			{
 				sValue.erase(sValue.size() - 2);
 			}
@@ -463,13 +464,7 @@ namespace lce
 
 			MAP_FILE::iterator it = m_mapFiles.find(sName);
 
-			it->second.sData = sNV.substr(pos + sFileType.size() + 4);
-
-			if (it->second.sData.size() > 2)
-			{
-				it->second.sData.erase(it->second.sData.size() - 2);
-			}
-
+			it->second.sData = sValue;
 			it->second.sContentType = sFileType;
 			it->second.sName = m_sFileName;
 		}
-- 
2.43.0


From 11d9ee7b53c587466bc7ffb9ca9a43a47c740538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 041/140] fix: CHttpWriter does not cut long heads

---
 src/CHttpWriter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 1e06edd..9d30a87 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -27,8 +27,7 @@ namespace lce
 		snprintf(szTmp, sizeof(szTmp), "HTTP/1.1 %d %s\r\n", m_iStatusCode, getStatusCodeDesc(m_iStatusCode));
 		m_sSendData = szTmp;
 
-		snprintf(szTmp, sizeof(szTmp), "Connection: %s\r\n", m_sConnection.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Connection: " + m_sConnection + "\r\n";
 
 		// Date: Wed, 22 Mar 2006 07:47:52 GMT\r\n
 		snprintf(szTmp, sizeof(szTmp), "Date: %s\r\n", GetGMTDate(time(NULL)).c_str());
@@ -48,14 +47,12 @@ namespace lce
 
 		if (!m_sCacheControl.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "Cache-Control: %s\r\n", m_sCacheControl.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "Cache-Control: " + m_sCacheControl + "\r\n";
 		}
 
 		if (!m_sETag.empty())
 		{
-			snprintf(szTmp, sizeof(szTmp), "ETag: %s\r\n", m_sETag.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += "ETag: " + m_sETag + "\r\n";
 		}
 
 		// length
@@ -75,8 +72,7 @@ namespace lce
 
 		for (MAP_HEAD::const_iterator it = m_mapHead.begin(); it != m_mapHead.end(); ++it)
 		{
-			snprintf(szTmp, sizeof(szTmp), "%s: %s\r\n", it->first.c_str(), it->second.c_str());
-			m_sSendData += szTmp;
+			m_sSendData += it->first + ": " + it->second + "\r\n";
 		}
 
 		// set cookie
@@ -98,8 +94,7 @@ namespace lce
 		}
 
 		// html head end
-		snprintf(szTmp, sizeof(szTmp), "Content-Type: %s\r\n\r\n", m_sContentType.c_str());
-		m_sSendData += szTmp;
+		m_sSendData += "Content-Type: " + m_sContentType + "\r\n\r\n";
 		m_sSendData += m_sBodyContent;
 	}
 
-- 
2.43.0


From bdcb90ddffbf9898dd68482e0f4e30e42d1f4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 042/140] fix: CHttpWriter::begin forgets the heads of the
 previous response

---
 src/CHttpWriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 9d30a87..9742df5 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -101,6 +101,7 @@ namespace lce
 	void CHttpWriter::begin()
 	{
 		m_mapCookie.clear();
+		m_mapHead.clear();
 		m_sBodyContent.erase();
 		m_iStatusCode = 200;
 		m_sConnection = "Close";
-- 
2.43.0


From e109d3f1cb0b7577e1e6a1b0de5a92636536653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 043/140] fix: CHttpWriter spells Switching Protocols

---
 src/CHttpWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CHttpWriter.cpp b/src/CHttpWriter.cpp
index 9742df5..59e3fbb 100755
--- a/src/CHttpWriter.cpp
+++ b/src/CHttpWriter.cpp
@@ -121,7 +121,7 @@ namespace lce
 		case 100:
 			return "Continue";
 		case 101:
-			return "Witching Protocols";
+			return "Switching Protocols";
 		case 200:
 			return "OK";
 		case 201:
-- 
2.43.0


From 04802f961fa348a3cabd3dab97d49c496fa9e7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 044/140] fix: a new CHttpWriter starts with an empty response

---
 include/CHttpWriter.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/CHttpWriter.h b/include/CHttpWriter.h
index f7d1b95..647e556 100755
--- a/include/CHttpWriter.h
+++ b/include/CHttpWriter.h
@@ -47,8 +47,7 @@ namespace lce
 	public:
 		CHttpWriter(void)
 		{
-			m_dwSetBodyLen = 0;
-			m_dwLastModified = 0;
+			begin();
 		}
 		~CHttpWriter(void)
 		{
-- 
2.43.0


From e6fab11c0c39758f98d2aa846c82236664c25f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 045/140] fix: a default CSocketBuf has a size

---
 include/CSocketBuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 93c0233..73d5ed9 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -17,7 +17,7 @@ namespace lce
 		}
 
 		CSocketBuf()
-			: m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
+			: m_iBufSize(0), m_iDataBeginPos(0), m_iDataEndPos(0), m_iDataAllowMaxSize(0), m_iInitSize(0)
 		{
 			m_pszBuf = NULL;
 		}
-- 
2.43.0


From f00bed6f6f54725b87c8fa5a414b49fea297566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 046/140] fix: CSocketBuf never grows to a smaller buffer

---
 include/CSocketBuf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 73d5ed9..2765fed 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -169,7 +169,7 @@ namespace lce
 			{
 				reSize(m_iBufSize * 2);
 			}
-			else
+			else if (m_iBufSize < m_iDataAllowMaxSize)
 			{
 				reSize(m_iDataAllowMaxSize);
 			}
-- 
2.43.0


From 8e2c630d50dc9e5ed08f0a34ca4a9223f7bffd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 047/140] fix: CBlockQueue::front returns the first item

---
 include/CBlockQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 89199ad..a48e2c9 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -88,7 +88,7 @@ namespace lce
                 pthread_mutex_unlock(m_mutex);
                 return false;
             }
-            value = m_pData[m_dwFront];
+            value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
             pthread_mutex_unlock(m_mutex);
             return true;
         }
-- 
2.43.0


From 9b2b35094422f57f72b9d6d27c1f11adff6383c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 048/140] fix: CBlockQueue::pop keeps the lock while it waits
 for an item

---
 include/CBlockQueue.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index a48e2c9..bc57310 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -155,7 +155,6 @@ namespace lce
                 if (m_dwSize <= 0)
                 {
                     pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
                     continue;
                 }
                 else
-- 
2.43.0


From 35bbeb5a4abd4b8acd175ef78eb883bc2a712459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 049/140] fix: the timed CBlockQueue::pop waits for its whole
 timeout

---
 include/CBlockQueue.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index bc57310..51334cb 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -177,14 +177,14 @@ namespace lce
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
             pthread_mutex_lock(m_mutex);
-            if (m_dwSize <= 0)
+            long long usec = now.tv_usec + (timeout % 1000) * 1000LL;
+            t.tv_sec = now.tv_sec + timeout / 1000 + usec / 1000000;
+            t.tv_nsec = (usec % 1000000) * 1000;
+            while (m_dwSize <= 0)
             {
-                t.tv_sec = now.tv_sec + timeout / 1000;
-                t.tv_nsec = (timeout % 1000) * 1000;
                 if (0 != pthread_cond_timedwait(m_cond, m_mutex, &t))
                 {
-                    pthread_mutex_unlock(m_mutex);
-                    return false;
+                    break;
                 }
             }
 
-- 
2.43.0


From 4da42dd6e03fc75ead82250f74f137888997923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 050/140] fix: the timed Condition::wait waits on the clock its
 deadline is read from

---
 include/CLock.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/CLock.h b/include/CLock.h
index 4e13eb2..d0a969f 100644
--- a/include/CLock.h
+++ b/include/CLock.h
@@ -110,7 +110,14 @@ namespace lce
 		Condition &operator=(const Condition &);
 
 	public:
-		Condition() { ::pthread_cond_init(&m_sect, NULL); }
+		Condition()
+		{
+			pthread_condattr_t attr;
+			::pthread_condattr_init(&attr);
+			::pthread_condattr_setclock(&attr, CLOCK_MONOTONIC);
+			::pthread_cond_init(&m_sect, &attr);
+			::pthread_condattr_destroy(&attr);
+		}
 		~Condition() { ::pthread_cond_destroy(&m_sect); }
 		bool signal() { return 0 == ::pthread_cond_signal(&m_sect); }
 		bool broadcast() { return 0 == ::pthread_cond_broadcast(&m_sect); }
@@ -121,6 +128,11 @@ namespace lce
 			clock_gettime(CLOCK_MONOTONIC, &tv);
 			tv.tv_sec += iWaitTime / 1000;
 			tv.tv_nsec += (iWaitTime % 1000) * 1000000;
+			if (tv.tv_nsec >= 1000000000)
+			{
+				tv.tv_sec += 1;
+				tv.tv_nsec -= 1000000000;
+			}
 
 			return 0 == ::pthread_cond_timedwait(&m_sect, &m.m_lock, &tv);
 		}
-- 
2.43.0


From 42e200780f6503376cb37d0f1a9efd2e777d8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:00 +0000
Subject: [PATCH 051/140] fix: CLruCache uses the maximum it is given

---
 include/CLruCache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index b8e3d57..24b8453 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -37,7 +37,7 @@ namespace lce
 
         CLruCache(size_t dwMaxSize = 10000)
         {
-            m_dwMaxSize = 10000;
+            m_dwMaxSize = dwMaxSize;
             m_dwSize = 0;
             pstHead = NULL;
             pstTail = NULL;
-- 
2.43.0


From 95b55e2c87d0c68aa003c63b7981ed245e14c309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 052/140] fix: CLruCache forgets its list head with the last
 entry

---
 include/CLruCache.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 24b8453..89d8857 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -81,6 +81,8 @@ namespace lce
 
             if (pstTail != NULL)
                 pstTail->next = NULL;
+            else
+                pstHead = NULL;
 
             m_dwSize--;
 
-- 
2.43.0


From 66da3cef3dc9ec11f0dfa88611cbd13323869553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 053/140] fix: CLruCache makes room only for new keys and
 before it exceeds its maximum

---
 include/CLruCache.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/CLruCache.h b/include/CLruCache.h
index 89d8857..3f5a5e5 100644
--- a/include/CLruCache.h
+++ b/include/CLruCache.h
@@ -148,9 +148,10 @@ namespace lce
         bool set(const TKey &tKey, const TValue &tValue, uint32_t dwExpireTime = 0)
         {
             CAutoLock lock(m_oMutex);
-            if (m_mapCache.size() > m_dwMaxSize)
+            CacheIter it = m_mapCache.find(tKey);
+
+            if (it == m_mapCache.end() && m_mapCache.size() >= m_dwMaxSize)
             {
-                int i = 0;
                 for (int i = 0; i < CACHE_REMOVE_NUM; i++)
                 {
                     SNode *pstNode = getListBackNode();
@@ -166,8 +167,6 @@ namespace lce
                 }
             }
 
-            CacheIter it = m_mapCache.find(tKey);
-
             if (it != m_mapCache.end())
             {
                 SNode *pstModifyNode = it->second;
-- 
2.43.0


From 8b0b603f9be13af2bd94b670f95de2d794a16579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 054/140] fix: bitmaps refuse the index behind their last cell

---
 include/CBitMap.h | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 8c89402..20a5a14 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -65,7 +65,7 @@ namespace lce
 
 		bool get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -82,7 +82,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfe, 0xfd, 0xfb, 0xf7, 0xef, 0xdf, 0xbf, 0x7f};
 			char cFlag = bVal ? 1 : 0;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -167,7 +167,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -184,7 +184,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xfc, 0xf3, 0xcf, 0x3f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -267,7 +267,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -283,7 +283,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFF8, 0xFFFFFFC7, 0xFFFFFE3F, 0xFFFFF1FF, 0xFFFF8FFF, 0xFFFC7FFF, 0xFFE3FFFF, 0xFF1FFFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -366,7 +366,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -383,7 +383,7 @@ namespace lce
 			static unsigned char caUinFlag[] = {0xf0, 0x0f};
 			unsigned long ucFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -466,7 +466,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -482,7 +482,7 @@ namespace lce
 			static uint64_t caUinFlag[] = {0xFFFFFFFFFFFFFFE0LL, 0xFFFFFFFFFFFFFC1FLL, 0xFFFFFFFFFFFF83FFLL, 0xFFFFFFFFFFF07FFFLL, 0xFFFFFFFFFE0FFFFFLL, 0xFFFFFFFFC1FFFFFFLL, 0xFFFFFFF83FFFFFFFLL, 0xFFFFFF07FFFFFFFFLL};
 			uint64_t ui64Flag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -565,7 +565,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -581,7 +581,7 @@ namespace lce
 			static unsigned long caUinFlag[] = {0xFFFFFFC0, 0xFFFFF03F, 0xFFFC0FFF, 0xFF03FFFF};
 			unsigned long dwFlag = ucVal;
 
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -663,7 +663,7 @@ namespace lce
 
 		int get(const unsigned long dwIndex) const
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
@@ -673,7 +673,7 @@ namespace lce
 
 		bool set(const unsigned long dwIndex, const unsigned char ucVal)
 		{
-			if (dwIndex > m_dwMaxIndex)
+			if (dwIndex >= m_dwMaxIndex)
 			{
 				return false;
 			}
-- 
2.43.0


From 2504179775ae657cf1ed7fefc3c3290350e4012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:23 +0000
Subject: [PATCH 055/140] fix: bitmaps of 3, 5 and 6 bits touch only the bytes
 of their own cells

---
 include/CBitMap.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 20a5a14..46b26de 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -272,8 +272,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) >> (dwIndex % 8 * 3);
-			dwTmpValue = dwTmpValue & 0x7;
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwTmpValue = (dwTmpValue >> (dwIndex % 8 * 3)) & 0x7;
 			return dwTmpValue;
 		}
 
@@ -292,8 +293,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 3);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 8) * 3) |= dwFlag;				   //
+			unsigned long dwCells = 0;
+			memcpy(&dwCells, m_pDataPtr + (dwIndex / 8) * 3, 3);
+			dwCells &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwCells |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 3, &dwCells, 3);
 
 			return true;
 		}
@@ -471,8 +475,9 @@ namespace lce
 				return false;
 			}
 
-			uint64_t ui64TmpValue = *(int64_t *)(m_pDataPtr + (dwIndex / 8) * 5) >> (dwIndex % 8 * 5);
-			ui64TmpValue = ui64TmpValue & 0x1F;
+			uint64_t ui64TmpValue = 0;
+			memcpy(&ui64TmpValue, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64TmpValue = (ui64TmpValue >> (dwIndex % 8 * 5)) & 0x1F;
 			return (int)ui64TmpValue;
 		}
 
@@ -491,8 +496,11 @@ namespace lce
 
 			ui64Flag = ui64Flag << (iIndexBitPos * 5);
 
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(uint64_t *)(m_pDataPtr + (dwIndex / 8) * 5) |= ui64Flag;				  //
+			uint64_t ui64Cells = 0;
+			memcpy(&ui64Cells, m_pDataPtr + (dwIndex / 8) * 5, 5);
+			ui64Cells &= caUinFlag[iIndexBitPos]; // 清位为0
+			ui64Cells |= ui64Flag;
+			memcpy(m_pDataPtr + (dwIndex / 8) * 5, &ui64Cells, 5);
 
 			return true;
 		}
@@ -570,8 +578,9 @@ namespace lce
 				return false;
 			}
 
-			unsigned long dwTmpValue = *(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) >> (dwIndex % 4 * 6);
-			dwTmpValue = dwTmpValue & 0x3F;
+			unsigned long dwTmpValue = 0;
+			memcpy(&dwTmpValue, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwTmpValue = (dwTmpValue >> (dwIndex % 4 * 6)) & 0x3F;
 			return dwTmpValue;
 		}
 
@@ -590,8 +599,11 @@ namespace lce
 
 			dwFlag = dwFlag << (iIndexBitPos * 6);
 
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) &= caUinFlag[iIndexBitPos]; // 清位为0
-			*(unsigned long *)(m_pDataPtr + (dwIndex / 4) * 3) |= dwFlag;				   //
+			unsigned long dwCells = 0;
+			memcpy(&dwCells, m_pDataPtr + (dwIndex / 4) * 3, 3);
+			dwCells &= caUinFlag[iIndexBitPos]; // 清位为0
+			dwCells |= dwFlag;
+			memcpy(m_pDataPtr + (dwIndex / 4) * 3, &dwCells, 3);
 
 			return true;
 		}
-- 
2.43.0


From 9effffca1974d33c8b2e5dddf95c0cb2044f410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 056/140] fix: skip leading spaces and tabs of configuration
 lines

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 93ff6cf..a53adf1 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -37,7 +37,7 @@ namespace lce
 			size_t i = 0;
 			for (i = 0; i < sLine.size(); i++)
 			{
-				if (sLine[i] != ' ' || sLine[i] != '\t')
+				if (sLine[i] != ' ' && sLine[i] != '\t')
 				{
 					break;
 				}
-- 
2.43.0


From c935ad47fd73a38454bf6f379af518094e47caef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 057/140] fix: a configuration section header defines no key

---
 src/CConfig.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index a53adf1..3153619 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -55,15 +55,8 @@ namespace lce
 				{
 					sApp = sLine.substr(i + 1, j - i - 1);
 					lce::TrimStr(sApp);
-					if (sApp.empty())
-					{
-						break;
-					}
-				}
-				else
-				{
-					break;
 				}
+				break;
 			}
 			default:
 				size_t j = sLine.find('=', i);
-- 
2.43.0


From 0b0097937949e747f6987523b3d5dc51fc3ab142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 058/140] fix: a configuration line without '=' defines no key

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 3153619..04b0f9e 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -60,7 +60,7 @@ namespace lce
 			}
 			default:
 				size_t j = sLine.find('=', i);
-				if (j > i)
+				if (std::string::npos != j && j > i)
 				{
 					sName = sLine.substr(i, j - i);
 
-- 
2.43.0


From 34005acf2fac88f5457d6e9a9e7df7342b75dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 059/140] fix: read unsigned long configuration values above
 LONG_MAX

---
 src/CConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 04b0f9e..8b122ad 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -168,7 +168,7 @@ namespace lce
 			if (subIt != it->second.end())
 			{
 
-				dwValue = static_cast<unsigned long>(atoll(subIt->second.c_str()));
+				dwValue = strtoul(subIt->second.c_str(), NULL, 10);
 			}
 		}
 		return dwValue;
-- 
2.43.0


From 53483c5cfac8ad4bb1e25677aa5b789e974bb4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:07 +0000
Subject: [PATCH 060/140] fix: accept ip:port configuration values of nine
 characters

---
 src/CConfig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CConfig.cpp b/src/CConfig.cpp
index 8b122ad..4318025 100644
--- a/src/CConfig.cpp
+++ b/src/CConfig.cpp
@@ -218,7 +218,7 @@ namespace lce
 
 		std::string sIPAndPort("");
 		getValue(sApp, sName, sIPAndPort, "");
-		if (sIPAndPort.size() >= 10)
+		if (sIPAndPort.size() >= 9)
 		{
 			std::string::size_type ID = sIPAndPort.find(":");
 			if (ID != std::string::npos)
@@ -251,7 +251,7 @@ namespace lce
 
 		std::string sServerList("");
 		getValue(sApp, sName, sServerList, "");
-		if (sServerList.size() >= 10)
+		if (sServerList.size() >= 9)
 		{
 			std::string::size_type id0 = 0, id1 = 0;
 			while (1)
-- 
2.43.0


From 1450d34740f243d4a578410f21557ae731d0b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 061/140] fix: a file log limited to one file rotates too

---
 src/CFileLog.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index ec3ecc3..3d0bd73 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -46,7 +46,10 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			if (m_uiLogFileNum <= 1)
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s", m_sLogFilePath.c_str());
+			else
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
-- 
2.43.0


From 896a0f687f0f3316779389e756ca97c421e5e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 062/140] fix: the file log reports a failed write and reopens
 the file

---
 src/CFileLog.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CFileLog.cpp b/src/CFileLog.cpp
index 3d0bd73..2ff8066 100644
--- a/src/CFileLog.cpp
+++ b/src/CFileLog.cpp
@@ -122,6 +122,13 @@ namespace lce
 			m_ofsOutFile << std::endl;
 		}
 
+		if (m_ofsOutFile.fail())
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+			m_ofsOutFile.close();
+			return false;
+		}
+
 		return true;
 	}
 
-- 
2.43.0


From 202c44011d2f93c767d6981f100edd86b3ad0c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 063/140] fix: a log line keeps its newline when it fills the
 buffer

---
 src/CAsyncLog.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 413b4ec..9b162c8 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -199,14 +199,20 @@ namespace lce
 		}
 	}
 
-	bool CAsyncLog::writeBuffer(const std::string &str, const bool bEnd)
+	bool CAsyncLog::writeBuffer(const std::string &sMsg, const bool bEnd)
 	{
 
 		CAutoLock oLock(m_mutex);
 
 		if (m_bShowCmd)
 		{
-			std::cout << str << std::endl;
+			std::cout << sMsg << std::endl;
+		}
+
+		std::string str = sMsg;
+		if (bEnd)
+		{
+			str += '\n';
 		}
 
 		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
@@ -227,11 +233,6 @@ namespace lce
 			}
 		}
 
-		if (bEnd && bFlag)
-		{
-			pWriteBuffer->write("\n", 1);
-		}
-
 		if (!bFlag)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "buffer is full");
-- 
2.43.0


From 6f72882dbb20edd3359c2851774d1d7388e6e40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 064/140] fix: the async log never writes to the buffer being
 flushed and keeps line order

---
 include/CAsyncLog.h |  1 +
 src/CAsyncLog.cpp   | 40 ++++++++++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 3c7ad8c..6cb8be6 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -81,6 +81,7 @@ namespace lce
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
 		volatile int m_iCurWriteBufferFlag;
+		bool m_bFlushing;
 
 		std::string m_sCurDate;
 
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 9b162c8..2871ccf 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -34,6 +34,7 @@ namespace lce
 		m_poCurWirteBuffer = m_poWriteBuffer1;
 		m_iLogSecs = iLogSecs;
 		m_iCurWriteBufferFlag = 1;
+		m_bFlushing = false;
 
 		start();
 
@@ -182,19 +183,30 @@ namespace lce
 		{
 			m_mutex.lock();
 			m_poCurWirteBuffer = m_poWriteBuffer2;
+			m_bFlushing = true;
 			m_mutex.unlock();
 
 			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
+
+			m_mutex.lock();
 			m_poWriteBuffer1->reset();
+			m_bFlushing = false;
+			m_mutex.unlock();
 			m_iCurWriteBufferFlag = 2;
 		}
 		else if (m_iCurWriteBufferFlag == 2)
 		{
 			m_mutex.lock();
 			m_poCurWirteBuffer = m_poWriteBuffer1;
+			m_bFlushing = true;
 			m_mutex.unlock();
+
 			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
+
+			m_mutex.lock();
 			m_poWriteBuffer2->reset();
+			m_bFlushing = false;
+			m_mutex.unlock();
 			m_iCurWriteBufferFlag = 1;
 		}
 	}
@@ -215,22 +227,22 @@ namespace lce
 			str += '\n';
 		}
 
-		CLogBuffer *pWriteBuffer = m_poCurWirteBuffer;
+		CLogBuffer *pOtherBuffer = m_poCurWirteBuffer == m_poWriteBuffer1 ? m_poWriteBuffer2 : m_poWriteBuffer1;
+		bool bFlag = false;
 
-		bool bFlag = pWriteBuffer->write(str.data(), str.size());
-
-		if (!bFlag)
+		if (m_bFlushing)
 		{
-			if (m_poCurWirteBuffer == m_poWriteBuffer1)
-			{
-				bFlag = m_poWriteBuffer2->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer2;
-			}
-			else if (m_poCurWirteBuffer == m_poWriteBuffer2)
-			{
-				bFlag = m_poWriteBuffer1->write(str.data(), str.size());
-				pWriteBuffer = m_poWriteBuffer1;
-			}
+			// the other buffer is being written to the file
+			bFlag = m_poCurWirteBuffer->write(str.data(), str.size());
+		}
+		else if (!pOtherBuffer->empty())
+		{
+			// the other buffer already holds lines newer than the current one
+			bFlag = pOtherBuffer->write(str.data(), str.size());
+		}
+		else
+		{
+			bFlag = m_poCurWirteBuffer->write(str.data(), str.size()) || pOtherBuffer->write(str.data(), str.size());
 		}
 
 		if (!bFlag)
-- 
2.43.0


From 438603fc47503265fb8f1ab58a8f4cf26ad0b7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:42 +0000
Subject: [PATCH 065/140] fix: serialise concurrent flushes of the async log

---
 include/CAsyncLog.h | 1 +
 src/CAsyncLog.cpp   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 6cb8be6..33c1016 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -93,6 +93,7 @@ namespace lce
 		unsigned int m_uiLogFileNum;
 		bool m_bShowCmd;
 		lce::CMutex m_mutex;
+		lce::CMutex m_flushMutex;
 	};
 
 };
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 2871ccf..4331a3c 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -179,6 +179,8 @@ namespace lce
 
 	void CAsyncLog::flush()
 	{
+		CAutoLock oLock(m_flushMutex);
+
 		if (m_iCurWriteBufferFlag == 1)
 		{
 			m_mutex.lock();
-- 
2.43.0


From b0f9f1583f6f4da7c6a9bbba441655ba540c032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 066/140] fix: flushing the async log writes both buffers

---
 include/CAsyncLog.h |  1 +
 src/CAsyncLog.cpp   | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 33c1016..b803aea 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -73,6 +73,7 @@ namespace lce
 		bool writeFile(const char *data, size_t size, const bool bEnd = true);
 
 		bool writeBuffer(const std::string &str, const bool bEnd = true);
+		void flushBuffer();
 
 	private:
 		char m_szErrMsg[1024];
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 4331a3c..8a00bc0 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -181,6 +181,19 @@ namespace lce
 	{
 		CAutoLock oLock(m_flushMutex);
 
+		m_mutex.lock();
+		bool bBoth = m_poWriteBuffer1->size() > 0 && m_poWriteBuffer2->size() > 0;
+		m_mutex.unlock();
+
+		flushBuffer();
+		if (bBoth)
+		{
+			flushBuffer();
+		}
+	}
+
+	void CAsyncLog::flushBuffer()
+	{
 		if (m_iCurWriteBufferFlag == 1)
 		{
 			m_mutex.lock();
-- 
2.43.0


From 9b6d23f7236965ba8946d111c9170462b529a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 067/140] fix: an async log that was never started can be used
 and destroyed

---
 include/CAsyncLog.h |  1 +
 src/CAsyncLog.cpp   | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index b803aea..0386bf7 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -23,6 +23,7 @@ namespace lce
 	{
 
 	public:
+		CAsyncLog(void);
 		~CAsyncLog(void);
 
 		bool init(const std::string &sLogFilePath = "", int iLogSecs = 1, const unsigned long dwLogFileMaxSize = 1024 * 1024 * 10, const unsigned int uiLogFileNum = 5, const bool bShowCmd = false, const unsigned long dwBufSize = 1024 * 1024);
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 8a00bc0..d0bdd51 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -3,6 +3,17 @@
 namespace lce
 {
 
+	CAsyncLog::CAsyncLog()
+	{
+		m_szErrMsg[0] = 0;
+		m_poWriteBuffer1 = NULL;
+		m_poWriteBuffer2 = NULL;
+		m_poCurWirteBuffer = NULL;
+		m_iCurWriteBufferFlag = 1;
+		m_bFlushing = false;
+		m_bShowCmd = false;
+	}
+
 	CAsyncLog::~CAsyncLog()
 	{
 		if (m_ofsOutFile.is_open())
@@ -181,6 +192,11 @@ namespace lce
 	{
 		CAutoLock oLock(m_flushMutex);
 
+		if (m_poCurWirteBuffer == NULL)
+		{
+			return;
+		}
+
 		m_mutex.lock();
 		bool bBoth = m_poWriteBuffer1->size() > 0 && m_poWriteBuffer2->size() > 0;
 		m_mutex.unlock();
@@ -231,6 +247,12 @@ namespace lce
 
 		CAutoLock oLock(m_mutex);
 
+		if (m_poCurWirteBuffer == NULL)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "log is not init");
+			return false;
+		}
+
 		if (m_bShowCmd)
 		{
 			std::cout << sMsg << std::endl;
-- 
2.43.0


From e736f0464cf5db73d7839f2cd7e6f87c99473207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 068/140] fix: destroying the async log stops its thread and
 writes what is buffered

---
 include/CAsyncLog.h |  1 +
 src/CAsyncLog.cpp   | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 0386bf7..eb6f57f 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -83,6 +83,7 @@ namespace lce
 		CLogBuffer *m_poWriteBuffer2;
 		CLogBuffer *m_poCurWirteBuffer;
 		volatile int m_iCurWriteBufferFlag;
+		pid_t m_iInitPid;
 		bool m_bFlushing;
 
 		std::string m_sCurDate;
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index d0bdd51..a88b87b 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -16,6 +16,14 @@ namespace lce
 
 	CAsyncLog::~CAsyncLog()
 	{
+		// the thread exists only in the process that called init
+		if (m_poCurWirteBuffer != NULL && m_iInitPid == getpid())
+		{
+			stop();
+			join();
+			flush();
+		}
+
 		if (m_ofsOutFile.is_open())
 		{
 			m_ofsOutFile.close();
@@ -47,6 +55,8 @@ namespace lce
 		m_iCurWriteBufferFlag = 1;
 		m_bFlushing = false;
 
+		m_iInitPid = getpid();
+
 		start();
 
 		return true;
@@ -173,8 +183,11 @@ namespace lce
 
 	int CAsyncLog::run()
 	{
+		// never cancelled half way through a flush
+		pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL);
+
 		int iMillSecs = 0;
-		while (true)
+		while (!isStoped())
 		{
 			usleep(100000);
 
-- 
2.43.0


From 8c290cd32e46f206659a73265b772499a387fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 069/140] fix: an async log limited to one file rotates too

---
 src/CAsyncLog.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index a88b87b..0977cf1 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -87,7 +87,10 @@ namespace lce
 			char szLogFileName[1024];
 			char szNewLogFileName[1024];
 
-			snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
+			if (m_uiLogFileNum <= 1)
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s", m_sLogFilePath.c_str());
+			else
+				snprintf(szLogFileName, sizeof(szLogFileName), "%s_%s_%u.log", m_sLogBasePath.c_str(), getDate().c_str(), m_uiLogFileNum - 1);
 			if (access(szLogFileName, F_OK) == 0)
 			{
 				if (remove(szLogFileName) < 0)
-- 
2.43.0


From 978718222ca250a57da0737222635ea0b4c14195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:11 +0000
Subject: [PATCH 070/140] fix: log time stamps of one thread are not disturbed
 by another

---
 include/CAsyncLog.h | 4 ++--
 include/CFileLog.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index eb6f57f..31b7dc3 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -53,7 +53,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -64,7 +64,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
diff --git a/include/CFileLog.h b/include/CFileLog.h
index 96fdb73..212096a 100644
--- a/include/CFileLog.h
+++ b/include/CFileLog.h
@@ -66,7 +66,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d %02d:%02d:%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday, curr.tm_hour, curr.tm_min, curr.tm_sec);
 			return std::string(szDate);
@@ -77,7 +77,7 @@ namespace lce
 			time_t iCurTime;
 			time(&iCurTime);
 			struct tm curr;
-			curr = *localtime(&iCurTime);
+			localtime_r(&iCurTime, &curr);
 			char szDate[50];
 			snprintf(szDate, sizeof(szDate), "%04d-%02d-%02d", curr.tm_year + 1900, curr.tm_mon + 1, curr.tm_mday);
 			return std::string(szDate);
-- 
2.43.0


From 10830f86d5b131f23bacccacc5ebf2eb9c752bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 071/140] fix: flushing an empty async log does not rotate the
 files

---
 src/CAsyncLog.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 0977cf1..bf8f04c 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -215,8 +215,14 @@ namespace lce
 
 		m_mutex.lock();
 		bool bBoth = m_poWriteBuffer1->size() > 0 && m_poWriteBuffer2->size() > 0;
+		bool bNone = m_poWriteBuffer1->size() == 0 && m_poWriteBuffer2->size() == 0;
 		m_mutex.unlock();
 
+		if (bNone)
+		{
+			return;
+		}
+
 		flushBuffer();
 		if (bBoth)
 		{
-- 
2.43.0


From ccc201a2733a65fe02ea57da838065b9726133d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:45 +0000
Subject: [PATCH 072/140] fix: the event loop never waits longer than its limit
 for a far timer

---
 src/CEvent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 00fb1e6..349c779 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -310,7 +310,7 @@ namespace lce
                     }
                     else
                     {
-                        if (it != m_setStTimeEvents.end() && (it->ddwMillSecs - ddwTimeNow) > 0)
+                        if (it->ddwMillSecs - ddwTimeNow < ddwExpire)
                             ddwExpire = it->ddwMillSecs - ddwTimeNow;
                         break;
                     }
-- 
2.43.0


From c60df784857661ce2232a045bf0bfc4577aadb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 073/140] fix: posting to an event loop never blocks on a full
 pipe

---
 src/CEvent.cpp | 42 +++++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 349c779..6e040b7 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -69,19 +69,22 @@ namespace lce
         }
 
         // set nonblock
-        int iOpts;
-        iOpts = fcntl(m_iMsgFd[0], F_GETFL);
-        if (iOpts < 0)
+        for (int i = 0; i < 2; i++)
         {
-            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
-            return -1;
-        }
-        iOpts = iOpts | O_NONBLOCK;
+            int iOpts;
+            iOpts = fcntl(m_iMsgFd[i], F_GETFL);
+            if (iOpts < 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+                return -1;
+            }
+            iOpts = iOpts | O_NONBLOCK;
 
-        if (fcntl(m_iMsgFd[0], F_SETFL, iOpts) < 0)
-        {
-            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
-            return -1;
+            if (fcntl(m_iMsgFd[i], F_SETFL, iOpts) < 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::init fcntl error", __FILE__, __LINE__);
+                return -1;
+            }
         }
 
         addFdEvent(m_iMsgFd[0], CEvent::EV_READ, NULL, NULL); // 自定义事件通知
@@ -257,6 +260,12 @@ namespace lce
 
         int iFlag = write(m_iMsgFd[1], "1", 1);
 
+        if (iFlag < 0 && errno == EAGAIN)
+        {
+            // the pipe is full: the loop wakes up anyway
+            iFlag = 0;
+        }
+
         ::pthread_mutex_unlock(&m_lock);
 
         if (iFlag < 0)
@@ -328,7 +337,12 @@ namespace lce
                 {
                     if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
                     {
-                        char szBuf[1];
+                        char szBuf[1024];
+
+                        ::pthread_mutex_lock(&m_lock);
+                        while (read(m_iMsgFd[0], szBuf, sizeof(szBuf)) > 0)
+                            ;
+                        ::pthread_mutex_unlock(&m_lock);
 
                         while (true)
                         {
@@ -337,9 +351,7 @@ namespace lce
 
                             ::pthread_mutex_lock(&m_lock);
 
-                            int iFlag = read(m_iMsgFd[0], szBuf, 1);
-
-                            if (!m_queMsgEvents.empty() && iFlag > 0)
+                            if (!m_queMsgEvents.empty())
                             {
                                 stMsgEvent = m_queMsgEvents.front();
                                 m_queMsgEvents.pop();
-- 
2.43.0


From b84aa017871b018a5da467af57423511eecdfd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 074/140] fix: an event loop serves timers and sockets between
 messages posted by handlers

---
 src/CEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 6e040b7..a4671b2 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -342,9 +342,11 @@ namespace lce
                         ::pthread_mutex_lock(&m_lock);
                         while (read(m_iMsgFd[0], szBuf, sizeof(szBuf)) > 0)
                             ;
+                        // messages posted from now on wake the loop up again
+                        size_t dwMsgNum = m_queMsgEvents.size();
                         ::pthread_mutex_unlock(&m_lock);
 
-                        while (true)
+                        for (size_t j = 0; j < dwMsgNum; j++)
                         {
                             StMsgEvent stMsgEvent;
                             bool bHaveMsg = false;
-- 
2.43.0


From 302830d7f6b5cf3641923d0012fe4bd85211d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 075/140] fix: an fd handler may register its own descriptor
 again

---
 src/CEvent.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index a4671b2..19f40d2 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -375,7 +375,11 @@ namespace lce
                     {
                         StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
                         if ((stFdEvent.iEventType & EV_READ) == EV_READ)
-                            stFdEvent.onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                        {
+                            // a copy: the handler may replace itself
+                            HandlerEvent onRead = stFdEvent.onRead;
+                            onRead(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientRData);
+                        }
                     }
                 }
                 if (m_stEPollState.stEvents[i].events & EPOLLOUT)
@@ -383,7 +387,10 @@ namespace lce
 
                     StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
                     if ((stFdEvent.iEventType & EV_WRITE) == EV_WRITE)
-                        stFdEvent.onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                    {
+                        HandlerEvent onWrite = stFdEvent.onWrite;
+                        onWrite(m_stEPollState.stEvents[i].data.fd, stFdEvent.pClientWData);
+                    }
                 }
             }
         }
-- 
2.43.0


From 2307ce000eb7beffeceecdf35dfa5d14438d7399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 076/140] fix: a refused fd registration leaves no trace

---
 src/CEvent.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 19f40d2..203ca22 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -106,7 +106,8 @@ namespace lce
 
         stEvent.events = 0;
 
-        int iOP = m_stFdEvents[iWatchFd].iEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
+        int iOldEventType = m_stFdEvents[iWatchFd].iEventType;
+        int iOP = iOldEventType == EV_DONE ? EPOLL_CTL_ADD : EPOLL_CTL_MOD;
 
         m_stFdEvents[iWatchFd].iEventType = m_stFdEvents[iWatchFd].iEventType | iEventType;
 
@@ -132,6 +133,7 @@ namespace lce
 
         if (epoll_ctl(m_stEPollState.iEPollFd, iOP, iWatchFd, &stEvent) == -1)
         {
+            m_stFdEvents[iWatchFd].iEventType = iOldEventType;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d CEvent::addFdEvent epoll_ctl error", __FILE__, __LINE__);
             return -1;
         }
-- 
2.43.0


From d8aa4e701fb5986eadbad2c78f81bb6ab9bd8de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 077/140] fix: Send raises no SIGPIPE when the peer is gone

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 50e544c..8877ed8 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -58,7 +58,7 @@ namespace lce
 
     int Send(int iFd, const char *buf, int count)
     {
-        return ::send(iFd, buf, count, 0);
+        return ::send(iFd, buf, count, MSG_NOSIGNAL);
     }
 
     int CreateTcpSock()
-- 
2.43.0


From 1db98306ec0dcd0421c1ecdab35a89eab917e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:37 +0000
Subject: [PATCH 078/140] fix: a CCommMgr session only reaches the connection
 it was made for

---
 include/CCommMgr.h |  4 +++-
 include/Define.h   |  2 ++
 src/CCommMgr.cpp   | 33 +++++++++++++++++++++++----------
 3 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/include/CCommMgr.h b/include/CCommMgr.h
index 872ef40..ec9e23a 100755
--- a/include/CCommMgr.h
+++ b/include/CCommMgr.h
@@ -95,8 +95,9 @@ namespace lce
         int close(int iFd);
         int write(int iFd);
         inline bool isClose(int iFd);
+        inline bool isClose(const StSession &stSession);
 
-        CCommMgr() {}
+        CCommMgr() : m_ddwConnId(0) {}
         CCommMgr &operator=(const CCommMgr &);
         CCommMgr(const CCommMgr &);
 
@@ -109,6 +110,7 @@ namespace lce
         static CCommMgr *m_pInstance;
         uint32_t m_dwMaxClient;
         uint32_t m_dwClientNum;
+        uint64_t m_ddwConnId;
     };
 };
 
diff --git a/include/Define.h b/include/Define.h
index e2aa5a6..62bea17 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -16,6 +16,7 @@ namespace lce
 		void *pData;
 		struct sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId; // the connection, iFd may be used again; 0: not checked
 		int64_t getDelayTime()
 		{
 			uint64_t ddwCurTime = lce::GetTickCount();
@@ -98,6 +99,7 @@ namespace lce
 		CSocketBuf *pSocketSendBuf;
 		sockaddr_in stClientAddr;
 		uint64_t ddwBeginTime;
+		uint64_t ddwConnId;
 		~StClientInfo()
 		{
 			if (pSocketRecvBuf != NULL)
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index b7004de..29b896e 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -312,6 +312,7 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (pstClientInfo->pSocketRecvBuf == NULL)
         {
@@ -362,7 +363,7 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                     break;
 
                 pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
@@ -381,7 +382,7 @@ namespace lce
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
-            close(iFd);
+            close(stSession);
         }
         else
         {
@@ -390,7 +391,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onClose(stSession);
-                close(iFd);
+                close(stSession);
             }
             else if (errno == EAGAIN || errno == EINTR)
             {
@@ -457,6 +458,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            pstClientInfo->ddwConnId = ++m_ddwConnId;
 
             m_dwClientNum++;
 
@@ -465,11 +467,12 @@ namespace lce
 
             stSession.iFd = iClientSock;
             stSession.stClientAddr = pstClientInfo->stClientAddr;
+            stSession.ddwConnId = pstClientInfo->ddwConnId;
 
             if (pstServerInfo->pProcessor)
                 pstServerInfo->pProcessor->onConnect(stSession, true, NULL);
 
-            if (isClose(iClientSock))
+            if (isClose(stSession))
                 continue;
 
             if (m_oCEvent.addFdEvent(iClientSock, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -504,13 +507,14 @@ namespace lce
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
 
         if (error == 0)
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-            if (!isClose(iFd))
+            if (!isClose(stSession))
             {
                 if (m_oCEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
@@ -523,14 +527,14 @@ namespace lce
         {
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onConnect(stSession, false, pData);
-            close(iFd);
+            close(stSession);
         }
     }
 
     int CCommMgr::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
     {
 
-        if (isClose(stSession.iFd))
+        if (isClose(stSession))
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
             return -1;
@@ -708,6 +712,7 @@ namespace lce
         StSession stSession;
         stSession.ddwBeginTime = lce::GetTickCount();
         stSession.stClientAddr = pstClientInfo->stClientAddr;
+        stSession.ddwConnId = pstClientInfo->ddwConnId;
         stSession.iFd = iFd;
         stSession.iSvrId = pstServerInfo->iSrvId;
 
@@ -771,8 +776,9 @@ namespace lce
 
     int CCommMgr::close(const StSession &stSession)
     {
-        int iFd = stSession.iFd;
-        return close(iFd);
+        if (isClose(stSession))
+            return 0;
+        return close(stSession.iFd);
     }
 
     int CCommMgr::close(int iFd)
@@ -814,6 +820,11 @@ namespace lce
         return (m_vecClients[iFd].iFd == 0);
     }
 
+    inline bool CCommMgr::isClose(const StSession &stSession)
+    {
+        return isClose(stSession.iFd) || (stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd].ddwConnId);
+    }
+
     int CCommMgr::connect(int iSrvId, const string &sIp, uint16_t wPort, void *pData)
     {
         if (iSrvId < 0 || iSrvId > (int)m_vecServers.size() - 1)
@@ -847,6 +858,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
             m_vecClients[iFd].stClientAddr.sin_addr.s_addr = inet_addr(sIp.c_str());
@@ -861,11 +873,12 @@ namespace lce
                 stSession.iFd = iFd;
                 stSession.iSvrId = pstServerInfo->iSrvId;
                 stSession.stClientAddr = m_vecClients[iFd].stClientAddr;
+                stSession.ddwConnId = m_vecClients[iFd].ddwConnId;
 
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onConnect(stSession, true, pData);
 
-                if (isClose(iFd))
+                if (isClose(stSession))
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
-- 
2.43.0


From cae5ab770105bf74567cf38835d1b71be2097438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 079/140] fix: CCommMgr closes a connection when only a part of
 a refused reply was sent

---
 src/CCommMgr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 29b896e..ef9766f 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -563,6 +563,7 @@ namespace lce
 
                     if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
                     {
+                        close(stSession.iFd); // a part is sent, nothing can follow it
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
                         return -1;
                     }
@@ -654,6 +655,7 @@ namespace lce
                     {
                         if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
                         {
+                            close(stSession.iFd);
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
                             return -1;
                         }
-- 
2.43.0


From ca537c6ddf3f06f0467295f71c5a60b4ccc72506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:29 +0000
Subject: [PATCH 080/140] fix: rmSrv closes the connections of the service

---
 src/CCommMgr.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index ef9766f..f51b387 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -417,7 +417,10 @@ namespace lce
         if (pstServerInfo == NULL)
             return;
 
-        while (true)
+        int iSrvId = pstServerInfo->iSrvId;
+
+        // a handler may remove the service
+        while (m_vecServers[iSrvId] == pstServerInfo)
         {
             struct sockaddr_in stClientAddr;
             int iAddrLen = sizeof(struct sockaddr_in);
@@ -990,6 +993,12 @@ namespace lce
             return -1;
         }
 
+        for (int i = 0; i < (int)m_vecClients.size(); i++)
+        {
+            if (!isClose(i) && m_vecClients[i].iSrvId == iSrvId)
+                close(i);
+        }
+
         if (pstServerInfo->iFd > 0)
         {
             m_oCEvent.delFdEvent(pstServerInfo->iFd, CEvent::EV_READ | CEvent::EV_WRITE);
@@ -1014,7 +1023,10 @@ namespace lce
 
         for (vector<StServerInfo *>::iterator it = m_vecServers.begin(); it != m_vecServers.end(); ++it)
         {
-            lce::Close((*it)->iFd);
+            if (*it == NULL)
+                continue;
+            if ((*it)->iFd > 0)
+                lce::Close((*it)->iFd);
             delete (*it);
         }
     }
-- 
2.43.0


From 69cfd81de470733842422cae42cddfd0e22b3b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:03 +0000
Subject: [PATCH 081/140] fix: CCommMgr sends what it accepted after a peer
 ends its stream

---
 include/Define.h |  1 +
 src/CCommMgr.cpp | 19 +++++++++++++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/Define.h b/include/Define.h
index 62bea17..5e6b180 100644
--- a/include/Define.h
+++ b/include/Define.h
@@ -94,6 +94,7 @@ namespace lce
 		int iSrvId;
 		int iFd;
 		bool bNeedClose;
+		bool bPeerClosed; // no more to read, onClose follows when all is sent
 		StServerInfo *pstServerInfo;
 		CSocketBuf *pSocketRecvBuf;
 		CSocketBuf *pSocketSendBuf;
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index f51b387..ef97412 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -379,6 +379,13 @@ namespace lce
         }
         else if (iSize == 0)
         {
+            if (pstClientInfo->pSocketSendBuf != NULL && pstClientInfo->pSocketSendBuf->getSize() > 0)
+            {
+                // onWrite ends the connection when all is sent
+                pstClientInfo->bPeerClosed = true;
+                m_oCEvent.delFdEvent(iFd, CEvent::EV_READ);
+                return;
+            }
 
             if (pstServerInfo->pProcessor != NULL)
                 pstServerInfo->pProcessor->onClose(stSession);
@@ -461,6 +468,7 @@ namespace lce
             pstClientInfo->iSrvId = pstServerInfo->iSrvId;
             pstClientInfo->stClientAddr = stClientAddr;
             pstClientInfo->iFd = iClientSock;
+            pstClientInfo->bPeerClosed = false;
             pstClientInfo->ddwConnId = ++m_ddwConnId;
 
             m_dwClientNum++;
@@ -583,7 +591,7 @@ namespace lce
                     {
                         close(stSession.iFd);
                     }
-                    else
+                    else if (!pstClientInfo->bPeerClosed)
                     {
                         m_oCEvent.delFdEvent(stSession.iFd, CEvent::EV_WRITE);
                     }
@@ -675,7 +683,7 @@ namespace lce
                         {
                             close(stSession.iFd);
                         }
-                        else
+                        else if (!pstClientInfo->bPeerClosed)
                         {
                             m_oCEvent.delFdEvent(stSession.iFd, CEvent::EV_WRITE);
                         }
@@ -748,6 +756,12 @@ namespace lce
         {
             if (pstClientInfo->bNeedClose)
                 close(pstClientInfo->iFd);
+            else if (pstClientInfo->bPeerClosed)
+            {
+                if (pstServerInfo->pProcessor != NULL)
+                    pstServerInfo->pProcessor->onClose(stSession);
+                close(stSession);
+            }
             else
                 m_oCEvent.delFdEvent(iFd, CEvent::EV_WRITE);
         }
@@ -863,6 +877,7 @@ namespace lce
             lce::SetNoneBlock(iFd);
 
             m_vecClients[iFd].iFd = iFd;
+            m_vecClients[iFd].bPeerClosed = false;
             m_vecClients[iFd].ddwConnId = ++m_ddwConnId;
             m_vecClients[iFd].stClientAddr.sin_family = AF_INET;
             m_vecClients[iFd].stClientAddr.sin_port = htons(wPort);
-- 
2.43.0


From 7c25b00c39976865bc7b20ee714eac11bc7c3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:46 +0000
Subject: [PATCH 082/140] fix: CCommMgr reads from a connection that is made at
 once

---
 src/CCommMgr.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index ef97412..cebb9b3 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -903,6 +903,13 @@ namespace lce
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
                     return -1;
                 }
+
+                if (m_oCEvent.addFdEvent(iFd, CEvent::EV_READ, std::bind(&CCommMgr::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), &m_vecClients[iFd]) != 0)
+                {
+                    close(iFd);
+                    snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error:%s", __FILE__, __LINE__, m_oCEvent.getErrorMsg());
+                    return -1;
+                }
                 return iFd;
             }
             else
-- 
2.43.0


From 8fdf4416c0777a6c4e2b4f91236d7ab4500622ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 083/140] fix: an empty reply is not a failed one

---
 src/CCommMgr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index cebb9b3..3cbf67b 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -563,7 +563,7 @@ namespace lce
         {
             iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-            if (iSendSize > 0)
+            if (iSendSize >= 0)
             {
                 if (iSendSize < iSize)
                 {
@@ -660,7 +660,7 @@ namespace lce
             else
             {
                 int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-                if (iSendSize > 0)
+                if (iSendSize >= 0)
                 {
                     if (iSendSize < iSize)
                     {
-- 
2.43.0


From 6b781a31c5e993b599134e234625634885129a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 084/140] fix: CCommMgr accepts as many clients as configured,
 not one more

---
 src/CCommMgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 3cbf67b..2f8b565 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -452,7 +452,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum > m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient)
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
-- 
2.43.0


From 248b2efe598890e99ef4394961ae535076104a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 085/140] fix: CCommMgr refuses connections beyond its table

---
 src/CCommMgr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 2f8b565..8ae11eb 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -452,7 +452,7 @@ namespace lce
 
             stSession.ddwBeginTime = lce::GetTickCount();
 
-            if (m_dwClientNum >= m_dwMaxClient)
+            if (m_dwClientNum >= m_dwMaxClient || iClientSock >= (int)m_vecClients.size())
             {
                 snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onAccept %s,%d,max clients errno=%d,msg=%s", __FILE__, __LINE__, errno, strerror(errno));
 
@@ -836,7 +836,7 @@ namespace lce
 
     inline bool CCommMgr::isClose(int iFd)
     {
-        return (m_vecClients[iFd].iFd == 0);
+        return (iFd < 0 || iFd >= (int)m_vecClients.size() || m_vecClients[iFd].iFd == 0);
     }
 
     inline bool CCommMgr::isClose(const StSession &stSession)
@@ -871,6 +871,13 @@ namespace lce
                 return -1;
             }
 
+            if (iFd >= (int)m_vecClients.size())
+            {
+                lce::Close(iFd);
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many connections", __FILE__, __LINE__);
+                return -1;
+            }
+
             m_vecClients[iFd].iSrvId = pstServerInfo->iSrvId;
 
             lce::SetReUseAddr(iFd);
-- 
2.43.0


From 82598301f022cff65c62326c3341afa1102e2a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 086/140] fix: CCommMgr closes a connection it cannot watch

---
 src/CCommMgr.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 8ae11eb..7532c1b 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -490,7 +490,7 @@ namespace lce
             {
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
-                lce::Close(iClientSock);
+                close(stSession);
                 continue;
             }
         }
@@ -531,6 +531,7 @@ namespace lce
                 {
                     if (pstServerInfo->pProcessor != NULL)
                         pstServerInfo->pProcessor->onError(stSession, m_oCEvent.getErrorMsg(), ERR_SOCKET);
+                    close(stSession);
                 }
             }
         }
@@ -582,6 +583,7 @@ namespace lce
                     if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                        close(stSession.iFd);
                         return -1;
                     }
                 }
@@ -615,6 +617,7 @@ namespace lce
                     if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                     {
                         snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                        close(stSession.iFd);
                         return -1;
                     }
                 }
@@ -654,6 +657,7 @@ namespace lce
                 if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                 {
                     snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                    close(stSession.iFd);
                     return -1;
                 }
             }
@@ -674,6 +678,7 @@ namespace lce
                         if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                            close(stSession.iFd);
                             return -1;
                         }
                     }
@@ -702,6 +707,7 @@ namespace lce
                         if (m_oCEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CCommMgr::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
                         {
                             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oCEvent.getErrorMsg());
+                            close(stSession.iFd);
                             return -1;
                         }
                     }
-- 
2.43.0


From f5f8a363b456d67f8be8dba82c2a3198918a02fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:57 +0000
Subject: [PATCH 087/140] fix: a CNetWorker session holds the descriptor of its
 connection

---
 src/CNetWorker.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 730d9b5..ccc16ed 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -290,18 +290,18 @@ namespace lce
 
 				StSession stSession;
 				stSession.ddwBeginTime = pstClientInfo->ddwBeginTime;
-				stSession.iFd = iFd;
+				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession.iFd))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
-					close(iFd);
+					close(stSession.iFd);
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
 					onError(stSession, m_szErrMsg, ERR_OP_EVENT);
 				}
-- 
2.43.0


From 8fbcd60c56ee7a9d77d6c4f02b8afacd53179bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:40 +0000
Subject: [PATCH 088/140] fix: CNetWorker closes a connection when only a part
 of a refused reply was sent

---
 src/CNetWorker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index ccc16ed..6b5acd3 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -448,6 +448,7 @@ namespace lce
 					}
 					if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
 					{
+						close(stSession.iFd); // a part is sent, nothing can follow it
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
 						return -1;
 					}
@@ -536,6 +537,7 @@ namespace lce
 					{
 						if (!pstClientInfo->pSocketSendBuf->addData(pszData + iSendSize, iSize - iSendSize))
 						{
+							close(stSession.iFd);
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error buffer less than data", __FILE__, __LINE__);
 							return -1;
 						}
-- 
2.43.0


From 44380cf78ce95df495371e3a99db8fbcf4353ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 089/140] fix: an empty CNetWorker reply is not a failed one

---
 src/CNetWorker.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 6b5acd3..9883809 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -438,7 +438,7 @@ namespace lce
 		{
 			iSendSize = lce::Send(stSession.iFd, pszData, iSize);
 
-			if (iSendSize > 0)
+			if (iSendSize >= 0)
 			{
 				if (iSendSize < iSize)
 				{
@@ -531,7 +531,7 @@ namespace lce
 			else
 			{
 				int iSendSize = lce::Send(stSession.iFd, pszData, iSize);
-				if (iSendSize > 0)
+				if (iSendSize >= 0)
 				{
 					if (iSendSize < iSize)
 					{
-- 
2.43.0


From 00d25984ef9758b4c7e72e07e6f8768e1b70d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 090/140] fix: a CNetWorker session only reaches the connection
 it was made for

---
 include/CNetWorker.h | 10 +++++++++-
 src/CNetWorker.cpp   | 27 ++++++++++++++++++---------
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/CNetWorker.h b/include/CNetWorker.h
index b22e51f..4040da0 100755
--- a/include/CNetWorker.h
+++ b/include/CNetWorker.h
@@ -32,6 +32,7 @@ namespace lce
 		CNetWorker()
 		{
 			m_iEventFd = 0;
+			m_ddwConnId = 0;
 		}
 
 		virtual ~CNetWorker()
@@ -104,8 +105,14 @@ namespace lce
 
 		inline bool isClose(int iFd)
 		{
-			return (m_vecClients[iFd] == NULL);
+			return (iFd < 0 || iFd >= (int)m_vecClients.size() || m_vecClients[iFd] == NULL);
 		}
+
+		inline bool isClose(const StSession &stSession)
+		{
+			return isClose(stSession.iFd) || (stSession.ddwConnId != 0 && stSession.ddwConnId != m_vecClients[stSession.iFd]->ddwConnId);
+		}
+
 		int close(int iFd);
 		int write(int iFd);
 
@@ -123,6 +130,7 @@ namespace lce
 		map<uint32_t, StServerInfo *> m_mapServers;
 		CCircleQueue<StClientInfo *> m_queConn;
 		int m_iEventFd;
+		uint64_t m_ddwConnId;
 	};
 };
 
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 9883809..14003c0 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -128,6 +128,7 @@ namespace lce
 			pstClientInfo->iFd = lce::CreateTcpSock();
 			pstClientInfo->pstServerInfo = pstServerInfo;
 			pstClientInfo->ddwBeginTime = lce::GetTickCount();
+			pstClientInfo->ddwConnId = ++m_ddwConnId;
 
 			if (pstClientInfo->iFd < 0)
 			{
@@ -154,15 +155,16 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 				onConnect(stSession, true, pData);
 
-				if (isClose(pstClientInfo->iFd))
+				if (isClose(stSession))
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
-				return pstClientInfo->iFd;
+				return stSession.iFd;
 			}
 			else
 			{
@@ -221,12 +223,13 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (error == 0)
 		{
 			onConnect(stSession, true, pData);
 
-			if (!isClose(iFd))
+			if (!isClose(stSession))
 			{
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -240,7 +243,7 @@ namespace lce
 		else
 		{
 			onConnect(stSession, false, pData);
-			close(iFd);
+			close(stSession);
 		}
 	}
 
@@ -286,6 +289,7 @@ namespace lce
 
 			if (pstClientInfo != NULL)
 			{
+				pstClientInfo->ddwConnId = ++m_ddwConnId;
 				m_vecClients[pstClientInfo->iFd] = pstClientInfo;
 
 				StSession stSession;
@@ -293,10 +297,11 @@ namespace lce
 				stSession.iFd = pstClientInfo->iFd;
 				stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 				stSession.stClientAddr = pstClientInfo->stClientAddr;
+				stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 				onConnect(stSession, true, pstClientInfo);
 
-				if (isClose(stSession.iFd))
+				if (isClose(stSession))
 					continue;
 
 				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
@@ -319,6 +324,7 @@ namespace lce
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstClientInfo->pstServerInfo->iSrvId;
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 
 		if (pstClientInfo->pSocketRecvBuf == NULL)
 		{
@@ -363,7 +369,7 @@ namespace lce
 			while ((iWholePkgFlag = pstClientInfo->pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
 			{
 				onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
-				if (isClose(iFd))
+				if (isClose(stSession))
 					break;
 				pstClientInfo->pSocketRecvBuf->removeData(iPkgLen);
 			}
@@ -377,14 +383,14 @@ namespace lce
 		else if (iSize == 0)
 		{
 			onClose(stSession);
-			close(iFd);
+			close(stSession);
 		}
 		else
 		{
 			if (errno == 104) // Connection reset by peer
 			{
 				onClose(stSession);
-				close(iFd);
+				close(stSession);
 			}
 			else if (errno == EAGAIN || errno == EINTR) // ��������������IO��������������ر�����
 			{
@@ -402,6 +408,8 @@ namespace lce
 
 	int CNetWorker::close(const StSession &stSession)
 	{
+		if (isClose(stSession))
+			return 0;
 		return close(stSession.iFd);
 	}
 
@@ -420,7 +428,7 @@ namespace lce
 	int CNetWorker::write(const StSession &stSession, const char *pszData, const int iSize, bool bClose)
 	{
 
-		if (isClose(stSession.iFd))
+		if (isClose(stSession))
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error maybe client have closed", __FILE__, __LINE__);
 			return -1;
@@ -596,6 +604,7 @@ namespace lce
 		StSession stSession;
 		stSession.ddwBeginTime = lce::GetTickCount();
 		stSession.stClientAddr = pstClientInfo->stClientAddr;
+		stSession.ddwConnId = pstClientInfo->ddwConnId;
 		stSession.iFd = iFd;
 		stSession.iSvrId = pstServerInfo->iSrvId;
 
-- 
2.43.0


From e474db72a9f7ce80f3b99c03aa4a0aaf3ffa3d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 091/140] fix: CNetWorker sends what it accepted after a peer
 ends its stream

---
 src/CNetWorker.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 14003c0..805c77e 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -382,6 +382,14 @@ namespace lce
 		}
 		else if (iSize == 0)
 		{
+			if (pstClientInfo->pSocketSendBuf != NULL && pstClientInfo->pSocketSendBuf->getSize() > 0)
+			{
+				// onWrite ends the connection when all is sent
+				pstClientInfo->bPeerClosed = true;
+				m_oEvent.delFdEvent(iFd, CEvent::EV_READ);
+				return;
+			}
+
 			onClose(stSession);
 			close(stSession);
 		}
@@ -472,7 +480,7 @@ namespace lce
 					{
 						close(stSession.iFd);
 					}
-					else
+					else if (!pstClientInfo->bPeerClosed)
 					{
 						m_oEvent.delFdEvent(stSession.iFd, CEvent::EV_WRITE);
 					}
@@ -562,7 +570,7 @@ namespace lce
 						{
 							close(stSession.iFd);
 						}
-						else
+						else if (!pstClientInfo->bPeerClosed)
 						{
 							m_oEvent.delFdEvent(stSession.iFd, CEvent::EV_WRITE);
 						}
@@ -634,6 +642,11 @@ namespace lce
 		{
 			if (pstClientInfo->bNeedClose)
 				close(pstClientInfo->iFd);
+			else if (pstClientInfo->bPeerClosed)
+			{
+				onClose(stSession);
+				close(stSession);
+			}
 			else
 				m_oEvent.delFdEvent(iFd, CEvent::EV_WRITE);
 		}
-- 
2.43.0


From 51981a0460ff29e9756408c68011595321b5fb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 092/140] fix: CNetWorker reads from a connection that is made
 at once

---
 src/CNetWorker.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 805c77e..4e27de5 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -164,6 +164,13 @@ namespace lce
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,connect error maybe client have closed", __FILE__, __LINE__);
 					return -1;
 				}
+
+				if (m_oEvent.addFdEvent(pstClientInfo->iFd, CEvent::EV_READ, std::bind(&CNetWorker::onTcpRead, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
+				{
+					close(stSession);
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					return -1;
+				}
 				return stSession.iFd;
 			}
 			else
-- 
2.43.0


From 6964a5732e796ccf2c84839d86e69de79ac46ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 093/140] fix: CNetWorker refuses connections beyond its table

---
 src/CNetWorker.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 4e27de5..88f21b7 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -138,6 +138,14 @@ namespace lce
 				return -1;
 			}
 
+			if (pstClientInfo->iFd >= (int)m_vecClients.size())
+			{
+				lce::Close(pstClientInfo->iFd);
+				delete pstClientInfo;
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,too many connections", __FILE__, __LINE__);
+				return -1;
+			}
+
 			lce::SetReUseAddr(pstClientInfo->iFd);
 			lce::SetNoneBlock(pstClientInfo->iFd);
 
-- 
2.43.0


From 4d034583ca64a728da19b39d1fb6ca1e85b01c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:57 +0000
Subject: [PATCH 094/140] fix: CNetWorker closes a connection it cannot watch

---
 src/CNetWorker.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 88f21b7..7fdb994 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -486,6 +486,7 @@ namespace lce
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+						close(stSession.iFd);
 						return -1;
 					}
 				}
@@ -517,6 +518,7 @@ namespace lce
 					if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 					{
 						snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+						close(stSession.iFd);
 						return -1;
 					}
 				}
@@ -556,6 +558,7 @@ namespace lce
 				if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 				{
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+					close(stSession.iFd);
 					return -1;
 				}
 			}
@@ -576,6 +579,7 @@ namespace lce
 						if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+							close(stSession.iFd);
 							return -1;
 						}
 					}
@@ -604,6 +608,7 @@ namespace lce
 						if (m_oEvent.addFdEvent(stSession.iFd, CEvent::EV_WRITE, std::bind(&CNetWorker::onWrite, this, std::placeholders::_1, std::placeholders::_2), pstClientInfo) != 0)
 						{
 							snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_oEvent.getErrorMsg());
+							close(stSession.iFd);
 							return -1;
 						}
 					}
-- 
2.43.0


From 69509d618f44d167fe4f1203f3aa3e591643dc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:05 +0000
Subject: [PATCH 095/140] fix: no reply is accepted after one that closes the
 connection

---
 src/CCommMgr.cpp   | 12 +++++++++++-
 src/CNetWorker.cpp | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index 7532c1b..f4fbe92 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -556,7 +556,12 @@ namespace lce
 
         StServerInfo *pstServerInfo = m_vecServers[stSession.iSvrId];
 
-        pstClientInfo->bNeedClose = bClose;
+        if (pstClientInfo->bNeedClose && pstClientInfo->pSocketSendBuf != NULL && pstClientInfo->pSocketSendBuf->getSize() > 0)
+        {
+            snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error connection is to close", __FILE__, __LINE__);
+            return -1;
+        }
+
         int iSendBufSize = 0;
         int iSendSize = 0;
 
@@ -586,6 +591,7 @@ namespace lce
                         close(stSession.iFd);
                         return -1;
                     }
+                    pstClientInfo->bNeedClose = bClose;
                 }
                 else
                 {
@@ -620,6 +626,7 @@ namespace lce
                         close(stSession.iFd);
                         return -1;
                     }
+                    pstClientInfo->bNeedClose = bClose;
                 }
                 else
                 {
@@ -660,6 +667,7 @@ namespace lce
                     close(stSession.iFd);
                     return -1;
                 }
+                pstClientInfo->bNeedClose = bClose;
             }
             else
             {
@@ -681,6 +689,7 @@ namespace lce
                             close(stSession.iFd);
                             return -1;
                         }
+                        pstClientInfo->bNeedClose = bClose;
                     }
                     else
                     {
@@ -710,6 +719,7 @@ namespace lce
                             close(stSession.iFd);
                             return -1;
                         }
+                        pstClientInfo->bNeedClose = bClose;
                     }
                     else
                     {
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index 7fdb994..e659a26 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -461,7 +461,12 @@ namespace lce
 
 		StServerInfo *pstServerInfo = pstClientInfo->pstServerInfo;
 
-		pstClientInfo->bNeedClose = bClose;
+		if (pstClientInfo->bNeedClose && pstClientInfo->pSocketSendBuf != NULL && pstClientInfo->pSocketSendBuf->getSize() > 0)
+		{
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,write error connection is to close", __FILE__, __LINE__);
+			return -1;
+		}
+
 		int iSendBufSize = 0;
 		int iSendSize = 0;
 
@@ -489,6 +494,7 @@ namespace lce
 						close(stSession.iFd);
 						return -1;
 					}
+					pstClientInfo->bNeedClose = bClose;
 				}
 				else
 				{
@@ -521,6 +527,7 @@ namespace lce
 						close(stSession.iFd);
 						return -1;
 					}
+					pstClientInfo->bNeedClose = bClose;
 				}
 				else
 				{
@@ -561,6 +568,7 @@ namespace lce
 					close(stSession.iFd);
 					return -1;
 				}
+				pstClientInfo->bNeedClose = bClose;
 			}
 			else
 			{
@@ -582,6 +590,7 @@ namespace lce
 							close(stSession.iFd);
 							return -1;
 						}
+						pstClientInfo->bNeedClose = bClose;
 					}
 					else
 					{
@@ -611,6 +620,7 @@ namespace lce
 							close(stSession.iFd);
 							return -1;
 						}
+						pstClientInfo->bNeedClose = bClose;
 					}
 					else
 					{
-- 
2.43.0


From 93acaf84dc5fc94d3e19a0a2d06bd31b7e3ee53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 096/140] fix: CTask holds at most the configured number of
 waiting tasks

---
 src/CTask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTask.cpp b/src/CTask.cpp
index bf5aa51..6b8e4b3 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -45,7 +45,7 @@ namespace lce
 
         pthread_mutex_lock(&m_lock);
 
-        if (m_queTaskQueue.size() > (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
+        if (m_queTaskQueue.size() >= (size_t)m_iMaxSize) // 判定队列size 放在锁空间内
         {
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,queue over size :%d", __FILE__, __LINE__, (int)m_queTaskQueue.size());
             pthread_mutex_unlock(&m_lock);
-- 
2.43.0


From d634108a672b4b39dfa0581f827de9771b74eb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 097/140] fix: worker pools start without an error handler
 instead of an undefined one

---
 include/CAnyWorkerPool.h  | 1 +
 include/CHttpWorkerPool.h | 1 +
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index afcc651..b7262c1 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::CAnyWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index b09626e..63a73c2 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::CHttpWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 7792766..fcb8814 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -50,6 +50,7 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::CRawWorkerPool()
     {
+        m_pErrHandler = NULL;
     }
 
     template <class T>
-- 
2.43.0


From 87f349ba1f42c1f440cc4e820ebb538015d9848c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 098/140] fix: worker pools release a request that the full
 task queue refuses

---
 include/CAnyWorkerPool.h  | 2 ++
 include/CHttpWorkerPool.h | 2 ++
 include/CRawWorkerPool.h  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index b7262c1..59a56f5 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -99,6 +99,8 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
+                delete poRequest;
+                poRequest = NULL;
             }
         }
         catch (const exception &e)
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 63a73c2..63b835c 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -99,6 +99,8 @@ namespace lce
             {
                 if (m_pErrHandler != NULL)
                     m_pErrHandler("task queue full");
+                delete poRequest;
+                poRequest = NULL;
             }
         }
         catch (const exception &e)
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index fcb8814..2eb1677 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -95,6 +95,7 @@ namespace lce
         {
             if (m_pErrHandler != NULL)
                 m_pErrHandler("task queue full");
+            delete pstRequest;
         }
     }
 
-- 
2.43.0


From 7ccd03f30b8945d636f5e5ec35b748dabd218ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 099/140] fix: CAnyWorkerPool sends its replies with a complete
 message head

---
 include/CAnyWorkerPool.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 59a56f5..3c18056 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -128,6 +128,8 @@ namespace lce
             m_vecWorkers[iIndex]->onRequest(*poRequest, *poResponse);
             poResponse->getWriter().encode();
             poResponse->getWriter().setEtx();
+            poResponse->getWriter().head().setStx(0x2);
+            poResponse->getWriter().head().setLen(poResponse->getWriter().size());
             if (CCommMgr::getInstance().sendMessage(iTaskType, this, poResponse) < 0)
             {
                 if (m_pErrHandler != NULL)
-- 
2.43.0


From 76e1f3cc3ffc9e0c8ba6f87435be9179bc21ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 100/140] fix: datagrams up to the receive limit are handed
 over whole

---
 src/CCommMgr.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index f4fbe92..f471511 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -238,16 +238,19 @@ namespace lce
             pstClientInfo->pSocketRecvBuf = new CSocketBuf(pstServerInfo->dwInitRecvBufLen, pstServerInfo->dwMaxRecvBufLen);
         }
 
-        int iSize = 0;
+        // the buffer grows to the size of the datagram
+        int iSize = ::recv(iFd, NULL, 0, MSG_PEEK | MSG_TRUNC);
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
+        while (pstClientInfo->pSocketRecvBuf->getFreeSize() < iSize && pstClientInfo->pSocketRecvBuf->getBufSize() < pstClientInfo->pSocketRecvBuf->getBufMaxSize())
         {
             pstClientInfo->pSocketRecvBuf->addFreeBuf();
         }
 
-        if (pstClientInfo->pSocketRecvBuf->getFreeSize() == 0)
+        if (pstClientInfo->pSocketRecvBuf->getFreeSize() < iSize)
         {
             // print error no buf size
+            ::recvfrom(iFd, NULL, 0, 0, (struct sockaddr *)&pstClientInfo->stClientAddr, (socklen_t *)&iAddrLen);
+            stSession.stClientAddr = pstClientInfo->stClientAddr;
             pstClientInfo->pSocketRecvBuf->reset();
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,socket buf no memory", __FILE__, __LINE__);
             if (pstServerInfo->pProcessor != NULL)
-- 
2.43.0


From a83d20fab2964898603198f4c2cc5e6f53dc22aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:16 +0000
Subject: [PATCH 101/140] fix: a datagram service without a package filter
 reports an error

---
 src/CCommMgr.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index f471511..f406e48 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -270,6 +270,15 @@ namespace lce
             int iRealPkgLen = 0;
             int iPkgLen = 0;
 
+            if (pstServerInfo->pPackageFilter == NULL)
+            {
+                pstClientInfo->pSocketRecvBuf->reset();
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "onUdpRead %s,%d,package filter is null", __FILE__, __LINE__);
+                if (pstServerInfo->pProcessor != NULL)
+                    pstServerInfo->pProcessor->onError(stSession, m_szErrMsg, ERR_PKG_FILTER);
+                return;
+            }
+
             while ((iWholePkgFlag = pstServerInfo->pPackageFilter->isWholePkg(pstClientInfo->pSocketRecvBuf->getData(), pstClientInfo->pSocketRecvBuf->getSize(), iRealPkgLen, iPkgLen)) == 0)
             {
 
-- 
2.43.0


From b3c55d3e3e86e294e58d4a69c56f2a326ad6209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 102/140] fix: a descriptor of a removed datagram service
 starts without its receive buffer

---
 src/CCommMgr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index f406e48..fde3880 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -285,7 +285,9 @@ namespace lce
                 if (pstServerInfo->pProcessor != NULL)
                     pstServerInfo->pProcessor->onRead(stSession, pstClientInfo->pSocketRecvBuf->getData(), iPkgLen);
 
-                pstClientInfo->pSocketRecvBuf->reset();
+                // a handler may remove the service
+                if (m_vecServers[stSession.iSvrId] == pstServerInfo)
+                    pstClientInfo->pSocketRecvBuf->reset();
                 break;
             }
 
@@ -1060,6 +1062,12 @@ namespace lce
         {
             m_oCEvent.delFdEvent(pstServerInfo->iFd, CEvent::EV_READ | CEvent::EV_WRITE);
             lce::Close(pstServerInfo->iFd);
+
+            if (pstServerInfo->iType == SRV_UDP)
+            {
+                delete m_vecClients[pstServerInfo->iFd].pSocketRecvBuf;
+                m_vecClients[pstServerInfo->iFd].pSocketRecvBuf = NULL;
+            }
         }
 
         delete pstServerInfo;
-- 
2.43.0


From 6ddaaf3f747c985cd935c17d6a5225d3151d1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 103/140] fix: CTcpConnector is connected when the connection
 is made at once

---
 src/CTcpConnector.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 704beaf..066eccd 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -57,6 +57,7 @@ namespace lce
 		{
 			flag &= ~O_NONBLOCK;
 			fcntl(m_iFd, F_SETFL, flag); // 设置阻塞
+			m_bConnect = true;
 			return true;
 		}
 
-- 
2.43.0


From 0718274ba0153e9d93b0778af867bf34900105aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 104/140] fix: CTcpConnector connects with descriptors above
 FD_SETSIZE

---
 src/CTcpConnector.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 066eccd..430333b 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -7,6 +7,7 @@
 #include <string.h>
 #include <stdio.h>
 #include <fcntl.h>
+#include <poll.h>
 #include <unistd.h>
 
 namespace lce
@@ -69,21 +70,16 @@ namespace lce
 		}
 		else
 		{
-			struct timeval tv;
-
-			tv.tv_sec = m_dwTimeout / 1000;
-			tv.tv_usec = (m_dwTimeout % 1000) * 1000;
-
-			fd_set set, rset;
-			FD_ZERO(&set);
-			FD_ZERO(&rset);
-			FD_SET(m_iFd, &set);
-			FD_SET(m_iFd, &rset);
-			ret = select(m_iFd + 1, &rset, &set, NULL, &tv);
+			// descriptors may be above FD_SETSIZE
+			struct pollfd stPoll;
+			stPoll.fd = m_iFd;
+			stPoll.events = POLLIN | POLLOUT;
+			stPoll.revents = 0;
+			ret = poll(&stPoll, 1, m_dwTimeout);
 
 			if (ret < 0)
 			{
-				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:select error(%d):%s.", errno, strerror(errno));
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect:poll error(%d):%s.", errno, strerror(errno));
 				close();
 				return false;
 			}
-- 
2.43.0


From 25dd06bb11f9f6115b04cfb1659551db89775039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 105/140] fix: CTcpConnector reports a write to a reset
 connection instead of ending the process

---
 src/CTcpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CTcpConnector.cpp b/src/CTcpConnector.cpp
index 430333b..b6a74dd 100644
--- a/src/CTcpConnector.cpp
+++ b/src/CTcpConnector.cpp
@@ -128,7 +128,7 @@ namespace lce
 		setsockopt(m_iFd, SOL_SOCKET, SO_SNDTIMEO, &tv, sizeof(tv));
 
 		int iSendLen = -1;
-		iSendLen = ::send(m_iFd, pData, iSize, 0);
+		iSendLen = ::send(m_iFd, pData, iSize, MSG_NOSIGNAL);
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Write: send error:%s.", strerror(errno));
-- 
2.43.0


From a168fe9ce5320922dc509267eafc753daf5e029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 106/140] fix: CUdpConnector::write reports a failure as -1

---
 src/CUdpConnector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 6b85fac..0af6deb 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -105,7 +105,7 @@ namespace lce
 		if (iSendLen < 0)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "sendto error:%s", strerror(errno));
-			return false;
+			return -1;
 		}
 
 		return iSendLen;
-- 
2.43.0


From 497521e7a2e977328c751f131ef73b0769f965ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 107/140] fix: CUdpConnector::connect closes the descriptor it
 had

---
 src/CUdpConnector.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index 0af6deb..cbb541e 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -53,6 +53,11 @@ namespace lce
 		m_sSvrIp = sSvrIp;
 		m_wSvrPort = wSvrPort;
 
+		if (m_iFd != -1)
+		{
+			this->close();
+		}
+
 		if ((m_iFd = socket(AF_INET, SOCK_DGRAM, 0)) == INVALID_SOCKET)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "Connect: socket error(%d):%s.", errno, strerror(errno));
-- 
2.43.0


From fa5af9c2cb4daa009d3ee57becf6e4017c7ec7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:08 +0000
Subject: [PATCH 108/140] fix: CUdpConnector::connect works on a host without a
 private address

---
 src/CUdpConnector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CUdpConnector.cpp b/src/CUdpConnector.cpp
index cbb541e..af2cdad 100644
--- a/src/CUdpConnector.cpp
+++ b/src/CUdpConnector.cpp
@@ -72,7 +72,8 @@ namespace lce
 		sockClentAddr.sin_family = AF_INET;
 		if (sLocalIp.empty())
 		{
-			sockClentAddr.sin_addr.s_addr = inet_addr(getLocalIp());
+			const char *pszLocalIp = getLocalIp();
+			sockClentAddr.sin_addr.s_addr = pszLocalIp != NULL ? inet_addr(pszLocalIp) : htonl(INADDR_ANY);
 		}
 		else
 		{
-- 
2.43.0


From 3d3747017e076b57d9d7ae0e263d6f27334c1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 109/140] fix: assigning a database result to itself freed it

---
 src/CMysql.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index ca3f86a..ca081e5 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -88,10 +88,11 @@ namespace lce
 
     void MySqlData::operator=(const MySqlData &right)
     {
+        // first the new one: it may be the same
+        right._data->RefAdd();
         if (_data)
             _data->RefSub();
         _data = right._data;
-        _data->RefAdd();
     }
 
     MySqlData::MySqlData(MySqlBasicData *data)
-- 
2.43.0


From 36467636cb20de7f6969b24f79b92c61db0797ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 110/140] fix: using a database client before Init crashed

---
 src/CMysql.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index ca081e5..60bc709 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -325,6 +325,11 @@ namespace lce
 
     void CMySql::Connect()
     {
+        if (_Mysql == NULL)
+        {
+            throw mysql_exception("CMySql::Connect: not init");
+        }
+
         mysql_init(_Mysql);
 
         if (_Mysql != NULL)
-- 
2.43.0


From 7db7f9456cdfdedba1fa23e3f238bd51081aa711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:37 +0000
Subject: [PATCH 111/140] fix: a failed connect to the database left its handle
 open

---
 src/CMysql.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 60bc709..2bdebd4 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -346,12 +346,18 @@ namespace lce
         {
             if (mysql_options(_Mysql, MYSQL_SET_CHARSET_NAME, _charSet.c_str()))
             {
-                throw mysql_exception(string("CMySql::Connect: mysql_options MYSQL_SET_CHARSET_NAME ") + _charSet + ":" + mysql_error(_Mysql));
+                string err(mysql_error(_Mysql));
+                mysql_close(_Mysql);
+                throw mysql_exception(string("CMySql::Connect: mysql_options MYSQL_SET_CHARSET_NAME ") + _charSet + ":" + err);
             }
         }
 
         if (mysql_real_connect(_Mysql, _host.c_str(), _user.c_str(), _pass.c_str(), NULL, _port, NULL, CLIENT_MULTI_STATEMENTS) == NULL)
-            throw mysql_exception(string("CMySql::Connect: mysql_real_connect to ") + _host + ":" + mysql_error(_Mysql));
+        {
+            string err(mysql_error(_Mysql));
+            mysql_close(_Mysql);
+            throw mysql_exception(string("CMySql::Connect: mysql_real_connect to ") + _host + ":" + err);
+        }
 
         _bIsConn = true;
     }
-- 
2.43.0


From 5b2d4e6addd0a212445bb5f1d69fbe7c56b38ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:53 +0000
Subject: [PATCH 112/140] fix: a statement after a failed one used the closed
 database handle

---
 src/CMysql.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 2bdebd4..fe2f9e1 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -223,6 +223,9 @@ namespace lce
 
     MySqlData CMySql::query(const string &sql) throw(mysql_exception)
     {
+        if (!_bIsConn)
+            Select(); // an error has closed the connection
+
         if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
         {
             string err(mysql_error(_Mysql) + string(":") + sql);
-- 
2.43.0


From 43665ae23598838c2f34723f37e303e84f529b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 113/140] fix: a lost database connection without a selected
 database was not retried

---
 src/CMysql.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index fe2f9e1..0061460 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -233,9 +233,7 @@ namespace lce
             Close();
             if (ret_errno == 2013 || ret_errno == 2006)
             {
-                Connect();
-                if (mysql_select_db(_Mysql, _dbname.c_str()))
-                    throw mysql_exception(string("CMySql::query: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+                Select(); // connects again, without a database if none is in use
                 if (mysql_real_query(_Mysql, sql.c_str(), sql.length()))
                     throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
-- 
2.43.0


From b2e84ea6b95ba7080d7237c591439b7a46c619a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:23 +0000
Subject: [PATCH 114/140] fix: results of several statements in one query broke
 the next query

---
 include/CMysql.h |  1 +
 src/CMysql.cpp   | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/CMysql.h b/include/CMysql.h
index 44a4b55..934aacf 100755
--- a/include/CMysql.h
+++ b/include/CMysql.h
@@ -69,6 +69,7 @@ namespace lce
         void Connect();
         void Close();
         void Select();
+        void SkipResults(const string &sql);
 
     protected:
         MYSQL *_Mysql;
diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 0061460..c4a7d4c 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -254,7 +254,9 @@ namespace lce
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
             }
             data->affected_rows(inum);
-            return MySqlData(data);
+            MySqlData oResult(data);
+            SkipResults(sql);
+            return oResult;
         }
         MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
         if (pstMySqlRes == NULL)
@@ -284,6 +286,7 @@ namespace lce
         {
             delete data;
             mysql_free_result(pstMySqlRes);
+            Close(); // further results may be left
             throw mysql_exception(string("CMySql::query: catch mysql_exception:") + e.what());
         }
 
@@ -321,7 +324,24 @@ namespace lce
         data->genrows();
         mysql_free_result(pstMySqlRes);
 
-        return MySqlData(data);
+        MySqlData oResult(data);
+        SkipResults(sql);
+        return oResult;
+    }
+
+    // the results of further statements in the same query, the next query fails if they are left
+    void CMySql::SkipResults(const string &sql)
+    {
+        int iRet = 0;
+        while ((iRet = mysql_next_result(_Mysql)) == 0)
+        {
+            MYSQL_RES *pstMySqlRes = mysql_store_result(_Mysql);
+            if (pstMySqlRes != NULL)
+                mysql_free_result(pstMySqlRes);
+        }
+
+        if (iRet > 0)
+            throw mysql_exception(string("CMySql::query: mysql_next_result ") + mysql_error(_Mysql) + "|" + sql);
     }
 
     void CMySql::Connect()
-- 
2.43.0


From 80a591ac4f2109e1becad4edaae4b895e2dbd269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:40 +0000
Subject: [PATCH 115/140] fix: the number of affected rows was cut to an int

---
 src/CMysql.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index c4a7d4c..2694540 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -246,9 +246,9 @@ namespace lce
         MySqlBasicData *data = new MySqlBasicData();
         if (mysql_field_count(_Mysql) == 0)
         {
-            int inum = mysql_affected_rows(_Mysql);
+            my_ulonglong inum = mysql_affected_rows(_Mysql);
             string err(sql);
-            if (inum < 0)
+            if (inum == (my_ulonglong)-1)
             {
                 delete data;
                 throw mysql_exception(string("CMySql::query: ") + mysql_error(_Mysql) + "|" + err);
-- 
2.43.0


From 0db6ac2aef1d832ea72eb3cef84a46c3b28d6e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 116/140] fix: escape_string reconnected without the database
 in use

---
 src/CMysql.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 2694540..a422b1a 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -416,7 +416,7 @@ namespace lce
     std::string CMySql::escape_string(const char *s, size_t length)
     {
         if (!_bIsConn)
-            Connect();
+            Select();
 
         char *p = new char[length * 2 + 1];
         char *pp = p;
-- 
2.43.0


From 510980456c259ec73c11e4fccdee6ad5875c7a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:15 +0000
Subject: [PATCH 117/140] fix: a reconnect after a second Init selected the
 database of the first

---
 src/CMysql.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index a422b1a..f38b49a 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -166,6 +166,7 @@ namespace lce
         _pass = pass;
         _port = port;
         _charSet = charSet;
+        _dbname.clear(); // none is in use on the new connection
 
         _Mysql = new MYSQL;
         Connect();
-- 
2.43.0


From 8745ed51295bce768be9e9ffb7fabf8b63af67a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:35 +0000
Subject: [PATCH 118/140] fix: a failed selection of the database used the
 closed handle

---
 src/CMysql.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index f38b49a..18d86f8 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -402,15 +402,19 @@ namespace lce
 
         if (mysql_select_db(_Mysql, _dbname.c_str()))
         {
+            string err(mysql_error(_Mysql));
             int ret_errno = mysql_errno(_Mysql);
             Close();
             if (ret_errno == 2013 || ret_errno == 2006)
             {
                 Connect();
+                if (mysql_select_db(_Mysql, _dbname.c_str()) == 0)
+                    return;
+                err = mysql_error(_Mysql);
+                Close(); // nothing may run without the database
             }
 
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
+            throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + err);
         }
     }
 
-- 
2.43.0


From 90442dcf3dde0b96f3fd12475132b2c0358e33d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 119/140] fix: setCharSet used the closed handle when the
 database cannot be selected

---
 src/CMysql.cpp | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/CMysql.cpp b/src/CMysql.cpp
index 18d86f8..bc8413f 100755
--- a/src/CMysql.cpp
+++ b/src/CMysql.cpp
@@ -203,23 +203,7 @@ namespace lce
 
         Close();
         _charSet = cs;
-        Connect();
-
-        if (_dbname.empty())
-            return;
-
-        if (mysql_select_db(_Mysql, _dbname.c_str()))
-        {
-            int ret_errno = mysql_errno(_Mysql);
-            Close();
-            if (ret_errno == 2013 || ret_errno == 2006)
-            {
-                Connect();
-            }
-
-            if (mysql_select_db(_Mysql, _dbname.c_str()))
-                throw mysql_exception(string("CMySql::Select: mysql_select_db ") + _dbname + ":" + mysql_error(_Mysql));
-        }
+        Select();
     }
 
     MySqlData CMySql::query(const string &sql) throw(mysql_exception)
-- 
2.43.0


From 2390d7efcaafcd4ab7c4e60225459e2e1cd75d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:43 +0000
Subject: [PATCH 120/140] fix: a joined or ended thread object detached and
 cancelled other threads

---
 include/CThread.h | 27 ++++++++++++++++++----
 src/CThread.cpp   | 59 ++++++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 75 insertions(+), 11 deletions(-)

diff --git a/include/CThread.h b/include/CThread.h
index 1c7d4f5..f75bb14 100644
--- a/include/CThread.h
+++ b/include/CThread.h
@@ -8,6 +8,7 @@
 #include <signal.h>
 #include <sys/syscall.h>
 #include <unistd.h>
+#include <memory>
 
 namespace lce
 {
@@ -36,13 +37,27 @@ namespace lce
         virtual int run() = 0;
 
     private:
-        static void *procThread(void *pParam)
+        // outlives both the thread and its object
+        struct StState
         {
-            CThread *pCThread = (CThread *)pParam;
-            pCThread->run();
+            StState()
+            {
+                bEnded = false;
+                pthread_mutex_init(&lock, 0);
+            }
+            ~StState() { pthread_mutex_destroy(&lock); }
+            pthread_mutex_t lock;
+            bool bEnded;
+        };
 
-            return 0;
-        }
+        struct StStart
+        {
+            CThread *pThread;
+            std::shared_ptr<StState> pState;
+        };
+
+        static void *procThread(void *pParam);
+        static void endThread(void *pParam);
 
     protected:
         char m_szErrMsg[1024];
@@ -51,6 +66,8 @@ namespace lce
         pid_t m_iPid;
         pthread_t m_iId;
         int m_iStop;
+        bool m_bDetached;
+        std::shared_ptr<StState> m_pState;
     };
 };
 #endif
diff --git a/src/CThread.cpp b/src/CThread.cpp
index 81950de..6c744d6 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -8,6 +8,7 @@ namespace lce
         m_iId = 0;
         m_iPid = 0;
         m_iStop = 0;
+        m_bDetached = false;
     }
 
     CThread::~CThread()
@@ -16,6 +17,29 @@ namespace lce
         stop();
     }
 
+    void *CThread::procThread(void *pParam)
+    {
+        StStart *pstStart = (StStart *)pParam;
+
+        // also when the thread is cancelled
+        pthread_cleanup_push(endThread, pstStart);
+        pstStart->pThread->run();
+        pthread_cleanup_pop(1);
+
+        return 0;
+    }
+
+    void CThread::endThread(void *pParam)
+    {
+        StStart *pstStart = (StStart *)pParam;
+
+        pthread_mutex_lock(&pstStart->pState->lock);
+        pstStart->pState->bEnded = true;
+        pthread_mutex_unlock(&pstStart->pState->lock);
+
+        delete pstStart;
+    }
+
     int CThread::start()
     {
 
@@ -25,20 +49,29 @@ namespace lce
         sigaddset(&signal_mask, SIGPIPE);
         pthread_sigmask(SIG_BLOCK, &signal_mask, NULL);
 
-        if (pthread_create(&m_iId, 0, CThread::procThread, this) != 0)
+        m_iStop = 0;
+        m_bDetached = false;
+        m_pState.reset(new StState);
+
+        StStart *pstStart = new StStart;
+        pstStart->pThread = this;
+        pstStart->pState = m_pState;
+
+        if (pthread_create(&m_iId, 0, CThread::procThread, pstStart) != 0)
         {
+            m_iId = 0;
+            delete pstStart;
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "file:%s,line:%d,errno=%d,error=%s", __FILE__, __LINE__, errno, strerror(errno));
             return -1;
         }
-        m_iStop = 0;
-
         return 0;
     }
 
     int CThread::detach()
     {
-        if (m_iId > 0)
+        if (m_iId > 0 && !m_bDetached)
         {
+            m_bDetached = true;
             return pthread_detach(m_iId);
         }
 
@@ -49,7 +82,14 @@ namespace lce
     {
         if (m_iId > 0)
         {
-            return pthread_join(m_iId, NULL);
+            if (m_bDetached)
+                return EINVAL;
+
+            int iRet = pthread_join(m_iId, NULL);
+            if (iRet == 0)
+                m_iId = 0; // another thread may get this id
+
+            return iRet;
         }
 
         return 0;
@@ -63,7 +103,14 @@ namespace lce
         m_iStop = 1;
         if (m_iId > 0)
         {
-            return pthread_cancel(m_iId);
+            // a thread that has ended and is detached does not exist any more
+            int iRet = 0;
+            pthread_mutex_lock(&m_pState->lock);
+            if (!m_pState->bEnded)
+                iRet = pthread_cancel(m_iId);
+            pthread_mutex_unlock(&m_pState->lock);
+
+            return iRet;
         }
 
         return 0;
-- 
2.43.0


From 44ac79c3a14260f96ca18fb8bcbe8ec0d57435be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:43 +0000
Subject: [PATCH 121/140] fix: stopping a task queue left its lock held

---
 include/CTask.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/CTask.h b/include/CTask.h
index 1366d8b..55cd424 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -51,6 +51,7 @@ namespace lce
                     bool bHaveTask = false;
 
                     pthread_mutex_lock(&m_pTask->m_lock);
+                    pthread_cleanup_push(unlock, &m_pTask->m_lock); // the wait is cancelled with the lock held
 
                     if (m_pTask->m_queTaskQueue.empty())
                     {
@@ -63,7 +64,7 @@ namespace lce
                         bHaveTask = true;
                     }
 
-                    pthread_mutex_unlock(&m_pTask->m_lock);
+                    pthread_cleanup_pop(1);
 
                     if (bHaveTask)
                     {
@@ -73,6 +74,12 @@ namespace lce
                 return 0;
             }
 
+        private:
+            static void unlock(void *pLock)
+            {
+                pthread_mutex_unlock((pthread_mutex_t *)pLock);
+            }
+
         private:
             CTask *m_pTask;
             int m_iIndex;
-- 
2.43.0


From dd7273b446aee8f74ebb4fb9d9ebb475ac328e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:00 +0000
Subject: [PATCH 122/140] fix: destroying a task queue with workers hung or
 left them running

---
 include/CTask.h |  2 ++
 src/CTask.cpp   | 23 ++++++++++++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/include/CTask.h b/include/CTask.h
index 55cd424..41869aa 100644
--- a/include/CTask.h
+++ b/include/CTask.h
@@ -86,10 +86,12 @@ namespace lce
         };
 
         friend class CTaskThread;
+        CTask();
         virtual ~CTask();
         int init(int iThreadNum, int iMaxSize);
         int run();
         int stop();
+        int join();
         int dispatch(int iTaskType, void *pData);
         virtual void onWork(int iTaskType, void *pData, int iIndex) = 0;
 
diff --git a/src/CTask.cpp b/src/CTask.cpp
index 6b8e4b3..b67b83c 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -2,12 +2,18 @@
 
 namespace lce
 {
+    CTask::CTask()
+    {
+        m_iThreadNum = 0;
+        m_iMaxSize = 0;
+        pthread_mutex_init(&m_lock, 0);
+        pthread_cond_init(&m_cond, 0);
+    }
+
     int CTask::init(int iThreadNum, int iMaxSize)
     {
         m_iThreadNum = iThreadNum;
         m_iMaxSize = iMaxSize;
-        pthread_mutex_init(&m_lock, 0);
-        pthread_cond_init(&m_cond, 0);
 
         for (int i = 0; i < m_iThreadNum; i++)
         {
@@ -23,7 +29,6 @@ namespace lce
         for (int i = 0; i < m_iThreadNum; i++)
         {
             m_vecTaskThreads[i]->start();
-            m_vecTaskThreads[i]->detach();
         }
         return 0;
     }
@@ -37,6 +42,15 @@ namespace lce
         return 0;
     }
 
+    int CTask::join()
+    {
+        for (size_t i = 0; i < m_vecTaskThreads.size(); i++)
+        {
+            m_vecTaskThreads[i]->join();
+        }
+        return 0;
+    }
+
     int CTask::dispatch(int iTaskType, void *pData)
     {
         STaskInfo stTaskInfo;
@@ -60,6 +74,9 @@ namespace lce
 
     CTask::~CTask()
     {
+        stop();
+        join();
+
         pthread_mutex_destroy(&m_lock);
         pthread_cond_destroy(&m_cond);
 
-- 
2.43.0


From f504876570113dd9c5ac792c24073369502de759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:17 +0000
Subject: [PATCH 123/140] fix: destroying a worker pool freed its workers while
 they served

---
 include/CAnyWorkerPool.h  | 4 ++++
 include/CHttpWorkerPool.h | 4 ++++
 include/CRawWorkerPool.h  | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/CAnyWorkerPool.h b/include/CAnyWorkerPool.h
index 3c18056..5d7f50f 100644
--- a/include/CAnyWorkerPool.h
+++ b/include/CAnyWorkerPool.h
@@ -42,6 +42,10 @@ namespace lce
     template <class T>
     CAnyWorkerPool<T>::~CAnyWorkerPool()
     {
+        // no thread may use the workers any more
+        stop();
+        join();
+
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CHttpWorkerPool.h b/include/CHttpWorkerPool.h
index 63b835c..cf96333 100644
--- a/include/CHttpWorkerPool.h
+++ b/include/CHttpWorkerPool.h
@@ -42,6 +42,10 @@ namespace lce
     template <class T>
     CHttpWorkerPool<T>::~CHttpWorkerPool()
     {
+        // no thread may use the workers any more
+        stop();
+        join();
+
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
diff --git a/include/CRawWorkerPool.h b/include/CRawWorkerPool.h
index 2eb1677..7369021 100644
--- a/include/CRawWorkerPool.h
+++ b/include/CRawWorkerPool.h
@@ -42,6 +42,10 @@ namespace lce
     template <class T>
     CRawWorkerPool<T>::~CRawWorkerPool()
     {
+        // no thread may use the workers any more
+        stop();
+        join();
+
         for (size_t i = 0; i < m_vecWorkers.size(); i++)
         {
             delete m_vecWorkers[i];
-- 
2.43.0


From fd2f97787ac0b8a28d9f78e2ead450b1a0aa9832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 124/140] fix: a worker cancelled while it posts a message left
 the loop locked

---
 src/CEvent.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 203ca22..473fa81 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -256,6 +256,9 @@ namespace lce
         stMsgEvent.onMessage = onEvent;
         stMsgEvent.pClientData = pClientData;
 
+        // a thread cancelled in write would leave the lock held
+        int iState = 0;
+        ::pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &iState);
         ::pthread_mutex_lock(&m_lock);
 
         m_queMsgEvents.push(stMsgEvent);
@@ -269,6 +272,7 @@ namespace lce
         }
 
         ::pthread_mutex_unlock(&m_lock);
+        ::pthread_setcancelstate(iState, NULL);
 
         if (iFlag < 0)
         {
-- 
2.43.0


From 19df9760b4022f0c2db101232e7dc85cdb96a288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 125/140] fix: a constructor that throws left the singleton
 locked

---
 include/CSingleton.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/CSingleton.h b/include/CSingleton.h
index 07df132..c8ec829 100644
--- a/include/CSingleton.h
+++ b/include/CSingleton.h
@@ -14,11 +14,11 @@ namespace lce
 			if (m_pInstance == NULL)
 			{
 				pthread_mutex_lock(&m_mutex);
+				StUnlock stUnlock; // also when the constructor throws
 				if (m_pInstance == NULL)
 				{
 					m_pInstance = new T;
 				}
-				pthread_mutex_unlock(&m_mutex);
 			}
 			return *m_pInstance;
 		}
@@ -26,6 +26,11 @@ namespace lce
 		~CSingleton() {}
 
 	private:
+		struct StUnlock
+		{
+			~StUnlock() { pthread_mutex_unlock(&m_mutex); }
+		};
+
 		CSingleton() {}
 		CSingleton &operator=(const CSingleton &);
 		CSingleton(const CSingleton &);
-- 
2.43.0


From 4e0b0cdc3c033f473ed116f2832d30696b7a0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 126/140] fix: clearing a full block queue did not wake the
 waiting producers

---
 include/CBlockQueue.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 51334cb..003de55 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -38,6 +38,7 @@ namespace lce
             m_dwFront = -1;
             m_dwBack = -1;
             pthread_mutex_unlock(m_mutex);
+            pthread_cond_broadcast(m_cond); // there is room again
         }
 
         ~CBlockQueue()
-- 
2.43.0


From 2693fd424a7b9b13ad22a02ec9c0cfc68ce1d7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:28 +0000
Subject: [PATCH 127/140] fix: an exception or cancelled thread left a block
 queue locked

---
 include/CBlockQueue.h | 71 +++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 40 deletions(-)

diff --git a/include/CBlockQueue.h b/include/CBlockQueue.h
index 003de55..b47e04b 100644
--- a/include/CBlockQueue.h
+++ b/include/CBlockQueue.h
@@ -83,27 +83,23 @@ namespace lce
 
         bool front(T &value) const
         {
-            pthread_mutex_lock(m_mutex);
+            StLock stLock(m_mutex);
             if (0 == m_dwSize)
             {
-                pthread_mutex_unlock(m_mutex);
                 return false;
             }
             value = m_pData[(m_dwFront + 1) % m_dwMaxSize];
-            pthread_mutex_unlock(m_mutex);
             return true;
         }
 
         bool back(T &value) const
         {
-            pthread_mutex_lock(m_mutex);
+            StLock stLock(m_mutex);
             if (0 == m_dwSize)
             {
-                pthread_mutex_unlock(m_mutex);
                 return false;
             }
             value = m_pData[m_dwBack];
-            pthread_mutex_unlock(m_mutex);
             return true;
         }
 
@@ -123,26 +119,17 @@ namespace lce
 
         bool push(const T &item)
         {
-            while (true)
+            StLock stLock(m_mutex);
+            while (m_dwSize >= m_dwMaxSize)
             {
-                pthread_mutex_lock(m_mutex);
-                if (m_dwSize >= m_dwMaxSize)
-                {
-                    pthread_cond_wait(m_cond, m_mutex);
-                    pthread_mutex_unlock(m_mutex);
-                    continue;
-                }
-                else
-                {
-                    break;
-                }
+                pthread_cond_wait(m_cond, m_mutex);
             }
 
-            m_dwBack = (m_dwBack + 1) % m_dwMaxSize;
-            m_pData[m_dwBack] = item;
+            int dwBack = (m_dwBack + 1) % m_dwMaxSize;
+            m_pData[dwBack] = item;
+            m_dwBack = dwBack;
 
             m_dwSize++;
-            pthread_mutex_unlock(m_mutex);
             pthread_cond_broadcast(m_cond);
 
             return true;
@@ -150,24 +137,16 @@ namespace lce
 
         bool pop(T &item)
         {
-            pthread_mutex_lock(m_mutex);
-            while (true)
+            StLock stLock(m_mutex);
+            while (m_dwSize <= 0)
             {
-                if (m_dwSize <= 0)
-                {
-                    pthread_cond_wait(m_cond, m_mutex);
-                    continue;
-                }
-                else
-                {
-                    break;
-                }
+                pthread_cond_wait(m_cond, m_mutex);
             }
 
-            m_dwFront = (m_dwFront + 1) % m_dwMaxSize;
-            item = m_pData[m_dwFront];
+            int dwFront = (m_dwFront + 1) % m_dwMaxSize;
+            item = m_pData[dwFront];
+            m_dwFront = dwFront;
             m_dwSize--;
-            pthread_mutex_unlock(m_mutex);
             pthread_cond_broadcast(m_cond);
             return true;
         }
@@ -177,7 +156,7 @@ namespace lce
             struct timespec t = {0, 0};
             struct timeval now = {0, 0};
             gettimeofday(&now, 0);
-            pthread_mutex_lock(m_mutex);
+            StLock stLock(m_mutex);
             long long usec = now.tv_usec + (timeout % 1000) * 1000LL;
             t.tv_sec = now.tv_sec + timeout / 1000 + usec / 1000000;
             t.tv_nsec = (usec % 1000000) * 1000;
@@ -191,18 +170,30 @@ namespace lce
 
             if (m_dwSize <= 0)
             {
-                pthread_mutex_unlock(m_mutex);
                 return false;
             }
 
-            m_dwFront = (m_dwFront + 1) % m_dwMaxSize;
-            item = m_pData[m_dwFront];
+            int dwFront = (m_dwFront + 1) % m_dwMaxSize;
+            item = m_pData[dwFront];
+            m_dwFront = dwFront;
             m_dwSize--;
-            pthread_mutex_unlock(m_mutex);
             pthread_cond_broadcast(m_cond);
             return true;
         }
 
+    private:
+        // unlocks also when a copy throws or the thread is cancelled
+        struct StLock
+        {
+            StLock(pthread_mutex_t *pMutex)
+            {
+                m_pMutex = pMutex;
+                pthread_mutex_lock(m_pMutex);
+            }
+            ~StLock() { pthread_mutex_unlock(m_pMutex); }
+            pthread_mutex_t *m_pMutex;
+        };
+
     private:
         pthread_mutex_t *m_mutex;
         pthread_cond_t *m_cond;
-- 
2.43.0


From 33d77afd778400cc3d71528d06f28a80a64ab05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 128/140] fix: shared memory that failed to attach or was set
 up again was used in the old place

---
 include/CBitMap.h   | 21 ++++++++++++++-------
 include/CShm.h      | 18 ++++++++++++++++++
 include/CShmArray.h |  2 +-
 3 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/CBitMap.h b/include/CBitMap.h
index 46b26de..4e64e1a 100644
--- a/include/CBitMap.h
+++ b/include/CBitMap.h
@@ -30,10 +30,11 @@ namespace lce
 			m_dwMaxIndex = dwBitmapSize;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
@@ -132,10 +133,11 @@ namespace lce
 			m_dwMaxIndex = dwBitmapSize;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
@@ -232,10 +234,11 @@ namespace lce
 			m_dwMaxIndex = dwBitmapSize;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
@@ -335,10 +338,11 @@ namespace lce
 			m_dwMaxIndex = dwBitmapSize;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
@@ -435,10 +439,11 @@ namespace lce
 			m_dwMaxIndex = dwBitmapSize;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
@@ -538,10 +543,11 @@ namespace lce
 
 			m_dwMaxIndex = dwBitmapSize;
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
@@ -640,10 +646,11 @@ namespace lce
 			m_dwMaxIndex = dwBitmapSize;
 
 			// create shm
-			if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+			if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmSize || !m_oShm.attach())
 			{
 				if (!m_oShm.create(iShmKey, dwShmSize, bCreate, bReadOnly))
 				{
+					m_dwMaxIndex = 0; // no cell can be used
 					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shm init create error: %s", m_oShm.getErrMsg());
 					return false;
 				}
diff --git a/include/CShm.h b/include/CShm.h
index 9b55613..8f150b5 100644
--- a/include/CShm.h
+++ b/include/CShm.h
@@ -40,8 +40,13 @@ namespace lce
 		inline bool attach()
 		{
 			m_bCreate = false;
+			if (!detach())
+			{
+				return false;
+			}
 			if ((m_pShmBuf = (shmat(m_iShmID, NULL, 0))) == (char *)-1)
 			{
+				m_pShmBuf = NULL;
 				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat error:%s", strerror(errno));
 				return false;
 			}
@@ -109,6 +114,11 @@ namespace lce
 	{
 		m_bCreate = false;
 
+		if (!detach())
+		{
+			return false;
+		}
+
 		int iFlag = 0666;
 		if (bCreate)
 		{
@@ -133,6 +143,14 @@ namespace lce
 		if ((m_pShmBuf = (shmat(m_iShmID, NULL, bReadOnly ? SHM_RDONLY : 0))) == (char *)-1)
 		{
 			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "shmat<m_iShmID=%d> error:%s", m_iShmID, strerror(errno));
+			m_pShmBuf = NULL;
+			if (m_bCreate)
+			{
+				// nobody has set it up
+				shmctl(m_iShmID, IPC_RMID, NULL);
+				m_bCreate = false;
+			}
+			m_iShmID = 0;
 			return false;
 		}
 
diff --git a/include/CShmArray.h b/include/CShmArray.h
index e8faeaf..8b2dd2b 100644
--- a/include/CShmArray.h
+++ b/include/CShmArray.h
@@ -91,7 +91,7 @@ namespace lce
     {
         size_type dwShmMaxSize = dwNodeSize * sizeof(value_type) + sizeof(SHead);
         // create shm
-        if (m_oShm.getShmID() <= 0 || !m_oShm.attach())
+        if (m_oShm.getShmID() <= 0 || m_oShm.getShmKey() != iShmKey || m_oShm.getShmSize() < dwShmMaxSize || !m_oShm.attach())
         {
             if (!m_oShm.create(iShmKey, dwShmMaxSize, bCreate, bReadOnly))
             {
-- 
2.43.0


From fbb0be910b1d3815aff00fe67597877c4191d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:30 +0000
Subject: [PATCH 129/140] fix: a replaced package filter was never deleted

---
 include/CNetWorkerMgr.h | 3 +++
 src/CCommMgr.cpp        | 6 ++++++
 src/CNetWorker.cpp      | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index 0ac2043..a526dc9 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -210,6 +210,9 @@ namespace lce
 			return -1;
 		}
 
+		if (pstServerInfo->iPkgType != PKG_EXT)
+			delete pstServerInfo->pPackageFilter;
+		pstServerInfo->iPkgType = PKG_EXT;
 		pstServerInfo->pPackageFilter = pPkgFilter;
 		return 0;
 	}
diff --git a/src/CCommMgr.cpp b/src/CCommMgr.cpp
index fde3880..27021eb 100755
--- a/src/CCommMgr.cpp
+++ b/src/CCommMgr.cpp
@@ -153,6 +153,10 @@ namespace lce
 
         pstServerInfo->pProcessor = pProcessor;
 
+        // a filter that is replaced, one of the program's own is its own
+        if (pstServerInfo->iPkgType != PKG_EXT)
+            delete pstServerInfo->pPackageFilter;
+
         switch (iPkgType)
         {
         case PKG_RAW:
@@ -204,6 +208,8 @@ namespace lce
             snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,iSrvId error", __FILE__, __LINE__);
             return -1;
         }
+        if (pstServerInfo->iPkgType != PKG_EXT)
+            delete pstServerInfo->pPackageFilter;
         pstServerInfo->iPkgType = PKG_EXT;
         pstServerInfo->pPackageFilter = pPkgFilter;
         return 0;
diff --git a/src/CNetWorker.cpp b/src/CNetWorker.cpp
index e659a26..42bec45 100755
--- a/src/CNetWorker.cpp
+++ b/src/CNetWorker.cpp
@@ -103,6 +103,9 @@ namespace lce
 			return -1;
 		}
 
+		if (it->second->iPkgType != PKG_EXT)
+			delete it->second->pPackageFilter;
+		it->second->iPkgType = PKG_EXT;
 		it->second->pPackageFilter = pPkgFilter;
 
 		return 0;
-- 
2.43.0


From 11b174f685b9133fe258eb7399ada8ba07ca94ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 130/140] fix: an event of a closed descriptor reached another
 one with its number

---
 include/CEvent.h |  5 +++++
 src/CEvent.cpp   | 27 +++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/CEvent.h b/include/CEvent.h
index 0801ab0..1cbcc07 100755
--- a/include/CEvent.h
+++ b/include/CEvent.h
@@ -15,6 +15,7 @@
 #include <functional>
 #include <algorithm>
 #include <fcntl.h>
+#include <poll.h>
 #include <iostream>
 #include <sys/time.h>
 
@@ -52,6 +53,7 @@ namespace lce
             HandlerEvent onWrite;
             void *pClientRData;
             void *pClientWData;
+            uint64_t ddwRound; // the round of the loop it was registered in
         } StFdEvent;
 
         typedef struct
@@ -101,6 +103,8 @@ namespace lce
             return (stNow.tv_sec * 1000 + stNow.tv_usec / 1000);
         }
 
+        uint32_t getReady(const struct epoll_event &stEvent);
+
     private:
         int m_iMsgFd[2];
         StFdEvent *m_stFdEvents;
@@ -112,6 +116,7 @@ namespace lce
         bool m_bRun;
         bool m_bInit;
         uint32_t m_dwMaxFdNum;
+        uint64_t m_ddwRound;
         pthread_mutex_t m_lock;
     };
 };
diff --git a/src/CEvent.cpp b/src/CEvent.cpp
index 473fa81..e053a5a 100644
--- a/src/CEvent.cpp
+++ b/src/CEvent.cpp
@@ -14,6 +14,7 @@ namespace lce
         m_iMsgFd[0] = -1;
         m_iMsgFd[1] = -1;
         m_dwMaxFdNum = 0;
+        m_ddwRound = 0;
     }
 
     CEvent::~CEvent()
@@ -60,6 +61,7 @@ namespace lce
             m_stFdEvents[i].iEventType = EV_DONE;
             m_stFdEvents[i].pClientRData = NULL;
             m_stFdEvents[i].pClientWData = NULL;
+            m_stFdEvents[i].ddwRound = 0;
         }
 
         if (pipe(m_iMsgFd) != 0)
@@ -138,6 +140,9 @@ namespace lce
             return -1;
         }
 
+        if (iOP == EPOLL_CTL_ADD)
+            m_stFdEvents[iWatchFd].ddwRound = m_ddwRound;
+
         return 0;
     }
 
@@ -332,14 +337,13 @@ namespace lce
                 }
             }
 
+            ++m_ddwRound;
             int iEventNum = epoll_wait(m_stEPollState.iEPollFd, m_stEPollState.stEvents, EPOLL_MAX_EVENT, ddwExpire);
 
             for (int i = 0; i < iEventNum; i++)
             {
 
-                if ((m_stEPollState.stEvents[i].events & EPOLLIN) ||
-                    (m_stEPollState.stEvents[i].events & EPOLLERR) ||
-                    (m_stEPollState.stEvents[i].events & EPOLLHUP))
+                if (getReady(m_stEPollState.stEvents[i]) & (EPOLLIN | EPOLLERR | EPOLLHUP))
                 {
                     if (m_stEPollState.stEvents[i].data.fd == m_iMsgFd[0]) // 自定义事件
                     {
@@ -388,7 +392,7 @@ namespace lce
                         }
                     }
                 }
-                if (m_stEPollState.stEvents[i].events & EPOLLOUT)
+                if (getReady(m_stEPollState.stEvents[i]) & EPOLLOUT)
                 {
 
                     StFdEvent &stFdEvent = m_stFdEvents[m_stEPollState.stEvents[i].data.fd];
@@ -403,6 +407,21 @@ namespace lce
         return 0;
     }
 
+    // a descriptor registered since epoll_wait returned may have taken over the
+    // number of another one, which the event is about
+    uint32_t CEvent::getReady(const struct epoll_event &stEvent)
+    {
+        if (m_stFdEvents[stEvent.data.fd].ddwRound != m_ddwRound)
+            return stEvent.events;
+
+        struct pollfd stPoll;
+        stPoll.fd = stEvent.data.fd;
+        stPoll.events = POLLIN | POLLOUT;
+        stPoll.revents = 0;
+
+        return ::poll(&stPoll, 1, 0) > 0 ? stPoll.revents : 0;
+    }
+
     int CEvent::stop()
     {
         m_bRun = false;
-- 
2.43.0


From e3c8b4a1ff92ccbda7860daa8e84420ad43e20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 131/140] fix: the asynchronous log lost the buffer it could
 not write

---
 include/CAsyncLog.h |  2 +-
 src/CAsyncLog.cpp   | 44 +++++++++++++++++++++++++++++++++++++-------
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/CAsyncLog.h b/include/CAsyncLog.h
index 31b7dc3..c62c008 100644
--- a/include/CAsyncLog.h
+++ b/include/CAsyncLog.h
@@ -74,7 +74,7 @@ namespace lce
 		bool writeFile(const char *data, size_t size, const bool bEnd = true);
 
 		bool writeBuffer(const std::string &str, const bool bEnd = true);
-		void flushBuffer();
+		bool flushBuffer();
 
 	private:
 		char m_szErrMsg[1024];
diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index bf8f04c..5d45034 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -172,6 +172,8 @@ namespace lce
 			return false;
 		}
 
+		size_t dwOldSize = this->getFileSize(m_sLogFilePath);
+
 		m_ofsOutFile.write(data, size);
 
 		if (bEnd)
@@ -181,6 +183,19 @@ namespace lce
 
 		m_ofsOutFile.flush();
 
+		if (m_ofsOutFile.fail())
+		{
+			m_ofsOutFile.close();
+			snprintf(m_szErrMsg, sizeof(m_szErrMsg), "write file<%s> err!", m_sLogFilePath.c_str());
+
+			// the part that was written is written again with the rest
+			if (truncate(m_sLogFilePath.c_str(), dwOldSize) < 0)
+			{
+				snprintf(m_szErrMsg, sizeof(m_szErrMsg), "truncate file<%s> err!", m_sLogFilePath.c_str());
+			}
+			return false;
+		}
+
 		return true;
 	}
 
@@ -223,14 +238,13 @@ namespace lce
 			return;
 		}
 
-		flushBuffer();
-		if (bBoth)
+		if (flushBuffer() && bBoth)
 		{
 			flushBuffer();
 		}
 	}
 
-	void CAsyncLog::flushBuffer()
+	bool CAsyncLog::flushBuffer()
 	{
 		if (m_iCurWriteBufferFlag == 1)
 		{
@@ -239,11 +253,18 @@ namespace lce
 			m_bFlushing = true;
 			m_mutex.unlock();
 
-			writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
+			bool bWritten = writeFile(m_poWriteBuffer1->data(), m_poWriteBuffer1->size(), false);
 
 			m_mutex.lock();
-			m_poWriteBuffer1->reset();
 			m_bFlushing = false;
+			if (!bWritten)
+			{
+				// keep it for the next flush, ahead of the lines in the other buffer
+				m_poCurWirteBuffer = m_poWriteBuffer1;
+				m_mutex.unlock();
+				return false;
+			}
+			m_poWriteBuffer1->reset();
 			m_mutex.unlock();
 			m_iCurWriteBufferFlag = 2;
 		}
@@ -254,14 +275,23 @@ namespace lce
 			m_bFlushing = true;
 			m_mutex.unlock();
 
-			writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
+			bool bWritten = writeFile(m_poWriteBuffer2->data(), m_poWriteBuffer2->size(), false);
 
 			m_mutex.lock();
-			m_poWriteBuffer2->reset();
 			m_bFlushing = false;
+			if (!bWritten)
+			{
+				// keep it for the next flush, ahead of the lines in the other buffer
+				m_poCurWirteBuffer = m_poWriteBuffer2;
+				m_mutex.unlock();
+				return false;
+			}
+			m_poWriteBuffer2->reset();
 			m_mutex.unlock();
 			m_iCurWriteBufferFlag = 1;
 		}
+
+		return true;
 	}
 
 	bool CAsyncLog::writeBuffer(const std::string &sMsg, const bool bEnd)
-- 
2.43.0


From 8d4cbea338c3dbd32a45eceed2414e84063a949f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:45 +0000
Subject: [PATCH 132/140] fix: two parts of over 4 GB together passed as a
 short message

---
 include/CBufferQueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CBufferQueue.h b/include/CBufferQueue.h
index 096e563..ea179c1 100644
--- a/include/CBufferQueue.h
+++ b/include/CBufferQueue.h
@@ -348,7 +348,7 @@ namespace lce
 
         void push(const char *buffer1, unsigned len1, const char *buffer2, unsigned len2) throw(runtime_error)
         {
-            unsigned long len = len1 + len2;
+            unsigned long len = (unsigned long)len1 + len2;
             if (len == 0)
                 return;
             unsigned long iBegin = _header->iBegin;
-- 
2.43.0


From 894f8675e6757354428416ac6e743e1c49d7b58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:08 +0000
Subject: [PATCH 133/140] fix: connection buffers of no or more than a gigabyte
 of initial size could not grow

---
 include/CSocketBuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CSocketBuf.h b/include/CSocketBuf.h
index 2765fed..31e4a5a 100644
--- a/include/CSocketBuf.h
+++ b/include/CSocketBuf.h
@@ -165,7 +165,7 @@ namespace lce
 
 		void incBuf()
 		{
-			if (m_iBufSize * 2 < m_iDataAllowMaxSize)
+			if (m_iBufSize > 0 && m_iBufSize < m_iDataAllowMaxSize - m_iBufSize)
 			{
 				reSize(m_iBufSize * 2);
 			}
@@ -203,7 +203,7 @@ namespace lce
 				return true;
 
 			char *pszNewBuf = new char[iSize];
-			assert(getSize() < iSize);
+			assert(getSize() <= iSize);
 			if (NULL != pszNewBuf)
 			{
 				if (iSize >= getSize())
-- 
2.43.0


From c4eff5b3a31f106de0e9c3f5bf6afaf0c3bb3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 134/140] fix: Bind, Connect and SendTo took a host that is no
 address for the broadcast address

---
 src/Utils.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index 8877ed8..ecb7809 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -86,7 +86,12 @@ namespace lce
         struct sockaddr_in my_addr;
         my_addr.sin_family = AF_INET;
         my_addr.sin_port = htons(wPort);
-        my_addr.sin_addr.s_addr = inet_addr(sHost.c_str());
+        if (inet_aton(sHost.c_str(), &my_addr.sin_addr) == 0)
+        {
+            // not an address: INADDR_NONE would be the broadcast address
+            errno = EINVAL;
+            return -1;
+        }
         memset(&(my_addr.sin_zero), 0, 8);
         if (::bind(iFd, (struct sockaddr *)&my_addr, sizeof(struct sockaddr)) == -1)
         {
@@ -101,7 +106,12 @@ namespace lce
 
         remote_addr.sin_family = AF_INET;
         remote_addr.sin_port = htons(wPort);
-        remote_addr.sin_addr.s_addr = inet_addr(sHost.c_str());
+        if (inet_aton(sHost.c_str(), &remote_addr.sin_addr) == 0)
+        {
+            // not an address: INADDR_NONE would be the broadcast address
+            errno = EINVAL;
+            return -1;
+        }
         memset(&(remote_addr.sin_zero), 0, 8);
 
         return ::connect(iFd, (struct sockaddr *)&remote_addr, sizeof(struct sockaddr));
@@ -113,7 +123,12 @@ namespace lce
 
         remote_addr.sin_family = AF_INET;
         remote_addr.sin_port = htons(wPort);
-        remote_addr.sin_addr.s_addr = inet_addr(sIp.c_str());
+        if (inet_aton(sIp.c_str(), &remote_addr.sin_addr) == 0)
+        {
+            // not an address: INADDR_NONE would be the broadcast address
+            errno = EINVAL;
+            return -1;
+        }
         memset(&(remote_addr.sin_zero), 0, 8);
         return ::sendto(iFd, buf, count, 0, (struct sockaddr *)&remote_addr, sizeof(struct sockaddr));
     }
-- 
2.43.0


From e00283a814b5d2358e1bb601a447c7ff534f3b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:26 +0000
Subject: [PATCH 135/140] fix: SetFileLimit and SetCoreLimit lowered the hard
 limit

---
 src/Utils.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index ecb7809..336de8d 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -171,7 +171,9 @@ namespace lce
             if (rlim.rlim_cur < dwLimit)
             {
                 rlim.rlim_cur = dwLimit;
-                rlim.rlim_max = dwLimit;
+                // a hard limit that is lowered cannot be raised again
+                if (rlim.rlim_max < dwLimit)
+                    rlim.rlim_max = dwLimit;
                 if (setrlimit((__rlimit_resource_t)RLIMIT_OFILE, &rlim) == 0)
                 {
                     bOK = true;
@@ -195,7 +197,9 @@ namespace lce
             if (rlim.rlim_cur < dwLimit)
             {
                 rlim.rlim_cur = dwLimit;
-                rlim.rlim_max = dwLimit;
+                // a hard limit that is lowered cannot be raised again
+                if (rlim.rlim_max < dwLimit)
+                    rlim.rlim_max = dwLimit;
                 if (setrlimit((__rlimit_resource_t)RLIMIT_CORE, &rlim) == 0)
                 {
                     bOK = true;
-- 
2.43.0


From 5bbf69b4e60e9fdd4fff8c592db18f4eb8b0a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:34 +0000
Subject: [PATCH 136/140] fix: getCookie of an int was ambiguous and of an
 unsigned short not possible

---
 include/CHttpReader.h | 2 +-
 src/CHttpReader.cpp   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/CHttpReader.h b/include/CHttpReader.h
index 4b76d2f..cd00351 100755
--- a/include/CHttpReader.h
+++ b/include/CHttpReader.h
@@ -72,7 +72,7 @@ namespace lce
 		string &getCookie(const string &sName, string &sValue, const string &sDefVal = "") const;
 		unsigned long getCookie(const string &sName, unsigned long &dwValue, const unsigned long dwDefVal = 0) const;
 		int getCookie(const string &sName, int &iValue, const int iDefVal = 0) const;
-		unsigned short getCookie(const string sName, int &wValue, const unsigned short wDefVal = 0) const;
+		unsigned short getCookie(const string &sName, unsigned short &wValue, const unsigned short wDefVal = 0) const;
 		unsigned char getCookie(const string &sName, unsigned char &ucValue, const unsigned char ucDefVal = 0) const;
 
 		const map<string, string> &getValueList() const { return m_mapValueList; }
diff --git a/src/CHttpReader.cpp b/src/CHttpReader.cpp
index c32759a..34c6b07 100755
--- a/src/CHttpReader.cpp
+++ b/src/CHttpReader.cpp
@@ -227,13 +227,13 @@ namespace lce
 		return ucValue;
 	}
 
-	unsigned short CHttpReader::getCookie(const string sName, int &wValue, const unsigned short wDefVal) const
+	unsigned short CHttpReader::getCookie(const string &sName, unsigned short &wValue, const unsigned short wDefVal) const
 	{
 		wValue = wDefVal;
 		MAP_COOKIE::const_iterator it = m_mapCookieList.find(sName);
 		if (it != m_mapCookieList.end())
 		{
-			wValue = atol(it->second.c_str());
+			wValue = static_cast<unsigned short>(atol(it->second.c_str()));
 		}
 		return wValue;
 	}
-- 
2.43.0


From 0ae1334a6f8f152ba98269124b46f647f6c69121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:05 +0000
Subject: [PATCH 137/140] fix: CTask::run reports a worker thread that cannot
 be started

---
 src/CTask.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CTask.cpp b/src/CTask.cpp
index b67b83c..3ea3af8 100644
--- a/src/CTask.cpp
+++ b/src/CTask.cpp
@@ -28,7 +28,11 @@ namespace lce
     {
         for (int i = 0; i < m_iThreadNum; i++)
         {
-            m_vecTaskThreads[i]->start();
+            if (m_vecTaskThreads[i]->start() != 0)
+            {
+                snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s", m_vecTaskThreads[i]->getErrMsg());
+                return -1;
+            }
         }
         return 0;
     }
-- 
2.43.0


From 72f49160d4590b8bda68858f89660bf96e5a91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:05 +0000
Subject: [PATCH 138/140] fix: CAsyncLog::init reports a writer thread that
 cannot be started

---
 src/CAsyncLog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CAsyncLog.cpp b/src/CAsyncLog.cpp
index 5d45034..1a130bd 100644
--- a/src/CAsyncLog.cpp
+++ b/src/CAsyncLog.cpp
@@ -57,7 +57,8 @@ namespace lce
 
 		m_iInitPid = getpid();
 
-		start();
+		if (start() != 0)
+			return false;
 
 		return true;
 	}
-- 
2.43.0


From a3b4b1ce1e11d6ee45702348d9412ab6463c92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:05 +0000
Subject: [PATCH 139/140] fix: CNetWorkerMgr::start fails when a worker cannot
 be started

---
 include/CNetWorkerMgr.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/CNetWorkerMgr.h b/include/CNetWorkerMgr.h
index a526dc9..66643aa 100644
--- a/include/CNetWorkerMgr.h
+++ b/include/CNetWorkerMgr.h
@@ -34,7 +34,12 @@ namespace lce
 		{
 			for (size_t i = 0; i < m_vecWorkers.size(); ++i)
 			{
-				m_vecWorkers[i]->start();
+				if (m_vecWorkers[i]->start() != 0)
+				{
+					// connections handed to this worker would never be served
+					snprintf(m_szErrMsg, sizeof(m_szErrMsg), "%s,%d,start worker error", __FILE__, __LINE__);
+					return -1;
+				}
 			}
 			return m_oEvent.run();
 		}
-- 
2.43.0


From 0e91b9bf628c813cfd4f8ae6294b44fb8cdc7768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:03:05 +0000
Subject: [PATCH 140/140] fix: a thread object started again forgets the kernel
 id of its last thread

---
 src/CThread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CThread.cpp b/src/CThread.cpp
index 6c744d6..1af6358 100644
--- a/src/CThread.cpp
+++ b/src/CThread.cpp
@@ -51,6 +51,7 @@ namespace lce
 
         m_iStop = 0;
         m_bDetached = false;
+        m_iPid = 0;
         m_pState.reset(new StState);
 
         StStart *pstStart = new StStart;
-- 
2.43.0

