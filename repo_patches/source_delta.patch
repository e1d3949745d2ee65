From 20770e6cd0e2afc534917db796a6efe3dc10ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 01/96] fix: refuse undo and redo while a transaction is open

---
 src/core/UndoManager.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/UndoManager.cpp b/src/core/UndoManager.cpp
index 2d047fd..9dfb53a 100644
--- a/src/core/UndoManager.cpp
+++ b/src/core/UndoManager.cpp
@@ -83,6 +83,7 @@ bool UndoManager::hasOpenUndoStep() const
 bool UndoManager::undo()
 {
    if(mOpen)return false;
+   if(mTransactionLevel > 0)return false;
    if(mUndoStack == nullptr)return false;
    mUndoing = true;
 
@@ -115,6 +116,7 @@ bool UndoManager::undo()
 bool UndoManager::redo()
 {
    if(mOpen) return false;
+   if(mTransactionLevel > 0) return false;
    if(mRedoStack == nullptr)return false;
    mUndoing = true;
 
-- 
2.43.0


From 8c23bfbd9b6ceb623411a201d000a4a68b85e0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 02/96] fix: a refused NaN member value fails the open
 transaction

---
 src/core/EditableObject.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/core/EditableObject.cpp b/src/core/EditableObject.cpp
index 708ea33..608c057 100644
--- a/src/core/EditableObject.cpp
+++ b/src/core/EditableObject.cpp
@@ -87,11 +87,16 @@ Status EditableObject::setMember(int64* pointer,
 
 Status EditableObject::setMember(double* pointer, double value)
 {
-   if(isNaN(value))return Status::eInvalidInput;
-   if(value == *pointer)return Status::eNotChanged;
-
    UndoManager* um = nullptr;
    if(mDocument != nullptr)um = mDocument->undoManager();
+   if(isNaN(value))
+   {
+      Status status = Status::eInvalidInput;
+      if(um != nullptr)um->registerTransactionStatus(status);
+      return status;
+   }
+   if(value == *pointer)return Status::eNotChanged;
+
    if(um != nullptr)um->registerChange(this, pointer);
    *pointer = value;
    return Status::eOK;
-- 
2.43.0


From acdb8f82028aa1534c4a9161362e41c660ecd533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 03/96] fix: draining the autorelease pool deadlocks when a
 destructor autoreleases

---
 src/core/AutoreleasePool.cpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/core/AutoreleasePool.cpp b/src/core/AutoreleasePool.cpp
index cdf32a9..1dcaf8e 100644
--- a/src/core/AutoreleasePool.cpp
+++ b/src/core/AutoreleasePool.cpp
@@ -55,22 +55,27 @@ AutoreleasePool::~AutoreleasePool()
 
 void AutoreleasePool::drain()
 {
-   mPoolMutex.lock();
-   PoolEntry* pool = mPool->next;
-
-   while(pool != nullptr)
+   // The lock is not held while releasing: a destructor may add objects to the pool.
+   while(true)
    {
-      //Release objects
-      pool->object->release();
+      mPoolMutex.lock();
+      PoolEntry* pool = mPool->next;
+      mTop = mPool;
+      mPool->next = nullptr;
+      mPoolMutex.unlock();
 
-      PoolEntry* next = pool->next;
-      delete pool;
-      pool = next;
-   }
+      if(pool == nullptr)return;
 
-   mTop = mPool;
-   mPool->next = nullptr;
-   mPoolMutex.unlock();
+      while(pool != nullptr)
+      {
+         //Release objects
+         pool->object->release();
+
+         PoolEntry* next = pool->next;
+         delete pool;
+         pool = next;
+      }
+   }
 }
 
 void AutoreleasePool::add(Object* object)
-- 
2.43.0


From 488c0321c9a6092d790f25d9d774beff1a3391b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:17 +0000
Subject: [PATCH 04/96] fix: LinkedList::swapData does nothing without an undo
 manager

---
 src/core/LinkedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/LinkedList.cpp b/src/core/LinkedList.cpp
index 0ee10a3..699ae69 100644
--- a/src/core/LinkedList.cpp
+++ b/src/core/LinkedList.cpp
@@ -291,9 +291,9 @@ void LinkedList::swapData(Object* data1, Object* data2, UndoManager* um)
       {
          um->registerChange(elem1, (Object**) & (elem1->data));
          um->registerChange(elem2, (Object**) & (elem2->data));
-         elem1->data = data2;
-         elem2->data = data1;
       }
+      elem1->data = data2;
+      elem2->data = data1;
    }
 }
 
-- 
2.43.0


From 6c6484705d138f5b058f346248aba6cb7c610700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 05/96] fix: equal strings have equal hash codes after
 assignment and conversion

---
 src/core/String.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 92edf01..0d3c372 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -290,7 +290,7 @@ int64 String::hashCode()
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
    mHash = (int32) hash;
-   return hash;
+   return mHash;
 }
 
 int64 String::constHashCode() const
@@ -298,12 +298,13 @@ int64 String::constHashCode() const
    if(mHash != 0)return mHash;
    uint32 hash = 0;
    for(int32 a = 0; a < mStrLength; a++)hash = (hash << 5) - hash + mValue[a].unicode();
-   return hash;
+   return (int32) hash;
 }
 
 String String::toLowerCase() const
 {
    String ret = *this;
+   ret.mHash = 0;
 
    for(int64 a = 0; a < mStrLength; a++)
    {
@@ -316,6 +317,7 @@ String String::toLowerCase() const
 String String::toUpperCase() const
 {
    String ret = *this;
+   ret.mHash = 0;
 
    for(int64 a = 0; a < mStrLength; a++)
    {
@@ -433,6 +435,7 @@ int64 String::lastIndexOf(const String& str, int64 fromIndex) const
 String String::replace(Char oldChar, Char newChar) const
 {
    String ret = String(*this);
+   ret.mHash = 0;
 
    for(int64 a = 0; a < mStrLength; a++)
    {
@@ -474,6 +477,7 @@ String String::replace(const String& oldStr, const String& newStr)const
 String String::reverse() const
 {
    String ret = String(*this);
+   ret.mHash = 0;
    int64 cnt = mStrLength / 2;
    int64 last = mStrLength - 1;
    for(int64 a = 0; a < cnt; a++)
@@ -1237,6 +1241,7 @@ namespace jm
          delete[] mValue;
          mStrLength = another.mStrLength;
          mArrLength = another.mArrLength;
+         mHash = another.mHash;
          mValue = new Char[mArrLength];
          memcpy(mValue, another.mValue, sizeof(Char) * mStrLength);
       }
-- 
2.43.0


From 6c9143f82ddc99dbfe97d32e992024a6fe71bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 06/96] fix: searching a substring does not read past the end
 of the string

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 0d3c372..31e699c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -370,7 +370,7 @@ int64 String::indexOf(const String& str, int64 fromIndex) const
 {
    if(fromIndex < 0)fromIndex = 0;
 
-   for(int64 a = fromIndex; a < mStrLength; a++)
+   for(int64 a = fromIndex; a < mStrLength && a + str.mStrLength <= mStrLength; a++)
    {
       bool found = true;
       for(int64 b = 0 ; b < str.mStrLength; b++)
-- 
2.43.0


From d90b149326a606a4fad8b968365ee5558986643b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 07/96] fix: replacing the empty string does not loop forever

---
 src/core/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 31e699c..328267e 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -447,6 +447,8 @@ String String::replace(Char oldChar, Char newChar) const
 
 String String::replace(const String& oldStr, const String& newStr)const
 {
+   if(oldStr.size() == 0)return *this;
+
    int64 pos1 = 0;
    int64 pos2 = indexOf(oldStr);
    if(pos2 < 0)return *this;
-- 
2.43.0


From 4c9997a52ac531bf4998153a4cf4cf5c3e21a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 08/96] fix: deleting a range that reaches beyond the end of a
 string deletes up to the end

---
 src/core/String.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 328267e..21dcbc9 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -584,6 +584,8 @@ void String::deleteCharRangeAt(int64 index, int64 length)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(length > mStrLength - index)length = mStrLength - index;
+
    for(int64 a = index ; a < mStrLength - length; a++)
    {
       mValue[a] = mValue[a + length];
-- 
2.43.0


From 37989fea3ae7791d26fd16955229d68914ef13b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 09/96] fix: inserting a string into itself

---
 src/core/String.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 21dcbc9..e16e9dd 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -555,6 +555,12 @@ void String::insert(int64 index, const String& str)
    if(index < 0 || index > mStrLength)
       throw Exception(Tr("Index out of Bounds: %1 of %2").arg(index).arg(mStrLength));
 
+   if(&str == this)
+   {
+      insert(index, String(str));
+      return;
+   }
+
    int64 len = str.size();
    checkCapacity(len);
 
-- 
2.43.0


From 26d69f21afd7c8743c92238e462499f02a7dea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 10/96] fix: text of the smallest 64-bit integer

---
 src/core/String.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index e16e9dd..19c43b9 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -980,11 +980,12 @@ String String::valueOf(int64 number)
 {
    String ret;
    bool neg = false;
+   uint64 magnitude = number;
 
    // Check sign
    if(number < 0)
    {
-      number *= -1;
+      magnitude = 0 - magnitude;
       neg = true;
    }
    // Check 0
@@ -994,10 +995,10 @@ String String::valueOf(int64 number)
    }
 
    // Solve the individual digits... Attention: the last digit comes first
-   while(number > 0)
+   while(magnitude > 0)
    {
-      int64 digit = number % 10;
-      number = number / 10;
+      int64 digit = magnitude % 10;
+      magnitude = magnitude / 10;
       ret.append(Char(digit + '0'));
    }
    if(neg)ret.append('-');
-- 
2.43.0


From 7abf44aa3ac899b6a67e3e1d96c02784547771a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 11/96] fix: a minus sign inside a number is not part of an
 integer

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 19c43b9..fbe4df8 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1134,7 +1134,7 @@ int64 String::toInt() const
          val *= 10;
          val += c.digitValue();
       }
-      else if(c == '-')neg = true;
+      else if(c == '-' && a == 0)neg = true;
       else throw jm::Exception("Number format exception for input string: \"" + *this + "\"");
    }
 
-- 
2.43.0


From 7798fb524bb4c8c0f01c4b25d7c48ac6035b6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 12/96] fix: large unsigned arguments are not shown as negative
 numbers

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index fbe4df8..4209221 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -903,7 +903,7 @@ String String::arg(uint64 value,
                    int64 fieldWidth,
                    Char fillchar) const
 {
-   return arg(static_cast<int64>(value), fieldWidth, fillchar);
+   return arg(String::valueOf(value), fieldWidth, fillchar);
 }
 
 String String::arg(const String& value,
-- 
2.43.0


From 302eb2454411a2768ef2c22072a45dc334e8ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:50 +0000
Subject: [PATCH 13/96] fix: a string without placeholder is not changed by
 arg()

---
 src/core/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 4209221..8c625f6 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -819,7 +819,7 @@ bool String::argIndicies(int64& first, int64& second) const
       }
    }
 
-   return true;
+   return first >= 0;
 }
 
 String String::arg(Char character,
-- 
2.43.0


From 0ccf27f60487c7dff823523b26dbb23e8eca9fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 14/96] fix: StringList::append and remove given one of the
 list's own entries

---
 src/core/StringList.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/StringList.cpp b/src/core/StringList.cpp
index 1ae6fee..50ef23a 100644
--- a/src/core/StringList.cpp
+++ b/src/core/StringList.cpp
@@ -82,15 +82,17 @@ void StringList::reserve(int64 size)
 
 void StringList::append(const jm::String& string)
 {
+   String item = string; // may be an entry of this list
    checkSize(1);
-   mData[mSize++] = string;
+   mData[mSize++] = item;
 }
 
 void StringList::remove(const jm::String& string)
 {
+   const String item = string; // may be an entry of this list
    for(int64 index = 0; index < mSize; index++)
    {
-      if(mData[index] == string)
+      if(mData[index] == item)
       {
          for(int64 index2 = index + 1; index2 < mSize; index2++)
          {
-- 
2.43.0


From b013b0218971bfa0150febf94d855b49ff4db4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 15/96] fix: ByteArray::replace writes at the target offset

---
 src/core/ByteArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 93f8c0a..a4eb7f8 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -200,7 +200,7 @@ void ByteArray::replace(int64 tgtOffset, int64 srcOffset, const ByteArray& buffe
 
    for(int64 a = 0; a < range; a++)
    {
-      mData[a] = buffer.mData[srcOffset + a];
+      mData[tgtOffset + a] = buffer.mData[srcOffset + a];
    }
 }
 
-- 
2.43.0


From 89debb5aad52493fff00f1ff630c8bf90113e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 16/96] fix: a copy of a NULL byte array is a NULL byte array

---
 src/core/ByteArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index a4eb7f8..1cb7cee 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -91,7 +91,7 @@ ByteArray::ByteArray(const ByteArray& other) : Object()
 {
    mArrSize = other.mArrSize;
    mRawSize = other.mRawSize;
-   mData = new uint8[mRawSize];
+   mData = (other.mData != nullptr) ? new uint8[mRawSize] : nullptr;
    for(int64 index = 0; index < mRawSize; index++)
    {
       mData[index] = other.mData[index];
@@ -260,7 +260,7 @@ ByteArray& jm::ByteArray::operator=(const ByteArray& another)
 
       mArrSize = another.mArrSize;
       mRawSize = another.mRawSize;
-      mData = new uint8[mRawSize];
+      mData = (another.mData != nullptr) ? new uint8[mRawSize] : nullptr;
       for(int64 a = 0; a < mRawSize; a++)
       {
          mData[a] = another.mData[a];
-- 
2.43.0


From 5dd193b8172f702fa6a396227561d1b16fc3d4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 17/96] fix: a byte array is zero-terminated after it has grown

---
 src/core/ByteArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ByteArray.cpp b/src/core/ByteArray.cpp
index 1cb7cee..b6f9b0d 100644
--- a/src/core/ByteArray.cpp
+++ b/src/core/ByteArray.cpp
@@ -227,13 +227,13 @@ void ByteArray::resize(int64 newSize)
       {
          tmp[index] = mData[index];
       }
-      for(int64 index = mArrSize; index < newSize; index++)
+      for(int64 index = mArrSize; index <= newSize; index++)
       {
          tmp[index] = 0;
       }
       mRawSize = newSize + 1;
       mArrSize = newSize;
-      if(mData != nullptr)delete mData;
+      if(mData != nullptr)delete[] mData;
       mData = tmp;
    }
 }
-- 
2.43.0


From 4d71f6ed24be04b25f6ef8f9406ba557d0c92fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 18/96] fix: MacRoman infinity, iacute, igrave and DEL survive
 a round trip

---
 src/core/MacRomanDecoder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/MacRomanDecoder.cpp b/src/core/MacRomanDecoder.cpp
index 058cfd2..6b4cad7 100644
--- a/src/core/MacRomanDecoder.cpp
+++ b/src/core/MacRomanDecoder.cpp
@@ -47,9 +47,9 @@ MacRomanDecoder::MacRomanDecoder(): CharsetDecoder()
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
       0x00C4, 0x00C5, 0x00C7, 0x00C9, 0x00D1, 0x00D6, 0x00DC, 0x00E1, 0x00E0, 0x00E2, 0x00E4, 0x00E3, 0x00E5, 0x00E7, 0x00E9, 0x00E8, //
-      0x00EA, 0x00EB, 0x00EC, 0x00ED, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
+      0x00EA, 0x00EB, 0x00ED, 0x00EC, 0x00EE, 0x00EF, 0x00F1, 0x00F3, 0x00F2, 0x00F4, 0x00F6, 0x00F5, 0x00FA, 0x00F9, 0x00FB, 0x00FC, //
       0x2020, 0x00B0, 0x00A2, 0x00A3, 0x00A7, 0x2022, 0x00B6, 0x00DF, 0x00AE, 0x00A9, 0x2122, 0x00B4, 0x00A8, 0x2260, 0x00C6, 0x00D8, //
-      0x211E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
+      0x221E, 0x00B1, 0x2264, 0x2265, 0x00A5, 0x00B5, 0x2202, 0x2211, 0x220F, 0x03C0, 0x222B, 0x00AA, 0x00BA, 0x03A9, 0x00E6, 0x00F8, //
       0x00BF, 0x00A1, 0x00AC, 0x221A, 0x0192, 0x2248, 0x2206, 0x00AB, 0x00BB, 0x2026, 0x00A0, 0x00C0, 0x00C3, 0x00D5, 0x0152, 0x0153, //
       0x2013, 0x2014, 0x201C, 0x201D, 0x2018, 0x2019, 0x00F7, 0x25CA, 0x00FF, 0x0178, 0x2044, 0x20AC, 0x2039, 0x203A, 0xFB01, 0xFB02, //
       0x2021, 0x00B7, 0x201A, 0x201E, 0x2030, 0x00C2, 0x00CA, 0x00C1, 0x00CB, 0x00C8, 0x00CD, 0x00CE, 0x00CF, 0x00CC, 0x00D3, 0x00D4, //
@@ -327,6 +327,8 @@ uint8 MacRomanDecoder::encodeCharacter(uint16 unicode)
          return 0x7D;
       case '~':
          return 0x7E;
+      case 0x7F:
+         return 0x7F;
       //0x7f is DEL (invisible)
       case 0x00C4:
          return 0x80; //Adieresis (Ä)
-- 
2.43.0


From c5d2cde40e81968e1eb1a811b330787552bef35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 19/96] fix: Windows-1252 code 0x88 is the circumflex accent
 U+02C6

---
 src/core/Windows1252Decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index b3014b5..aaca226 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -46,7 +46,7 @@ Windows1252Decoder::Windows1252Decoder(): CharsetDecoder()
       0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005A, 0x005B, 0x005C, 0x005D, 0x005E, 0x005F,
       0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006A, 0x006B, 0x006C, 0x006D, 0x006E, 0x006F,
       0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007A, 0x007B, 0x007C, 0x007D, 0x007E, 0x007F,
-      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
+      0x20AC, 0x0000, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x0000, 0x017D, 0x0000, //
       0x0000, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x0000, 0x017E, 0x0178, //
       0x00A0, 0x00A1, 0x00A2, 0x00A3, 0x00A4, 0x00A5, 0x00A6, 0x00A7, 0x00A8, 0x00A9, 0x00AA, 0x00AB, 0x00AC, 0x00AD, 0x00AE, 0x00AF,
       0x00B0, 0x00B1, 0x00B2, 0x00B3, 0x00B4, 0x00B5, 0x00B6, 0x00B7, 0x00B8, 0x00B9, 0x00BA, 0x00BB, 0x00BC, 0x00BD, 0x00BE, 0x00BF,
@@ -116,7 +116,7 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x87;
             break;
 
-         case 0x20C6:
+         case 0x02C6:
             cstring[a] = (uint8)0x88;
             break;
 
-- 
2.43.0


From 9d23092c4b4ed29739aa83b68381c94e90db30d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 20/96] fix: raw decoding of bytes above 0x7F

---
 src/core/CharsetDecoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharsetDecoder.cpp b/src/core/CharsetDecoder.cpp
index 051df0f..48fc87c 100644
--- a/src/core/CharsetDecoder.cpp
+++ b/src/core/CharsetDecoder.cpp
@@ -58,7 +58,7 @@ CharArray RawDecoder::decode(const char* cstring)
 
    for(uint32 a = 0; a < length; a++)
    {
-      array.buffer[a] = Char(cstring[a]);
+      array.buffer[a] = Char((uint8)cstring[a]);
    }
 
    return array;
-- 
2.43.0


From 2ff677f6c0385cb4215ac5a5b7f0f87cf3aac562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 21/96] fix: guessing the encoding of bytes above 0x7F and of
 short data

---
 src/core/Charset.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index 1401afd..f623f3c 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -182,15 +182,18 @@ String Charset::guess(const char* stream, int64 length)
 
 
    //UTF-16BE
-   if(stream[0] == static_cast<char>(0xFE) &&
+   if(length >= 2 &&
+         stream[0] == static_cast<char>(0xFE) &&
          stream[1] == static_cast<char>(0xFF))return "UTF-16BE";
 
    //UTF-16LE
-   else if(stream[0] == static_cast<char>(0xFF) &&
+   else if(length >= 2 &&
+           stream[0] == static_cast<char>(0xFF) &&
            stream[1] == static_cast<char>(0xFE))return "UTF-16LE";
 
    //UTF-8
-   else if(stream[0] == static_cast<char>(0xEF) &&
+   else if(length >= 3 &&
+           stream[0] == static_cast<char>(0xEF) &&
            stream[1] == static_cast<char>(0xBB) &&
            stream[2] == static_cast<char>(0xBF))return "UTF-8";
 
@@ -225,7 +228,7 @@ String Charset::guess(const char* stream, int64 length)
    {
       for(uint32 a = 0; a < length; a++)
       {
-         switch(stream[a])
+         switch((uint8)stream[a])
          {
             case 0x81:
             case 0x8D:
@@ -247,7 +250,7 @@ String Charset::guess(const char* stream, int64 length)
    bool isASCII = true;
    for(uint32 a = 0; a < length; a++)
    {
-      if(stream[a] > 0x7F)
+      if((uint8)stream[a] > 0x7F)
       {
          isASCII = false;
          break;
-- 
2.43.0


From 11f5a3c5638efef289ac96c7676c052f869504ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 22/96] fix: UTF-16 byte order when encoding, and characters
 with a zero byte when decoding

---
 src/core/UTF16Decoder.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/core/UTF16Decoder.cpp b/src/core/UTF16Decoder.cpp
index d13e37b..44bd55c 100644
--- a/src/core/UTF16Decoder.cpp
+++ b/src/core/UTF16Decoder.cpp
@@ -43,7 +43,7 @@ CharArray UTF16Decoder::decode(const char* cstring)
    //Bestimme Länge
    uint32 strLength = 0;
    uint32 cntV = 0;
-   uint32 cntC = be ? 1 : 0;
+   uint32 cntC = 0;
    uint32 start = 0;
 
    //Prüfe auf Steuerzeichen am Anfang des cstring. Wenn vorhanden ignoriere
@@ -67,7 +67,8 @@ CharArray UTF16Decoder::decode(const char* cstring)
    }
 
 
-   while(cstring[cntC] != 0)
+   // The end is marked by a code unit of zero.
+   while(cstring[cntC] != 0 || cstring[cntC + 1] != 0)
    {
       cntC += 2;
       strLength++;
@@ -91,16 +92,17 @@ ByteArray UTF16Decoder::encode(const CharArray& string)
 {
    //Länge bleibt gleich..
 
-   ByteArray cstring = ByteArray(2 * string.length, 0);
+   // Two more bytes, so that the result ends with a code unit of zero.
+   ByteArray cstring = ByteArray(2 * string.length + 2, 0);
+   cstring.resize(2 * string.length);
 
    int64 idx = 0;
    for(uint32 a = 0; a < string.length; a++)
    {
       uint16 character = string.buffer[a].unicode();
-      cstring[idx] = (int8)(character >> 8);
-      idx++;
-      cstring[idx] = (int8)character;
-      idx++;
+      cstring[idx + (be ? 0 : 1)] = (uint8)(character >> 8);
+      cstring[idx + (be ? 1 : 0)] = (uint8)character;
+      idx += 2;
    }
    return cstring;
 }
-- 
2.43.0


From 8995418e2b0b3b2711c084d39a7e3f8e2cf38391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:53 +0000
Subject: [PATCH 23/96] fix: converting a byte array with a character set reads
 only the array and a terminator

---
 src/core/String.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 8c625f6..094564a 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -134,7 +134,10 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
 String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
    mHash(0)
 {
-   CharArray array = charset->decode(buffer.constData());
+   // Terminated by two zero bytes, as required for UTF16
+   ByteArray terminated = ByteArray(buffer.size() + 2, 0);
+   terminated.replace(0, 0, buffer, buffer.size());
+   CharArray array = charset->decode(terminated.constData());
    copy(array);
 }
 
-- 
2.43.0


From 04fd4a4c5e691550a29349f443705db0fe299455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 24/96] fix: decoding truncated UTF-8 sequences and characters
 beyond U+FFFF

---
 src/core/UTF8Decoder.cpp | 106 ++++++++++++++++-----------------------
 1 file changed, 42 insertions(+), 64 deletions(-)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index a659076..4173c23 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -33,6 +33,31 @@
 
 using namespace jm;
 
+// The number of bytes of the character at s. A byte that does not start a complete character is in fact an
+// encoding error, but we then take the byte as a single character.
+static uint32 sequenceLength(const char* s)
+{
+   const uint8 c = s[0];
+   uint32 bytes = 1;
+
+   if((c & 0xE0) == 0xC0)bytes = 2;
+   else if((c & 0xF0) == 0xE0)bytes = 3;
+   else if((c & 0xF8) == 0xF0)bytes = 4;
+
+   for(uint32 index = 1; index < bytes; index++)
+   {
+      if((s[index] & 0xC0) != 0x80)return 1;
+   }
+
+   if(bytes == 4)
+   {
+      // Only codes from U+10000 to U+10FFFF need (and have) 4 bytes
+      const uint32 upper = (c & 0x07) << 2 | (s[1] & 0x30) >> 4;
+      if(upper < 1 || upper > 0x10)return 1;
+   }
+   return bytes;
+}
+
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 {
 
@@ -68,85 +93,38 @@ CharArray UTF8Decoder::decode(const char* cstring)
 
    while(cstring[cntC] != 0)
    {
-      uint8 c = cstring[cntC];
-
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         strLength++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
-      {
-         strLength++;
-         cntC += 2;
-      }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
-      {
-         strLength++;
-         cntC += 3;
-      }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
-      {
-         strLength++;
-         cntC += 4;
-      }
-      else
-      {
-         // In fact an encoding error, but we then take the byte as a single character
-         strLength++;
-         cntC++;
-      }
+      uint32 bytes = sequenceLength(&cstring[cntC]);
+      strLength += (bytes == 4) ? 2 : 1;
+      cntC += bytes;
    }
    cntC = start;
 
    CharArray ret = CharArray(strLength);
-   uint16 d, e, f;
    while(cntV < strLength)
    {
-      uint16 c = (uint8)cstring[cntC];
+      const uint8* s = reinterpret_cast<const uint8*>(&cstring[cntC]);
+      uint32 bytes = sequenceLength(&cstring[cntC]);
 
-      if((c & 0x80) == 0)     //1 Zeichen
-      {
-         ret.buffer[cntV] = Char(c);
-         cntV++;
-         cntC++;
-      }
-      else if((c & 0xE0) == 0xC0)     //2 Zeichen
+      if(bytes == 1)     //1 Zeichen, oder ein Encoding-Fehler
       {
-         c = (c & 0x001F) << 6;
-         d = cstring[cntC + 1] & 0x3F;
-         ret.buffer[cntV] = Char(c | d);
-         cntV++;
-         cntC += 2;
+         ret.buffer[cntV++] = Char(s[0]);
       }
-      else if((c & 0xF0) == 0xE0)     //3 Zeichen
+      else if(bytes == 2)     //2 Zeichen
       {
-         c = (c & 0x000F) << 12;
-         d = (cstring[cntC + 1] & 0x3F) << 6;
-         e = cstring[cntC + 2] & 0x3F;
-         ret.buffer[cntV] = Char(c | d | e);
-         cntV++;
-         cntC += 3;
+         ret.buffer[cntV++] = Char((s[0] & 0x1F) << 6 | (s[1] & 0x3F));
       }
-      else if((c & 0xF8) == 0xF0)     //4 Zeichen
+      else if(bytes == 3)     //3 Zeichen
       {
-         c = (c & 0x0007) << 18;
-         d = (cstring[cntC + 1] & 0x3F) << 12;
-         e = (cstring[cntC + 2] & 0x3F) << 6;
-         f = cstring[cntC + 3] & 0x3F;
-         ret.buffer[cntV] = Char(c | d | e | f);
-         cntV++;
-         cntC += 4;
+         ret.buffer[cntV++] = Char((s[0] & 0x0F) << 12 | (s[1] & 0x3F) << 6 | (s[2] & 0x3F));
       }
-      else if(c == 0xFF
-              && ((uint8)cstring[cntC + 1]) == 0xFE)cntC += 2; //Steuerzeichen. erstmal ignorieren http://de.wikipedia.org/wiki/Unicodeblock_Spezielles
-      else
+      else     //4 Zeichen, wird zu zwei Codeeinheiten (Surrogate)
       {
-         //Friss Encoding-Fehler
-         ret.buffer[cntV] = Char(c);
-         cntV++;
-         cntC++;
+         uint32 code = (s[0] & 0x07) << 18 | (s[1] & 0x3F) << 12 | (s[2] & 0x3F) << 6 | (s[3] & 0x3F);
+         code -= 0x10000;
+         ret.buffer[cntV++] = Char(0xD800 | (code >> 10));
+         ret.buffer[cntV++] = Char(0xDC00 | (code & 0x3FF));
       }
+      cntC += bytes;
    }
    return ret;
 }
-- 
2.43.0


From 6005190e8c23974e7006cbff3536290038aaefdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 25/96] fix: character set with alternative names used an
 uninitialised count

---
 src/core/Charset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Charset.cpp b/src/core/Charset.cpp
index f623f3c..badb21d 100644
--- a/src/core/Charset.cpp
+++ b/src/core/Charset.cpp
@@ -112,8 +112,8 @@ Charset::Charset(const String& name, const String* alternatives, uint8 altCount,
                  CharsetDecoder* decoder): Object()
 {
    mName = name;
-   mAlternatives = new String[mAltCount];
    mAltCount = altCount;
+   mAlternatives = new String[mAltCount];
    for(uint8 a = 0; a < mAltCount; a++)mAlternatives[a] = alternatives[a];
    mDecoder = decoder;
 }
-- 
2.43.0


From cba8518c59c9cd7a22f5fda9052b3f906fb64516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 26/96] fix: characters beyond U+FFFF are encoded with four
 bytes in UTF-8

---
 src/core/UTF8Decoder.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/core/UTF8Decoder.cpp b/src/core/UTF8Decoder.cpp
index 4173c23..a6a0380 100644
--- a/src/core/UTF8Decoder.cpp
+++ b/src/core/UTF8Decoder.cpp
@@ -58,6 +58,14 @@ static uint32 sequenceLength(const char* s)
    return bytes;
 }
 
+// Whether a character beyond U+FFFF, made of two code units, starts at index.
+static bool isSurrogatePair(const CharArray& string, int64 index)
+{
+   if(index + 1 >= string.length)return false;
+   return (string.buffer[index].unicode() & 0xFC00) == 0xD800
+          && (string.buffer[index + 1].unicode() & 0xFC00) == 0xDC00;
+}
+
 UTF8Decoder::UTF8Decoder(): CharsetDecoder()
 {
 
@@ -143,6 +151,11 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
       {
          cntC += 2;
       }
+      else if(isSurrogatePair(string, a))   //4 Zeichen
+      {
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cntC += 3;
@@ -165,6 +178,16 @@ ByteArray UTF8Decoder::encode(const CharArray& string)
          cstring[cntC + 1] = (int8)(character & 0x3F) | 0x80;
          cntC += 2;
       }
+      else if(isSurrogatePair(string, a))   //4 Zeichen
+      {
+         uint32 code = 0x10000 + ((character & 0x3FF) << 10 | (string.buffer[a + 1].unicode() & 0x3FF));
+         cstring[cntC] = (uint8)((code >> 18) | 0xF0);
+         cstring[cntC + 1] = (uint8)((code >> 12) & 0x3F) | 0x80;
+         cstring[cntC + 2] = (uint8)((code >> 6) & 0x3F) | 0x80;
+         cstring[cntC + 3] = (uint8)(code & 0x3F) | 0x80;
+         cntC += 4;
+         a++;
+      }
       else//3 Zeichen
       {
          cstring[cntC] = (int8)((character >> 12) & 0x0F) | 0xE0;
-- 
2.43.0


From 025b2f246c279cb291a367cab3cf5387fd7da205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 27/96] fix: URL-encoding of characters beyond ASCII

---
 src/core/String.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 094564a..9fc1d6d 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -1391,10 +1391,13 @@ String jm::URLEncode(const String& str)
    // A URL-encoded string contains only ASCII characters...
    //
    String ret;
+   const ByteArray bytes = str.toCString(Charset::getDefault());
+   const char* hex = "0123456789ABCDEF";
 
-   for(uint32 a = 0; a < str.size(); a++)
+   for(int64 a = 0; a < bytes.size(); a++)
    {
-      switch(str.charAt(a).unicode())
+      const uint8 c = (uint8)bytes.constData()[a];
+      switch(c)
       {
          case ' ':
             ret.append('+');
@@ -1413,7 +1416,13 @@ String jm::URLEncode(const String& str)
             break;
 
          default:
-            ret.append(str.charAt(a));
+            if(c < 0x80)ret.append(Char(c));
+            else
+            {
+               ret.append('%');
+               ret.append(Char(hex[c >> 4]));
+               ret.append(Char(hex[c & 0x0F]));
+            }
             break;
       }
    }
-- 
2.43.0


From 3b3d0b06d82e7d2ff962bfc75986c62bac2bc776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:25 +0000
Subject: [PATCH 28/96] fix: decoding UTF-16 with a truncated last code unit
 reads only the buffer

---
 src/core/String.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 9fc1d6d..5a83865 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -77,10 +77,11 @@ String::String(const char* buffer, int64 size): Object(), Comparable<String>(),
 String::String(const char* buffer, int64 size, Charset* charset): Object(), Comparable<String>(),
    mHash(0)
 {
-   char* cstring = new char[size + 2];
+   char* cstring = new char[size + 3];
    memcpy(cstring, buffer, size);
    cstring[size] = 0;
    cstring[size + 1] = 0; //For UTF16 required
+   cstring[size + 2] = 0; //For UTF16 with a truncated last code unit required
    CharArray array = charset->decode(cstring);
    copy(array);
    delete[] cstring;
@@ -134,8 +135,8 @@ String::String(const char* cstring, Charset* charset): Object(), Comparable<Stri
 String::String(const ByteArray& buffer, Charset* charset) : Object(), Comparable<String>(),
    mHash(0)
 {
-   // Terminated by two zero bytes, as required for UTF16
-   ByteArray terminated = ByteArray(buffer.size() + 2, 0);
+   // Terminated by two zero bytes, as required for UTF16, behind a truncated last code unit as well
+   ByteArray terminated = ByteArray(buffer.size() + 3, 0);
    terminated.replace(0, 0, buffer, buffer.size());
    CharArray array = charset->decode(terminated.constData());
    copy(array);
-- 
2.43.0


From e638908b094578824fd4bc6713c7ce0d75923f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 29/96] fix: the zero character in Windows-1252

---
 src/core/Windows1252Decoder.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/core/Windows1252Decoder.cpp b/src/core/Windows1252Decoder.cpp
index aaca226..8e6b90e 100644
--- a/src/core/Windows1252Decoder.cpp
+++ b/src/core/Windows1252Decoder.cpp
@@ -136,10 +136,6 @@ ByteArray Windows1252Decoder::encode(const CharArray& string)
             cstring[a] = (uint8)0x8C;
             break;
 
-         case 0x0000:
-            cstring[a] = (uint8)0x8D;
-            break;
-
          case 0x017D:
             cstring[a] = (uint8)0x8E;
             break;
-- 
2.43.0


From 71b80d81a2abfa42ab01070d4ecd38e998bba302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 30/96] fix: number of digits of the smallest 64-bit integer

---
 src/core/Integer.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index 99e21ab..ebeee01 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -40,13 +40,9 @@ const jm::String gRoman[] = {"I", "IV", "V", "IX", "X", "XL", "L", "XC", "C", "C
 uint8 Integer::digits(int64 number)
 {
    uint8 i = 1;
-   if(number < 0)
-   {
-      number *= -1;
-      i++;
-   }
+   if(number < 0)i++;
 
-   while(number > 9)
+   while(number > 9 || number < -9)
    {
       number = number / 10;
       i++;
-- 
2.43.0


From 601c4fa2fa4d3430680ab835d138c8ed90960f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 31/96] fix: hexadecimal text of negative numbers

---
 src/core/Integer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index ebeee01..e0de9ac 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -102,13 +102,15 @@ jm::String Integer::toHexString(int64 number)
       return ret;
    }
 
-   int32 base = 16;
+   // Negative numbers in two's complement, which fromHex() reads back
+   uint64 value = static_cast<uint64>(number);
+   uint64 base = 16;
 
    //Löse die einzelnen Zahlen auf... Achtung: die letzte Ziffer kommt zuerst
-   while(number > 0)
+   while(value > 0)
    {
-      int64 digit = number % base;
-      number = number / base;
+      uint64 digit = value % base;
+      value = value / base;
       ret.append(gMask[digit]);
    }
 
-- 
2.43.0


From 6d44d5d278feca9b7fb303110adf97d7eba4519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 32/96] fix: letters for multiples of 26 and for large numbers

---
 src/core/Integer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Integer.cpp b/src/core/Integer.cpp
index e0de9ac..771dfed 100644
--- a/src/core/Integer.cpp
+++ b/src/core/Integer.cpp
@@ -147,8 +147,8 @@ jm::String Integer::toLatinAlphabetString(int64 number)
 
    while(number > 0)
    {
-      int32 div = static_cast<int32>(number / 26);
-      int16 rest = (int16)(number % 26 - 1);
+      int64 div = (number - 1) / 26;
+      int16 rest = (int16)((number - 1) % 26);
 
       output.append('A' + rest);
 
-- 
2.43.0


From 968d84f6e3e7262ed4e458beda04275c58669bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 33/96] fix: Base64 decoding appended a zero byte to padded
 data and read beyond truncated data

---
 src/core/Base64.cpp | 30 ++++++------------------------
 1 file changed, 6 insertions(+), 24 deletions(-)

diff --git a/src/core/Base64.cpp b/src/core/Base64.cpp
index 08eccd9..8cf12bd 100644
--- a/src/core/Base64.cpp
+++ b/src/core/Base64.cpp
@@ -129,43 +129,25 @@ uint8* Base64::decode(const uint8* data, uint32& length)
 
    uint8* ret = new uint8[lenb64];
    uint32 index = 0;
-   bool brk = false;
 
    for(int32 i = 0; i < len; i = i + 4)
    {
       c1 = gBase64rcvt[data[i]];
-      c2 = gBase64rcvt[data[i + 1]];
-      c3 = gBase64rcvt[data[i + 2]];
-      c4 = gBase64rcvt[data[i + 3]];
+      c2 = (i + 1 < len) ? gBase64rcvt[data[i + 1]] : 65;
+      c3 = (i + 2 < len) ? gBase64rcvt[data[i + 2]] : 65;
+      c4 = (i + 3 < len) ? gBase64rcvt[data[i + 3]] : 65;
 
-      if(c2 >= 65)
-      {
-         c2 = 0;
-         brk = true;
-      }
+      if(c2 >= 65)break;
       b1 = ((c1 << 2) | ((c2 >> 4) & 0x3));
       ret[index++] = b1;
-      if(brk)break;
 
-
-      if(c3 >= 65)
-      {
-         c3 = 0;
-         brk = true;
-      }
+      if(c3 >= 65)break;
       b2 = ((c2 << 4) & 0xf0) | ((c3 >> 2) & 0xf);
       ret[index++] = b2;
-      if(brk)break;
 
-      if(c4 >= 65)
-      {
-         c4 = 0;
-         brk = true;
-      }
+      if(c4 >= 65)break;
       b3 = ((c3 << 6) & 0xc0) | c4;
       ret[index++] = b3;
-      if(brk)break;
-
    }
    length = index;
    return ret;
-- 
2.43.0


From 0228806fd0124011b2640c8f2696913ce63b0c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 34/96] fix: an inflater wrote to a null buffer unless it was
 reset first

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 2e4d98b..67f5f45 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -48,7 +48,7 @@ Inflater::Inflater(): Object()
    mCompLength = 0;
    mCompIndex = 0;
    mUncompBytes = nullptr;
-   mUncompLength = 1024;
+   mUncompLength = 0;
    mUncompIndex = 0;
    mTotalIn = 0;
    mTotalOut = 0;
-- 
2.43.0


From 40e4edbc3460c4f1ed1d22291a7c754348f4d255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 35/96] fix: back references in fixed Huffman blocks beyond 32
 KiB of output

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 67f5f45..cc756a1 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -307,7 +307,7 @@ void Inflater::handleCompressedFixHuffman()
          //stream, and copy length bytes from this
          //position to the output stream.
 
-         int64 src = (mUncompIndex - distance) & 32767;
+         int64 src = mUncompIndex - distance;
          if(src < 0)throw Exception("Distance in fix hufmann refer before output stream beginning.");
          for(int64 a = 0; a < length; a++)
          {
-- 
2.43.0


From fd9b9a9b13074b5da935851b6621392965221f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 36/96] fix: a stored block with a wrong complement of its
 length is corrupt

---
 src/core/Inflater.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index cc756a1..a074279 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -256,7 +256,7 @@ void Inflater::handleUncompressedBlock()
    uint16 len = nextAlignedUInt16();
    uint16 nlen = nextAlignedUInt16();//Komplement von len
 
-   if((nlen & len) != 0)throw Exception("Length of uncompressed block is corrupted.");
+   if((nlen ^ len) != 0xFFFF)throw Exception("Length of uncompressed block is corrupted.");
 
    for(int32 a = 0; a < len; a++)
    {
-- 
2.43.0


From 56ef2f8c73590ec3bb25d5d7037bac56b987346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 37/96] fix: code lengths repeated across the literal and the
 distance alphabet

---
 src/core/Inflater.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index a074279..5e9bf9b 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -620,11 +620,16 @@ void Inflater::handleCompressedDynamicHuffman()
 
    HuffmanTree* intermediate = createTree(codelengths, codes);
 
+   // The code lengths of both alphabets form a single sequence, repetitions may cross from the one to the other.
+   Array<uint16>* alllengths = new Array<uint16>(HLIT + HDIST);
+   readLengthDists(alllengths, intermediate, HLIT + HDIST);
+
    Array<uint16>* lengths2 = new Array<uint16>(HLIT);
-   readLengthDists(lengths2, intermediate, HLIT);
+   for(int32 a = 0; a < HLIT; a++)(*lengths2)[a] = (*alllengths)[a];
 
    Array<uint16>* distances2 = new Array<uint16>(HDIST);
-   readLengthDists(distances2, intermediate, HDIST);
+   for(int32 a = 0; a < HDIST; a++)(*distances2)[a] = (*alllengths)[HLIT + a];
+   delete alllengths;
 
    Array<uint16>* lengthcodes2 = huffmanCodes(lengths2);
 
-- 
2.43.0


From 879e087c4c5262c0f937b6651bc88932686b7de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 38/96] fix: dynamic Huffman blocks without any distance code

---
 src/core/Inflater.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index 5e9bf9b..e183e04 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -446,6 +446,9 @@ Inflater::HuffmanTree* Inflater::createTree(Array<uint16>* lengths, Array<uint16
    }
    while(nodes.size() > 1);
 
+   // An alphabet may be empty, e.g. the distances of a block with literals only.
+   if(nodes.empty())return new HuffmanTree();
+
    return nodes[0];
 }
 
-- 
2.43.0


From 94b02aa8e6c21b1c735785f530f6b7c95e500249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 39/96] fix: inflating truncated data read beyond the input

---
 src/core/Inflater.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index e183e04..d7e76e9 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -164,6 +164,7 @@ int64 Inflater::GetTotalOut()
 
 uint8 Inflater::nextBit()
 {
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = ((0x01 << mBit) & mCompBytes[mCompIndex]) >> mBit;
 
    mBit++;
@@ -187,6 +188,7 @@ void Inflater::skipByteBits()
 uint8 Inflater::nextAlignedUInt8()
 {
    if(mBit != 0)throw Exception("Incorrect bit order for uint8!");
+   if(mCompIndex >= mCompLength)throw Exception("Unexpected end of compressed data.");
    uint8 ret = mCompBytes[mCompIndex++];
    mTotalIn++;
    return ret;
-- 
2.43.0


From 11dea247a31560c92f6906a42a5ea1b7671c8a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 40/96] fix: invalid block types and codes in compressed data
 are refused

---
 src/core/Inflater.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/Inflater.cpp b/src/core/Inflater.cpp
index d7e76e9..ad8026a 100644
--- a/src/core/Inflater.cpp
+++ b/src/core/Inflater.cpp
@@ -300,6 +300,7 @@ void Inflater::handleCompressedFixHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = nextUIntX(5);
+         if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -675,6 +676,7 @@ void Inflater::handleCompressedDynamicHuffman()
          //shown in Paragraph 3.2.5, above.
 
          uint16 code = decodeHuffmanSymbol(htdist);
+         if(code > 29)throw Exception("Distance code has unexpected value: " + String::valueOf(code));
 
          extrabits = DIST_EXTRA[code];
          uint16 distance = nextUIntXR(extrabits);
@@ -691,7 +693,7 @@ void Inflater::handleCompressedDynamicHuffman()
             writeUncompressed(mUncompBytes[src + a]);
          }
       }
-      else Exception("Code has unexpected value: " + String::valueOf(value));
+      else throw Exception("Code has unexpected value: " + String::valueOf(value));
 
 
    }
@@ -732,7 +734,7 @@ void Inflater::inflate()
       {
          handleCompressedDynamicHuffman();
       }
-      else new Exception("Error in decompression process. Corrupt Block header");
+      else throw Exception("Error in decompression process. Corrupt Block header");
 
    }
    while(!mLastBlock);
@@ -767,7 +769,7 @@ uint16 Inflater::nextFixedHuffmanCode()
          if(code >= 0x190
                && code <= 0x1FF)  // (9 bit) 1 1001 0000 - 1 1111 1111 ( 400 - 511 | 0x190 - 0x1FF ) -> 144 - 255: -256 =-0x100
             code -= 0x100;
-         else new Exception("Wrong code");
+         else throw Exception("Wrong code");
       }
    }
    return code;
@@ -801,7 +803,6 @@ Inflater::HuffmanTree* Inflater::HuffmanTree::Find(uint16 _code, uint16 bits)
       uint16 target = msk & _code;
       if(target == 0 && this->node0 != nullptr)return this->node0->Find(_code, bits);
       else if(target != 0 && this->node1 != nullptr)return this->node1->Find(_code, bits);
-      else new Exception("Huffman Tree Error");
    }
 
    return nullptr;
-- 
2.43.0


From 5675245c7d9b5079159534e13bc22f7193bfa614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 41/96] fix: deflating data that cannot be compressed truncated
 the result

---
 src/core/Deflater.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/core/Deflater.cpp b/src/core/Deflater.cpp
index 629650d..6a1a942 100644
--- a/src/core/Deflater.cpp
+++ b/src/core/Deflater.cpp
@@ -55,8 +55,6 @@ void Deflater::deflate(uint8*& buffer, int64& length)
 {
    mUncompIndex = 0;
 
-   buffer = new uint8[mUncompLength];
-
    z_stream defstream;
    defstream.zalloc = Z_NULL;
    defstream.zfree = Z_NULL;
@@ -64,11 +62,13 @@ void Deflater::deflate(uint8*& buffer, int64& length)
    // setup "a" as the input and "b" as the compressed output
    defstream.avail_in = (uInt) mUncompLength; // size of input, string + terminator
    defstream.next_in = reinterpret_cast<Bytef*>(mUncompBytes);  // input char array
-   defstream.avail_out = (uInt)mUncompLength; // size of output
-   defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
 
-   // the actual compression work.
+   // the actual compression work. Data that cannot be compressed needs more room than the input.
    deflateInit(&defstream, Z_BEST_COMPRESSION);
+   uLong bound = deflateBound(&defstream, (uLong)mUncompLength);
+   buffer = new uint8[bound];
+   defstream.avail_out = (uInt)bound; // size of output
+   defstream.next_out = reinterpret_cast<Bytef*>(buffer);  // output char array
    ::deflate(&defstream, Z_FINISH);
    deflateEnd(&defstream);
 
-- 
2.43.0


From 29ed8ec34fdba05b189dfe850134cc7397f7c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 42/96] fix: writing to a memory stream wrote beyond its end

---
 src/core/MemoryStream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 16da9d3..4bb61fd 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -98,7 +98,9 @@ int64 MemoryStream::position()
 int64 MemoryStream::write(const uint8* buffer, int64 length)
 {
    int64 available = (mPosition + length < mStreamlength) ? length : mStreamlength - mPosition;
-   memcpy(&mStream[mPosition], buffer, length);
+   if(available <= 0)return 0;
+
+   memcpy(&mStream[mPosition], buffer, available);
    mPosition += available;
    if(mPosition > mWritelength) mWritelength = mPosition;
    return available;
-- 
2.43.0


From dec9976f00703875aabad7aeb604a75516a05274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 43/96] fix: positions before the start and at the end of a
 memory stream

---
 src/core/MemoryStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/MemoryStream.cpp b/src/core/MemoryStream.cpp
index 4bb61fd..6e490cf 100644
--- a/src/core/MemoryStream.cpp
+++ b/src/core/MemoryStream.cpp
@@ -81,13 +81,13 @@ int64 MemoryStream::readFully(ByteArray& buffer, int64 length)
 
 void MemoryStream::seek(int64 newPosition)
 {
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition <= mStreamlength) ? newPosition : mPosition;
 }
 
 void MemoryStream::move(int64 offset)
 {
    int64 newPosition = mPosition + offset;
-   mPosition = (newPosition < mStreamlength) ? newPosition : mPosition;
+   mPosition = (newPosition >= 0 && newPosition <= mStreamlength) ? newPosition : mPosition;
 }
 
 int64 MemoryStream::position()
-- 
2.43.0


From c6bcc15b3dbb2186cf7ac0e86e634ac6fe282ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 44/96] fix: the type of a file that does not exist was
 arbitrary

---
 src/core/File.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index ded478b..3fab9fe 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -249,7 +249,7 @@ bool File::isDirectory() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;  // Does not exist
    bool ret = S_ISDIR(st.st_mode);
    return ret;
 
@@ -271,7 +271,7 @@ bool File::isFile() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;  // Does not exist
    bool ret = S_ISREG(st.st_mode);
    return ret;
 
@@ -311,7 +311,7 @@ bool File::isLink() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;  // Does not exist
    bool ret = S_ISLNK(st.st_mode);
    return ret;
 
@@ -335,7 +335,7 @@ bool File::isPipe() const
    #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
 
    struct stat st;
-   lstat(mCstr.constData(), &st);
+   if(lstat(mCstr.constData(), &st) != 0)return false;  // Does not exist
    bool ret = S_ISFIFO(st.st_mode);
    return ret;
 
-- 
2.43.0


From db3d77701a3e115a72511ac48fc3cf0a8b694e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 45/96] fix: the time of the last modification was up to 1000
 seconds late

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 3fab9fe..84ea73a 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -362,7 +362,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtimespec;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
@@ -374,7 +374,7 @@ Date File::lastModified() const
    //Umrechnen
    timespec tm = st.st_mtim;
    int64 time = tm.tv_sec * 1000LL;
-   time += (tm.tv_nsec / 1000LL);
+   time += (tm.tv_nsec / 1000000LL);
 
    return Date(time);
 
-- 
2.43.0


From 9b64b23bcaf4f319fae19ab9665c0be4b12e4e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 46/96] fix: a file without dot in its name has no extension

---
 src/core/File.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 84ea73a..dd18928 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -570,7 +570,10 @@ String File::name() const
 
 String File::extension() const
 {
-   return mPathname.substring(mPathname.lastIndexOf('.') + 1);
+   String filename = name();
+   int64 idx = filename.lastIndexOf('.');
+   if(idx < 0)return kEmptyString;
+   return filename.substring(idx + 1);
 }
 
 bool File::isAbsolute() const
-- 
2.43.0


From 934aa054893c58b81b02eccd1e384cdfcc3f8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 47/96] fix: the parent of a file in the root directory is the
 root directory

---
 src/core/File.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index dd18928..f34d0ac 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -560,6 +560,7 @@ String File::parent() const
 {
    int64 idx = mPathname.lastIndexOf(DIR_SEP);
    if(idx < 0)idx = 0;
+   else if(idx == 0)idx = 1; // The directory of "/name" is the root directory
    return mPathname.substring(0, idx);
 }
 
-- 
2.43.0


From 9be9837304e1b960bd383cf87aaeaa21bc907f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 48/96] fix: creating a file that exists emptied it

---
 src/core/File.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index f34d0ac..6a6a4d6 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -585,6 +585,8 @@ bool File::isAbsolute() const
 
 bool File::createNewFile()
 {
+   if(exists())return false;
+
    #if defined(__APPLE__) || defined(__linux__)//linux,macOS und ios
    mHandle = fopen(mCstr.constData(), "wb");
    bool exist = (mHandle != nullptr);
-- 
2.43.0


From 948b42af2b4cd32f3d51e3495d5b33c743ee15d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 49/96] fix: the path of a renamed file was not normalized

---
 src/core/File.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 6a6a4d6..4f31881 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -435,8 +435,8 @@ bool File::renameTo(const String& newPath)
 
    if(result == 0)
    {
-      mCstr = newname;
-      mPathname = String(mCstr);
+      mPathname = normalize(newPath);
+      setCString();
 
       return true;
    }
-- 
2.43.0


From fcb57391850ebeccb7ef7fbf09ed1cf32f853941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 50/96] fix: a relative path was called absolute

---
 src/core/File.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 4f31881..3a194a4 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -579,7 +579,15 @@ String File::extension() const
 
 bool File::isAbsolute() const
 {
+   #if defined(__APPLE__) || defined(__linux__) // macOS and Linux are identically
+
+   return mPathname.size() > 0 && mPathname.charAt(0) == DIR_SEP;
+
+   #else
+
    return true;
+
+   #endif
 }
 
 
-- 
2.43.0


From 30355f684faf151400c8e2f46042a627f7c0f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 51/96] fix: writing an archive with a relative path created a
 temporary file in the root directory

---
 src/core/ZipOutputFile.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index ca47756..8f59f35 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -219,7 +219,10 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
 
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
-   mTemp = new jm::File(mFile->parent(), "jmzipdata.tmp");
+   // The parent of a relative path may be empty, which stands for the current directory
+   String parent = mFile->parent();
+   if(parent.size() > 0)mTemp = new jm::File(parent, "jmzipdata.tmp");
+   else mTemp = new jm::File("jmzipdata.tmp");
    mTemp->createNewFile();
    mTemp->open(FileMode::kReadWrite);
 
-- 
2.43.0


From 1a47e47f54ce50e21ad8a8fc1358bf527fb031f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 52/96] fix: writing an archive over a longer one left it
 unreadable

---
 src/core/ZipOutputFile.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index 8f59f35..e5f8151 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -61,7 +61,13 @@ ZipOutputFile::ZipOutputFile(File* file): jm::Object(),
 
 void ZipOutputFile::open()
 {
-   if(mFile->exists() == false)mFile->createNewFile();
+   // An archive that exists is replaced. Its remains behind the end of the new one would make it unreadable.
+   if(mFile->exists())
+   {
+      mFile->open(FileMode::kWrite);
+      mFile->close();
+   }
+   else mFile->createNewFile();
    mFile->open(FileMode::kReadWrite);
 }
 
-- 
2.43.0


From 54a9e914b2a6db0859b4e2226008eae6b6028814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 53/96] fix: entries for directories are recognised by their
 name

---
 src/core/ZipFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 2aa38d1..d0c0138 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -237,5 +237,5 @@ uint32 ZipEntry::uncompressedSize()const
 
 bool ZipEntry::isDirectory()const
 {
-   return false;
+   return mName.endsWith("/");
 }
-- 
2.43.0


From 86ff6bae41cd10b9f52a3425c869ab886cacf380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 54/96] fix: damaged archives were read beyond the end of the
 data

---
 src/core/ZipFile.cpp | 47 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index d0c0138..d34fb3b 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -69,23 +69,27 @@ void ZipFile::open()
    // incomplete and the data length of the compressed data does not have to be saved at the
    // beginning.
 
+   // The smallest archive is an empty directory
+   if(length < 22)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    uint32 signature;
    ByteArray eocd = ByteArray(22, 0);
    bool found = false;
-   do
+   while(true)
    {
       mFile->seek(seek);
       mFile->Stream::readFully(eocd);
       signature = jm::deserializeLEInt32((uint8*)eocd.constData(), 0);
-      seek--;
 
       if(signature == 0x06054b50)
       {
          found = true;
          break;
       }
+
+      if(seek == 0)break;
+      seek--;
    }
-   while(seek > 0);
 
    if(!found)throw jm::Exception(Tr("ZIP-File is invalid."));
 
@@ -93,6 +97,9 @@ void ZipFile::open()
    uint32 dictSize = jm::deserializeLEUInt32((uint8*)eocd.constData(), 12);
    uint32 dictOffset = jm::deserializeLEUInt32((uint8*)eocd.constData(), 16);
 
+   // The directory is located in front of its end record
+   if(static_cast<uint64>(dictOffset) + dictSize > seek)throw jm::Exception(Tr("ZIP-File is invalid."));
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
    mFile->Stream::readFully(dict);
@@ -102,6 +109,8 @@ void ZipFile::open()
    uint32 count = 0;
    while(count < recordCount)
    {
+      if(static_cast<uint64>(index) + 46 > dictSize)throw jm::Exception(Tr("ZIP-File is invalid."));
+
       //signature = jm::DeserializeLEInt32(dict, index);
       uint32 compressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 20);
       uint32 uncompressedSize = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 24);
@@ -110,10 +119,13 @@ void ZipFile::open()
       uint32 commentLength = jm::deserializeLEUInt16((uint8*)dict.constData(), index + 32);
       uint32 offset = jm::deserializeLEUInt32((uint8*)dict.constData(), index + 42);
 
-      jm::String name = jm::String((char*)&dict[index + 46], fileNameLength);
-      jm::String extra = jm::String((char*)&dict[index + 46 + fileNameLength], extraFieldLength);
-      jm::String comment = jm::String((char*)&dict[index + 46 + fileNameLength + extraFieldLength],
-                                      commentLength);
+      if(static_cast<uint64>(index) + 46 + fileNameLength + extraFieldLength + commentLength > dictSize)
+         throw jm::Exception(Tr("ZIP-File is invalid."));
+
+      const char* record = dict.constData() + index + 46;
+      jm::String name = jm::String(record, fileNameLength);
+      jm::String extra = jm::String(record + fileNameLength, extraFieldLength);
+      jm::String comment = jm::String(record + fileNameLength + extraFieldLength, commentLength);
 
       ZipEntry* entry = new ZipEntry(name);
       entry->mExtra = extra;
@@ -167,9 +179,11 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
-   ByteArray input = ByteArray(entry->mCompressedSize, 0);
-
    //Local Header
+   uint64 length = mFile->size();
+   if(static_cast<uint64>(entry->mHeaderOffset) + 30 > length)
+      throw jm::Exception(Tr("ZIP file Error. Entry is outside of the file."));
+
    ByteArray localHeader = ByteArray(30, 0);
    mFile->seek(entry->mHeaderOffset);
    mFile->Stream::readFully(localHeader);
@@ -185,23 +199,36 @@ jm::Stream* ZipFile::stream(const ZipEntry* entry)
    uint32 el = jm::deserializeLEUInt16(localHeader, 28);
 
 
+   if(static_cast<uint64>(entry->mHeaderOffset) + 30 + fl + el + entry->mCompressedSize > length)
+      throw jm::Exception(Tr("ZIP file Error. Entry is outside of the file."));
+
+   ByteArray input = ByteArray(entry->mCompressedSize, 0);
    mFile->seek(entry->mHeaderOffset + 30 + fl + el);
    mFile->Stream::readFully(input);
 
    uint8* buffer = nullptr;
    if(cm == 0) //Daten uncompressed
    {
+      if(entry->mCompressedSize != entry->mUncompressedSize)
+         throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
+
       buffer = new uint8[entry->mUncompressedSize];
       memcpy(buffer, input.constData(), entry->mCompressedSize);
    }
-   if(cm == 8) //Deflate
+   else if(cm == 8) //Deflate
    {
       Inflater inf = Inflater(true);
       int64 control;
       inf.SetInput(reinterpret_cast<uint8*>(input.data()), entry->mCompressedSize);
       // buffer is initialized and set by Inflater
       inf.Inflate(buffer, control);
+      if(control != entry->mUncompressedSize)
+      {
+         delete[] buffer;
+         throw jm::Exception(Tr("ZIP file Error. Size of Entry wrong."));
+      }
    }
+   else throw jm::Exception(Tr("ZIP file Error. Compression method not supported."));
 
    return new MemoryStream(buffer, entry->mUncompressedSize, true);
 }
-- 
2.43.0


From abe53ff012d4eb9804450cef9afa421eb7117f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:25 +0000
Subject: [PATCH 55/96] fix: the stream of an entry that does not exist is
 nullptr

---
 src/core/ZipFile.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index d34fb3b..a9c071c 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -179,6 +179,8 @@ uint32 ZipFile::entryCount() const
 
 jm::Stream* ZipFile::stream(const ZipEntry* entry)
 {
+   if(entry == nullptr)return nullptr;
+
    //Local Header
    uint64 length = mFile->size();
    if(static_cast<uint64>(entry->mHeaderOffset) + 30 > length)
-- 
2.43.0


From 4bf42e320bc17de7527325d115574de290734574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 56/96] fix: the comment of an archive was never read

---
 include/core/ZipFile.h |  3 +++
 src/core/ZipFile.cpp   | 11 ++++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 830d784..97a0a6d 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -161,6 +161,9 @@ namespace jm
          //! The entries
          LinkedList mEntries;
 
+         //! The comment of the archive.
+         String mComment;
+
    };
 
 
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index a9c071c..3770e76 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -100,6 +100,15 @@ void ZipFile::open()
    // The directory is located in front of its end record
    if(static_cast<uint64>(dictOffset) + dictSize > seek)throw jm::Exception(Tr("ZIP-File is invalid."));
 
+   uint16 archiveCommentLength = jm::deserializeLEUInt16((uint8*)eocd.constData(), 20);
+   if(static_cast<uint64>(seek) + 22 + archiveCommentLength > length)
+      throw jm::Exception(Tr("ZIP-File is invalid."));
+
+   ByteArray archiveComment = ByteArray(archiveCommentLength, 0);
+   mFile->seek(seek + 22);
+   mFile->Stream::readFully(archiveComment);
+   mComment = jm::String(archiveComment.constData(), archiveCommentLength);
+
    ByteArray dict = ByteArray(dictSize, 0);
    mFile->seek(dictOffset);
    mFile->Stream::readFully(dict);
@@ -151,7 +160,7 @@ void ZipFile::close()
 
 jm::String ZipFile::comment()
 {
-   return kEmptyString;
+   return mComment;
 }
 
 ZipEntry* ZipFile::entry(const String& name)
-- 
2.43.0


From 4972cc4c7fb5d598d3661ecaee1673b0f0618b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 57/96] fix: opening an archive again doubled its entries

---
 include/core/ZipFile.h |  3 +++
 src/core/ZipFile.cpp   | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/core/ZipFile.h b/include/core/ZipFile.h
index 97a0a6d..c3193fa 100644
--- a/include/core/ZipFile.h
+++ b/include/core/ZipFile.h
@@ -164,6 +164,9 @@ namespace jm
          //! The comment of the archive.
          String mComment;
 
+         //! Gives up the entries.
+         void releaseEntries();
+
    };
 
 
diff --git a/src/core/ZipFile.cpp b/src/core/ZipFile.cpp
index 3770e76..0098de2 100644
--- a/src/core/ZipFile.cpp
+++ b/src/core/ZipFile.cpp
@@ -44,6 +44,11 @@ ZipFile::ZipFile(Stream* file): jm::Object(),
 }
 
 ZipFile::~ZipFile()
+{
+   releaseEntries();
+}
+
+void ZipFile::releaseEntries()
 {
    mEntries.rewind();
    while(mEntries.hasNext())
@@ -51,10 +56,15 @@ ZipFile::~ZipFile()
       ZipEntry* entry = static_cast<ZipEntry*>(mEntries.next());
       entry->release();
    }
+   mEntries.clear(nullptr);
 }
 
 void ZipFile::open()
 {
+   // The entries of an archive opened before
+   releaseEntries();
+   mComment = kEmptyString;
+
    uint32 length = (uint32)mFile->size();
    uint32 seek = length - 22;
 
-- 
2.43.0


From c517e37e2a3fff51cc4d092057acb4fad3a15967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:42 +0000
Subject: [PATCH 58/96] fix: archives written at the same time in one directory
 shared their temporary file

---
 src/core/ZipOutputFile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/ZipOutputFile.cpp b/src/core/ZipOutputFile.cpp
index e5f8151..75602ca 100644
--- a/src/core/ZipOutputFile.cpp
+++ b/src/core/ZipOutputFile.cpp
@@ -226,9 +226,18 @@ void ZipOutputFile::putNextEntry(ZipEntry* entry)
    entry->mDataOffset = static_cast<uint32>(mFile->position());
 
    // The parent of a relative path may be empty, which stands for the current directory
+   // A file of the temporary name may exist, for example that of an other archive
    String parent = mFile->parent();
-   if(parent.size() > 0)mTemp = new jm::File(parent, "jmzipdata.tmp");
-   else mTemp = new jm::File("jmzipdata.tmp");
+   int64 number = 0;
+   mTemp = nullptr;
+   do
+   {
+      delete mTemp;
+      String name = "jmzipdata" + String::valueOf(number++) + ".tmp";
+      if(parent.size() > 0)mTemp = new jm::File(parent, name);
+      else mTemp = new jm::File(name);
+   }
+   while(mTemp->exists());
    mTemp->createNewFile();
    mTemp->open(FileMode::kReadWrite);
 
-- 
2.43.0


From 73e8414d8cbfdb8e21153b016ed4bffdb9409fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 59/96] fix: a path joined with a separator ended with it

---
 src/core/File.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index 3a194a4..bfd4a28 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -117,6 +117,9 @@ String File::resolve(String parent, String child)
    // under UNIX:
    if(parent.size() < 1 && child.size() < 1)return sep;
 
+   // The child is nothing but a separator
+   if(child.equals(sep))return parent.size() < 1 ? sep : parent;
+
    // If child begins with separator
    if(child.charAt(0) == DIR_SEP)
    {
-- 
2.43.0


From bd9355deb4f42edfa46529f2d3da8efb3395459b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 60/96] fix: adding a tag to a file with more than 4096 bytes
 of tags removed them

---
 src/core/File.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/File.cpp b/src/core/File.cpp
index bfd4a28..fd470aa 100644
--- a/src/core/File.cpp
+++ b/src/core/File.cpp
@@ -785,14 +785,15 @@ StringList File::getTags()const
 
    #ifdef __linux__
 
-   const int sz = 4096;
-   char buffer[sz];
-   int result = getxattr(mCstr.constData(), "user.xdg.tags", buffer, sz);
+   ssize_t size = getxattr(mCstr.constData(), "user.xdg.tags", nullptr, 0);
 
-   if(result > 0)
+   if(size > 0)
    {
       // Data is stored usually as comma(,) separated list.
-      ByteArray tagList = ByteArray((int8*)buffer, result);
+      ByteArray tagList = ByteArray(size, 0);
+      ssize_t result = getxattr(mCstr.constData(), "user.xdg.tags", tagList.data(), size);
+      if(result != size)return StringList();
+
       String string(tagList);
       return string.split(',');
    }
-- 
2.43.0


From 58b1f36abfd20c44c38411cfd5594b1e18d417be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 61/96] fix: the day of the week was negative before 1970

---
 src/core/Date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Date.cpp b/src/core/Date.cpp
index bcc3622..92776cb 100644
--- a/src/core/Date.cpp
+++ b/src/core/Date.cpp
@@ -233,7 +233,7 @@ int64 Date::dateFromTime(int64 t) const
 int64 Date::weekDay(int64 t) const
 {
    //01.01.1970 = Donnerstag (=4)
-   return (day(t) + 4) % 7;
+   return modFloor(day(t) + 4, 7);
 }
 
 int64 Date::localTimeZoneAdjustment() const
-- 
2.43.0


From 7f76f010a19ffdc369a1e71682d404c54872015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 62/96] fix: text marked in a date format swallowed the letters
 before it

---
 src/core/DateFormatter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 8b9173e..5fe5214 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -52,7 +52,18 @@ DateFormatter::DateFormatter(const String& pattern): Object()
       if(c == '\'')
       {
          inText = !inText;
-         if(inText)isText = true;
+         if(inText)
+         {
+            // The letters before the text
+            if(token.size() > 0)
+            {
+               Pattern* tpattern = new Pattern(token);
+               mLast->next = tpattern;
+               mLast = tpattern;
+               token.clear();
+            }
+            isText = true;
+         }
          else if(isText)
          {
             Pattern* tpattern = new Pattern(token, true);
@@ -86,7 +97,7 @@ DateFormatter::DateFormatter(const String& pattern): Object()
 
    if(token.size() > 0)
    {
-      Pattern* tpattern = new Pattern(token);
+      Pattern* tpattern = new Pattern(token, inText);
       mLast->next = tpattern;
       mLast = tpattern;
    }
-- 
2.43.0


From a123eeac138716db1ef3e1e3b57db7448e7e4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 63/96] fix: the name of September in dates

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 5fe5214..7af76c0 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -475,7 +475,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
 
                case Date::SEPTEMBER:
-                  value.append(Tr("Septemper"));
+                  value.append(Tr("September"));
                   return;
 
                case Date::OCTOBER:
-- 
2.43.0


From 21e32b10ef4ea2731fbf58f7787c460c68263af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 64/96] fix: the long form of the day of the week is for 4 or
 more letters

---
 src/core/DateFormatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/DateFormatter.cpp b/src/core/DateFormatter.cpp
index 7af76c0..6ebbd97 100644
--- a/src/core/DateFormatter.cpp
+++ b/src/core/DateFormatter.cpp
@@ -306,7 +306,7 @@ void DateFormatter::Pattern::appendPattern(String& value, const Date& date) cons
                   return;
             }
          }
-         else if(length == 2)
+         else if(length < 4)
          {
             switch(date.day())
             {
-- 
2.43.0


From 2cad8583619fecd2b291ede1ceca3a4068ed952a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 65/96] fix: copying attributes used uninitialised pointers

---
 src/core/SAXAttributes.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/core/SAXAttributes.cpp b/src/core/SAXAttributes.cpp
index 6ec6b44..9b0ea70 100644
--- a/src/core/SAXAttributes.cpp
+++ b/src/core/SAXAttributes.cpp
@@ -45,16 +45,10 @@ SAXAttributes::~SAXAttributes()
    delete mValues;
 }
 
-SAXAttributes::SAXAttributes(const SAXAttributes& other)
+SAXAttributes::SAXAttributes(const SAXAttributes& other): Object()
 {
-   mNames->clear();
-   mValues->clear();
-
-   for(uint32 a = 0; a < other.mNames->size(); a++)
-   {
-      mNames->push_back(other.mNames->at(a));
-      mValues->push_back(other.mValues->at(a));
-   }
+   mNames = new std::vector<String>(*other.mNames);
+   mValues = new std::vector<String>(*other.mValues);
 }
 
 SAXAttributes& SAXAttributes::operator=(const SAXAttributes& other)
-- 
2.43.0


From 622096fe1e02f9ff281a7ca5eeaf597f5556933d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:26 +0000
Subject: [PATCH 66/96] fix: apostrophes written as &apos; were lost when
 reading XML

---
 src/core/SAXParser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 3e8bcaa..36c9615 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -152,6 +152,7 @@ void SAXParser::parse(const String& xml)
          else if(escape.equals("gt;"))token.append('>');
          else if(escape.equals("amp;"))token.append('&');
          else if(escape.equals("quot;"))token.append('"');
+         else if(escape.equals("apos;"))token.append('\'');
          else if(escape.equals("le;"))token.append(0x2264); //≤
          else if(escape.equals("ge;"))token.append(0x2265); //≥
          else if(escape.equals("leq;"))token.append(0x2264); //≤
@@ -267,6 +268,7 @@ void SAXParser::parseTagString(const String& xmlline)
          else if(escape.equals("gt;"))token.append('>');
          else if(escape.equals("amp;"))token.append('&');
          else if(escape.equals("quot;"))token.append('"');
+         else if(escape.equals("apos;"))token.append('\'');
       }
       else if((c.isWhitespace() || c == '=' || c == '/') && !inValue)
       {
-- 
2.43.0


From 996d33aba67a480f56a1342cef286cc728b051be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 67/96] fix: comments were reported as elements when reading
 XML

---
 src/core/SAXParser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 36c9615..23a991f 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -78,7 +78,14 @@ void SAXParser::parse(const String& xml)
    {
       c = xml.charAt(pos);
 
-      if(c == '<' && inTag == false && inValue == false) // Found beginning of a tag.
+      if(c == '<' && inTag == false && pos + 3 < length && xml.charAt(pos + 1) == '!' &&
+            xml.charAt(pos + 2) == '-' && xml.charAt(pos + 3) == '-') // Comments are skipped
+      {
+         const int64 end = xml.indexOf("-->", pos + 4);
+         if(end < 0)break;
+         pos = end + 2;
+      }
+      else if(c == '<' && inTag == false && inValue == false) // Found beginning of a tag.
       {
          inTag = true;
          // Outputs characters: TODO: IgnorableWhitespaces muss hier noch berücksichtigt werden.
-- 
2.43.0


From 155d57d3fa16dbc2e3704c7217ec63e40fe39f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:26 +0000
Subject: [PATCH 68/96] fix: the XML declaration and processing instructions
 were reported as elements

---
 src/core/SAXParser.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/SAXParser.cpp b/src/core/SAXParser.cpp
index 23a991f..d9c0a73 100644
--- a/src/core/SAXParser.cpp
+++ b/src/core/SAXParser.cpp
@@ -207,6 +207,18 @@ void SAXParser::parseTagString(const String& xmlline)
    int64 tagType = 0; //0: Open, 1: Close 2: Open/Close
    int64 step = 0; // 0:Tagname, 1: Attribute name, 2: Attribute value
 
+   // Processing instructions are no elements. The XML declaration is not reported.
+   if(line.charAt(0) == '?')
+   {
+      int64 end = 1;
+      while(end < length && !line.charAt(end).isWhitespace() && line.charAt(end) != '?')end++;
+      const String target = line.substring(1, end);
+      int64 last = line.lastIndexOf('?');
+      if(last < end)last = end;
+      if(!target.equalsIgnoreCase("xml"))processingInstruction(target, line.substring(end, last).trim());
+      return;
+   }
+
    // Check for '/' at the end
    pos = line.size() - 1;
    while(line.charAt(pos).isWhitespace())pos--;
-- 
2.43.0


From ed640225021d5bda34ac6a796853c6f5b369184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 69/96] fix: line breaks and backslashes in preferences changed
 with every save and load

---
 src/core/Preferences.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index fb03d1a..9a4077b 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -77,12 +77,6 @@ void Preferences::load(File file)
          String key = line.substring(0, pos).trim();
          String value = line.substring(pos + 1).trim();
 
-         //Prüfe auf Zeilenumbruch
-         while((pos = value.indexOf("\\n")) > 0)
-         {
-            value = value.substring(0, pos) + "\n" + value.substring(pos + 2);
-         }
-
          //Ersetze
          int64 index = 0;
          while(index < value.size())
@@ -97,7 +91,17 @@ void Preferences::load(File file)
                   value.setCharAt(index, '\t');
                   value.deleteCharAt(index + 1);
                }
-               if(d == '\\')
+               else if(d == 'n')
+               {
+                  value.setCharAt(index, '\n');
+                  value.deleteCharAt(index + 1);
+               }
+               else if(d == 'r')
+               {
+                  value.setCharAt(index, '\r');
+                  value.deleteCharAt(index + 1);
+               }
+               else if(d == '\\')
                {
                   value.deleteCharAt(index + 1);
                }
@@ -156,6 +160,12 @@ void Preferences::save(File file)
                val.insert(index + 1, 't');
                index++;
             }
+            else if(c == '\n' || c == '\r')
+            {
+               val.setCharAt(index, '\\');
+               val.insert(index + 1, c == '\n' ? 'n' : 'r');
+               index++;
+            }
             index++;
          }
 
@@ -193,11 +203,7 @@ bool Preferences::hasValue(const String& key)const
 
 void Preferences::setValue(const String& key, const String& value)
 {
-   String tmp = value;
-   tmp = tmp.replace("\r\n", "\\n");
-   tmp = tmp.replace("\r", "\\n");
-   tmp = tmp.replace("\n", "\\n");
-   String* actual = new String(tmp);
+   String* actual = new String(value);
    String* old = static_cast<String*>(put(key, actual));
    if(old != nullptr)delete old;
 }
-- 
2.43.0


From 0774a1c094ae53764464215b5d5b7265bd252d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:21 +0000
Subject: [PATCH 70/96] fix: damaged translation files were read beyond their
 end

---
 src/core/I18nBundle.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/core/I18nBundle.cpp b/src/core/I18nBundle.cpp
index 5eb4f0b..cc0abb5 100644
--- a/src/core/I18nBundle.cpp
+++ b/src/core/I18nBundle.cpp
@@ -72,6 +72,11 @@ void I18nBundle::appendMo(Stream* file)
    uint8* buffer = (uint8*)buf.constData();
 
    // Process content
+   if(length < 20)
+   {
+      System::log(Tr("Translation File magic wrong"), LogLevel::kError);
+      return;
+   }
    uint32 magic = jm::deserializeLEUInt32(buffer, 0);
    uint32 version = jm::deserializeLEUInt32(buffer, 4);
    uint32 stringCount = jm::deserializeLEUInt32(buffer, 8);
@@ -89,6 +94,13 @@ void I18nBundle::appendMo(Stream* file)
       return;
    }
 
+   // Both tables must be in the file
+   if(int64(origOffset) + int64(stringCount) * 8 > length || int64(transOffset) + int64(stringCount) * 8 > length)
+   {
+      System::log(Tr("Translation file not fully read"), LogLevel::kError);
+      return;
+   }
+
    struct Record
    {
       uint32 origOffset = 0;
@@ -111,6 +123,13 @@ void I18nBundle::appendMo(Stream* file)
 
       offset += 8;
 
+      // The texts must be in the file
+      if(int64(rec.origOffset) + int64(rec.origLength) > length || int64(rec.transOffset) + int64(rec.transLength) > length)
+      {
+         System::log(Tr("Translation file not fully read"), LogLevel::kError);
+         return;
+      }
+
       records.push_back(rec);
    }
 
-- 
2.43.0


From c40be8371375b5611f360bfd01ce6eb8366e52ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 71/96] fix: setting an object's high bit lost references taken
 by other threads

---
 src/core/Object.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Object.cpp b/src/core/Object.cpp
index ea2b55a..321f24d 100644
--- a/src/core/Object.cpp
+++ b/src/core/Object.cpp
@@ -105,7 +105,10 @@ void Object::printDiffInfo(DiffOperation, Object*) const
 
 void Object::setHighBit(bool status) noexcept
 {
+   // The flag shares its word with the reference counter, which other threads may be changing.
+   if(mPool != nullptr)mPool->mutex()->lock();
    mRefCount = referenceCount() | (status ? 0x80000000 : 0x00000000);
+   if(mPool != nullptr)mPool->mutex()->unlock();
 }
 
 bool Object::highBit()const noexcept
-- 
2.43.0


From cf78462c53e046db6ef51d4ed9c9ad7e95e899ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 72/96] fix: interrupting a thread that has just been started
 never returned

---
 src/core/Thread.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 8ce9893..82ccf43 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -39,10 +39,6 @@ void* StartThread(void* arg)
 {
    Thread* t = (Thread*)arg;
 
-   pthread_mutex_lock(&t->criticalSection);
-   t->alive = true;
-   pthread_mutex_unlock(&t->criticalSection);
-
    t->run();
    pthread_exit(nullptr);
 }
@@ -96,8 +92,19 @@ void Thread::start()
    #if defined __APPLE__ || defined __linux__
    void* arg = (void*)this;
 
+   // Alive from now on: an interrupt() right after this call must not be undone by the new thread.
+   pthread_mutex_lock(&criticalSection);
+   alive = true;
+   pthread_mutex_unlock(&criticalSection);
+
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
-   if(ret != 0)throw Exception("Error on starting Thread");
+   if(ret != 0)
+   {
+      pthread_mutex_lock(&criticalSection);
+      alive = false;
+      pthread_mutex_unlock(&criticalSection);
+      throw Exception("Error on starting Thread");
+   }
    #elif defined _WIN32
    void* arg = (void*)this;
    mHandle = CreateThread(0, 0, StartThread, arg, 0, &mThreadID);
-- 
2.43.0


From 2c71ce05f23e07619acc84605eb22dc66c48f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 73/96] fix: a thread about to sleep missed its interruption
 and was waited for for ever

---
 include/core/Thread.h | 5 +++++
 src/core/Thread.cpp   | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/core/Thread.h b/include/core/Thread.h
index f314b43..7d388ed 100644
--- a/include/core/Thread.h
+++ b/include/core/Thread.h
@@ -85,6 +85,11 @@ namespace jm
           */
          bool alive;
 
+         /*!
+          \brief True from interrupt() to the next start(). An interrupted thread does not go to sleep.
+          */
+         bool interrupted;
+
          /*!
           \brief This method must be implemented by derived classes. It is the main method
           that runs on the new thread. It is executed when the thread is started.
diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 82ccf43..75a1cd4 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -67,6 +67,7 @@ Thread::Thread(): jm::Object()
    #if defined __APPLE__ || defined __linux__
    thread = 0;
    alive = false;
+   interrupted = false;
    pthread_condattr_init(&attrc);
    pthread_cond_init(&cond, &attrc);
 
@@ -95,6 +96,7 @@ void Thread::start()
    // Alive from now on: an interrupt() right after this call must not be undone by the new thread.
    pthread_mutex_lock(&criticalSection);
    alive = true;
+   interrupted = false;
    pthread_mutex_unlock(&criticalSection);
 
    int ret = pthread_create(&thread, nullptr, StartThread, arg);
@@ -132,7 +134,7 @@ void Thread::sleep(int64 millis)
    ts.tv_nsec = ts.tv_nsec % 1000000000L;
 
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_timedwait(&cond, &criticalSection, &ts);
+   if(!interrupted)pthread_cond_timedwait(&cond, &criticalSection, &ts);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    ::Sleep(millis);
@@ -161,7 +163,7 @@ void Thread::sleep()
 {
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
-   pthread_cond_wait(&cond, &criticalSection);
+   if(!interrupted)pthread_cond_wait(&cond, &criticalSection);
    pthread_mutex_unlock(&criticalSection);
    #elif defined _WIN32
    //	EnterCriticalSection((CRITICAL_SECTION*)mCriticalSection);
@@ -184,6 +186,7 @@ void Thread::interrupt()
    #if defined __APPLE__ || defined __linux__
    pthread_mutex_lock(&criticalSection);
    alive = false;
+   interrupted = true;
    pthread_mutex_unlock(&criticalSection);
    pthread_cond_signal(&cond);
    pthread_join(thread, nullptr);
-- 
2.43.0


From e839be1e434af9ed958195ce23985425e4291422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:24 +0000
Subject: [PATCH 74/96] fix: interrupting a thread twice or before its start
 crashed

---
 src/core/Thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 75a1cd4..1511720 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -189,7 +189,7 @@ void Thread::interrupt()
    interrupted = true;
    pthread_mutex_unlock(&criticalSection);
    pthread_cond_signal(&cond);
-   pthread_join(thread, nullptr);
+   if(thread != 0 && pthread_join(thread, nullptr) == 0)thread = 0;
    #elif defined _WIN32
    TerminateThread(mHandle, 0);
    #endif
-- 
2.43.0


From f5f0bfd3f85dab0b64b1b458e12a2e0d6360defb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 75/96] fix: the differences listed wrong objects when a
 sequence had been switched or objects were removed

---
 src/core/DiffBacktrace.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/DiffBacktrace.cpp b/src/core/DiffBacktrace.cpp
index 246c60a..32fe2f0 100644
--- a/src/core/DiffBacktrace.cpp
+++ b/src/core/DiffBacktrace.cpp
@@ -155,8 +155,9 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
 
          case DiffOperation::kDiffModified:
             //			ret->last=Backtrace(diag,i-1);
-            ret->mObj1 = diag->objectU(i);
-            ret->mObj2 = diag->objectV(i);
+            // The diagonals below the main diagonal see the sequences switched.
+            ret->mObj1 = diag->offset() >= 0 ? diag->objectU(i) : diag->objectV(i);
+            ret->mObj2 = diag->offset() >= 0 ? diag->objectV(i) : diag->objectU(i);
             i--;
             break;
 
@@ -177,7 +178,7 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             else
             {
                //				ret->last=Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
@@ -187,14 +188,14 @@ DiffBacktrace* DiffBacktrace::backtrace(DiffDiag* diag, int64 i)
             if(diag->offset() == 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
             else if(diag->offset() >= 0)
             {
                //				ret->last =Backtrace(diag->GetAbove(),i-1);
-               ret->mObj1 = diag->objectV(i);
+               ret->mObj1 = diag->objectU(i);
                diag = diag->above();
                i--;
             }
-- 
2.43.0


From f825f626e7a0e559d8672e379696c8c7195f7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:28 +0000
Subject: [PATCH 76/96] fix: dark colours became white when converted to grey
 scale, and white was not kept

---
 src/core/Color.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index 6dbdcaf..bc1d526 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -127,8 +127,8 @@ void Color::toGreyScale()
          // G = 0.2126 R + 0.7152 G + 0.0722 B.
          float grey = 0.2126f * col.rgb.red +
                       0.7152f * col.rgb.green +
-                      0.0733f * col.rgb.blue;
-         col.g.grey = std::min(static_cast<int8>(255), static_cast<int8>(grey));
+                      0.0722f * col.rgb.blue;
+         col.g.grey = static_cast<uint8>(std::min(255.0f, grey + 0.5f));
          mAlpha = 255;
          break;
       }
-- 
2.43.0


From cdf5c15201e655d264804798d264e366af6fd8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 77/96] fix: blending transparent colours overflowed their
 components

---
 src/core/Color.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/Color.cpp b/src/core/Color.cpp
index bc1d526..bb8048e 100644
--- a/src/core/Color.cpp
+++ b/src/core/Color.cpp
@@ -462,11 +462,14 @@ uint8 PorterDuffColour(uint8 colourBackground, uint8 alphaBackground, uint8 colo
    float alphaB = alphaBackground / 255.0f;
    float A = colourForeground / 255.0f;
    float B = colourBackground / 255.0f;
-   float alphaC = PorterDuffAlpha(alphaBackground, alphaForeground) / 255.0f;
+   float alphaC = alphaA + (1 - alphaA) * alphaB;
+
+   // Nothing visible, no colour
+   if(alphaC <= 0.0f)return 0;
 
    float C = (alphaA * A + (1 - alphaA) * alphaB * B) / alphaC;
 
-   return (uint8)(C * 255);
+   return (uint8)std::min(255.0f, C * 255 + 0.5f);
 }
 
 Color jm::blend(Color background, Color foreground, uint8 alpha)
-- 
2.43.0


From 615db7200401b0e5bd84d3a28628d4ea9d5ae3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:37 +0000
Subject: [PATCH 78/96] fix: adding a box of plane points made the other box
 infinitely high

---
 src/core/Extents.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/core/Extents.cpp b/src/core/Extents.cpp
index c8f1036..a1b7154 100644
--- a/src/core/Extents.cpp
+++ b/src/core/Extents.cpp
@@ -62,8 +62,13 @@ void Extents::add(const Extents& ext)
 {
    if(!ext.isValid())return;
 
-   add(ext.mPtMin);
-   add(ext.mPtMax);
+   mPtMin.x = std::min(mPtMin.x, ext.mPtMin.x);
+   mPtMin.y = std::min(mPtMin.y, ext.mPtMin.y);
+   mPtMin.z = std::min(mPtMin.z, ext.mPtMin.z);
+
+   mPtMax.x = std::max(mPtMax.x, ext.mPtMax.x);
+   mPtMax.y = std::max(mPtMax.y, ext.mPtMax.y);
+   mPtMax.z = std::max(mPtMax.z, ext.mPtMax.z);
 }
 
 const Vertex3& Extents::minPoint()const
-- 
2.43.0


From d78acf873a706b7495b2096fa3d25067c50f1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 79/96] fix: swapping a number with itself made it zero

---
 src/core/Math.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/core/Math.cpp b/src/core/Math.cpp
index 2f0e4a9..39573b8 100644
--- a/src/core/Math.cpp
+++ b/src/core/Math.cpp
@@ -124,30 +124,30 @@ void jm::swap(double& v1, double& v2)
 
 void jm::swap(int32& v1, int32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   int32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint32& v1, uint32& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint32 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint16& v1, uint16& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint16 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 void jm::swap(uint8& v1, uint8& v2)
 {
-   v1 = v1 ^ v2;
-   v2 = v2 ^ v1;
-   v1 = v1 ^ v2;
+   uint8 tmp = v1;
+   v1 = v2;
+   v2 = tmp;
 }
 
 double jm::random()
-- 
2.43.0


From f150c684014bf1c5f4c64b7846fa16fed1ba32a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 80/96] fix: matrices of equal size that are not square could
 not be added, others were read beyond their end

---
 src/core/Matrix.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index eacf59e..fb7ed20 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -910,8 +910,8 @@ const Matrix jm::operator*(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
@@ -935,8 +935,8 @@ const Matrix jm::operator+(Matrix const& A, Matrix const& B)
 
 const Matrix jm::operator-(Matrix const& A, Matrix const& B)
 {
-   //Die Spaltenanzahl der linken Matrix muss mit der Zeilenanzahl der Rechten Matrix übereinstimmen
-   if(A.n != B.m) throw
+   // Both matrices must have the same number of rows and columns
+   if(A.m != B.m || A.n != B.n) throw
       jm::Exception("Die Matrizen passen nicht zusammen! A: ");   //'+IntToStr(A.m)+'x'+IntToStr(A.n)+' B:'+IntToStr(B.m)+'x'+IntToStr(B.n));
 
    Matrix R = Matrix(A.m, B.n);
-- 
2.43.0


From 115eefc737ebd3239708b4d8fd85fd8169bd311d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 81/96] fix: the rotation between equal directions was not a
 number

---
 src/core/Matrix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index fb7ed20..0ed8e22 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -1089,7 +1089,7 @@ Matrix Matrix::generate3x3RotationMatrix(const jm::Vertex3& u, const jm::Vertex3
    jm::Vertex3 v_norm = v.normalized();
 
    // Calculate the dot product
-   double cosTheta = u_norm.dotProduct(v_norm);
+   double cosTheta = std::max(-1.0, std::min(1.0, u_norm.dotProduct(v_norm)));
 
    // Check if the angle is π (cosTheta is -1)
    if(jm::isEqual(cosTheta, -1.0))
-- 
2.43.0


From ee132e3d2008d775fc6e58f2bbaf60c1a9813054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 82/96] fix: transforming an angle lost its sign

---
 src/core/Matrix.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/Matrix.cpp b/src/core/Matrix.cpp
index 0ed8e22..ee5917d 100644
--- a/src/core/Matrix.cpp
+++ b/src/core/Matrix.cpp
@@ -829,9 +829,7 @@ double Matrix::transAngle(double angle) const
 
    direction -= center;
 
-   double newrotation = direction.angleTo(x);
-
-   return newrotation;
+   return std::atan2(direction.y, direction.x);
 }
 
 
-- 
2.43.0


From 6b5874234f0da6be1bc1b9e0a96b44a0505f7a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 83/96] fix: the biggest component of a vector was wrong if two
 are equal

---
 src/core/Vertex3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index b50d91e..f2e715e 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -165,7 +165,7 @@ Vertex3 Vertex3::scale(const Vertex3& another)const
 
 double Vertex3::biggest() const
 {
-   return (x > y && x > z) ? x : ((y > x && y > z) ? y : z);
+   return std::max(x, std::max(y, z));
 }
 
 /*
-- 
2.43.0


From 65c471eb3661ce2860d654723c23743684c66f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:23 +0000
Subject: [PATCH 84/96] fix: the angle between parallel vectors was not a
 number

---
 src/core/Vertex2.cpp | 3 ++-
 src/core/Vertex3.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/Vertex2.cpp b/src/core/Vertex2.cpp
index 7e3b414..183ede3 100644
--- a/src/core/Vertex2.cpp
+++ b/src/core/Vertex2.cpp
@@ -93,7 +93,8 @@ double Vertex2::angleTo(const Vertex2& another) const
 
    // Same sign convention as in SVG
    double sgn = crossProduct(another) > 0 ? 1 : -1;
-   double angle = acos(tmp) * sgn;
+   // Rounding may exceed the range of acos
+   double angle = acos(std::max(-1.0, std::min(1.0, tmp))) * sgn;
 
    return angle;
 }
diff --git a/src/core/Vertex3.cpp b/src/core/Vertex3.cpp
index f2e715e..fbc1fb9 100644
--- a/src/core/Vertex3.cpp
+++ b/src/core/Vertex3.cpp
@@ -76,7 +76,8 @@ bool Vertex3::isOrthogonal(const Vertex3& another) const
 double Vertex3::angleTo(const Vertex3& another) const
 {
    double angle = this->dotProduct(another) / (this->abs() * another.abs());
-   return acos(angle);
+   // Rounding may exceed the range of acos
+   return acos(std::max(-1.0, std::min(1.0, angle)));
 }
 
 double Vertex3::abs() const
-- 
2.43.0


From 2f38898401d27fd6b554acea8556311d00dfc43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 85/96] fix: arcs with a negative start angle contained wrong
 angles

---
 src/core/Geometry.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index a189d3c..8687db3 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -499,6 +499,7 @@ bool CheckAngle(const Vertex2& point,
    double const DBL_PI = 2 * M_PI;
 
    // Ensure that the start angle is in the range of 0-2PI
+   while(isLess(start, 0.0))start += DBL_PI;
    while(isGreaterEqual(start, DBL_PI))start -= DBL_PI;
 
    // Ensure that the start angle is greater than start, but not multiple times greater
-- 
2.43.0


From bf3d9a7d9f19239a030e6af7fe47df5eb194db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 86/96] fix: the extension to an ellipse ignored its main axis
 and missed the ellipse

---
 src/core/Geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 8687db3..c5145ef 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -641,7 +641,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
 
    // First, the ellipse and the vector must be rotated so that the ellipse lies with the main axis
    // on the x-axis.
-   double angle = std::atan2(center_.y, center_.x);
+   double angle = std::atan2(mainAxis.y, mainAxis.x);
 
    Vertex2 center = center_;
    center.rotate(-angle);
@@ -676,7 +676,7 @@ Vertex2 jm::extensionPointOnEllipse(const Vertex2& rayorigin_,
    double div = (direction.x * direction.x / a2) + (direction.y * direction.y / b2);
 
    double p = 2 * ((direction.x * qx / a2) + (direction.y * qy / b2)) / div;
-   double q = ((qx * qx / a2) + (qy * qy / b) - 1.0) / div;
+   double q = ((qx * qx / a2) + (qy * qy / b2) - 1.0) / div;
 
    Vertex2 result = PQCheck(p, q, rayorigin, direction, center, start, end);
    if(result.isValid())result.rotate(angle);
-- 
2.43.0


From b24d3a004c99cc297f9d3d558b33048f2ade6923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 87/96] fix: no point was on a plane without tolerance

---
 src/core/Geometry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index c5145ef..8f61b82 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -326,7 +326,7 @@ bool jm::isPointOnPlane(const Vertex3& point,
                         double maxDistance)
 {
    double dist = distancePointToPlane(point, position, normal);
-   return isLess(dist, maxDistance);
+   return isLessEqual(dist, maxDistance);
 }
 
 bool jm::isPointOnLine(const Vertex3& point,
-- 
2.43.0


From 118a771c0d8849547b07d424cce868a43abffa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 88/96] fix: touching circles did not intersect because of
 rounding

---
 src/core/Geometry.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Geometry.cpp b/src/core/Geometry.cpp
index 8f61b82..504add3 100644
--- a/src/core/Geometry.cpp
+++ b/src/core/Geometry.cpp
@@ -89,7 +89,7 @@ void jm::intersectionPointsOfCircles(const Vertex2& center1,
    double d = std::sqrt((x2 - x1) * (x2 - x1) + (y2 - y1) * (y2 - y1));
 
    // Check if circles do not intersect
-   if(d > r1 + r2 || d < std::abs(r1 - r2) || (d == 0 && r1 == r2))
+   if(isGreater(d, r1 + r2) || isLess(d, std::abs(r1 - r2)) || (isEqual(d, 0.0) && isEqual(r1, r2)))
    {
       intersection1 = jm::Vertex2(NAN, NAN);
       intersection2 = jm::Vertex2(NAN, NAN);
@@ -97,7 +97,7 @@ void jm::intersectionPointsOfCircles(const Vertex2& center1,
    }
 
    double a = (r1 * r1 - r2 * r2 + d * d) / (2 * d);
-   double h = std::sqrt(r1 * r1 - a * a);
+   double h = std::sqrt(std::max(0.0, r1 * r1 - a * a));
 
    double px = x1 + a * (x2 - x1) / d;
    double py = y1 + a * (y2 - y1) / d;
-- 
2.43.0


From 9c55356ebabd5d792c02a5f53d4e426077ad7c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 89/96] fix: the last point of a NURBS was undefined

---
 src/core/NURBS.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index 206a449..faed3ce 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -81,6 +81,9 @@ double Nurbs::N(uint32 i, uint32 k, double t)
    if(k == 0)
    {
       if(mKnots[i] <= t && t < mKnots[i + 1]) return 1.0;
+
+      // The last knot belongs to the last span which is not empty
+      if(mKnots[i] < t && t == mKnots[i + 1] && t == mKnots[mKnotCount - 1]) return 1.0;
       return 0.0;
    }
 
-- 
2.43.0


From 517e271c2fa605a2c59b65e8b00d8781e3faa44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:25 +0000
Subject: [PATCH 90/96] fix: the end of a NURBS was beyond its last knot

---
 src/core/NURBS.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/NURBS.cpp b/src/core/NURBS.cpp
index faed3ce..edaa107 100644
--- a/src/core/NURBS.cpp
+++ b/src/core/NURBS.cpp
@@ -134,9 +134,7 @@ double Nurbs::start()
 double Nurbs::end()
 {
    if(mKnotCount < 1)return 0;
-   double m = mControlCount - mDegree + 2;
-   if(m < mKnots[mKnotCount - 1])m = mKnots[mKnotCount - 1];
-   return m;
+   return mKnots[mKnotCount - 1];
 }
 
 uint32 Nurbs::controlPointCount()
-- 
2.43.0


From c50c6626be95c9c71b1fe37b95c21c6771603d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:44 +0000
Subject: [PATCH 91/96] fix: a property set to a boolean keeps no part of its
 former number

---
 src/core/Property.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Property.cpp b/src/core/Property.cpp
index 7412b74..87cb52b 100644
--- a/src/core/Property.cpp
+++ b/src/core/Property.cpp
@@ -197,6 +197,8 @@ double Property::doubleValue() const
 
 Status Property::setBoolValue(bool value)
 {
+   // The other bytes must not keep parts of a former value, as values are compared as a whole.
+   mNumberValue.intValue = 0;
    mNumberValue.boolValue = value;
    mType = PropertyType::kBoolean;
    return Status::eOK;
-- 
2.43.0


From e418f37cbe3edef61a0b54867aceb4c270224bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:11 +0000
Subject: [PATCH 92/96] fix: Preferences::setValue() stored "true" for a text
 literal

---
 include/core/Preferences.h | 7 +++++++
 src/core/Preferences.cpp   | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/include/core/Preferences.h b/include/core/Preferences.h
index 712cb67..335defb 100644
--- a/include/core/Preferences.h
+++ b/include/core/Preferences.h
@@ -85,6 +85,13 @@ namespace jm
           */
          void setValue(const String& key, const String& value);
 
+         /*!
+          \brief Sets the property to the given text. A text literal would otherwise be taken for a boolean.
+          \param key The property key.
+          \param value The value.
+          */
+         void setValue(const String& key, const char* value);
+
          /*!
           \brief Sets the property. Essentially calls the Put() method of Hashtable, but ensures that strings are used.
           \param key The property key.
diff --git a/src/core/Preferences.cpp b/src/core/Preferences.cpp
index 9a4077b..25cdfed 100644
--- a/src/core/Preferences.cpp
+++ b/src/core/Preferences.cpp
@@ -208,6 +208,11 @@ void Preferences::setValue(const String& key, const String& value)
    if(old != nullptr)delete old;
 }
 
+void Preferences::setValue(const String& key, const char* value)
+{
+   setValue(key, String(value));
+}
+
 void Preferences::setValue(const String& key, int64 value)
 {
    setValue(key, String::valueOf(value));
-- 
2.43.0


From c6425296ec14c946c9378ac09c934c64855e6c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:16 +0000
Subject: [PATCH 93/96] fix: System::language() was no language if the
 categories of the locale differ

---
 src/core/System.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/System.cpp b/src/core/System.cpp
index 802ca29..23585ea 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -65,7 +65,7 @@ jm::String jm::System::language()
    }
 
    // Use nl_langinfo to get the language
-   const char* language = setlocale(LC_ALL, nullptr);
+   const char* language = setlocale(LC_MESSAGES, nullptr);
 
    jm::String lang = jm::String(language);
    int64 index = lang.indexOf('.');
-- 
2.43.0


From eb5eb02b9475ffd1bbd77186b94cfc2192f2e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:40 +0000
Subject: [PATCH 94/96] fix: Thread::setName() crashed for a thread that does
 not run

---
 src/core/Thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/Thread.cpp b/src/core/Thread.cpp
index 1511720..a9ab84d 100644
--- a/src/core/Thread.cpp
+++ b/src/core/Thread.cpp
@@ -218,6 +218,8 @@ void Thread::setName(const jm::String& name)
    #if defined __APPLE__
    pthread_setname_np(name.toCString().constData());
    #elif defined __linux__
+   // No thread, no name: it does not run yet, or not any more
+   if(thread == 0)return;
    ByteArray cstr = name.toCString();
    pthread_setname_np(thread, cstr.constData());
    #elif defined _WIN32
-- 
2.43.0


From 5110f9f17f968bcaadb9dc71a7cd550d70f26959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:49:12 +0000
Subject: [PATCH 95/96] fix: System::lastErrorMessage() read the message while
 another thread was logging

---
 include/core/System.h | 2 +-
 src/core/System.cpp   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/core/System.h b/include/core/System.h
index 0989ea2..ae13bd5 100644
--- a/include/core/System.h
+++ b/include/core/System.h
@@ -124,7 +124,7 @@ namespace jm
          /*!
           \brief Returns the last error message
           */
-         static const String& lastErrorMessage();
+         static String lastErrorMessage();
 
          /*!
           \brief This method loads a dynamic library. On macOS *.dylib, Windows *.dll, and Linux *.so
diff --git a/src/core/System.cpp b/src/core/System.cpp
index 23585ea..6a39cb9 100644
--- a/src/core/System.cpp
+++ b/src/core/System.cpp
@@ -184,9 +184,13 @@ void jm::System::log(const String& message, LogLevel logLevel)
    gSystemMutex.unlock();
 }
 
-const jm::String& jm::System::lastErrorMessage()
+jm::String jm::System::lastErrorMessage()
 {
-   return gSystemError;
+   gSystemMutex.lock();
+   jm::String message = gSystemError;
+   gSystemMutex.unlock();
+
+   return message;
 }
 
 
-- 
2.43.0


From a1c6d1054fdd9b9cc8b495a2f4a469b1cc76d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:07 +0000
Subject: [PATCH 96/96] fix: natural order of numbers with many digits

---
 src/core/String.cpp | 100 ++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 59 deletions(-)

diff --git a/src/core/String.cpp b/src/core/String.cpp
index 5a83865..aef6d8c 100644
--- a/src/core/String.cpp
+++ b/src/core/String.cpp
@@ -696,76 +696,58 @@ int32 String::compareTo(const String& another) const
 
 int32 String::compareFancyTo(const String& another) const
 {
-   //Wandle String in 32bit-Zahlen um, wobei Nummernbestandteile direkt umgewandelt werden.
-   uint32 str1[256];
-   uint32 str2[256];
+   const int64 strl1 = std::min(mStrLength, (int64)256);
+   const int64 strl2 = std::min(another.mStrLength, (int64)256);
 
-   int64 strl1 = std::min(mStrLength, (int64)256);
-   int64 strl2 = std::min(another.mStrLength, (int64)256);
-
-   uint32 l1, l2;
-
-   //Konvertiere 1. String
-   uint32 cntin = 0;
-   uint32 cntout = 0;
-   while(cntin < strl1)
+   int64 pos1 = 0;
+   int64 pos2 = 0;
+   while(pos1 < strl1 && pos2 < strl2)
    {
-      if(mValue[cntin].isDigit())
+      // The next part of each string is a single character or a whole number
+      int64 end1 = pos1 + 1;
+      int64 end2 = pos2 + 1;
+      const bool number1 = mValue[pos1].isDigit();
+      const bool number2 = another.mValue[pos2].isDigit();
+
+      // The zeros in front do not count, except for the last digit
+      if(number1)
       {
-         uint32 number = mValue[cntin].digitValue();
-         while(cntin + 1 < strl1 && mValue[cntin + 1].isDigit())
-         {
-            cntin++;
-            number *= 10;
-            number += mValue[cntin].digitValue();
-         }
-         str1[cntout] = number;
+         while(end1 < strl1 && mValue[end1].isDigit())end1++;
+         while(pos1 < end1 - 1 && mValue[pos1] == '0')pos1++;
+      }
+      if(number2)
+      {
+         while(end2 < strl2 && another.mValue[end2].isDigit())end2++;
+         while(pos2 < end2 - 1 && another.mValue[pos2] == '0')pos2++;
       }
-      else str1[cntout] = mValue[cntin].unicode();
-
-      cntin++;
-      cntout++;
-   }
-   l1 = cntout;
 
-   // Convert 2nd String
-   cntin = 0;
-   cntout = 0;
-   while(cntin < strl2)
-   {
-      if(another.mValue[cntin].isDigit())
+      if(number1 && number2)
       {
-         uint32 number = another.mValue[cntin].digitValue();
-         while(cntin + 1 < strl2 && another.mValue[cntin + 1].isDigit())
+         // The number with more digits is the greater one, whatever their count
+         if(end1 - pos1 < end2 - pos2)return -1;
+         if(end1 - pos1 > end2 - pos2)return 1;
+         for(; pos1 < end1; pos1++, pos2++)
          {
-            cntin++;
-            number *= 10;
-            number += another.mValue[cntin].digitValue();
+            if(mValue[pos1] < another.mValue[pos2])return -1;
+            if(mValue[pos1] > another.mValue[pos2])return 1;
          }
-         str2[cntout] = number;
       }
-      else str2[cntout] = another.mValue[cntin].unicode();
-
-      cntin++;
-      cntout++;
-   }
-   l2 = cntout;
-
-   // Compare
-   uint32 smallest = std::min(l1, l2);
-
-   uint32 cnt = 0;
-   while(cnt < smallest)
-   {
-      uint32 c1 = str1[cnt];
-      uint32 c2 = str2[cnt];
-      if(c1 < c2)return -1;
-      if(c1 > c2)return 1;
-      cnt++;
+      else
+      {
+         // A number and a character: the number with its value. No character has a code of more than 5 digits.
+         uint32 c1 = mValue[pos1].unicode();
+         uint32 c2 = another.mValue[pos2].unicode();
+         if(number1)for(c1 = 0; pos1 < end1 && c1 < 0x10000; pos1++)c1 = c1 * 10 + mValue[pos1].digitValue();
+         if(number2)for(c2 = 0; pos2 < end2 && c2 < 0x10000; pos2++)c2 = c2 * 10 + another.mValue[pos2].digitValue();
+         if(c1 < c2)return -1;
+         if(c1 > c2)return 1;
+         pos1 = end1;
+         pos2 = end2;
+      }
    }
 
-   if(l1 < l2)return -1;
-   if(l1 > l2)return 1;
+   if(pos1 < strl1)return 1;
+   if(pos2 < strl2)return -1;
 
    return 0;
 }
-- 
2.43.0

