From d829e380b890c72e4368603e0575473d25e20b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:20 +0000
Subject: [PATCH 01/46] fix: convert finite floats which overflow float16 to
 infinity and keep NaN as NaN

---
 runtime/src/zserio/FloatUtil.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..2a58a8f 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -108,16 +108,22 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // NaN which would lose all its significand bits must not become infinity
+            significand16 = static_cast<uint16_t>(1U << (FLOAT16_SIGNIFICAND_NUM_BITS - 1U));
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= static_cast<int16_t>(FLOAT16_EXPONENT_INFINITY_NAN))
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
-- 
2.43.0


From ff73018aab202fc8a7aa551c4ecb1f5ce637706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 02/46] fix: support bit stream alignment wider than 64 bits

---
 runtime/src/zserio/BitStreamReader.cpp | 3 +--
 runtime/src/zserio/BitStreamWriter.cpp | 8 ++++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..2913eba 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -865,8 +865,7 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        setBitPosition(getBitPosition() + (alignment - offset));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..0ccaa97 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -533,8 +533,12 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        BitPosType skip = alignment - offset;
+        for (; skip > 64; skip -= 64)
+        {
+            writeUnsignedBits64(0, 64);
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From c8522c15af5eead0a1218e3d618bf3d8662f2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 03/46] fix: do not negate the minimum signed value when
 calculating varint bit size

---
 runtime/src/zserio/Types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Types.cpp b/runtime/src/zserio/Types.cpp
index 573783d..1dbe3a7 100644
--- a/runtime/src/zserio/Types.cpp
+++ b/runtime/src/zserio/Types.cpp
@@ -112,7 +112,8 @@ static BitSize bitSizeOfVarIntImpl(
 template <typename T>
 static uint64_t convertToAbsValue(typename T::ValueType value)
 {
-    return static_cast<uint64_t>((value < 0) ? -value : value);
+    // negate as unsigned to prevent signed overflow for the minimum value
+    return (value < 0) ? 0 - static_cast<uint64_t>(value) : static_cast<uint64_t>(value);
 }
 
 BitSize bitSizeOf(VarInt16 value, BitSize)
-- 
2.43.0


From 84b676de5fafbe0f26ecc789fea026632c12593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 04/46] fix: keep bit stream reader position and cache
 consistent after failed read

---
 runtime/src/zserio/BitStreamReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 2913eba..da00a1a 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -297,6 +297,12 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
     BaseType value = 0;
     if (ctx.cacheNumBits < numBits)
     {
+        // check the end of stream before the cache is consumed to keep the context consistent when it fails
+        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
+        {
+            throwEof();
+        }
+
         // read all remaining cache bits
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
-- 
2.43.0


From 500de6db7192d0b1fb91426d7042bb9455db9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 05/46] fix: prevent overflow when rounding bit size up to
 bytes

---
 runtime/src/zserio/BitBuffer.h         | 6 +++---
 runtime/src/zserio/BitStreamReader.cpp | 7 ++++---
 runtime/src/zserio/BitStreamWriter.cpp | 6 +++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..804749e 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -278,7 +278,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -293,7 +293,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0);
     if (buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
@@ -312,7 +312,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
+    const size_t byteSize = bitSize / 8 + (bitSize % 8 != 0 ? 1 : 0);
     if (m_buffer.size() < byteSize)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index da00a1a..9b41ea6 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -390,16 +390,17 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    if (buffer.size() < bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0))
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0) << "')!";
     }
 }
 
 BitStreamReader::BitStreamReader(
         const uint8_t* buffer, size_t bufferBitSize, BitsTag, ArrayPreallocation maxArrayPrealloc) :
-        m_context(Span<const uint8_t>(buffer, (bufferBitSize + 7) / 8), bufferBitSize, maxArrayPrealloc)
+        m_context(Span<const uint8_t>(buffer, bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0)),
+                bufferBitSize, maxArrayPrealloc)
 {}
 
 uint32_t BitStreamReader::readUnsignedBits32(uint8_t numBits)
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 0ccaa97..6dafd3b 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -319,7 +319,7 @@ static const std::array<int64_t, 65> MAX_I64_VALUES = {
 BitStreamWriter::InsufficientCapacityException::~InsufficientCapacityException() = default;
 
 BitStreamWriter::BitStreamWriter(uint8_t* buffer, size_t bufferBitSize, BitsTag) :
-        m_buffer(buffer, (bufferBitSize + 7) / 8),
+        m_buffer(buffer, bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0)),
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {}
@@ -339,10 +339,10 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    if (buffer.size() < bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0))
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
-                << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
+                << buffer.size() << "' < '" << bufferBitSize / 8 + (bufferBitSize % 8 != 0 ? 1 : 0) << "')!";
     }
 }
 
-- 
2.43.0


From e6a97e00f3feb0677c0a326f8eea97cbb5507180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 06/46] fix: prevent overflow of bit position when writing
 bytes or strings of 512 MiB and more

---
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 6dafd3b..70b75ef 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -484,7 +484,7 @@ void BitStreamWriter::writeBytes(BytesView data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.end(), m_buffer.begin() + beginBitPosition / 8);
@@ -510,7 +510,7 @@ void BitStreamWriter::writeString(std::string_view data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.begin() + len, m_buffer.data() + beginBitPosition / 8);
-- 
2.43.0


From 73ac856ae84b3e91811a9b5375e61826565ea207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 07/46] fix: reject varsize encodings with bits above the
 32-bit range

---
 runtime/src/zserio/BitStreamReader.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 9b41ea6..62f3387 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -789,31 +789,31 @@ VarUInt BitStreamReader::readVarUInt()
 VarSize BitStreamReader::readVarSize()
 {
     uint8_t byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 1
-    uint32_t result = byte & VARUINT_BYTE;
+    uint64_t result = byte & VARUINT_BYTE;
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 2
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 3
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     byte = static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 4
     result = result << 7U | static_cast<uint8_t>(byte & VARUINT_BYTE);
     if ((byte & VARUINT_HAS_NEXT) == 0)
     {
-        return result;
+        return static_cast<uint32_t>(result);
     }
 
     result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
@@ -823,7 +823,7 @@ VarSize BitStreamReader::readVarSize()
                 << result << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(result);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From 5f5ae34fadb230c7fe056e09c073d9a1cee2fcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 08/46] fix: prevent overflow when checking length of array
 before reading

---
 runtime/src/zserio/ArrayView.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index a0b0405..934123f 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -603,15 +603,14 @@ void read(BitStreamReader& reader, Vector<T, ALLOC>& rawArray, detail::array_own
     if constexpr (std::is_base_of_v<NumericArrayTraits<T>, ARRAY_TRAITS>)
     {
         const size_t elementSize = ARRAY_TRAITS::bitSizeOf();
-        if (reader.getBitPosition() + readLength * static_cast<uint64_t>(elementSize) >
-                reader.getBufferBitSize())
+        if (readLength > (reader.getBufferBitSize() - reader.getBitPosition()) / elementSize)
         {
             throw CppRuntimeException("ArrayView: Array size exceeds available buffer!");
         }
     }
 
     size_t reserve = readLength;
-    if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+    if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
     {
         reserve = reader.getMaxArrayPreallocation() / sizeof(T);
     }
@@ -824,7 +823,7 @@ void readPacked(BitStreamReader& reader, Vector<T, ALLOC>& rawArray,
         rawArray.clear();
 
         size_t reserve = readLength;
-        if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+        if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
         {
             reserve = reader.getMaxArrayPreallocation() / sizeof(T);
         }
-- 
2.43.0


From ce7fdc51ee85e8ca6c289bac8f8627ad9aa0f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 09/46] fix: keep optional valid when assigned from its own
 value or from a part of it

---
 runtime/src/zserio/Optional.h | 60 ++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..cc5edbb 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -294,12 +294,7 @@ public:
     {
         if (this != &other)
         {
-            clear();
-            if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
-            {
-                set_allocator(other.get_allocator_ref());
-            }
-            copy(other);
+            assign(other, typename AllocTraits::propagate_on_container_copy_assignment());
         }
 
         return *this;
@@ -317,12 +312,7 @@ public:
     template <typename A, typename U>
     BasicOptional& operator=(const BasicOptional<A, U>& other)
     {
-        clear();
-        if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
-        {
-            set_allocator(other.get_allocator_ref());
-        }
-        copy(other);
+        assign(other, typename AllocTraits::propagate_on_container_copy_assignment());
 
         return *this;
     }
@@ -350,6 +340,15 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
+        if constexpr (!detail::is_optional_heap_allocated_v<T> && std::is_assignable_v<T&, U>)
+        {
+            // the value can be a part of the currently hold value which would be destroyed by emplace
+            if (has_value())
+            {
+                m_data.value() = std::forward<U>(value);
+                return *this;
+            }
+        }
         emplace(std::forward<U>(value));
         return *this;
     }
@@ -392,12 +391,7 @@ public:
     {
         if (this != &other)
         {
-            clear();
-            if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
-            {
-                set_allocator(std::move(other.get_allocator_ref()));
-            }
-            move(std::move(other));
+            assign(std::move(other), typename AllocTraits::propagate_on_container_move_assignment());
         }
 
         return *this;
@@ -440,12 +434,7 @@ public:
     {
         static_assert(!std::is_same_v<T, U>);
 
-        clear();
-        if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
-        {
-            set_allocator(std::move(other.get_allocator_ref()));
-        }
-        move(std::move(other));
+        assign(std::move(other), typename AllocTraits::propagate_on_container_move_assignment());
         return *this;
     }
 
@@ -514,10 +503,11 @@ public:
     template <typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        clear();
         if constexpr (detail::is_optional_heap_allocated_v<T>)
         {
+            // arguments can refer to the currently hold value, so it can be destroyed only afterwards
             T* ptr = allocateValue(std::forward<ARGS>(args)...);
+            clear();
             return *m_data.emplace(ptr);
         }
         else
@@ -740,6 +730,26 @@ private:
         }
     }
 
+    // The new value is created before the old one is destroyed because the other can be a part of the old value.
+    template <typename OTHER, bool PROPAGATE>
+    void assign(OTHER&& other, std::bool_constant<PROPAGATE>)
+    {
+        if constexpr (PROPAGATE)
+        {
+            const ALLOC allocator = other.get_allocator();
+            BasicOptional newValue(std::forward<OTHER>(other), allocator);
+            clear();
+            set_allocator(allocator);
+            move(std::move(newValue));
+        }
+        else
+        {
+            BasicOptional newValue(std::forward<OTHER>(other), get_allocator_ref());
+            clear();
+            move(std::move(newValue));
+        }
+    }
+
     template <typename A, typename U>
     void copy(const BasicOptional<A, U>& other)
     {
-- 
2.43.0


From 8a634656f00ee057795cce85798eefe4ddde6bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 10/46] fix: BasicAny: keep the holder consistent when copying
 or constructing the value throws

Assignments built the new value directly in the storage of the old one, so a
throwing copy left garbage which was later destroyed, sources which are part of
the held value were destroyed before they were read and heap holders leaked.
A throwing emplace left a holder without any value.
---
 runtime/src/zserio/Any.h | 64 +++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 11 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..a4a244b 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -186,7 +186,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +206,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -371,12 +387,15 @@ public:
         if (this != &other)
         {
             // TODO: do not dealloc unless necessary
+            // the copy can throw and other can be a part of the currently held value, so copy it first
+            constexpr bool propagate = AllocTraits::propagate_on_container_copy_assignment::value;
+            BasicAny tmp(other, propagate ? other.get_allocator_ref() : get_allocator_ref());
             clearHolder();
-            if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+            if constexpr (propagate)
             {
-                set_allocator(other.get_allocator_ref());
+                set_allocator(tmp.get_allocator_ref());
             }
-            copy(other);
+            move(std::move(tmp));
         }
 
         return *this;
@@ -416,12 +435,15 @@ public:
     {
         if (this != &other)
         {
+            // the move can throw and other can be a part of the currently held value, so move it first
+            constexpr bool propagate = AllocTraits::propagate_on_container_move_assignment::value;
+            BasicAny tmp(std::move(other), propagate ? other.get_allocator_ref() : get_allocator_ref());
             clearHolder();
-            if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
+            if constexpr (propagate)
             {
-                set_allocator(std::move(other.get_allocator_ref()));
+                set_allocator(tmp.get_allocator_ref());
             }
-            move(std::move(other));
+            move(std::move(tmp));
         }
 
         return *this;
@@ -486,7 +508,19 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        using U = typename std::decay<T>::type;
+        if (isType<U>())
+        {
+            createHolder<U>()->set(std::forward<T>(value));
+        }
+        else
+        {
+            // setting can throw and the value can be a part of the currently held value, so set it first
+            BasicAny tmp(get_allocator_ref());
+            tmp.template createHolder<U>()->set(std::forward<T>(value));
+            clearHolder();
+            move(std::move(tmp));
+        }
     }
 
     /**
@@ -497,8 +531,16 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            clearHolder(); // do not keep a holder without any value
+            throw;
+        }
     }
 
     /**
-- 
2.43.0


From 5b678107b722c13f5e3841879abca3ab7be045d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:36 +0000
Subject: [PATCH 11/46] fix: BasicAny, BasicVariant: swap with propagating
 allocators, valueless and nested variants

Swap of holders with different propagating allocators left each value allocated
by the allocator of the other holder. Assignment of a variant from a part of its
own element read the index after the element was destroyed. Valueless variants
were not equal to themselves and could not be hashed.
---
 runtime/src/zserio/Any.h     | 13 ++++++++-----
 runtime/src/zserio/Variant.h | 17 +++++++++++------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index a4a244b..76fcaac 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -478,17 +478,20 @@ public:
         {
             std::swap(m_untypedHolder.heap, other.m_untypedHolder.heap);
         }
-        else
+        else if (this != &other)
         {
-            BasicAny tmp(std::move(*this), get_allocator_ref());
-            move(std::move(other));
-            other.move(std::move(tmp));
+            // each value must end up allocated by the allocator which its new owner has after the swap
+            constexpr bool propagate = AllocTraits::propagate_on_container_swap::value;
+            BasicAny tmp(std::move(other), propagate ? other.get_allocator_ref() : get_allocator_ref());
+            BasicAny otherTmp(std::move(*this), propagate ? get_allocator_ref() : other.get_allocator_ref());
 
-            if constexpr (AllocTraits::propagate_on_container_swap::value)
+            if constexpr (propagate)
             {
                 using std::swap;
                 swap(get_allocator_ref(), other.get_allocator_ref());
             }
+            move(std::move(tmp));
+            other.move(std::move(otherTmp));
         }
     }
 
diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..9ef1bbd 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -191,8 +191,9 @@ public:
      */
     BasicVariant& operator=(const BasicVariant& other)
     {
+        const INDEX index = other.m_index; // other can be a part of the currently held element
         m_data = other.m_data;
-        m_index = other.m_index;
+        m_index = index;
         return *this;
     }
 
@@ -237,8 +238,9 @@ public:
     {
         if (this != &other)
         {
+            const INDEX index = other.m_index; // other can be a part of the currently held element
             m_data = std::move(other.m_data);
-            m_index = other.m_index;
+            m_index = index;
         }
 
         return *this;
@@ -424,7 +426,7 @@ public:
             return false;
         }
 
-        bool ret = false;
+        bool ret = true; // two valueless variants are equal
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
             ret = elem1 == elem2;
         });
@@ -591,9 +593,12 @@ uint32_t calcHashCode(uint32_t seed, const BasicVariant<ALLOC, INDEX, T...>& var
 {
     uint32_t result = seed;
     result = calcHashCode(result, static_cast<size_t>(var.index()));
-    var.visit([&result](const auto& value) {
-        result = calcHashCode(result, value);
-    });
+    if (!var.valueless_by_exception())
+    {
+        var.visit([&result](const auto& value) {
+            result = calcHashCode(result, value);
+        });
+    }
     return result;
 }
 
-- 
2.43.0


From 79d7b0a799407bd06abac4b1208e41e5cb525eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 12/46] fix: BitBuffer: order consistent with equality,
 moved-from and huge buffers

Buffers which differ only in the number of zero bits were neither equal nor
ordered. A moved-from buffer kept its bit size, so that using it read beyond
the empty storage. Hashing of buffers above 2 GiB overflowed int.
---
 runtime/src/zserio/BitBuffer.h | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 804749e..d5292b6 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -126,13 +126,21 @@ public:
 
     BasicBitBuffer(const BasicBitBuffer&) = default;
     BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
-
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
     /**
      * \}
      */
 
+    /**
+     * Move constructor. The moved-from bit buffer is empty.
+     */
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+
+    /**
+     * Move assignment operator. The moved-from bit buffer is empty.
+     */
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value);
+
     /**
      * Equal operator.
      *
@@ -330,7 +338,34 @@ template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
         m_bitSize(other.m_bitSize)
-{}
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0;
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(other.m_bitSize)
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0;
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value)
+{
+    if (this != &other)
+    {
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = other.m_bitSize;
+        other.m_buffer.clear();
+        other.m_bitSize = 0;
+    }
+
+    return *this;
+}
 
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
@@ -407,7 +442,8 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    // all common bits are equal and the unused bits are zero, so that the shorter buffer is less
+    return m_bitSize < other.m_bitSize;
 }
 
 template <typename ALLOC>
@@ -419,7 +455,8 @@ uint32_t BasicBitBuffer<ALLOC>::hashCode() const
     {
         if (byteSize > 1)
         {
-            auto lastIt = m_buffer.begin() + static_cast<int>(byteSize) - 1;
+            using DifferenceType = typename std::vector<uint8_t, ALLOC>::const_iterator::difference_type;
+            auto lastIt = m_buffer.begin() + static_cast<DifferenceType>(byteSize - 1);
             for (auto it = m_buffer.begin(); it != lastIt; ++it)
             {
                 result = calcHashCode(result, *it);
-- 
2.43.0


From 40ecd0b4b97f7120dc382dcb35ff2e6e74cbc524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:56 +0000
Subject: [PATCH 13/46] fix: convertFloatToString: NaN, values between -1 and 0
 and leading zeros of the floating part

Converting NaN to integer is undefined, -0.5 was printed as 0.500 and 1.005 as 1.5.
---
 runtime/src/zserio/StringConvertUtil.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..14554f4 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -120,7 +120,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
         const char*& floatingPartString)
 {
-    if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    if (value != value)
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
+    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
@@ -136,8 +141,14 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         const int64_t floatingPart =
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = convertIntToString(integerPartBuffer, integerPart);
-        floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        const int64_t integerPartAbs = (integerPart < 0) ? 0 - integerPart : integerPart;
+        // integer part can be zero also for negative values
+        integerPartString = detail::convertIntToString(
+                integerPartBuffer, static_cast<uint64_t>(integerPartAbs), integerPart < 0 || floatingPart < 0);
+        // the number above 1000 keeps leading zeros of the floating part
+        floatingPartString = (floatingPartAbs == 0)
+                ? convertIntToString(floatingPartBuffer, floatingPartAbs)
+                : convertIntToString(floatingPartBuffer, 1000 + floatingPartAbs) + 1;
     }
 }
 
-- 
2.43.0


From 76b5c27d352307e64041d910771b24956e2e9026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:48 +0000
Subject: [PATCH 14/46] fix: file helpers report failures when closing and
 respect string view file names

Data which did not fit the device were lost silently because only the buffered
write was checked, file names were read behind the end of the string view and
files with size 2^32 * n - 1 were refused.
---
 runtime/src/zserio/DebugStringUtil.h |  7 +++++--
 runtime/src/zserio/FileUtil.cpp      | 14 +++++++++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 72b6c1e..4c77c82 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -15,6 +15,8 @@
 
 #include <fstream>
 #include <sstream>
+#include <string>
+#include <string_view>
 #include <utility>
 
 #include "zserio/JsonReader.h"
@@ -58,7 +60,7 @@ template <typename T, typename WALK_FILTER, typename ALLOC>
 void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK_FILTER&& walkFilter,
         const ALLOC& allocator)
 {
-    std::ofstream stream = std::ofstream(fileName.data(), std::ios::out | std::ios::trunc);
+    std::ofstream stream = std::ofstream(std::string(fileName), std::ios::out | std::ios::trunc);
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to open '") << fileName << "'!";
@@ -66,6 +68,7 @@ void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
+    stream.close(); // written data can be still only buffered
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
@@ -582,7 +585,7 @@ template <typename ALLOC = std::allocator<uint8_t>>
 typename detail::DebugStringTraits<ALLOC>::ReflectableDataPtr fromJsonFile(
         const IBasicTypeInfo<ALLOC>& typeInfo, std::string_view fileName, const ALLOC& allocator = ALLOC())
 {
-    std::ifstream is = std::ifstream(fileName.data());
+    std::ifstream is = std::ifstream(std::string(fileName));
     if (!is)
     {
         throw CppRuntimeException("DebugStringUtil.fromJsonFile: Failed to open '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 9bbc5f6..b638907 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <string>
 #include <string_view>
 
 #include "zserio/CppRuntimeException.h"
@@ -9,7 +10,7 @@ namespace zserio
 
 void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::string_view fileName)
 {
-    std::ofstream stream(fileName.data(), std::ofstream::binary | std::ofstream::trunc);
+    std::ofstream stream(std::string(fileName), std::ofstream::binary | std::ofstream::trunc);
     if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to open '") << fileName << "' for writing!";
@@ -20,11 +21,18 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
+
+    // written data can be still only buffered
+    stream.close();
+    if (!stream)
+    {
+        throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
+    }
 }
 
 BitBuffer readBufferFromFile(std::string_view fileName)
 {
-    std::ifstream stream(fileName.data(), std::ifstream::binary);
+    std::ifstream stream(std::string(fileName), std::ifstream::binary);
     if (!stream)
     {
         throw CppRuntimeException("readBufferFromFile: Cannot open '") << fileName << "' for reading!";
@@ -34,7 +42,7 @@ BitBuffer readBufferFromFile(std::string_view fileName)
     const std::streampos fileSize = stream.tellg();
     (void)stream.seekg(0);
 
-    if (static_cast<int>(fileSize) == -1)
+    if (fileSize == std::streampos(-1))
     {
         throw CppRuntimeException("readBufferFromFile: Failed to get file size of '") << fileName << "'!";
     }
-- 
2.43.0


From 50084f0ef57a05fa984e0fbe67fff22bd4578706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 15/46] fix: JsonTokenizer: report stream read errors by the
 runtime exception

---
 runtime/src/zserio/JsonTokenizer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..3906f47 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -188,7 +188,15 @@ JsonToken BasicJsonTokenizer<ALLOC>::next()
 template <typename ALLOC>
 BasicString<RebindAlloc<ALLOC, char>> BasicJsonTokenizer<ALLOC>::readContent(const ALLOC& allocator)
 {
-    const size_t count = static_cast<size_t>(m_in.rdbuf()->sgetn(m_buffer.data(), BUFFER_SIZE));
+    size_t count = 0;
+    try
+    {
+        count = static_cast<size_t>(m_in.rdbuf()->sgetn(m_buffer.data(), BUFFER_SIZE));
+    }
+    catch (const std::ios_base::failure& e)
+    {
+        throw CppRuntimeException("JsonTokenizer: Failed to read input stream (") << e.what() << ")!";
+    }
 
     return BasicString<RebindAlloc<ALLOC, char>>(m_buffer.data(), count, allocator);
 }
-- 
2.43.0


From c57b9904d5244d9b9d5fa702738741620d7b4070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:27 +0000
Subject: [PATCH 16/46] fix: JsonDecoder: do not read beyond the given input
 and do not stop at embedded null characters

---
 runtime/src/zserio/JsonDecoder.h   | 45 ++++++++++++++----------------
 runtime/src/zserio/JsonTokenizer.h |  2 +-
 2 files changed, 22 insertions(+), 25 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..6ce32e5 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -1,10 +1,11 @@
 #ifndef ZSERIO_JSON_DECODER_H_INC
 #define ZSERIO_JSON_DECODER_H_INC
 
-#include <cerrno>
+#include <charconv>
 #include <cmath>
 #include <cstdlib>
 #include <string_view>
+#include <system_error>
 #include <utility>
 
 #include "zserio/AllocatorHolder.h"
@@ -149,8 +150,8 @@ private:
     static int32_t decodeHex(char character);
     size_t checkNumber(std::string_view input, bool& isDouble, bool& isSigned);
     DecoderResult decodeNumber(std::string_view input);
-    DecoderResult decodeSigned(std::string_view input);
-    DecoderResult decodeUnsigned(std::string_view input);
+    DecoderResult decodeSigned(std::string_view input, size_t numChars);
+    DecoderResult decodeUnsigned(std::string_view input, size_t numChars);
     DecoderResult decodeDouble(std::string_view input, size_t numChars);
 };
 
@@ -396,6 +397,7 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
         return DecoderResult(1, get_allocator());
     }
 
+    // note that the input does not have to be null-terminated, so that only numChars can be touched;
     // for decodeSigned and decodeUnsigned, we know that all numChars will be processed because checkNumber
     // already checked this
     if (isDouble)
@@ -404,47 +406,42 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
     }
     else if (isSigned)
     {
-        return decodeSigned(input);
+        return decodeSigned(input, numChars);
     }
     else
     {
-        return decodeUnsigned(input);
+        return decodeUnsigned(input, numChars);
     }
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(
+        std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
-    char* pEnd = nullptr;
-    errno = 0; // no library function sets its value back to zero once changed
-    const int64_t value = std::strtoll(pBegin, &pEnd, 10);
-
-    const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    int64_t value = 0;
+    const std::from_chars_result result = std::from_chars(input.data(), input.data() + numChars, value);
+    const bool overflow = (result.ec == std::errc::result_out_of_range);
 
-    return DecoderResult(numRead, value, overflow, get_allocator());
+    return DecoderResult(numChars, value, overflow, get_allocator());
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(
+        std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
-    char* pEnd = nullptr;
-    errno = 0; // no library function sets its value back to zero once changed
-    const uint64_t value = std::strtoull(pBegin, &pEnd, 10);
-
-    const bool overflow = (errno == ERANGE);
-    const size_t numRead = static_cast<size_t>(pEnd - pBegin);
+    uint64_t value = 0;
+    const std::from_chars_result result = std::from_chars(input.data(), input.data() + numChars, value);
+    const bool overflow = (result.ec == std::errc::result_out_of_range);
 
-    return DecoderResult(numRead, value, overflow, get_allocator());
+    return DecoderResult(numChars, value, overflow, get_allocator());
 }
 
 template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
         std::string_view input, size_t numChars)
 {
-    const char* pBegin = &input.front();
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.substr(0, numChars), get_allocator());
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     const double value = std::strtod(pBegin, &pEnd);
     if (static_cast<size_t>(pEnd - pBegin) != numChars)
diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 3906f47..62bf5f0 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -239,7 +239,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         setPosition(m_pos + 1, m_columnNumber + 1);
         break;
     default:
-        m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
+        m_decoderResult = m_decoder.decodeValue(std::string_view(m_content).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
             return false; // we are at the end of chunk => read more
-- 
2.43.0


From c6756fec3488bdb84839c64a54b8eb85dc2f2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:44 +0000
Subject: [PATCH 17/46] fix: JsonTokenizer: the last value must not be lost
 when it follows whitespaces at the end of a chunk

---
 runtime/src/zserio/JsonTokenizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 62bf5f0..9ce4a1b 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -242,6 +242,7 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
+            m_token = JsonToken::UNKNOWN; // not an end of file, even if the previous chunk ended by whitespaces
             return false; // we are at the end of chunk => read more
         }
 
-- 
2.43.0


From dbe1192b285c2d2810c1a3ac5575156c65e2398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:01 +0000
Subject: [PATCH 18/46] fix: JsonReader: previously read object must not be
 returned at the end of the stream

---
 runtime/src/zserio/JsonReader.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index b5114d8..9f27625 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -497,6 +497,10 @@ template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
     m_creator = BasicZserioTreeCreator<ALLOC>(typeInfo, get_allocator());
+    // forget everything from previous (possibly failed) reading
+    m_keyStack.clear();
+    m_object.reset();
+    m_objectValueAdapter.reset();
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 308bd8b63c40aea59c11c031e2338e8dcf0c8110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 19/46] fix: JsonParser: deeply nested input must not overflow
 the call stack

---
 runtime/src/zserio/JsonParser.h | 130 ++++++++++++++++++--------------
 1 file changed, 73 insertions(+), 57 deletions(-)

diff --git a/runtime/src/zserio/JsonParser.h b/runtime/src/zserio/JsonParser.h
index f361917..4c5894d 100644
--- a/runtime/src/zserio/JsonParser.h
+++ b/runtime/src/zserio/JsonParser.h
@@ -8,6 +8,7 @@
 #include "zserio/JsonTokenizer.h"
 #include "zserio/Span.h"
 #include "zserio/String.h"
+#include "zserio/Vector.h"
 
 namespace zserio
 {
@@ -111,7 +112,8 @@ public:
      */
     BasicJsonParser(std::istream& in, IObserver& observer, const ALLOC& allocator = ALLOC()) :
             m_tokenizer(in, allocator),
-            m_observer(observer)
+            m_observer(observer),
+            m_nesting(allocator)
     {}
 
     /**
@@ -159,11 +161,9 @@ public:
 
 private:
     void parseElement();
-    void parseObject();
-    void parseMembers();
-    void parseMember();
-    void parseArray();
-    void parseElements();
+    bool beginElement();
+    bool endElement();
+    void parseKey();
 
     void parseValue();
     void visitValue() const;
@@ -176,6 +176,7 @@ private:
 
     BasicJsonTokenizer<ALLOC> m_tokenizer;
     IObserver& m_observer;
+    Vector<JsonToken, RebindAlloc<ALLOC, JsonToken>> m_nesting; // begin tokens of unfinished objects and arrays
 };
 
 template <typename ALLOC>
@@ -185,15 +186,50 @@ const std::array<JsonToken, 3> BasicJsonParser<ALLOC>::ELEMENT_TOKENS = {
 template <typename ALLOC>
 void BasicJsonParser<ALLOC>::parseElement()
 {
-    JsonToken token = m_tokenizer.getToken();
+    // not recursive, the depth of nesting must not be limited by the size of the call stack
+    m_nesting.clear();
+    do
+    {
+        while (beginElement())
+        {}
+    } while (endElement());
+}
+
+// returns true if an object or an array has been opened and its first element follows
+template <typename ALLOC>
+bool BasicJsonParser<ALLOC>::beginElement()
+{
+    const JsonToken token = m_tokenizer.getToken();
 
     if (token == JsonToken::BEGIN_ARRAY)
     {
-        parseArray();
+        consumeToken(JsonToken::BEGIN_ARRAY);
+        m_observer.beginArray();
+
+        if (std::find(ELEMENT_TOKENS.begin(), ELEMENT_TOKENS.end(), m_tokenizer.getToken()) !=
+                ELEMENT_TOKENS.end())
+        {
+            m_nesting.push_back(token);
+            return true;
+        }
+
+        consumeToken(JsonToken::END_ARRAY);
+        m_observer.endArray();
     }
     else if (token == JsonToken::BEGIN_OBJECT)
     {
-        parseObject();
+        consumeToken(JsonToken::BEGIN_OBJECT);
+        m_observer.beginObject();
+
+        if (m_tokenizer.getToken() == JsonToken::VALUE)
+        {
+            m_nesting.push_back(token);
+            parseKey();
+            return true;
+        }
+
+        consumeToken(JsonToken::END_OBJECT);
+        m_observer.endObject();
     }
     else if (token == JsonToken::VALUE)
     {
@@ -203,36 +239,44 @@ void BasicJsonParser<ALLOC>::parseElement()
     {
         throw createUnexpectedTokenException(ELEMENT_TOKENS);
     }
-}
-
-template <typename ALLOC>
-void BasicJsonParser<ALLOC>::parseObject()
-{
-    consumeToken(JsonToken::BEGIN_OBJECT);
-    m_observer.beginObject();
-
-    if (m_tokenizer.getToken() == JsonToken::VALUE)
-    {
-        parseMembers();
-    }
 
-    consumeToken(JsonToken::END_OBJECT);
-    m_observer.endObject();
+    return false;
 }
 
+// returns true if next element of an unfinished object or array follows
 template <typename ALLOC>
-void BasicJsonParser<ALLOC>::parseMembers()
+bool BasicJsonParser<ALLOC>::endElement()
 {
-    parseMember();
-    while (m_tokenizer.getToken() == JsonToken::ITEM_SEPARATOR)
+    while (!m_nesting.empty())
     {
-        m_tokenizer.next();
-        parseMember();
+        const bool isObject = (m_nesting.back() == JsonToken::BEGIN_OBJECT);
+        if (m_tokenizer.getToken() == JsonToken::ITEM_SEPARATOR)
+        {
+            m_tokenizer.next();
+            if (isObject)
+            {
+                parseKey();
+            }
+            return true;
+        }
+
+        consumeToken(isObject ? JsonToken::END_OBJECT : JsonToken::END_ARRAY);
+        if (isObject)
+        {
+            m_observer.endObject();
+        }
+        else
+        {
+            m_observer.endArray();
+        }
+        m_nesting.pop_back();
     }
+
+    return false;
 }
 
 template <typename ALLOC>
-void BasicJsonParser<ALLOC>::parseMember()
+void BasicJsonParser<ALLOC>::parseKey()
 {
     checkToken(JsonToken::VALUE);
     const BasicAny<ALLOC>& key = m_tokenizer.getValue();
@@ -245,34 +289,6 @@ void BasicJsonParser<ALLOC>::parseMember()
     m_tokenizer.next();
 
     consumeToken(JsonToken::KEY_SEPARATOR);
-
-    parseElement();
-}
-
-template <typename ALLOC>
-void BasicJsonParser<ALLOC>::parseArray()
-{
-    consumeToken(JsonToken::BEGIN_ARRAY);
-    m_observer.beginArray();
-
-    if (std::find(ELEMENT_TOKENS.begin(), ELEMENT_TOKENS.end(), m_tokenizer.getToken()) != ELEMENT_TOKENS.end())
-    {
-        parseElements();
-    }
-
-    consumeToken(JsonToken::END_ARRAY);
-    m_observer.endArray();
-}
-
-template <typename ALLOC>
-void BasicJsonParser<ALLOC>::parseElements()
-{
-    parseElement();
-    while (m_tokenizer.getToken() == JsonToken::ITEM_SEPARATOR)
-    {
-        m_tokenizer.next();
-        parseElement();
-    }
 }
 
 template <typename ALLOC>
-- 
2.43.0


From beec666ecbe89c0f51d5cc27d2bb5d404bb0a7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 20/46] fix: JsonEncoder: floating point values must be
 readable back without loss of precision

---
 runtime/src/zserio/JsonEncoder.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonEncoder.cpp b/runtime/src/zserio/JsonEncoder.cpp
index 033230d..af2d795 100644
--- a/runtime/src/zserio/JsonEncoder.cpp
+++ b/runtime/src/zserio/JsonEncoder.cpp
@@ -1,12 +1,36 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <iomanip>
+#include <limits>
 
 #include "zserio/JsonEncoder.h"
 
 namespace zserio
 {
 
+namespace
+{
+
+// gets the lowest number of digits which is enough to read the same value back
+int getPrecision(double value)
+{
+    for (int precision = 15; precision < std::numeric_limits<double>::max_digits10; ++precision)
+    {
+        std::array<char, 32> buffer = {};
+        (void)std::snprintf(buffer.data(), buffer.size(), "%.*g", precision, value);
+        if (std::strtod(buffer.data(), nullptr) == value)
+        {
+            return precision;
+        }
+    }
+
+    return std::numeric_limits<double>::max_digits10;
+}
+
+} // namespace
+
 void JsonEncoder::encodeNull(std::ostream& stream)
 {
     stream << "null";
@@ -42,7 +66,7 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            stream << std::setprecision(getPrecision(value)) << value << std::defaultfloat;
         }
     }
 }
-- 
2.43.0


From 82c703e22a7c3c044ff5ad30443c5c295edaae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 21/46] fix: ZserioTreeCreator: null array elements must be
 refused instead of read through a null pointer

---
 runtime/src/zserio/ZserioTreeCreator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9384d00..650902b 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -355,6 +355,12 @@ BasicAny<ALLOC> makeAnyBitmaskValue(
 template <typename T, typename ALLOC>
 BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, T&& value, const ALLOC& allocator)
 {
+    if constexpr (std::is_null_pointer_v<std::decay_t<T>>)
+    {
+        throw CppRuntimeException("ZserioTreeCreator: Null value cannot be converted to '")
+                << typeInfo.getSchemaName() << "'!";
+    }
+
     switch (typeInfo.getCppType())
     {
     case CppType::BOOL:
-- 
2.43.0


From b68993b133223e1ce1d90c68b53bdc15e3e943b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 22/46] fix: JsonEncoder: text of numbers must not depend on
 locale and formatting flags of the stream

---
 runtime/src/zserio/JsonEncoder.cpp | 43 ++++++++++++++++++++++--------
 runtime/src/zserio/JsonEncoder.h   |  9 ++++++-
 2 files changed, 40 insertions(+), 12 deletions(-)

diff --git a/runtime/src/zserio/JsonEncoder.cpp b/runtime/src/zserio/JsonEncoder.cpp
index af2d795..5e485ab 100644
--- a/runtime/src/zserio/JsonEncoder.cpp
+++ b/runtime/src/zserio/JsonEncoder.cpp
@@ -2,14 +2,18 @@
 #include <cmath>
 #include <cstdio>
 #include <cstdlib>
-#include <iomanip>
+#include <ios>
+#include <iterator>
 #include <limits>
+#include <locale>
 
 #include "zserio/JsonEncoder.h"
 
 namespace zserio
 {
 
+using namespace std::literals::string_view_literals;
+
 namespace
 {
 
@@ -29,31 +33,48 @@ int getPrecision(double value)
     return std::numeric_limits<double>::max_digits10;
 }
 
+// note that operator<< of the stream cannot be used since it depends on its locale and formatting flags
+void writeText(std::ostream& stream, std::string_view text)
+{
+    stream.write(text.data(), static_cast<std::streamsize>(text.size()));
+}
+
+void writeDouble(std::ostream& stream, double value, std::ios_base::fmtflags floatField, int precision)
+{
+    const std::locale& locale = std::locale::classic();
+    std::ios format(nullptr);
+    (void)format.imbue(locale);
+    (void)format.setf(floatField, std::ios_base::floatfield);
+    (void)format.precision(precision);
+
+    using Iterator = std::ostreambuf_iterator<char>;
+    if (std::use_facet<std::num_put<char, Iterator>>(locale).put(Iterator(stream), format, ' ', value).failed())
+    {
+        stream.setstate(std::ios_base::badbit);
+    }
+}
+
 } // namespace
 
 void JsonEncoder::encodeNull(std::ostream& stream)
 {
-    stream << "null";
+    writeText(stream, "null"sv);
 }
 
 void JsonEncoder::encodeBool(std::ostream& stream, bool value)
 {
-    stream << std::boolalpha << value << std::noboolalpha;
+    writeText(stream, value ? "true"sv : "false"sv);
 }
 
 void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
 {
     if (std::isnan(value))
     {
-        stream << "NaN";
+        writeText(stream, "NaN"sv);
     }
     else if (std::isinf(value))
     {
-        if (value < 0.0)
-        {
-            stream << "-";
-        }
-        stream << "Infinity";
+        writeText(stream, value < 0.0 ? "-Infinity"sv : "Infinity"sv);
     }
     else
     {
@@ -62,11 +83,11 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         // trying to get closer to behavior of Python
         if (fractPart == 0.0 && intPart > -1e16 && intPart < 1e16)
         {
-            stream << std::fixed << std::setprecision(1) << value << std::defaultfloat;
+            writeDouble(stream, value, std::ios_base::fixed, 1);
         }
         else
         {
-            stream << std::setprecision(getPrecision(value)) << value << std::defaultfloat;
+            writeDouble(stream, value, std::ios_base::fmtflags(), getPrecision(value));
         }
     }
 }
diff --git a/runtime/src/zserio/JsonEncoder.h b/runtime/src/zserio/JsonEncoder.h
index 8573c5e..9a2ef77 100644
--- a/runtime/src/zserio/JsonEncoder.h
+++ b/runtime/src/zserio/JsonEncoder.h
@@ -1,7 +1,10 @@
 #ifndef ZSERIO_JSON_ENCODER_H_INC
 #define ZSERIO_JSON_ENCODER_H_INC
 
+#include <array>
 #include <cstdint>
+#include <ostream>
+#include <string>
 #include <string_view>
 #include <type_traits>
 
@@ -65,7 +68,11 @@ template <typename T>
 void JsonEncoder::encodeIntegral(std::ostream& stream, T value)
 {
     using U = typename std::conditional<std::is_signed<T>::value, int64_t, uint64_t>::type;
-    stream << static_cast<U>(value);
+
+    // note that operator<< of the stream depends on its locale and formatting flags
+    std::array<char, 24> buffer = {};
+    const char* const stringValue = convertIntToString(buffer, static_cast<U>(value));
+    stream.write(stringValue, static_cast<std::streamsize>(std::char_traits<char>::length(stringValue)));
 }
 
 } // namespace zserio
-- 
2.43.0


From 8c276df227870ee11d1d30ed68e06e386dfe53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:04 +0000
Subject: [PATCH 23/46] fix: JsonDecoder: floating point values must not depend
 on the C locale

---
 runtime/src/zserio/JsonDecoder.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 6ce32e5..0bf507d 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -2,6 +2,7 @@
 #define ZSERIO_JSON_DECODER_H_INC
 
 #include <charconv>
+#include <clocale>
 #include <cmath>
 #include <cstdlib>
 #include <string_view>
@@ -440,11 +441,17 @@ template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
         std::string_view input, size_t numChars)
 {
-    const BasicString<RebindAlloc<ALLOC, char>> number(input.substr(0, numChars), get_allocator());
+    BasicString<RebindAlloc<ALLOC, char>> number(input.substr(0, numChars), get_allocator());
+    const size_t decimalPoint = number.find('.');
+    if (decimalPoint != BasicString<RebindAlloc<ALLOC, char>>::npos)
+    {
+        // strtod expects the decimal point of the current locale
+        number.replace(decimalPoint, 1, std::localeconv()->decimal_point);
+    }
     const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     const double value = std::strtod(pBegin, &pEnd);
-    if (static_cast<size_t>(pEnd - pBegin) != numChars)
+    if (static_cast<size_t>(pEnd - pBegin) != number.size())
     {
         return DecoderResult(numChars, get_allocator());
     }
-- 
2.43.0


From ad25be33d4237a1061be8bdda6b5459df98464eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:49 +0000
Subject: [PATCH 24/46] fix: equal floating point values 0.0 and -0.0 must have
 the same hash code

---
 runtime/src/zserio/HashCodeUtil.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/HashCodeUtil.h b/runtime/src/zserio/HashCodeUtil.h
index 54726af..c72ed1a 100644
--- a/runtime/src/zserio/HashCodeUtil.h
+++ b/runtime/src/zserio/HashCodeUtil.h
@@ -75,7 +75,8 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    // positive and negative zero are equal, so that they must have the same hash code
+    return calcHashCode(seedValue, convertFloatToUInt32(value == 0.0F ? 0.0F : value));
 }
 
 /**
@@ -88,7 +89,8 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    // positive and negative zero are equal, so that they must have the same hash code
+    return calcHashCode(seedValue, convertDoubleToUInt64(value == 0.0 ? 0.0 : value));
 }
 
 /**
-- 
2.43.0


From 56832f56892086868ccf47bf35fc55bcf6547338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:38 +0000
Subject: [PATCH 25/46] fix: ReflectableUtil::equal must not take different
 large doubles as equal

The relative tolerance was computed from lhs + rhs which overflows to infinity.
---
 runtime/src/zserio/ReflectableUtil.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index eeecce0..a567854 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -306,7 +306,9 @@ inline bool ReflectableUtil::doubleValuesAlmostEqual(double lhs, double rhs)
     }
 
     // see: https://en.cppreference.com/w/cpp/types/numeric_limits/epsilon
-    return std::fabs(lhs - rhs) <= std::numeric_limits<double>::epsilon() * std::fabs(lhs + rhs) ||
+    // the sum is scaled before adding so that it cannot overflow to infinity
+    const double epsilon = std::numeric_limits<double>::epsilon();
+    return std::fabs(lhs - rhs) <= std::fabs(epsilon * lhs + epsilon * rhs) ||
             std::fabs(lhs - rhs) < std::numeric_limits<double>::min();
 }
 
-- 
2.43.0


From cfec4c7ca7557849541c6325f0fc11e9c79d1e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 26/46] fix: RegexWalkFilter must admit array whose compound
 element matches

The path of an element itself was not tested when the array was entered, so that
e.g. 'compoundArray\[0\]' filtered out the whole array.
---
 runtime/src/zserio/Walker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Walker.h b/runtime/src/zserio/Walker.h
index 073baac..bc63e24 100644
--- a/runtime/src/zserio/Walker.h
+++ b/runtime/src/zserio/Walker.h
@@ -786,9 +786,9 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
-        if (matchSubtree(array->at(i), fieldInfo))
+        if (std::regex_match(getCurrentPath(), m_pathRegex) || matchSubtree(array->at(i), fieldInfo))
         {
-            return true;
+            return true; // the element itself or something within its subtree matches
         }
     }
 
-- 
2.43.0


From df2db5af348cd1bf24147da235fc0d5787d0e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:50 +0000
Subject: [PATCH 27/46] fix: ReflectableUtil::getValue must work for constant
 pointer to an owner

ReflectableDataOwner gives a mutable reference even through a constant handle, so
that the constant getValue always threw 'Bad type in AnyHolder'.
---
 runtime/src/zserio/ReflectableUtil.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index a567854..f3d9be1 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -85,7 +85,13 @@ public:
     static const T& getValue(
             const IBasicReflectableDataConstPtr<ALLOC>& reflectable, const ALLOC& allocator = ALLOC())
     {
-        return reflectable->getAnyValue(allocator).template get<std::reference_wrapper<const T>>().get();
+        const BasicAny<ALLOC> any = reflectable->getAnyValue(allocator);
+        if (any.template isType<std::reference_wrapper<T>>())
+        {
+            // constant reflectable which holds mutable data (see ReflectableDataOwner)
+            return any.template get<std::reference_wrapper<T>>().get();
+        }
+        return any.template get<std::reference_wrapper<const T>>().get();
     }
 
     /**
-- 
2.43.0


From 4776ec7218e022d23e309ec56b9f77891e9b9bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 28/46] fix: ZserioTreeCreator must accept all numeric wrappers

---
 runtime/src/zserio/ZserioTreeCreator.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 650902b..05296dc 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -849,7 +849,16 @@ template <typename T>
 BasicAny<ALLOC> BasicZserioTreeCreator<ALLOC>::makeAnyValue(
         const IBasicTypeInfo<ALLOC>& typeInfo, T&& value) const
 {
-    return detail::makeAnyValue(typeInfo, std::forward<T>(value), get_allocator());
+    if constexpr (is_numeric_wrapper_v<std::decay_t<T>>)
+    {
+        // numeric wrappers are converted in the same way as their underlying values
+        using ValueType = typename std::decay_t<T>::ValueType;
+        return detail::makeAnyValue(typeInfo, static_cast<ValueType>(value), get_allocator());
+    }
+    else
+    {
+        return detail::makeAnyValue(typeInfo, std::forward<T>(value), get_allocator());
+    }
 }
 
 } // namespace zserio
-- 
2.43.0


From 5d230bf7c2a79b16082b5d37c8ddcef55a41d184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 29/46] fix: ZserioTreeCreator must stay consistent when an
 allocation fails

---
 runtime/src/zserio/ZserioTreeCreator.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 05296dc..f2d36ad 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -621,7 +621,8 @@ void BasicZserioTreeCreator<ALLOC>::beginArray(const BasicString<RebindAlloc<ALL
                 << fieldInfo.schemaName << "' is not an array!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
+    // reserve first so that a failed allocation cannot leave the stacks inconsistent
+    m_fieldInfoStack.reserve(m_fieldInfoStack.size() + 1);
 
     // note that we cannot just call getField() in case that the array is not optional like we do it in
     // setValue() and beginCompound() methods because in case of arrays we would join multiple arrays together
@@ -630,6 +631,7 @@ void BasicZserioTreeCreator<ALLOC>::beginArray(const BasicString<RebindAlloc<ALL
     // moreover we need to properly initialize arrays of dynamic bit fields
     // see https://github.com/ndsev/zserio/issues/414
     m_valueStack.push_back(m_valueStack.back()->createField(name));
+    m_fieldInfoStack.push_back(fieldInfo);
 
     m_state = detail::CreatorState::IN_ARRAY;
 }
@@ -668,7 +670,8 @@ void BasicZserioTreeCreator<ALLOC>::beginCompound(const BasicString<RebindAlloc<
                 << fieldInfo.schemaName << "' is not a compound!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
+    // reserve first so that a failed allocation cannot leave the stacks inconsistent
+    m_fieldInfoStack.reserve(m_fieldInfoStack.size() + 1);
     if (TypeInfoUtil::hasChoice(parentTypeInfo.getCppType()) || fieldInfo.isOptional)
     {
         // optional field, or field within choice or union -> create the new compound
@@ -678,6 +681,7 @@ void BasicZserioTreeCreator<ALLOC>::beginCompound(const BasicString<RebindAlloc<
     {
         m_valueStack.push_back(m_valueStack.back()->getField(name));
     }
+    m_fieldInfoStack.push_back(fieldInfo);
 
     m_state = detail::CreatorState::IN_COMPOUND;
 }
@@ -773,8 +777,18 @@ void BasicZserioTreeCreator<ALLOC>::beginCompoundElement()
     }
 
     auto compoundArray = m_valueStack.back();
-    compoundArray->resize(compoundArray->size() + 1);
-    m_valueStack.push_back(compoundArray->at(compoundArray->size() - 1));
+    const size_t index = compoundArray->size();
+    compoundArray->resize(index + 1);
+    try
+    {
+        m_valueStack.push_back(compoundArray->at(index));
+    }
+    catch (...)
+    {
+        // do not leave an unfinished element in the array
+        compoundArray->resize(index);
+        throw;
+    }
     m_state = detail::CreatorState::IN_COMPOUND;
 }
 
-- 
2.43.0


From 1d2732ba0dafa0a0bc33a8992758e32e20a8b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 30/46] fix: SQL columns of dynamic integers and column traits
 of numeric types must compile

---
 runtime/src/zserio/SqliteUtil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 542f94f..2e7b645 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -25,7 +25,7 @@ template <typename T, typename = void>
 struct ColumnTraits;
 
 template <typename T>
-struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>>>>
+struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>> && !is_numeric_wrapper_v<T>>>
 {
     static constexpr std::string_view TYPE_NAME = "BLOB";
     static constexpr int TYPE = SQLITE_BLOB;
@@ -181,7 +181,7 @@ int bindColumn(sqlite3_stmt& stmt, int index, FixedIntWrapper<BIT_SIZE, IS_SIGNE
 }
 
 template <typename ALLOC, typename T>
-int bindColumn(sqlite3_stmt& stmt, DynIntWrapper<T> value, BitSize, int index, const ALLOC&)
+int bindColumn(sqlite3_stmt& stmt, int index, DynIntWrapper<T> value, BitSize, const ALLOC&)
 {
     return sqlite3_bind_int64(&stmt, index, static_cast<int64_t>(value));
 }
-- 
2.43.0


From fd65dab59e25a3b616ce5e78937d4dcad1d6ea2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 31/46] fix: SQL text column must be read including embedded
 zero characters

---
 runtime/src/zserio/SqliteUtil.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 2e7b645..a6dd917 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -129,7 +129,9 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
-    column.emplace(reinterpret_cast<const char*>(textValue));
+    const int textLength = sqlite3_column_bytes(&stmt, index);
+    // the text can contain embedded zero characters
+    column.emplace(std::string_view(reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength)));
 }
 
 template <typename T>
-- 
2.43.0


From ae54edef2a87be2853ba123db50c94580b4d41df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:17 +0000
Subject: [PATCH 32/46] fix: empty SQL blob or text must not be stored as NULL

---
 runtime/src/zserio/SqliteUtil.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index a6dd917..f12f43d 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -153,6 +153,11 @@ int bindColumn(sqlite3_stmt& stmt, int index, const View<T>& view, BitSize bitSi
     BasicBitBuffer<ALLOC> bitBuffer(bitSize, allocator);
     BitStreamWriter writer(bitBuffer);
     write(writer, view);
+    if (bitBuffer.getByteSize() == 0)
+    {
+        // null pointer would bind NULL and the object would become absent
+        return sqlite3_bind_zeroblob(&stmt, index, 0);
+    }
     return sqlite3_bind_blob(
             &stmt, index, bitBuffer.getBuffer(), static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
 }
@@ -203,7 +208,9 @@ int bindColumn(sqlite3_stmt& stmt, int index, FloatWrapper<VALUE_TYPE, FLOAT_TYP
 template <typename ALLOC>
 int bindColumn(sqlite3_stmt& stmt, int index, std::string_view value, BitSize, const ALLOC&)
 {
-    return sqlite3_bind_text(&stmt, index, value.data(), static_cast<int>(value.size()), SQLITE_TRANSIENT);
+    // null pointer would bind NULL and the string would become absent
+    const char* data = value.empty() ? "" : value.data();
+    return sqlite3_bind_text(&stmt, index, data, static_cast<int>(value.size()), SQLITE_TRANSIENT);
 }
 
 } // namespace detail
-- 
2.43.0


From 9a7b06fbc385e268312cdb2285317817bcb42b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 33/46] fix: introspectable service data refer to the object of
 the original after copying or moving

---
 runtime/src/zserio/IService.h | 58 +++++++++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/runtime/src/zserio/IService.h b/runtime/src/zserio/IService.h
index ca7130a..51ac1d0 100644
--- a/runtime/src/zserio/IService.h
+++ b/runtime/src/zserio/IService.h
@@ -78,6 +78,59 @@ public:
             m_data(allocator)
     {}
 
+    /**
+     * Copy constructor.
+     *
+     * The introspectable of the copy refers to the copied object.
+     *
+     * \param other Other service data to copy construct from.
+     */
+    BasicIntrospectableServiceData(const BasicIntrospectableServiceData& other) :
+            BasicIntrospectableServiceData(other.m_object, other.m_data.get_allocator())
+    {}
+
+    /**
+     * Move constructor.
+     *
+     * The introspectable of the new service data refers to the moved object.
+     *
+     * \param other Other service data to move construct from.
+     */
+    BasicIntrospectableServiceData(BasicIntrospectableServiceData&& other) :
+            BasicIntrospectableServiceData(std::move(other.m_object), other.m_data.get_allocator())
+    {
+        other.resetData();
+    }
+
+    /**
+     * Copy assignment operator.
+     *
+     * \param other Other service data to copy from.
+     */
+    BasicIntrospectableServiceData& operator=(const BasicIntrospectableServiceData& other)
+    {
+        m_object = other.m_object;
+        resetData();
+
+        return *this;
+    }
+
+    /**
+     * Move assignment operator.
+     *
+     * \param other Other service data to move from.
+     */
+    BasicIntrospectableServiceData& operator=(BasicIntrospectableServiceData&& other)
+    {
+        m_object = std::move(other.m_object);
+        resetData();
+        other.resetData();
+
+        return *this;
+    }
+
+    ~BasicIntrospectableServiceData() override = default;
+
     IBasicIntrospectableViewConstPtr<ALLOC> getIntrospectable() const override
     {
         return m_introspectable;
@@ -99,6 +152,11 @@ public:
     }
 
 private:
+    void resetData()
+    {
+        m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator());
+    }
+
     ZSERIO_OBJECT m_object;
     IBasicIntrospectableViewConstPtr<ALLOC> m_introspectable;
     mutable BasicBitBuffer<ALLOC> m_data;
-- 
2.43.0


From 115347848d13b7424496a56584a50e20008461b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:46 +0000
Subject: [PATCH 34/46] fix: data race in the lazy initialization of
 introspectable service data

---
 runtime/src/zserio/IService.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/zserio/IService.h b/runtime/src/zserio/IService.h
index 51ac1d0..8ccb549 100644
--- a/runtime/src/zserio/IService.h
+++ b/runtime/src/zserio/IService.h
@@ -1,6 +1,7 @@
 #ifndef ZSERIO_ISERVICE_H_INC
 #define ZSERIO_ISERVICE_H_INC
 
+#include <mutex>
 #include <string_view>
 
 #include "zserio/IIntrospectableView.h"
@@ -143,6 +144,7 @@ public:
      */
     Span<const uint8_t> getData() const override
     {
+        const std::lock_guard<std::mutex> lock(m_dataMutex);
         if (m_introspectable && m_data.getBitSize() == 0)
         {
             // lazy initialization
@@ -159,6 +161,7 @@ private:
 
     ZSERIO_OBJECT m_object;
     IBasicIntrospectableViewConstPtr<ALLOC> m_introspectable;
+    mutable std::mutex m_dataMutex; // guards the lazy initialization
     mutable BasicBitBuffer<ALLOC> m_data;
 };
 
-- 
2.43.0


From 1a02852e2b092e6fe96845658e643c928e7b76a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:44 +0000
Subject: [PATCH 35/46] fix: instance created by type info ignores the given
 polymorphic allocator

---
 runtime/src/zserio/ReflectableData.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtime/src/zserio/ReflectableData.h b/runtime/src/zserio/ReflectableData.h
index 9d915cc..cafdb7c 100644
--- a/runtime/src/zserio/ReflectableData.h
+++ b/runtime/src/zserio/ReflectableData.h
@@ -965,6 +965,8 @@ template <typename T, typename ALLOC = typename T::allocator_type>
 class ReflectableDataOwner : public IBasicReflectableData<ALLOC>
 {
 public:
+    using allocator_type = ALLOC;
+
     ReflectableDataOwner() :
             ReflectableDataOwner(ALLOC())
     {}
-- 
2.43.0


From 60ae11a14e751c064a7e68f1f09dcc4224a4bbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:44 +0000
Subject: [PATCH 36/46] fix: JSON writer takes memory for its indent from
 outside of the given allocator

---
 runtime/src/zserio/DebugStringUtil.h |  2 +-
 runtime/src/zserio/JsonWriter.h      | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 4c77c82..f9e617d 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -41,7 +41,7 @@ void toJsonStream(
     //         "DebugStringUtil.toJsonStream: "
     //         "Zserio object must have reflections enabled (see zserio option -withReflectionCode)!");
 
-    BasicJsonWriter<ALLOC> jsonWriter(stream, indent);
+    BasicJsonWriter<ALLOC> jsonWriter(stream, indent, allocator);
     BasicWalker<ALLOC> walker(jsonWriter, walkFilter);
     walker.walk(reflectable(object, allocator));
 }
diff --git a/runtime/src/zserio/JsonWriter.h b/runtime/src/zserio/JsonWriter.h
index b32d488..2220417 100644
--- a/runtime/src/zserio/JsonWriter.h
+++ b/runtime/src/zserio/JsonWriter.h
@@ -156,8 +156,9 @@ public:
             size_t elementIndex) override;
 
 private:
-    BasicJsonWriter(std::ostream& out, Optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent,
-            const ALLOC& allocator = ALLOC());
+    BasicJsonWriter(std::ostream& out,
+            BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent,
+            const ALLOC& allocator);
 
     void beginItem();
     void endItem();
@@ -175,7 +176,7 @@ private:
     void writeStringifiedBitmask(const IBasicReflectableDataConstPtr<ALLOC>& reflectable);
 
     std::ostream& m_out;
-    Optional<BasicString<RebindAlloc<ALLOC, char>>> m_indent;
+    BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>> m_indent;
     BasicString<RebindAlloc<ALLOC, char>> m_itemSeparator;
     BasicString<RebindAlloc<ALLOC, char>> m_keySeparator;
     EnumerableFormat m_enumerableFormat = DEFAULT_ENUMERABLE_FORMAT;
@@ -191,7 +192,8 @@ using JsonWriter = BasicJsonWriter<>;
 
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, const ALLOC& allocator) :
-        BasicJsonWriter(out, std::nullopt, allocator)
+        BasicJsonWriter(
+                out, BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>(std::nullopt, allocator), allocator)
 {}
 
 template <typename ALLOC>
@@ -202,15 +204,18 @@ BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, uint8_t indent, const
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(
         std::ostream& out, const BasicString<RebindAlloc<ALLOC, char>>& indent, const ALLOC& allocator) :
-        BasicJsonWriter(out, Optional<BasicString<RebindAlloc<ALLOC, char>>>(indent), allocator)
+        BasicJsonWriter(out,
+                BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>(
+                        BasicString<RebindAlloc<ALLOC, char>>(indent, allocator), allocator),
+                allocator)
 {}
 
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out,
-        Optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent, const ALLOC& allocator) :
+        BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent, const ALLOC& allocator) :
         AllocatorHolder<ALLOC>(allocator),
         m_out(out),
-        m_indent(optionalIndent),
+        m_indent(std::move(optionalIndent)),
         m_itemSeparator(
                 m_indent.has_value() ? DEFAULT_ITEM_SEPARATOR_WITH_INDENT : DEFAULT_ITEM_SEPARATOR, allocator),
         m_keySeparator(DEFAULT_KEY_SEPARATOR, allocator)
-- 
2.43.0


From c1b9fdc9b83083fa23e13060dc0e6af5d399c484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:44 +0000
Subject: [PATCH 37/46] fix: JSON reader takes memory from outside of the given
 allocator

---
 runtime/src/zserio/JsonReader.h    | 21 +++++++++++++--------
 runtime/src/zserio/JsonTokenizer.h |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index 9f27625..de64d2d 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -38,7 +38,8 @@ public:
     {}
     explicit BitBufferAdapter(const ALLOC& allocator) :
             AllocatorHolder<ALLOC>(allocator),
-            m_state(VISIT_KEY)
+            m_state(VISIT_KEY),
+            m_buffer(allocator)
     {}
     ~BitBufferAdapter() override = default;
 
@@ -84,7 +85,7 @@ private:
     };
 
     State m_state;
-    Optional<Vector<uint8_t, ALLOC>> m_buffer;
+    BasicOptional<ALLOC, Vector<uint8_t, ALLOC>> m_buffer;
     Optional<size_t> m_bitSize;
 };
 
@@ -99,7 +100,8 @@ public:
     {}
     explicit BytesAdapter(const ALLOC& allocator) :
             AllocatorHolder<ALLOC>(allocator),
-            m_state(VISIT_KEY)
+            m_state(VISIT_KEY),
+            m_buffer(allocator)
     {}
     ~BytesAdapter() override = default;
 
@@ -142,7 +144,7 @@ private:
     };
 
     State m_state;
-    Optional<Vector<uint8_t, ALLOC>> m_buffer;
+    BasicOptional<ALLOC, Vector<uint8_t, ALLOC>> m_buffer;
 };
 
 template <typename ALLOC>
@@ -152,7 +154,9 @@ public:
     using AllocatorHolder<ALLOC>::get_allocator;
 
     explicit CreatorAdapter(const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AllocatorHolder<ALLOC>(allocator),
+            m_creator(allocator),
+            m_keyStack(allocator)
     {}
 
     void setType(const IBasicTypeInfo<ALLOC>& typeInfo);
@@ -177,7 +181,7 @@ private:
     template <typename T>
     void convertValue(T&& value) const;
 
-    Optional<BasicZserioTreeCreator<ALLOC>> m_creator;
+    BasicOptional<ALLOC, BasicZserioTreeCreator<ALLOC>> m_creator;
     using StringType = BasicString<RebindAlloc<ALLOC, char>>;
     Vector<StringType, RebindAlloc<ALLOC, StringType>> m_keyStack;
     IBasicReflectableDataPtr<ALLOC> m_object;
@@ -254,7 +258,8 @@ BasicAny<ALLOC> BitBufferAdapter<ALLOC>::get() const
         throw CppRuntimeException("JsonReader: Unexpected end in BitBuffer!");
     }
 
-    return BasicAny<ALLOC>(BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value()), get_allocator());
+    return BasicAny<ALLOC>(
+            BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value(), get_allocator()), get_allocator());
 }
 
 template <typename ALLOC>
@@ -382,7 +387,7 @@ BasicAny<ALLOC> BytesAdapter<ALLOC>::get() const
         throw CppRuntimeException("JsonReader: Unexpected end in bytes!");
     }
 
-    return BasicAny<ALLOC>(m_buffer.value(), get_allocator());
+    return BasicAny<ALLOC>(Vector<uint8_t, ALLOC>(m_buffer.value(), get_allocator()), get_allocator());
 }
 
 template <typename ALLOC>
diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 9ce4a1b..24ae612 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -178,7 +178,8 @@ JsonToken BasicJsonTokenizer<ALLOC>::next()
             return m_token;
         }
 
-        m_content = m_content.substr(m_pos) + newContent;
+        m_content.erase(0, m_pos);
+        m_content.append(newContent);
         m_pos = 0;
     }
 
-- 
2.43.0


From a68d14bf84dbe6539f258b760bab79af64cfdfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:44 +0000
Subject: [PATCH 38/46] fix: value extracted from any ignores the allocator of
 the any

---
 runtime/src/zserio/ReflectableUtil.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index f3d9be1..a87422b 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -368,6 +368,10 @@ T ReflectableUtil::fromAny(const BasicAny<ALLOC>& any)
             return any.template get<typename T::ValueType>();
         }
     }
+    else if constexpr (std::uses_allocator_v<T, ALLOC> && std::is_constructible_v<T, const T&, const ALLOC&>)
+    {
+        return T(any.template get<T>(), any.get_allocator());
+    }
     else
     {
         return any.template get<T>();
-- 
2.43.0


From 6979d73f3f3d641fdab3f960f4a323520fb74139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:44 +0000
Subject: [PATCH 39/46] fix: any copied or moved with an allocator does not
 pass it to the held value

---
 runtime/src/zserio/Any.h | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 76fcaac..a3b5804 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -117,6 +117,20 @@ public:
         }
     }
 
+    // emulates uses_allocator construction if the type supports it (see above)
+    template <typename U>
+    void set(const ALLOC& allocator, U&& value)
+    {
+        if constexpr (std::uses_allocator_v<T, ALLOC> && std::is_constructible_v<T, U, const ALLOC&>)
+        {
+            m_typedHolder.emplace(std::forward<U>(value), allocator);
+        }
+        else
+        {
+            m_typedHolder = std::forward<U>(value);
+        }
+    }
+
     void setHolder(const std::optional<T>& value)
     {
         m_typedHolder = value;
@@ -188,7 +202,10 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(this->getHolder());
+            if (this->getHolder().has_value())
+            {
+                holder->set(allocator, this->get());
+            }
         }
         catch (...)
         {
@@ -208,7 +225,10 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(std::move(this->getHolder()));
+            if (this->getHolder().has_value())
+            {
+                holder->set(allocator, std::move(this->get()));
+            }
         }
         catch (...)
         {
@@ -520,7 +540,7 @@ public:
         {
             // setting can throw and the value can be a part of the currently held value, so set it first
             BasicAny tmp(get_allocator_ref());
-            tmp.template createHolder<U>()->set(std::forward<T>(value));
+            tmp.template createHolder<U>()->set(get_allocator_ref(), std::forward<T>(value));
             clearHolder();
             move(std::move(tmp));
         }
-- 
2.43.0


From 1d0a6a5878f67e7f4258221a487e8e64d641e944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:21 +0000
Subject: [PATCH 40/46] fix: bit buffer reads beyond its data after a failed
 copy assignment

---
 runtime/src/zserio/BitBuffer.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index d5292b6..1d59332 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -125,11 +125,15 @@ public:
     ~BasicBitBuffer() = default;
 
     BasicBitBuffer(const BasicBitBuffer&) = default;
-    BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
     /**
      * \}
      */
 
+    /**
+     * Copy assignment operator. The bit buffer remains valid (but can become empty) if the copying fails.
+     */
+    BasicBitBuffer& operator=(const BasicBitBuffer& other);
+
     /**
      * Move constructor. The moved-from bit buffer is empty.
      */
@@ -352,6 +356,31 @@ inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
     other.m_bitSize = 0;
 }
 
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(const BasicBitBuffer& other)
+{
+    if (this != &other)
+    {
+        try
+        {
+            m_buffer = other.m_buffer;
+        }
+        catch (...)
+        {
+            if (m_buffer.size() < getByteSize())
+            {
+                // the old content has been already released (e.g. different allocator has been propagated)
+                m_buffer.clear();
+                m_bitSize = 0;
+            }
+            throw;
+        }
+        m_bitSize = other.m_bitSize;
+    }
+
+    return *this;
+}
+
 template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
         std::is_nothrow_move_assignable<std::vector<uint8_t, ALLOC>>::value)
-- 
2.43.0


From f1011a2cec862a6eac0bc82c20bd55f0f22dd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:21 +0000
Subject: [PATCH 41/46] fix: toJsonString returns truncated text when the
 memory allocation fails

---
 runtime/src/zserio/DebugStringUtil.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index f9e617d..77a884c 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -52,6 +52,7 @@ BasicString<RebindAlloc<ALLOC, char>> toJsonString(
 {
     auto stream = std::basic_ostringstream<char, std::char_traits<char>, RebindAlloc<ALLOC, char>>(
             BasicString<RebindAlloc<ALLOC, char>>(allocator));
+    stream.exceptions(std::ios_base::badbit); // do not swallow exceptions thrown by the allocator
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
     return stream.str();
 }
-- 
2.43.0


From 6126b6f15e4a234b4213825691b0c64eab76f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 42/46] fix: propagating polymorphic allocator allocates too
 little for huge counts

---
 runtime/src/zserio/ppmr/PropagatingPolymorphicAllocator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtime/src/zserio/ppmr/PropagatingPolymorphicAllocator.h b/runtime/src/zserio/ppmr/PropagatingPolymorphicAllocator.h
index 076d4fc..efd1298 100644
--- a/runtime/src/zserio/ppmr/PropagatingPolymorphicAllocator.h
+++ b/runtime/src/zserio/ppmr/PropagatingPolymorphicAllocator.h
@@ -2,7 +2,9 @@
 #define ZSERIO_PPMR_PROPAGATING_POLYMORPHIC_ALLOCATOR_H_INC
 
 #include <cstddef>
+#include <limits>
 #include <memory_resource>
+#include <new>
 
 namespace zserio
 {
@@ -81,6 +83,10 @@ public:
      */
     value_type* allocate(std::size_t size)
     {
+        if (size > std::numeric_limits<std::size_t>::max() / sizeof(value_type))
+        {
+            throw std::bad_array_new_length();
+        }
         return static_cast<value_type*>(m_resource->allocate(size * sizeof(value_type), alignof(value_type)));
     }
 
-- 
2.43.0


From 659f27ab521e22635a3f41d221ecf79d2e28f36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 43/46] fix: offsets cannot be initialized for bit buffers

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 1d59332..77fbe34 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -657,7 +657,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From ef016962e30203b79c1269b8f04d6c7fc5a0a2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 44/46] fix: offsets cannot be initialized for dynamic bit
 fields

---
 runtime/src/zserio/DeltaContext.h | 6 ++++++
 runtime/src/zserio/View.h         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 130c222..479a5b2 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -441,6 +441,12 @@ BitSize bitSizeOf(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSi
     return deltaContext.bitSizeOf(view);
 }
 
+template <typename T>
+BitSize initializeOffsets(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSize bitPosition)
+{
+    return bitSizeOf(deltaContext, view, bitPosition);
+}
+
 template <typename T>
 void write(DeltaContext& deltaContext, BitStreamWriter& writer, View<DynIntWrapper<T>> view)
 {
diff --git a/runtime/src/zserio/View.h b/runtime/src/zserio/View.h
index 45a5103..488b73b 100644
--- a/runtime/src/zserio/View.h
+++ b/runtime/src/zserio/View.h
@@ -240,6 +240,12 @@ BitSize bitSizeOf(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize =
     return view.numBits();
 }
 
+template <typename VALUE_TYPE>
+BitSize initializeOffsets(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize bitPosition)
+{
+    return bitSizeOf(view, bitPosition);
+}
+
 template <typename VALUE_TYPE>
 void write(BitStreamWriter& writer, const View<detail::DynIntWrapper<VALUE_TYPE>>& view)
 {
-- 
2.43.0


From 1c72de0db2229d62cd3cb0c79982f653826b2341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:03 +0000
Subject: [PATCH 45/46] fix: array view iterator has no member access for
 numeric elements

---
 runtime/src/zserio/ArrayView.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index 934123f..87736e6 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -358,7 +358,7 @@ public:
         /** Helper needed to implement operator-> on the ConstIterator. */
         struct ArrowHelper
         {
-            value_type* operator->()
+            std::remove_reference_t<value_type>* operator->()
             {
                 return std::addressof(value);
             }
-- 
2.43.0


From 8ee5fb7f905eff4e2a136f093eeab68d723cb748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:43 +0000
Subject: [PATCH 46/46] fix: float fields cannot be written with a packing
 context

---
 runtime/src/zserio/DeltaContext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 479a5b2..913bbc3 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -496,7 +496,7 @@ BitSize bitSizeOf(DeltaContext&, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value, Bit
 }
 
 template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
-void write(DeltaContext&, BitStreamReader& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
+void write(DeltaContext&, BitStreamWriter& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
 {
     write(writer, value);
 }
-- 
2.43.0

