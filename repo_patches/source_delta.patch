From 020530b65125dbf7e834e9e073fe9398f10d05d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 01/54] fix: store little-endian bit fields of 24, 40, 48 and
 56 bits correctly

---
 stingraykit/BitsGetter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/BitsGetter.h b/stingraykit/BitsGetter.h
index 4912240..f919620 100644
--- a/stingraykit/BitsGetter.h
+++ b/stingraykit/BitsGetter.h
@@ -281,7 +281,7 @@ namespace stingray
 
 				ShiftableT shiftable_val = static_cast<ShiftableT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val);
+					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val) >> (SizeBits % 8 == 0 ? sizeof(MinimalT) * 8 - SizeBits : 0); //whole bytes only, bit order within an incomplete byte is not reversed
 
 				size_t cur_byte = OffsetBits / 8;
 				int msb = 8 - (OffsetBits % 8);
@@ -338,7 +338,7 @@ namespace stingray
 
 				ShiftableT shiftable = static_cast<ShiftableT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable = SwappableType<MinimalT>::Swap(shiftable);
+					shiftable = SwappableType<MinimalT>::Swap(shiftable) >> (sizeof(MinimalT) * 8 - SizeBits);
 
 				const size_t offset = OffsetBits / 8;
 				const size_t count = SizeBits / 8;
-- 
2.43.0


From c7e50f3734cf7b31cb28b64282d048af94222922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 02/54] fix: refuse byte slices that reach outside the sliced
 array

---
 stingraykit/collection/ByteData.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index d9e9dce..6e87408 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -183,29 +183,29 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{ CheckSlice(offset, other._sizeLimit); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{ CheckSlice(offset, other._sizeLimit); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset, size_t sizeLimit)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(sizeLimit)
 		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			CheckSlice(offset, other._sizeLimit);
+			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit <= _data->size() - _offset, IndexOutOfRangeException(_sizeLimit, _offset, _data->size()));
+			STINGRAYKIT_CHECK(other._sizeLimit == NoSizeLimit || _sizeLimit <= other._sizeLimit - offset, IndexOutOfRangeException(_sizeLimit, offset, other._sizeLimit));
 		}
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset, size_t sizeLimit)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(sizeLimit)
 		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			CheckSlice(offset, other._sizeLimit);
+			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit <= _data->size() - _offset, IndexOutOfRangeException(_sizeLimit, _offset, _data->size()));
+			STINGRAYKIT_CHECK(other._sizeLimit == NoSizeLimit || _sizeLimit <= other._sizeLimit - offset, IndexOutOfRangeException(_sizeLimit, offset, other._sizeLimit));
 		}
 
 		void RequireSize(size_t size)
@@ -327,6 +327,13 @@ namespace stingray
 		{ return std::lexicographical_compare(data(), data() + size(), other.data(), other.data() + other.size()); }
 
 		STINGRAYKIT_GENERATE_RELATIONAL_OPERATORS_FROM_LESS(BasicByteArray);
+
+	private:
+		void CheckSlice(size_t offset, size_t sizeLimit) const
+		{
+			STINGRAYKIT_CHECK(offset <= _offset && _data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
+			STINGRAYKIT_CHECK(offset <= sizeLimit, IndexOutOfRangeException(offset, sizeLimit));
+		}
 	};
 
 
@@ -392,7 +399,7 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteData(const BasicByteArray<U>& array, size_t offset, size_t size)
 			: _data(array.data() + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + _size, array.size()); }
+		{ DETAIL_BYTEDATA_INDEX_CHECK(offset, array.size()); DETAIL_BYTEDATA_INDEX_CHECK(size, array.size() - offset); }
 
 		template < typename U, size_t N >
 		BasicByteData(U(&arr)[N])
@@ -409,7 +416,7 @@ namespace stingray
 
 		BasicByteData(BasicByteData data, size_t offset, size_t size)
 			: _data(data._data + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + size, data._size); }
+		{ DETAIL_BYTEDATA_INDEX_CHECK(offset, data._size); DETAIL_BYTEDATA_INDEX_CHECK(size, data._size - offset); }
 
 		T& operator [] (size_t index) const
 		{
-- 
2.43.0


From 08d9cb8f176daa1547633063de05399701816528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 03/54] fix: make a wrapped circular buffer empty after Clear

---
 stingraykit/io/CircularBufferBase.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..6a20c08 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -211,7 +211,10 @@ namespace stingray
 			}
 
 			if (_readOffset + _lockedDataSize < GetStorageSize())
+			{
 				_writeOffset = _readOffset + _lockedDataSize;
+				_dataIsContiguous = true;
+			}
 			else
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
 
-- 
2.43.0


From bce81b433afd9904c1e51284e6febddcc6d4ac2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:01 +0000
Subject: [PATCH 04/54] fix: accept a packet that fits into an empty packet
 buffer whatever its offsets

---
 stingraykit/io/PacketBuffer.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/io/PacketBuffer.h b/stingraykit/io/PacketBuffer.h
index f91f97c..837618a 100644
--- a/stingraykit/io/PacketBuffer.h
+++ b/stingraykit/io/PacketBuffer.h
@@ -82,6 +82,12 @@ namespace stingray
 			MutexLock l1(_writeMutex); // we need this mutex because write can be called simultaneously from several threads
 			MutexLock l2(_bufferMutex);
 
+			if (_packetQueue.empty())
+			{
+				_buffer.Clear();
+				_paddingSize = 0;
+			}
+
 			BithreadCircularBuffer::Writer w = _buffer.Write();
 			size_t padding_size = (w.size() < data.size() && w.IsBufferEnd()) ? w.size() : 0;
 			if (_buffer.GetFreeSize() < padding_size + data.size())
-- 
2.43.0


From fb4d47031052b19ffb3153d17bc7689fa52c8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:54 +0000
Subject: [PATCH 05/54] fix: accept an empty push into a memory circular buffer

---
 stingraykit/io/MemoryCircularBuffer.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/io/MemoryCircularBuffer.h b/stingraykit/io/MemoryCircularBuffer.h
index eda65f7..502a545 100644
--- a/stingraykit/io/MemoryCircularBuffer.h
+++ b/stingraykit/io/MemoryCircularBuffer.h
@@ -33,6 +33,9 @@ namespace stingray
 		virtual void WriteToStorage(size_t offset, ConstByteData::iterator begin, ConstByteData::iterator end)
 		{
 			//std::copy(&(*begin), &(*begin) + std::distance(begin, end), _container.begin() + offset);
+			if (begin == end)
+				return;
+
 			::memcpy(&_container[0] + offset, &(*begin), std::distance(begin, end));
 		}
 
-- 
2.43.0


From 0f944ff45abaa0cb1f7c63d006bbabaa0b182eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 06/54] fix: refuse a push or pop whose size overflows the
 circular buffer offset

---
 stingraykit/io/BithreadCircularBuffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/BithreadCircularBuffer.cpp b/stingraykit/io/BithreadCircularBuffer.cpp
index 337953c..1d1807e 100644
--- a/stingraykit/io/BithreadCircularBuffer.cpp
+++ b/stingraykit/io/BithreadCircularBuffer.cpp
@@ -53,7 +53,7 @@ namespace stingray
 
 		void Push(size_t pushSize)
 		{
-			STINGRAYKIT_CHECK(_writeOffset + pushSize <= GetStorageSize(), IndexOutOfRangeException(pushSize, _writeOffset, GetStorageSize()));
+			STINGRAYKIT_CHECK(pushSize <= GetStorageSize() - _writeOffset, IndexOutOfRangeException(pushSize, _writeOffset, GetStorageSize()));
 			_writeOffset += pushSize;
 
 			if (_writeOffset == GetStorageSize())
@@ -73,7 +73,7 @@ namespace stingray
 
 		void Pop(size_t popSize)
 		{
-			STINGRAYKIT_CHECK(_readOffset + popSize <= GetStorageSize(), IndexOutOfRangeException(popSize, _readOffset, GetStorageSize()));
+			STINGRAYKIT_CHECK(popSize <= GetStorageSize() - _readOffset, IndexOutOfRangeException(popSize, _readOffset, GetStorageSize()));
 			_readOffset += popSize;
 
 			if (_readOffset == GetStorageSize())
-- 
2.43.0


From 41ac9d7ad794475ee9ffc20d366d529fb1b4e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 07/54] fix: allow seeking in memory streams of more than 2 GiB

---
 stingraykit/io/MemoryByteStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/MemoryByteStream.h b/stingraykit/io/MemoryByteStream.h
index 905d625..9ca15b9 100644
--- a/stingraykit/io/MemoryByteStream.h
+++ b/stingraykit/io/MemoryByteStream.h
@@ -92,7 +92,7 @@ namespace stingray
 			}
 			if (new_ofs < 0)
 				STINGRAYKIT_THROW(IndexOutOfRangeException());
-			if (new_ofs > (int)_data.size())
+			if ((u64)new_ofs > _data.size())
 				STINGRAYKIT_THROW(NotImplementedException());
 			_offset = new_ofs;
 		}
-- 
2.43.0


From a0da77ae481be76fe78cbde59f7b7fc7f34edda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 08/54] fix: let a write to a chunked memory stream cross a
 chunk boundary

---
 stingraykit/io/ChunkedMemoryByteStream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..7f463e2 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -78,6 +78,7 @@ namespace stingray
 					curcount = std::min(data.size() - passed, _chunk->size() - _chunkOffset);
 					std::copy(data.data() + passed, data.data() + passed + curcount, _chunk->begin() + _chunkOffset);
 					_chunkOffset += curcount;
+					NormalizePosition();
 				}
 			}
 			return passed;
-- 
2.43.0


From 2962cdb157e24edadb336ccc57f819a56995eb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:40 +0000
Subject: [PATCH 09/54] fix: do not read past the buffer of an aligned buffered
 stream after a short read

---
 stingraykit/io/BufferedStream.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..bab3c97 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,13 +44,17 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (_inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
-					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
-						break;
+					do
+					{
+						const size_t readed = _stream->Read(ByteData(_buffer, _bufferSize), token);
+						if (!readed)
+							return total;
+						_bufferSize += readed;
+					} while (_inBufferOffset >= _bufferSize);
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
 				::memcpy(dst, _buffer.data() + _inBufferOffset, toCopy);
-- 
2.43.0


From bd567137160d10fa8c5e85f415ca027e4a2df2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 10/54] fix: order big integers by their most significant unit
 and keep zero canonical

---
 stingraykit/BigNum.cpp | 6 +++---
 stingraykit/BigNum.h   | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/stingraykit/BigNum.cpp b/stingraykit/BigNum.cpp
index 239689f..acfac91 100644
--- a/stingraykit/BigNum.cpp
+++ b/stingraykit/BigNum.cpp
@@ -589,9 +589,9 @@ namespace stingray
 		if (_units.size() > other._units.size())
 			return false;
 
-		for (size_t i = 0; i < _units.size(); ++i)
-			if (_units[i] < other._units[i])
-				return true;
+		for (size_t i = _units.size(); i > 0; --i)
+			if (_units[i - 1] != other._units[i - 1])
+				return _units[i - 1] < other._units[i - 1];
 
 		return false;
 	}
diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index bba2b60..30799e7 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -57,7 +57,8 @@ namespace stingray
 		BigUnsignedInteger(T source, typename EnableIf<sizeof(BlockType) >= sizeof(T), Dummy*>::ValueT dummy = 0)
 		{
 			STINGRAYKIT_CHECK(source >= 0, ArgumentException("source", source));
-			_units.push_back(source);
+			if (source != 0)
+				_units.push_back(source);
 		}
 
 		template <typename T>
-- 
2.43.0


From 5be19ef99b6eda3900ded3a27c9ecb94100a2e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 11/54] fix: compute, compare, print and parse decimals exactly

---
 stingraykit/Decimal.cpp | 57 +++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/stingraykit/Decimal.cpp b/stingraykit/Decimal.cpp
index 65087ae..2fc0d7a 100644
--- a/stingraykit/Decimal.cpp
+++ b/stingraykit/Decimal.cpp
@@ -9,15 +9,13 @@
 
 #include <stingraykit/string/StringUtils.h>
 
-#include <cmath>
-
 namespace stingray
 {
 
 	namespace
 	{
 
-		const u16 BaseOfExponent = 10;
+		const s64 BaseOfExponent = 10;
 
 		string_view RemoveUnsignificantZeros(string_view source)
 		{
@@ -34,8 +32,37 @@ namespace stingray
 			return source;
 		}
 
+		s64 MultiplyByPowerOfBase(s64 value, u16 power)
+		{
+			for (; power && value; --power)
+				value *= BaseOfExponent;
+			return value;
+		}
+
 		s64 PowToExponent(const Decimal& decimal, u16 exponent)
-		{ return decimal.GetMantissa() * std::pow(BaseOfExponent, exponent - decimal.GetExponent()); }
+		{ return MultiplyByPowerOfBase(decimal.GetMantissa(), exponent - decimal.GetExponent()); }
+
+		int CompareToDownscaled(s64 value, s64 scaled, u16 exponent)
+		{
+			s64 rest = 0;
+			for (; exponent && scaled; --exponent)
+			{
+				if (rest == 0)
+					rest = scaled % BaseOfExponent;
+				scaled /= BaseOfExponent;
+			}
+
+			if (value != scaled)
+				return value < scaled ? -1 : 1;
+			return rest == 0 ? 0 : (rest > 0 ? -1 : 1);
+		}
+
+		int Compare(const Decimal& lhs, const Decimal& rhs)
+		{
+			if (lhs.GetExponent() <= rhs.GetExponent())
+				return CompareToDownscaled(lhs.GetMantissa(), rhs.GetMantissa(), rhs.GetExponent() - lhs.GetExponent());
+			return -CompareToDownscaled(rhs.GetMantissa(), lhs.GetMantissa(), lhs.GetExponent() - rhs.GetExponent());
+		}
 
 	}
 
@@ -57,11 +84,13 @@ namespace stingray
 
 		const s64 integralPart = rawIntegralPart.empty() ? 0 : stingray::FromString<s64>(rawIntegralPart);
 
+		STINGRAYKIT_CHECK(rawFractionalPart.find_first_not_of("0123456789") == string_view::npos, ArgumentException("str", str));
+
 		const string_view croppedFractionalPart = RemoveUnsignificantZeros(rawFractionalPart);
 		const s64 fractionalPart = croppedFractionalPart.empty() ? 0 : stingray::FromString<s64>(croppedFractionalPart);
 
 		const u16 exponent = (u16)croppedFractionalPart.size();
-		const s64 integralMantissa = integralPart * std::pow(BaseOfExponent, exponent);
+		const s64 integralMantissa = MultiplyByPowerOfBase(integralPart, exponent);
 		const s64 fractionalMantissa = integralPart >= 0 ? fractionalPart : -fractionalPart;
 		const int signFactor = !rawIntegralPart.empty() && rawIntegralPart[0] == '-' && integralPart == 0 ? -1 : 1;
 
@@ -72,18 +101,20 @@ namespace stingray
 
 	std::string Decimal::ToString() const
 	{
-		const std::string value = AddSignificantZeros(stingray::ToString(_mantissa), _exponent);
+		const std::string mantissa = stingray::ToString(_mantissa);
+		const std::string sign = _mantissa < 0 ? "-" : "";
+		const std::string value = AddSignificantZeros(RemovePrefix(mantissa, sign), _exponent);
 
 		std::string integralPart = ExtractPrefix(value, value.size() - _exponent);
 
 		const std::string rawFractionalPart = RemovePrefix(value, integralPart);
 		const string_view croppedFractionalPart = RemoveUnsignificantZeros(rawFractionalPart);
 
-		if (integralPart.empty() || integralPart == "-")
+		if (integralPart.empty())
 			integralPart.append("0");
 
 		StringBuilder builder;
-		builder % integralPart;
+		builder % sign % integralPart;
 
 		if (!croppedFractionalPart.empty())
 			builder % "." % croppedFractionalPart;
@@ -92,17 +123,11 @@ namespace stingray
 
 
 	bool Decimal::operator == (const Decimal& other) const
-	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) == PowToExponent(other, maxExponent);
-	}
+	{ return Compare(*this, other) == 0; }
 
 
 	bool Decimal::operator < (const Decimal& other) const
-	{
-		const u16 maxExponent = std::max(_exponent, other._exponent);
-		return PowToExponent(*this, maxExponent) < PowToExponent(other, maxExponent);
-	}
+	{ return Compare(*this, other) < 0; }
 
 
 	Decimal& Decimal::operator += (const Decimal& other)
-- 
2.43.0


From 22fdee9ac8b6d1b543d32d4f21df782e1a1dd237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 12/54] fix: print and parse fixed-point fractions with padding
 and sign

---
 stingraykit/fixed_point.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stingraykit/fixed_point.h b/stingraykit/fixed_point.h
index 9076e94..655b39d 100644
--- a/stingraykit/fixed_point.h
+++ b/stingraykit/fixed_point.h
@@ -111,8 +111,9 @@ namespace stingray
 
 		std::string ToString() const
 		{
-			value_type res = (*this * 1000).to_int();
-			return StringBuilder() % (res / 1000) % "." % (res % 1000);
+			const DoubleType res = ((DoubleType)_value * 1000) >> N;
+			const DoubleType abs = res < 0 ? -res : res;
+			return StringBuilder() % (res < 0 ? "-" : "") % (abs / 1000) % "." % RightJustify(stingray::ToString(abs % 1000), 3, '0');
 		}
 
 		static fixed_point FromRawValue(value_type value)
@@ -132,7 +133,7 @@ namespace stingray
 				fixed_point fractional_part = stingray::FromString<value_type>(v[1]);
 				for (size_t i = 0; i < v[1].size(); ++i)
 					fractional_part /= 10;
-				return integral_part + fractional_part;
+				return StartsWith(v[0], "-") ? integral_part - fractional_part : integral_part + fractional_part;
 			}
 			default:
 				STINGRAYKIT_THROW(ArgumentException("str", str));
-- 
2.43.0


From 0b0344d9b55dab5641c58137743a49ae65f4d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:11 +0000
Subject: [PATCH 13/54] fix: keep searches in string views and string
 references inside the string

---
 stingraykit/string/StringUtils.h |  5 +++--
 stingraykit/string/string_view.h | 12 +++++-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 99236fe..5d70644 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -139,11 +139,11 @@ namespace stingray
 		size_type find(const std::string& str, size_type pos = 0) const
 		{
 			const size_type p = _owner->find(str, pos + _begin);
-			return p >= _end ? npos : p - _begin;
+			return p >= _end || str.size() > _end - p ? npos : p - _begin;
 		}
 
 		StringRef substr(size_type pos = 0, size_type n = npos) const
-		{ return StringRef(*_owner, _begin + pos, n == npos ? _end : _begin + pos + n ); }
+		{ return StringRef(*_owner, _begin + pos, n >= size() - std::min(pos, size()) ? _end : _begin + pos + n); }
 
 		char operator [] (size_type index) const
 		{ return (*_owner)[_begin + index]; }
@@ -250,6 +250,7 @@ namespace stingray
 			{
 				_startPos = 0;
 				_results = 0;
+				_next = _search(_string, _startPos);
 				return *this;
 			}
 
diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 3f1d2e1..b95f396 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -102,7 +102,7 @@ namespace stingray
 		int compare(basic_string_view v) const
 		{
 			const int result = Traits::compare(data(), v.data(), std::min(size(), v.size()));
-			return result == 0 ? size() - v.size() : result;
+			return result == 0 ? (size() < v.size() ? -1 : size() > v.size()) : result;
 		}
 
 		int compare(size_type pos1, size_type count1, basic_string_view v) const									{ return substr(pos1, count1).compare(v); }
@@ -181,11 +181,10 @@ namespace stingray
 
 		size_type find_last_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (v.empty() || empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 				for (const_iterator it = v.begin(); it != v.end(); ++it)
@@ -228,11 +227,10 @@ namespace stingray
 
 		size_type find_last_not_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (v.empty() || empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 			{
-- 
2.43.0


From 0753ad973efe8dd4fa5b08e4da37db3dcd35d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 14/54] fix: NTP timestamps lost the fraction of a second

---
 stingraykit/time/NtpTimestamp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/time/NtpTimestamp.cpp b/stingraykit/time/NtpTimestamp.cpp
index 62bbff4..af0b945 100644
--- a/stingraykit/time/NtpTimestamp.cpp
+++ b/stingraykit/time/NtpTimestamp.cpp
@@ -15,8 +15,8 @@ namespace stingray
 		u32 integerPart = _timestamp >> 32;
 		u64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
 
-		u32 fractionPart = _timestamp - integerPart;
-		u64 milliSeconds = fractionPart / ((u64)1 << 32);
+		u32 fractionPart = _timestamp;
+		u64 milliSeconds = ((u64)fractionPart * 1000) >> 32;
 
 		return Time(seconds * 1000 + milliSeconds);
 	};
@@ -25,7 +25,7 @@ namespace stingray
 	NtpTimestamp NtpTimestamp::FromTime(Time time)
 	{
 		u32 integerPart = time.GetSeconds() +  DifferenceBetweenUnixNtpTime;
-		u32 fractionPart = time.GetSeconds() * ((u64)1 << 32);
+		u32 fractionPart = (((u64)(time.GetMilliseconds() % 1000) << 32) + 999) / 1000;
 
 		u64 timestamp = ((u64)integerPart << 32) | fractionPart;
 
-- 
2.43.0


From b513cf8b17e9b96de0259fb31a2bf88f2ad70a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 15/54] fix: the last second of 1969 was refused as a broken
 down time

---
 stingraykit/time/posix/TimeEngine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/posix/TimeEngine.cpp b/stingraykit/time/posix/TimeEngine.cpp
index 940e8a5..f5ea627 100644
--- a/stingraykit/time/posix/TimeEngine.cpp
+++ b/stingraykit/time/posix/TimeEngine.cpp
@@ -11,6 +11,7 @@
 #include <stingraykit/thread/atomic/AtomicInt.h>
 #include <stingraykit/SystemException.h>
 
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 
@@ -247,8 +248,9 @@ namespace posix
 		const s64 result = timegm64(&bdt);
 		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm64(" % bdTime % ")"));
 #else
+		errno = 0;
 		const time_t result = timegm(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
+		STINGRAYKIT_CHECK(result != -1 || errno == 0, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
 #endif
 		return (s64)result * 1000 + bdTime.Milliseconds;
 	}
-- 
2.43.0


From b56749d9ed8d05083efbf129c881e60c0435ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 16/54] fix: the modified Julian day of times before 1970 was
 one too high

---
 stingraykit/time/Time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 39eb941..a88fd35 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -461,7 +461,11 @@ namespace stingray
 
 
 	int Time::GetMjd() const
-	{ return DaysSinceMjd + _milliseconds / (1000 * SecondsPerDay); }
+	{
+		const s64 millisecondsPerDay = 1000 * SecondsPerDay;
+		const s64 days = _milliseconds / millisecondsPerDay;
+		return DaysSinceMjd + (_milliseconds % millisecondsPerDay < 0 ? days - 1 : days);
+	}
 
 
 	u32 Time::GetBcdTime(TimeKind kind) const
-- 
2.43.0


From 133e9d58a4cbed4bfec1847a10cda44663ff4e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 17/54] fix: overlapping fields in a date format read outside
 the format string

---
 stingraykit/time/BrokenDownTime.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stingraykit/time/BrokenDownTime.cpp b/stingraykit/time/BrokenDownTime.cpp
index 782438c..ce1f8fe 100644
--- a/stingraykit/time/BrokenDownTime.cpp
+++ b/stingraykit/time/BrokenDownTime.cpp
@@ -30,6 +30,9 @@ namespace stingray
 
 			void operator () (const std::string& pattern, size_t patternIndex, size_t offset) const
 			{
+				if (offset < LastPosition) // overlaps the previous match
+					return;
+
 				Stream << string_view(Format.data() + LastPosition, offset - LastPosition);
 
 				switch (patternIndex)
-- 
2.43.0


From 5df75ef52886e1fdd1a2d77fa3f17205563b9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 18/54] fix: escaped letters in a duration format counted as
 fields

---
 stingraykit/time/Time.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index a88fd35..2d590b2 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -115,7 +115,9 @@ namespace stingray
 		{
 			const char c = format[pos];
 
-			if (c == 'h')
+			if (c == '\\')
+				++pos;
+			else if (c == 'h')
 				hasHours = true;
 			else if (c == 'm')
 				hasMinutes = true;
-- 
2.43.0


From f38758bb0faec9275d3334ea02e1f7ce1ebf2e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 19/54] fix: NTP timestamps of times before 1970 were a second
 off

---
 stingraykit/time/NtpTimestamp.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stingraykit/time/NtpTimestamp.cpp b/stingraykit/time/NtpTimestamp.cpp
index af0b945..7b83f67 100644
--- a/stingraykit/time/NtpTimestamp.cpp
+++ b/stingraykit/time/NtpTimestamp.cpp
@@ -24,8 +24,10 @@ namespace stingray
 
 	NtpTimestamp NtpTimestamp::FromTime(Time time)
 	{
-		u32 integerPart = time.GetSeconds() +  DifferenceBetweenUnixNtpTime;
-		u32 fractionPart = (((u64)(time.GetMilliseconds() % 1000) << 32) + 999) / 1000;
+		const u64 milliseconds = time.GetMilliseconds() + DifferenceBetweenUnixNtpTime * 1000;
+
+		u32 integerPart = milliseconds / 1000;
+		u32 fractionPart = ((milliseconds % 1000 << 32) + 999) / 1000;
 
 		u64 timestamp = ((u64)integerPart << 32) | fractionPart;
 
-- 
2.43.0


From d5b383fb49fbe92f25cbd64e08f6661f760f57d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 20/54] fix: UTF-16 surrogate pairs decoded 0x10000 too low

---
 stingraykit/locale/StringCodec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/locale/StringCodec.cpp b/stingraykit/locale/StringCodec.cpp
index 08a3324..ca6af56 100644
--- a/stingraykit/locale/StringCodec.cpp
+++ b/stingraykit/locale/StringCodec.cpp
@@ -302,7 +302,7 @@ namespace stingray
 			if (c2 < 0xdc || c2 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3;
+			return 0x10000 + (((c0 & 0x03) << 18) | (c1 << 10) | ((c2 & 0x03) << 8) | c3);
 		}
 
 		u32 Unpack_ISO_10646_utf16le(string_view::const_iterator& it, const string_view::const_iterator& end)
@@ -326,7 +326,7 @@ namespace stingray
 			if (c3 < 0xdc || c3 > 0xdf)
 				return InvalidCharacter;
 
-			return ((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2;
+			return 0x10000 + (((c1 & 0x03) << 18) | (c0 << 10) | ((c3 & 0x03) << 8) | c2);
 		}
 
 		u32 Unpack_ISO_10646_utf32be(string_view::const_iterator& it, const string_view::const_iterator& end)
-- 
2.43.0


From 61ab5a61a29270927f81ce8812bde914b3771368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 21/54] fix: equal texts in encodings of different width
 compared unequal but unordered

---
 stingraykit/locale/LocaleString.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/stingraykit/locale/LocaleString.cpp b/stingraykit/locale/LocaleString.cpp
index a6b7b92..81707e6 100644
--- a/stingraykit/locale/LocaleString.cpp
+++ b/stingraykit/locale/LocaleString.cpp
@@ -44,9 +44,6 @@ namespace stingray
 		if (TextEncoding == other.TextEncoding) //encoding matched
 			return Text == other.Text;
 
-		if (Text.size() != other.Text.size())
-			return false;
-
 		return Compare(other) == 0;
 	}
 
-- 
2.43.0


From a115d13f527714ab1a2946e4c997bd2b8f7726a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 22/54] fix: human readable sizes beyond 64 bits wrapped around

---
 stingraykit/string/HumanReadableSize.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 6a72658..9aab4cc 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -65,7 +65,11 @@ namespace stingray
 
 			for (size_t i = 0; i < Suffixes.size(); ++i)
 				if (suffix == Suffixes[i])
-					return num * ((u64)1 << (10 * (i + 1)));
+				{
+					const u64 measUnit = (u64)1 << (10 * (i + 1));
+					STINGRAYKIT_CHECK(num <= std::numeric_limits<u64>::max() / measUnit, FormatException(str.copy()));
+					return num * measUnit;
+				}
 		}
 
 		STINGRAYKIT_THROW(FormatException(str.copy()));
-- 
2.43.0


From 5a3281960a325d37a7cd065d793b1de20c8afa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:34 +0000
Subject: [PATCH 23/54] fix: sizes near 2^64 could not be printed human
 readably

---
 stingraykit/string/HumanReadableSize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/HumanReadableSize.cpp b/stingraykit/string/HumanReadableSize.cpp
index 9aab4cc..77b99a6 100644
--- a/stingraykit/string/HumanReadableSize.cpp
+++ b/stingraykit/string/HumanReadableSize.cpp
@@ -39,7 +39,7 @@ namespace stingray
 			u64 rounded = roundedInUnits * measUnit;
 			u64 delta = size * allowedErrorFactor;
 
-			if (rounded >= size - delta && rounded <= size + delta)
+			if (rounded >= size ? rounded - size <= delta : size - rounded <= delta)
 			{
 				const std::string sizeString = ToString(roundedInUnits) + whitespace;
 				return i > 0 ? sizeString + Suffixes[i - 1] : sizeString;
-- 
2.43.0


From 0647ae8d36aa12815c6a86087dab940d877b2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 24/54] fix: variant destroyed its value before copying it in
 self-assignment

---
 stingraykit/variant.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..86861c4 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,21 +309,24 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			variant tmp(other);
 			base::Destruct();
-			Assign(other);
+			Assign(std::move(tmp));
 		}
 
 		void assign(variant&& other)
 		{
+			variant tmp(std::move(other));
 			base::Destruct();
-			Assign(std::move(other));
+			Assign(std::move(tmp));
 		}
 
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			typename Decay<T>::ValueT tmp(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			AssignVal(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
@@ -445,21 +448,24 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			variant tmp(other);
 			base::Destruct();
-			Assign(other);
+			Assign(std::move(tmp));
 		}
 
 		void assign(variant&& other)
 		{
+			variant tmp(std::move(other));
 			base::Destruct();
-			Assign(std::move(other));
+			Assign(std::move(tmp));
 		}
 
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			typename Decay<T>::ValueT tmp(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			AssignVal(std::move(tmp));
 		}
 
 		variant& operator = (const variant& other)
-- 
2.43.0


From cd4e7fbb17626cf8313d3b56812f4ffbe63d7905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:48 +0000
Subject: [PATCH 25/54] fix: any destroyed its value before copying it in
 self-assignment

---
 stingraykit/any.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..76ff10e 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,23 +287,26 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			any tmp(other);
 			Destroy();
-			Copy(other);
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		any& operator = (any&& other)
 		{
+			any tmp(std::move(other));
 			Destroy();
-			Move(std::move(other));
+			Move(std::move(tmp));
 			return *this;
 		}
 
 		template < typename T >
 		typename EnableIf<!IsSame<any, typename Decay<T>::ValueT>::Value, any>::ValueT& operator = (T&& val)
 		{
+			any tmp(std::forward<T>(val));
 			Destroy();
-			Init<T>(std::forward<T>(val));
+			Move(std::move(tmp));
 			return *this;
 		}
 
-- 
2.43.0


From 826e23baf29f0eceb8156043a4d94579b8c5e64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 26/54] fix: waits with a joined token whose member is
 cancelled return, and waits on an expired token time out

---
 stingraykit/thread/JoiningCancellationToken.cpp     | 6 +++++-
 stingraykit/thread/posix/PosixConditionVariable.cpp | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..efc8a80 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -50,7 +50,11 @@ namespace stingray
 		_firstRegistered = _firstRegistrator.TryRegisterCancellationHandler(handler);
 		_secondRegistered = _secondRegistrator.TryRegisterCancellationHandler(handler);
 
-		return _firstRegistered || _secondRegistered;
+		if (_firstRegistered && _secondRegistered)
+			return true;
+
+		// One of the tokens is already cancelled: nobody will call the handler on its behalf
+		return !TryUnregisterCancellationHandler();
 	}
 
 
diff --git a/stingraykit/thread/posix/PosixConditionVariable.cpp b/stingraykit/thread/posix/PosixConditionVariable.cpp
index 986419e..8c7a11f 100644
--- a/stingraykit/thread/posix/PosixConditionVariable.cpp
+++ b/stingraykit/thread/posix/PosixConditionVariable.cpp
@@ -103,7 +103,7 @@ namespace stingray
 	{
 		CancellationHolder holder(mutex, *this, token);
 		if (holder.IsCancelled())
-			return ConditionWaitResult::Cancelled;
+			return !token.IsCancelled() && token.IsTimedOut() ? ConditionWaitResult::TimedOut : ConditionWaitResult::Cancelled;
 
 		const optional<TimeDuration> timeout = token.GetTimeout();
 		if (!timeout)
-- 
2.43.0


From baebeb9f0ccb0191db5879645da57a26957cad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:55 +0000
Subject: [PATCH 27/54] fix: promise::swap exchanges whether the future was
 retrieved

---
 stingraykit/future.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..4495e74 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +332,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 97208a422020cdce941aa4061ec554332b7f0f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 28/54] fix: copies and moves of flat maps and sets with an
 allocator keep the comparison

---
 stingraykit/collection/flat_map.h | 4 ++--
 stingraykit/collection/flat_set.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..1748db1 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -99,11 +99,11 @@ namespace stingray
 		{ }
 
 		flat_map(const flat_map& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(flat_map&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..b5f11f1 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -70,11 +70,11 @@ namespace stingray
 		{ }
 
 		flat_set(const flat_set& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(flat_set&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
-- 
2.43.0


From 8727e79a1b51c455a372f04bc5aac2e2952e7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 29/54] fix: copies of ordered maps and sets keep the
 comparison, and assignment to itself the contents

---
 stingraykit/collection/ordered_map.h | 8 ++++++--
 stingraykit/collection/ordered_set.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..3c79cb4 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -180,11 +180,11 @@ namespace stingray
 		{ }
 
 		ordered_map(const ordered_map& other)
-			: ordered_map(other.begin(), other.end(), other._alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_map(const ordered_map& other, const Allocator& alloc)
-			: ordered_map(other.begin(), other.end(), alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_map(ordered_map&& other, const Allocator& alloc)
@@ -201,7 +201,11 @@ namespace stingray
 
 		ordered_map& operator = (const ordered_map& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
+			_sorted = SortedContainer(other._sorted.key_comp(), _sorted.get_allocator());
 			insert(other.begin(), other.end());
 			return *this;
 		}
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..8a6a9c7 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -156,11 +156,11 @@ namespace stingray
 		{ }
 
 		ordered_set(const ordered_set& other)
-			: ordered_set(other.begin(), other.end(), other._alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_set(const ordered_set& other, const Allocator& alloc)
-			: ordered_set(other.begin(), other.end(), alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_set(ordered_set&& other, const Allocator& alloc)
@@ -177,7 +177,11 @@ namespace stingray
 
 		ordered_set& operator = (const ordered_set& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
+			_sorted = SortedContainer(other._sorted.key_comp(), _sorted.get_allocator());
 			insert(other.begin(), other.end());
 			return *this;
 		}
-- 
2.43.0


From 3fe6dd0ee23874b5abd3d709ff5ec39ce6037ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 30/54] fix: assigning an in-place vector to itself cleared it

---
 stingraykit/collection/inplace_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..6906b42 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,6 +111,9 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Copy(other);
 			return *this;
@@ -118,6 +121,9 @@ namespace stingray
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From 0b3867d6862a5a4b0239c7edd27759b86995f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 31/54] fix: inserting a half-known pair made the sides of a
 bimap disagree

---
 stingraykit/collection/bimap.h | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/bimap.h b/stingraykit/collection/bimap.h
index 3c90550..dcd89f5 100644
--- a/stingraykit/collection/bimap.h
+++ b/stingraykit/collection/bimap.h
@@ -9,10 +9,28 @@
 // WHETHER IN AN ACTION OF CONTRACT, NEGLIGENCE OR OTHER TORTIOUS ACTION, ARISING OUT OF OR IN CONNECTION WITH THE USE OR PERFORMANCE OF THIS SOFTWARE.
 
 #include <iterator>
+#include <utility>
 
 namespace stingray
 {
 
+	namespace Detail
+	{
+
+		template < typename Iterator >
+		bool BimapIsInserted(const std::pair<Iterator, bool>& result)			{ return result.second; }
+
+		template < typename Iterator >
+		bool BimapIsInserted(const Iterator&)									{ return true; }
+
+		template < typename Iterator >
+		Iterator BimapGetIterator(const std::pair<Iterator, bool>& result)		{ return result.first; }
+
+		template < typename Iterator >
+		Iterator BimapGetIterator(const Iterator& result)						{ return result; }
+
+	}
+
 #define BIMAP_DECLARE_TYPES(T, O) \
 public: \
 	typedef T##_collection_type_ T##_collection_type; \
@@ -45,8 +63,12 @@ public: \
 \
 	void T##_insert(const T##_key_type &key, const T##_mapped_type &value) \
 	{ \
-		_##T.insert(T##_value_type(key, value)); \
-		_##O.insert(O##_value_type(value, key)); \
+		const auto inserted = _##T.insert(T##_value_type(key, value)); \
+		if (!Detail::BimapIsInserted(inserted)) \
+			return; \
+\
+		if (!Detail::BimapIsInserted(_##O.insert(O##_value_type(value, key)))) \
+			_##T.erase(Detail::BimapGetIterator(inserted)); \
 	} \
 \
 	void T##_erase(const T##_iterator &i) \
-- 
2.43.0


From 21402c77340da1922698653da94533f0854f4a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 32/54] fix: reverse searches in multisets and
 multi-dictionaries missed the greatest element

---
 stingraykit/collection/MultiMapDictionary.h | 2 +-
 stingraykit/collection/SortedMultiSet.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/MultiMapDictionary.h b/stingraykit/collection/MultiMapDictionary.h
index 8040b06..36553d3 100644
--- a/stingraykit/collection/MultiMapDictionary.h
+++ b/stingraykit/collection/MultiMapDictionary.h
@@ -122,7 +122,7 @@ namespace stingray
 			using cri = typename MapType::const_reverse_iterator;
 
 			const auto it = _map->upper_bound(key);
-			if (it == _map->end() || KeyCompareType()(cri(it)->first, key))
+			if (it == _map->begin() || KeyCompareType()(cri(it)->first, key))
 				return MakeEmptyEnumerator();
 
 			return WrapMapEnumerator(EnumeratorFromStlIterators(cri(it), _map->crend(), GetMapHolder()));
diff --git a/stingraykit/collection/SortedMultiSet.h b/stingraykit/collection/SortedMultiSet.h
index 67baf35..c70306e 100644
--- a/stingraykit/collection/SortedMultiSet.h
+++ b/stingraykit/collection/SortedMultiSet.h
@@ -112,7 +112,7 @@ namespace stingray
 			using cri = typename SetType::const_reverse_iterator;
 
 			const auto it = _items->upper_bound(value);
-			if (it == _items->end() || CompareType_()(*cri(it), value))
+			if (it == _items->begin() || CompareType_()(*cri(it), value))
 				return MakeEmptyEnumerator();
 
 			return EnumeratorFromStlIterators(cri(it), _items->crend(), GetItemsHolder());
-- 
2.43.0


From 86fcfa2b3279cdc1a732356a1343b496502a93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:06 +0000
Subject: [PATCH 33/54] fix: applying a transactional list's diff overwrote the
 next element

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From 4db335605a15bba6cfcd928d3ba2e2809bcec3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 34/54] fix: last fragment of a range split into equal
 fragments

---
 stingraykit/collection/Range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f4d4edc..b239ee3 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -721,7 +721,7 @@ namespace stingray
 
 			Self& Last()
 			{
-				_it = std::next(_begin, AlignDown(std::distance(_begin, _end), _maxFragmentSize));
+				_it = _begin != _end ? std::next(_begin, AlignDown(std::distance(_begin, _end) - 1, _maxFragmentSize)) : _end;
 				_value.reset();
 				return *this;
 			}
-- 
2.43.0


From 044469b1d7c8f25fc5cd980d9c294a5800988fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 35/54] fix: begin and end of a flattened range of empty ranges
 differed

---
 stingraykit/collection/Range.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index b239ee3..d549b09 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -819,7 +819,7 @@ namespace stingray
 				_range.Last();
 				_currentSubRange = FindPrev();
 
-				return *this;
+				return _currentSubRange ? *this : First();
 			}
 
 		private:
-- 
2.43.0


From 0c932a859b6caa699d8d9c5d310d8417a7ce696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:26 +0000
Subject: [PATCH 36/54] fix: position of an empty reversed range and jumps to
 or from the end of a reversed range

---
 stingraykit/collection/Range.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index d549b09..5e77ddf 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -377,13 +377,24 @@ namespace stingray
 			}
 
 			size_t GetPosition() const
-			{ return static_cast<int>(_impl.GetSize()) - static_cast<int>(_impl.GetPosition()) - (_implBeforeBegin ? 0 : 1); }
+			{ return Valid() ? _impl.GetSize() - _impl.GetPosition() - 1 : _impl.GetSize(); }
 
 			size_t GetSize() const
 			{ return _impl.GetSize(); }
 
 			Self& Move(int distance)
-			{ _impl.Move(-distance); return *this; }
+			{
+				const size_t size = GetSize();
+				const size_t position = GetPosition() + distance;
+				STINGRAYKIT_CHECK(position <= size, IndexOutOfRangeException(position, size));
+
+				if (size == 0)
+					return *this;
+
+				_implBeforeBegin = position == size;
+				_impl.Move(static_cast<int>(_implBeforeBegin ? 0 : size - position - 1) - static_cast<int>(_impl.GetPosition()));
+				return *this;
+			}
 		};
 
 
-- 
2.43.0


From 7d2ac53c497277d807ca5f9044d29b022640d9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 37/54] fix: ArithmeticCoder: the last symbols were lost when
 the code ended with pending bits

---
 stingraykit/compression/ArithmeticCoder.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stingraykit/compression/ArithmeticCoder.h b/stingraykit/compression/ArithmeticCoder.h
index fa192f0..2f3052d 100644
--- a/stingraykit/compression/ArithmeticCoder.h
+++ b/stingraykit/compression/ArithmeticCoder.h
@@ -57,12 +57,12 @@ namespace stingray
 		template <typename BitsConsumer_>
 		void EndOfData(const BitsConsumer_& consumer)
 		{
-			while (_low != _high)
-			{
-				consumer(FirstBit(_low));
-				_low = (_low << 1) & 0x7FFFFFFF;
-				_high = (_high << 1) & 0x7FFFFFFF;
-			}
+			// The shortest code that stays between _low and _high whatever bits follow it
+			const bool bit = SecondBit(_low);
+			consumer(bit);
+			for (u32 i = 0; i <= _underflowBits; ++i)
+				consumer(!bit);
+			_underflowBits = 0;
 		}
 
 	private:
-- 
2.43.0


From 6a439b394fbb21c1c169f23e9b53930b594146f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 38/54] fix: PpmCompressor: wrap the bit buffer's offset when
 the padded end of the data reaches its end

---
 stingraykit/compression/ppm/PpmCompressor.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 3116f3c..70fd0b3 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -62,6 +62,12 @@ namespace stingray
 		bool EndOfData(const DataConsumer_& consumer)
 		{
 			_writeOffset = BytesToBits(BitsToBytes(_writeOffset + 7));
+			if (_writeOffset == BufferSizeBits)
+			{
+				_writeOffset = 0;
+				_dataIsContiguous = !_dataIsContiguous;
+			}
+
 			while (GetDataSizeBits() != 0)
 				if (!DoConsume(consumer))
 					return false;
-- 
2.43.0


From f97ce0c3076a46cd04ca839690035b3f099a0fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 39/54] fix: PpmCompressor: do not encode the end of the data
 again when the consumer refuses it

---
 stingraykit/compression/ppm/PpmCompressor.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/stingraykit/compression/ppm/PpmCompressor.h b/stingraykit/compression/ppm/PpmCompressor.h
index 70fd0b3..fe4b75e 100644
--- a/stingraykit/compression/ppm/PpmCompressor.h
+++ b/stingraykit/compression/ppm/PpmCompressor.h
@@ -113,9 +113,10 @@ namespace stingray
 		std::deque<typename Impl::Symbol> _context;
 		BitsToBytesBuffer<BufferSize>     _bitBuffer;
 		ArithmeticCoder                   _coder;
+		bool                              _endOfData;
 
 	public:
-		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source)
+		PpmCompressor(const shared_ptr<const Model>& model, const IDataSourcePtr& source) : _model(model), _source(source), _endOfData(false)
 		{ }
 
 		virtual void Read(IDataConsumer& consumer, const ICancellationToken& token)
@@ -136,9 +137,13 @@ namespace stingray
 			if (!ConsumeData(consumer, token))
 				return;
 
-			_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+			if (!_endOfData)
+			{
+				_model->Predict(_context, null, Bind(&PpmCompressor::DoEncode, this, _1, _2, _3));
+				_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
+				_endOfData = true;
+			}
 
-			_coder.EndOfData(Bind(&PpmCompressor::AddBit, this, _1));
 			if (!_bitBuffer.EndOfData(Bind(&IDataConsumer::Process, &consumer, _1, wrap_const_ref(token))))
 				return;
 			consumer.EndOfData(token);
-- 
2.43.0


From 31fb8c3bcc930895d67b61d95897c4ee9c0c7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 40/54] fix: PpmModel: the cumulative probability of the
 preceding symbols overflowed its byte

---
 stingraykit/compression/ppm/PpmModel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/compression/ppm/PpmModel.h b/stingraykit/compression/ppm/PpmModel.h
index 96fcada..1777867 100644
--- a/stingraykit/compression/ppm/PpmModel.h
+++ b/stingraykit/compression/ppm/PpmModel.h
@@ -476,7 +476,7 @@ namespace stingray
 					f(scale - exit, scale, scale);
 					return false;
 				}
-				SymbolCount low = Sum(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)));
+				SymbolCount low = Sum(Transform(Transform(ToRange(first, it), Bind(&SymbolProbability::GetProbability, _1)), ImplicitCaster<SymbolCount>()));
 				f(low, low + it->GetProbability(), scale);
 				return true;
 			}
-- 
2.43.0


From 705aa7e882cbac58bffe08e12aa3dbb26d5bc1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 41/54] fix: Deserializer<optional>: an absent value left the
 previous one in place

---
 stingraykit/serialization/Serializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/serialization/Serializer.h b/stingraykit/serialization/Serializer.h
index 21b5ecd..d463160 100644
--- a/stingraykit/serialization/Serializer.h
+++ b/stingraykit/serialization/Serializer.h
@@ -202,7 +202,8 @@ namespace stingray
 		optional<DeserializationHelper>		_helper;
 
 	public:
-		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object)) { }
+		explicit Deserializer(optional<T>& object) : _helper(DeserializationHelper(object))
+		{ object.reset(); } // stays so if there is nothing to deserialize
 
 		optional<DeserializationHelper>& operator * () { return _helper; }
 	};
-- 
2.43.0


From 9e662c02a943c4757f0e1428d7ac8e3294396b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:38 +0000
Subject: [PATCH 42/54] fix: ActionTransaction: a failing undo made the undos
 run before it run again

---
 stingraykit/ActionTransaction.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stingraykit/ActionTransaction.cpp b/stingraykit/ActionTransaction.cpp
index 8d2b484..cfc8aa1 100644
--- a/stingraykit/ActionTransaction.cpp
+++ b/stingraykit/ActionTransaction.cpp
@@ -47,8 +47,12 @@ namespace stingray
 	{
 		STINGRAYKIT_CHECK(_active, "Transaction is inactive!");
 
-		for (RollbackSequence::reverse_iterator it = _rollbackSequence.rbegin(); it != _rollbackSequence.rend(); ++it)
-			(*it)();
+		while (!_rollbackSequence.empty())
+		{
+			const RollbackFunc rollbackFunc = _rollbackSequence.back();
+			_rollbackSequence.pop_back();
+			rollbackFunc();
+		}
 
 		_active = false;
 	}
-- 
2.43.0


From 3fc1f34b3181751a4cc230698e8cfd121a692327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 43/54] fix: level set by name must not reset the level of a
 logger created later when no level was set

---
 stingraykit/log/Logger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/log/Logger.cpp b/stingraykit/log/Logger.cpp
index e4e9451..171d353 100644
--- a/stingraykit/log/Logger.cpp
+++ b/stingraykit/log/Logger.cpp
@@ -62,7 +62,8 @@ namespace stingray
 				const SettingsRegistry::const_iterator it = _settings.find(logger->GetName());
 				if (it != _settings.end())
 				{
-					logger->SetLogLevel(it->second.GetLogLevel());
+					if (it->second.GetLogLevel())
+						logger->SetLogLevel(it->second.GetLogLevel());
 					logger->EnableBacktrace(it->second.BacktraceEnabled());
 					logger->EnableHighlight(it->second.HighlightEnabled());
 				}
-- 
2.43.0


From f96ffdb3b1db2715cba2574dd40b7f5dc0f52b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 44/54] fix: count the repeated message that ends a count, so
 that rare repetitions are shown too

---
 stingraykit/log/LoggerStream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/log/LoggerStream.cpp b/stingraykit/log/LoggerStream.cpp
index 1397347..6e0b779 100644
--- a/stingraykit/log/LoggerStream.cpp
+++ b/stingraykit/log/LoggerStream.cpp
@@ -59,6 +59,9 @@ namespace stingray
 
 		const bool newMessage = stringCounter->Str != message;
 
+		if (!newMessage)
+			++*stringCounter->Count;
+
 		if (newMessage
 				|| stringCounter->Count >= _hideDuplicatingLogs->Count
 				|| (stringCounter->Elapsed && stringCounter->Elapsed->Elapsed() >= _hideDuplicatingLogs->Interval))
@@ -71,8 +74,6 @@ namespace stingray
 
 			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
 		}
-		else
-			++*stringCounter->Count;
 	}
 
 
-- 
2.43.0


From 3842c33c6788565f517791a53b12cb998706606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 45/54] fix: hiding duplicating logs of one logger in several
 threads raced on its counters

---
 stingraykit/log/LoggerStream.cpp | 41 ++++++++++++++++++--------------
 stingraykit/log/LoggerStream.h   |  4 ++++
 2 files changed, 27 insertions(+), 18 deletions(-)

diff --git a/stingraykit/log/LoggerStream.cpp b/stingraykit/log/LoggerStream.cpp
index 6e0b779..c512da5 100644
--- a/stingraykit/log/LoggerStream.cpp
+++ b/stingraykit/log/LoggerStream.cpp
@@ -48,32 +48,37 @@ namespace stingray
 			return;
 		}
 
-		DuplicatingLogsFilter::StringCounter* stringCounter = _duplicatingLogsFilter->Get(_hideDuplicatingLogs->Key);
+		optional<std::string> repeatedMessage;
+		bool showMessage = false;
 
-		if (!stringCounter->Count)
 		{
-			DoLogImpl(message); // Displaying first message
-			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
-			return;
-		}
+			MutexLock l(_duplicatingLogsFilter->GetSync());
 
-		const bool newMessage = stringCounter->Str != message;
+			DuplicatingLogsFilter::StringCounter* stringCounter = _duplicatingLogsFilter->Get(_hideDuplicatingLogs->Key);
 
-		if (!newMessage)
-			++*stringCounter->Count;
+			const bool newMessage = !stringCounter->Count || stringCounter->Str != message;
 
-		if (newMessage
-				|| stringCounter->Count >= _hideDuplicatingLogs->Count
-				|| (stringCounter->Elapsed && stringCounter->Elapsed->Elapsed() >= _hideDuplicatingLogs->Interval))
-		{
-			if (stringCounter->Count > 0u)
-				DoLogImpl(StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)");
+			if (!newMessage)
+				++*stringCounter->Count;
+
+			if (newMessage
+					|| stringCounter->Count >= _hideDuplicatingLogs->Count
+					|| (stringCounter->Elapsed && stringCounter->Elapsed->Elapsed() >= _hideDuplicatingLogs->Interval))
+			{
+				if (stringCounter->Count > 0u)
+					repeatedMessage = StringBuilder() % stringCounter->Str % " (" % stringCounter->Count % " times)";
 
-			if (newMessage)
-				DoLogImpl(message); // Displaying first message
+				showMessage = newMessage; // Displaying first message
 
-			stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
+				stringCounter->Reset(message, _hideDuplicatingLogs->Interval.is_initialized());
+			}
 		}
+
+		if (repeatedMessage)
+			DoLogImpl(*repeatedMessage);
+
+		if (showMessage)
+			DoLogImpl(message);
 	}
 
 
diff --git a/stingraykit/log/LoggerStream.h b/stingraykit/log/LoggerStream.h
index 7da3417..6516767 100644
--- a/stingraykit/log/LoggerStream.h
+++ b/stingraykit/log/LoggerStream.h
@@ -11,6 +11,7 @@
 #include <stingraykit/log/LogLevel.h>
 #include <stingraykit/log/NamedLoggerParams.h>
 #include <stingraykit/string/ToString.h>
+#include <stingraykit/thread/Thread.h>
 #include <stingraykit/time/ElapsedTime.h>
 
 #include <stingraykit/unique_ptr.h>
@@ -88,8 +89,11 @@ namespace stingray
 
 	private:
 		LastMessagesMap									_lastMessages;
+		Mutex											_sync;
 
 	public:
+		const Mutex& GetSync() const { return _sync; }
+
 		StringCounter* Get(const KeyType& key) { return &_lastMessages[key]; }
 	};
 
-- 
2.43.0


From 64f5bc79efc14319cb53544d7a21f3bd1eb1fce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 46/54] fix: transliterated search missed matches shorter than
 the pattern or near the end, read past the end and swapped k and q

---
 stingraykit/locale/Translit.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/stingraykit/locale/Translit.cpp b/stingraykit/locale/Translit.cpp
index 46e5594..4e102d5 100644
--- a/stingraykit/locale/Translit.cpp
+++ b/stingraykit/locale/Translit.cpp
@@ -14,7 +14,7 @@ namespace stingray
 
 	static bool TranslitMatchChar(const char* translitStr, size_t translitStrSize, const char* str, size_t strSize, size_t& translitStrSkip, size_t& strSkip)
 	{
-		const char* translit_mapping[] = { "zh\0ж", "ch\0ч", "sh\0ш", "sch\0щ", "yu\0ю", "ya\0я", "a\0а", "b\0б", "c\0ц", "d\0д", "e\0е", "e\0э", "f\0ф", "g\0г", "h\0х", "i\0и", "j\0й", "j\0ж", "k\0ку", "l\0л", "m\0м", "n\0н", "o\0о", "p\0п", "q\0к", "r\0р", "s\0с", "t\0т", "u\0у", "v\0в", "w\0в", "x\0кс", "y\0ы", "z\0з" };
+		const char* translit_mapping[] = { "zh\0ж", "ch\0ч", "sh\0ш", "sch\0щ", "yu\0ю", "ya\0я", "a\0а", "b\0б", "c\0ц", "d\0д", "e\0е", "e\0э", "f\0ф", "g\0г", "h\0х", "i\0и", "j\0й", "j\0ж", "k\0к", "l\0л", "m\0м", "n\0н", "o\0о", "p\0п", "q\0ку", "r\0р", "s\0с", "t\0т", "u\0у", "v\0в", "w\0в", "x\0кс", "y\0ы", "z\0з" };
 
 		if (strSize == 0 || translitStrSize == 0)
 			return false;
@@ -42,18 +42,15 @@ namespace stingray
 
 	bool TranslitMatchSubstr(const std::string& translitSubstr, const std::string& str) // TODO: reimplement =)
 	{
-		if (str.size() < translitSubstr.size())
-			return false;
-		
-		for (size_t i = 0; i <= str.size() - translitSubstr.size(); ++i)
+		for (size_t i = 0; i <= str.size(); ++i)
 		{
 			bool ok = true;
 			for (size_t j = 0, j2 = i; j < translitSubstr.size(); ++j, ++j2)
 			{
-				if (str[j2] == translitSubstr[j])
+				if (j2 < str.size() && str[j2] == translitSubstr[j])
 					continue;
 				size_t a = 1, b = 1;
-				if (TranslitMatchChar(&translitSubstr[j], translitSubstr.size() - j, &str[j2], str.size() - j2, a, b))
+				if (j2 < str.size() && TranslitMatchChar(&translitSubstr[j], translitSubstr.size() - j, &str[j2], str.size() - j2, a, b))
 				{
 					j += a - 1;
 					j2 += b - 1;
-- 
2.43.0


From f4864f36159b44331bd0dcf4cb3550ae58957b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 47/54] fix: deserializing a translated string changed its
 copies

---
 stingraykit/string/TranslatedString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/string/TranslatedString.cpp b/stingraykit/string/TranslatedString.cpp
index a32b29a..f5e216d 100644
--- a/stingraykit/string/TranslatedString.cpp
+++ b/stingraykit/string/TranslatedString.cpp
@@ -57,7 +57,11 @@ namespace stingray
 
 
 	void TranslatedString::Deserialize(ObjectIStream& ar)
-	{ ar.Deserialize("translations", *_dictionary); }
+	{
+		const DictionaryImplPtr dictionary = make_shared_ptr<MapDictionary<LangCode, std::string>>();
+		ar.Deserialize("translations", *dictionary);
+		_dictionary = dictionary;
+	}
 
 
 	std::string TranslatedString::ToString() const
-- 
2.43.0


From d4b9a718a3cab4fe4956e1f0bdf9d6eaab8d9a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 48/54] fix: non-inline function in TranslatedStringUtils.h

---
 stingraykit/string/TranslatedStringUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/TranslatedStringUtils.h b/stingraykit/string/TranslatedStringUtils.h
index 2c65823..edb6a58 100644
--- a/stingraykit/string/TranslatedStringUtils.h
+++ b/stingraykit/string/TranslatedStringUtils.h
@@ -20,7 +20,7 @@ namespace stingray
 	namespace Detail
 	{
 
-		std::string GetTranslatedValue(LangCode code, const TranslatedString& arg)
+		inline std::string GetTranslatedValue(LangCode code, const TranslatedString& arg)
 		{ return arg.SelectTranslation(code); }
 
 		template < typename T >
-- 
2.43.0


From f989f07a28ef08f22cebee497ba1267ba5cc99f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:44 +0000
Subject: [PATCH 49/54] fix: language codes with non-ASCII letters given as a
 number

---
 stingraykit/locale/LangCode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/locale/LangCode.cpp b/stingraykit/locale/LangCode.cpp
index 69e1e77..a9c5b41 100644
--- a/stingraykit/locale/LangCode.cpp
+++ b/stingraykit/locale/LangCode.cpp
@@ -36,7 +36,7 @@ namespace stingray
 			array<char, 3> r;
 			std::transform(c.begin(), c.end(), r.begin(), &DoToUpper);
 
-			return (u32)(r[0] << 16) + (r[1] << 8) + r[2];
+			return ((u32)(u8)r[0] << 16) + ((u32)(u8)r[1] << 8) + (u8)r[2];
 		}
 
 	}
-- 
2.43.0


From b1a55f6b6be63370af271de4ba36491aba5a7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:54 +0000
Subject: [PATCH 50/54] fix: erase_if skipped elements of containers whose
 iterators move on erase

---
 stingraykit/algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/algorithm.h b/stingraykit/algorithm.h
index 20a69c1..cd3d170 100644
--- a/stingraykit/algorithm.h
+++ b/stingraykit/algorithm.h
@@ -16,7 +16,7 @@ namespace stingray
 	{
 		for (typename Container::iterator it = cont.begin(); it != cont.end(); )
 			if (pred(*it))
-				cont.erase(it++);
+				it = cont.erase(it);
 			else
 				++it;
 	}
-- 
2.43.0


From 927766e7454deb76aa93b2be92b4b16f476c97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:54 +0000
Subject: [PATCH 51/54] fix: end of data of a pipe with several stages did not
 compile

---
 stingraykit/DataPipe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/DataPipe.h b/stingraykit/DataPipe.h
index 7c4f839..55a5b0f 100644
--- a/stingraykit/DataPipe.h
+++ b/stingraykit/DataPipe.h
@@ -54,7 +54,7 @@ namespace stingray {
 			static RetType EndOfData(StagesTuple& stages, const Consumer& consumer, const EodFunc& eod)
 			{
 				return stages.GetHead().EndOfData(
-					Bind(&NextStage::template Process<OutputType, Consumer>, wrap_ref(stages.GetTail()), wrap_const_ref(consumer), _1),
+					Bind(&NextStage::template Process<OutputType, Consumer>, wrap_ref(stages.GetTail()), _1, wrap_const_ref(consumer)),
 					Bind(&NextStage::template EndOfData<Consumer, EodFunc>, wrap_ref(stages.GetTail()), wrap_const_ref(consumer), wrap_const_ref(eod)));
 			}
 
-- 
2.43.0


From eebdd4fa5109b9015f138051056cf1ae9fb6f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:54 +0000
Subject: [PATCH 52/54] fix: a sleep cut short by the time limit of a joined
 token reported that it was complete

---
 stingraykit/thread/JoiningCancellationToken.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index efc8a80..815d288 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -27,7 +27,12 @@ namespace stingray
 		MutexLock l(_mutex);
 
 		if (duration)
-			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut;
+		{
+			// A sleep that ends with the time of one of the tokens is cut short
+			const auto timeout = GetTimeout();
+			const bool limited = timeout && *timeout < *duration;
+			return _cond.Wait(_mutex, TimedCancellationToken(*this, *duration)) == ConditionWaitResult::TimedOut && !limited;
+		}
 		else
 		{
 			_cond.Wait(_mutex, *this);
-- 
2.43.0


From ec7194472f19fa9251619ff27deb976c0b64da7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:42 +0000
Subject: [PATCH 53/54] fix: paged buffer delivered bytes that a push had not
 finished writing

---
 stingraykit/io/PagedBuffer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..bdc3391 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -7,6 +7,8 @@
 
 #include <stingraykit/io/PagedBuffer.h>
 
+#include <stingraykit/io/DataUtils.h>
+
 namespace stingray
 {
 
@@ -96,7 +98,8 @@ namespace stingray
 		{
 			MutexUnlock ul(l);
 
-			processed = page->Read(offset, consumer, token);
+			TakingConsumer taker(consumer, unreadSize);
+			processed = page->Read(offset, taker, token);
 			STINGRAYKIT_CHECK_CANCELLATION(token);
 		}
 
-- 
2.43.0


From 535c3e94467c140d75d393ab297e0ae24345e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:29 +0000
Subject: [PATCH 54/54] fix: paged buffer delivered data twice when an old page
 was dropped during a read

---
 stingraykit/io/PagedBuffer.cpp | 8 ++++++--
 stingraykit/io/PagedBuffer.h   | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index bdc3391..6686a76 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -92,7 +92,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		const u64 position = _droppedSize + _currentOffset;
 		size_t processed = 0;
 
 		{
@@ -112,7 +112,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (_droppedSize + _currentOffset == position)
 			_currentOffset += processed;
 	}
 
@@ -214,6 +214,8 @@ namespace stingray
 			newCurrentOffset -= _pageSize;
 		}
 
+		const u64 newDroppedSize = _droppedSize + _pageSize * std::distance(_pages.begin(), newBeginIt);
+
 		{
 			LoggerStream logStream(Log(_currentOffset == newCurrentOffset ? LogLevel::Debug : LogLevel::Warning));
 			logStream << "Pop: size: " << size << ", start/current offset: " << _startOffset << "/" << _currentOffset << " --> " << newStartOffset << "/" << newCurrentOffset;
@@ -226,6 +228,7 @@ namespace stingray
 		_pages.erase(_pages.begin(), newBeginIt);
 		_startOffset = newStartOffset;
 		_currentOffset = newCurrentOffset;
+		_droppedSize = newDroppedSize;
 	}
 
 
@@ -251,6 +254,7 @@ namespace stingray
 			_chunkSize(chunkSize),
 			_startOffset(0),
 			_currentOffset(0),
+			_droppedSize(0),
 			_tailSize(0),
 			_activeRead(false),
 			_activeWrite(false)
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..341de02 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -45,6 +45,7 @@ namespace stingray
 
 		u64							_startOffset;
 		u64							_currentOffset;
+		u64							_droppedSize;
 		u64							_tailSize;
 
 		Mutex						_mutex;
-- 
2.43.0

