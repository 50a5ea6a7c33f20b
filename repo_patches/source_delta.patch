From 83eae3cb81dcf44fa81344f3f000808ad2300e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 01/79] fix: Bitset::AppendBits no longer lets bits past
 bitCount into the bitset (nor loses a full block)

---
 include/NazaraUtils/Bitset.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..4dcace4 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -182,12 +182,11 @@ namespace Nz
 				bitCount -= bitsPerBlock;
 			}
 
-			// For the last iteration, mask out the bits we don't want
-			std::size_t remainingBits = bitCount;
-
-			bits &= ((Block(1U) << remainingBits) - 1U);
 			m_blocks.push_back(static_cast<Block>(bits));
 		}
+
+		// Mask out the bits we don't want (those following the last appended bit)
+		ResetExtraBits();
 	}
 
 	/*!
-- 
2.43.0


From 99052b2fb04113879064e969a8e852c371e5f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 02/79] fix: Bitset::Write of zero bits reads nothing and stays
 at the same position

---
 include/NazaraUtils/Bitset.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 4dcace4..15663c3 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -367,6 +367,10 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		// Nothing to read
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-- 
2.43.0


From 5e36e9d0da4efeb5a63c748a50300ab65fa0b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 03/79] fix: Bitset ordering compares from the most significant
 block and stays in bounds

---
 include/NazaraUtils/Bitset.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 15663c3..66edbfd 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1539,9 +1539,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
@@ -1549,8 +1549,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From db5b56f21e9106d385c5b06f7e69e3998668169f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 04/79] fix: Bitset bit iterator post-increment advances the
 iterator and returns its previous position

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66edbfd..3456477 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1437,7 +1437,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++(*this);
 		return copy;
 	}
 
-- 
2.43.0


From d0d8e15c8b374bc20e3fa5c7692c32a6da50fa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 05/79] fix: FixedVector::push_back(T&&) moves the value into
 the fallback container

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..ac7c515 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -526,7 +526,7 @@ namespace Nz
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+				return *Base::EmplaceBackInFallback(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From 2bd136807d1fe63ac23e3c17a872fc9446ff39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 06/79] fix: FixedVector self copy-assignment keeps its content

---
 include/NazaraUtils/FixedVector.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index ac7c515..d85dc28 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,6 +691,9 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
-- 
2.43.0


From 5e46fac54145e9b74e834e7dace6767f1f1b79a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 07/79] fix: FixedVector destroys its inplace elements when
 assigned from a vector using its fallback

---
 include/NazaraUtils/FixedVector.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index d85dc28..44add11 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -699,6 +699,9 @@ namespace Nz
 			if (vec.IsUsingFallback())
 			{
 				Base::operator=(vec);
+				if (!IsUsingFallback())
+					clear(); //< destroy elements stored inplace
+
 				m_size = vec.m_size;
 				return *this;
 			}
@@ -721,6 +724,9 @@ namespace Nz
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear(); //< destroy elements stored inplace
+
 				m_size = vec.m_size;
 				return *this;
 			}
-- 
2.43.0


From 92e09c7bad400cf5f098b581878f47e6bd6573f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:22 +0000
Subject: [PATCH 08/79] fix: FixedVector::reserve reserves in the fallback
 container whenever it is used

---
 include/NazaraUtils/FixedVector.inl | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 44add11..dfeba8b 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -624,13 +624,10 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (count <= Capacity)
-				return;
-
-			if (!IsUsingFallback())
-				MoveStorageToFallback(count);
-			else
+			if (IsUsingFallback())
 				Base::ReserveFallback(count);
+			else if (count > Capacity)
+				MoveStorageToFallback(count);
 		}
 		else
 		{
-- 
2.43.0


From abd6d5f4c9b35edcaf80358efe1e0630a3429103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 09/79] fix: FixedVector/StackVector range erase and
 StackVector::clear work with types having no default constructor

---
 include/NazaraUtils/FixedVector.inl | 3 ++-
 include/NazaraUtils/StackVector.inl | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index dfeba8b..0187e67 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -467,7 +467,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i) // can't use resize, which requires T to be default-constructible
+			pop_back();
 
 		return iterator(data(index));
 	}
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..c4d17f7 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -76,7 +76,9 @@ namespace Nz
 	template<typename T>
 	void StackVector<T>::clear() noexcept
 	{
-		resize(0);
+		// can't use resize(0); since it will try to instantiate the default-construction part (which won't compile for classes having no default constructor)
+		while (m_size > 0)
+			pop_back();
 	}
 
 	template<typename T>
@@ -189,7 +191,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i) // can't use resize, which requires T to be default-constructible
+			pop_back();
 
 		return iterator(&m_ptr[index]);
 	}
-- 
2.43.0


From 03aa06c5bfc0f024713d0c75848e794504984446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 10/79] fix: FixedVector/StackVector only count an element once
 its construction succeeded

---
 include/NazaraUtils/FixedVector.inl | 33 +++++++++++++++++++----------
 include/NazaraUtils/StackVector.inl | 33 +++++++++++++++++++----------
 2 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 0187e67..5f68821 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -398,7 +398,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		T* ptr = PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -518,7 +521,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		T* ptr = PlacementNew(data(m_size), value);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -531,7 +537,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		T* ptr = PlacementNew(data(m_size), std::move(value));
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -571,10 +580,11 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i));
-
-			m_size = count;
+			while (m_size < count)
+			{
+				PlacementNew(data(m_size));
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
@@ -606,10 +616,11 @@ namespace Nz
 		NazaraAssert(count <= Capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(data(i), value);
-
-			m_size = count;
+			while (m_size < count)
+			{
+				PlacementNew(data(m_size), value);
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index c4d17f7..35ee60b 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -145,7 +145,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		T* ptr = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T>
@@ -233,14 +236,20 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		T* ptr = PlacementNew(&m_ptr[m_size], value);
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		T* ptr = PlacementNew(&m_ptr[m_size], std::move(value));
+		m_size++;
+
+		return *ptr;
 	}
 
 	template<typename T>
@@ -256,10 +265,11 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+			while (m_size < count)
+			{
+				PlacementNew(&m_ptr[m_size]);
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
@@ -276,10 +286,11 @@ namespace Nz
 		assert(count <= m_capacity);
 		if (count > m_size)
 		{
-			for (std::size_t i = m_size; i < count; ++i)
-				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+			while (m_size < count)
+			{
+				PlacementNew(&m_ptr[m_size], value);
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From 7c2e6947fb4a227d2aa4a912ae8c9d0a171b3154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 11/79] fix: FixedVector/StackVector insertion supports
 arguments referring to their own elements and construction failures

---
 include/NazaraUtils/FixedVector.inl | 13 +++++++++----
 include/NazaraUtils/StackVector.inl | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 5f68821..72ec9c3 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -374,17 +374,22 @@ namespace Nz
 		NazaraAssert(m_size < Capacity);
 		if (pos < end())
 		{
+			T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
+
 			iterator lastElement = end() - 1;
 			PlacementNew(data(m_size), std::move(*lastElement));
+			m_size++;
 
-			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
+			std::move_backward(data(index), lastElement, lastElement + 1);
+			*data(index) = std::move(value);
 
-			PlacementDestroy(data(index));
+			return data(index);
 		}
+
+		T* ptr = PlacementNew(data(m_size), std::forward<Args>(args)...);
 		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		return ptr;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 35ee60b..9a85fb1 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -127,17 +127,22 @@ namespace Nz
 		std::size_t index = std::distance(cbegin(), pos);
 		if (pos < end())
 		{
+			T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
+
 			iterator lastElement = end() - 1;
 			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			m_size++;
 
-			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
+			std::move_backward(&m_ptr[index], lastElement, lastElement + 1);
+			m_ptr[index] = std::move(value);
 
-			PlacementDestroy(&m_ptr[index]);
+			return &m_ptr[index];
 		}
+
+		T* ptr = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
 		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		return ptr;
 	}
 
 	template<typename T>
-- 
2.43.0


From 157d24e9d6fa6730f8c0f0deeed540e54d30a3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 12/79] fix: FixedVector keeps its elements inplace until all
 of them have been moved to the fallback

---
 include/NazaraUtils/FixedVector.inl | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 72ec9c3..654f7b4 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -788,13 +788,14 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
+		Base::ClearFallback(); //< a previous attempt may have failed
 		Base::ReserveFallback(capacity);
 		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+			Base::EmplaceBackInFallback(std::move(*data(i)));
+
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(data(i));
+
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From 984f1a7f4834ed81802856ccce5c2a27da00ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 13/79] fix: FixedVector growth into its fallback supports
 arguments referring to its own elements

---
 include/NazaraUtils/FixedVector.inl | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 654f7b4..4ae06ba 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -367,8 +367,15 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -398,8 +405,15 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -521,8 +535,15 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(value);
+
+			if (m_size >= Capacity)
+			{
+				T copy(value); // value may refer to an element which is about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(copy));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -612,8 +633,9 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				T copy(value); // value may refer to an element which is about to be moved
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, copy);
 				return;
 			}
 		}
-- 
2.43.0


From dc4b43ea21530c52fcf29c2bc20418a65311c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 14/79] fix: FixedVector copy constructor destroys what it
 built when an element copy throws

---
 include/NazaraUtils/FixedVector.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 4ae06ba..c6517b3 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -209,16 +209,18 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector() //< ensures copied elements are destroyed if one of the copies throws
 	{
 		if (!vec.IsUsingFallback())
 		{
-			m_size = 0;
 			for (size_type i = 0; i < vec.size(); ++i)
 				push_back(vec[i]);
 		}
 		else
+		{
+			Base::operator=(vec);
 			m_size = FallbackInUse;
+		}
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From 8f7da7003c9483c86cf558bdcb322fe2ff4a8963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:55 +0000
Subject: [PATCH 15/79] fix: FixedVector reverse iteration compiles on const
 vectors

---
 include/NazaraUtils/FixedVector.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index c6517b3..f511315 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -685,7 +685,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rbegin() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data(size())));
+		return const_reverse_iterator(const_iterator(data(size())));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -697,7 +697,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rend() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data()));
+		return const_reverse_iterator(const_iterator(data()));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From 17debad79a03a74dc38034fcd77aa0597e735708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 16/79] fix: StackVector moves leave the source empty and
 destroy the elements of the target

---
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 27 +++++++++++++++++++++++++++
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..7f06b0c 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vector) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vector) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 9a85fb1..6f3e6cd 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vector) noexcept :
+	m_capacity(std::exchange(vector.m_capacity, 0)),
+	m_size(std::exchange(vector.m_size, 0)),
+	m_ptr(std::exchange(vector.m_ptr, nullptr))
+	{
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -349,4 +357,23 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vector) noexcept
+	{
+		if (this != &vector)
+		{
+			clear();
+
+			#ifndef NAZARA_ALLOCA_SUPPORT
+			operator delete(m_ptr);
+			#endif
+
+			m_capacity = std::exchange(vector.m_capacity, 0);
+			m_size = std::exchange(vector.m_size, 0);
+			m_ptr = std::exchange(vector.m_ptr, nullptr);
+		}
+
+		return *this;
+	}
 }
-- 
2.43.0


From 92c0e69b5cbbabbf0ce0bf9824c23b9a9d176e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 17/79] fix: StackArray moves leave the source empty and
 destroy the elements of the target

---
 include/NazaraUtils/StackArray.hpp |  4 ++--
 include/NazaraUtils/StackArray.inl | 26 ++++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..ead236b 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,13 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(std::exchange(array.m_size, 0)),
+	m_ptr(std::exchange(array.m_ptr, nullptr))
+	{
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +203,23 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		if (this != &array)
+		{
+			for (std::size_t i = 0; i < m_size; ++i)
+				PlacementDestroy(&m_ptr[i]);
+
+			#ifndef NAZARA_ALLOCA_SUPPORT
+			OperatorDelete(m_ptr);
+			#endif
+
+			m_size = std::exchange(array.m_size, 0);
+			m_ptr = std::exchange(array.m_ptr, nullptr);
+		}
+
+		return *this;
+	}
 }
-- 
2.43.0


From 0dab27bb4d5520328144b7b7fd8dc789f1e7ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 18/79] fix: StackArray destroys the elements it built when the
 construction of one of them throws

---
 include/NazaraUtils/StackArray.inl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index ead236b..7b2a5a1 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -24,11 +24,14 @@ namespace Nz
 
 	template<typename T>
 	StackArray<T>::StackArray(T* stackMemory, std::size_t size) :
-	m_size(size),
-	m_ptr(stackMemory)
+	StackArray() //< ensures already constructed elements are destroyed if one of the constructions throws
 	{
-		for (std::size_t i = 0; i < m_size; ++i)
-			PlacementNew(&m_ptr[i]);
+		m_ptr = stackMemory;
+		while (m_size < size)
+		{
+			PlacementNew(&m_ptr[m_size]);
+			m_size++;
+		}
 	}
 
 	template<typename T>
-- 
2.43.0


From d5bf2076e14812d4c4fd95b617072e6102af63f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 19/79] fix: MemoryPool::Reset gives every slot back instead of
 only the first ones

---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..da1bdc0 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set(true);
+			block.occupiedEntries.Set(false);
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From 9c65826f51c94e35c5b5f48b0a3230add4dc6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 20/79] fix: MemoryPool move-assignment destroys the objects of
 the target

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 16 ++++++++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index da1bdc0..61ff35a 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -350,6 +350,22 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	template<typename T, std::size_t Alignment>
+	MemoryPool<T, Alignment>& MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept
+	{
+		if (this != &pool)
+		{
+			// Destroy our objects before releasing their memory
+			Clear();
+
+			m_blockSize = pool.m_blockSize;
+			m_blocks = std::move(pool.m_blocks);
+			pool.m_blocks.clear();
+		}
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From 77c67a65675823251f8382bc6ee2cd77eda00a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:08 +0000
Subject: [PATCH 21/79] fix: MemoryPool allocation failures leave the pool
 unchanged

---
 include/NazaraUtils/MemoryPool.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 61ff35a..05b3d54 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <NazaraUtils/Algorithm.hpp>
+#include <NazaraUtils/CallOnExit.hpp>
 #include <NazaraUtils/MemoryHelper.hpp>
 #include <stdexcept>
 #include <utility>
@@ -93,7 +94,11 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
+
+		// Give the slot back if the construction throws
+		CallOnExit freeOnFailure([this, entryIndex = index] { Free(entryIndex, NoDestruction); });
 		PlacementNew(entry, std::forward<Args>(args)...);
+		freeOnFailure.Reset();
 
 		return entry;
 	}
@@ -369,10 +374,12 @@ namespace Nz
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-		auto& block = m_blocks.emplace_back();
+		Block block;
 		block.freeEntries.Resize(m_blockSize, true);
 		block.occupiedEntries.Resize(m_blockSize, false);
 		block.memory = std::make_unique<AlignedStorage[]>(m_blockSize);
+
+		m_blocks.push_back(std::move(block)); //< Only register the block once it's usable (allocations can throw)
 	}
 
 	template<typename T, std::size_t Alignment>
-- 
2.43.0


From 50f1b8b68cc138bcd669b7ffaea3cf27b1fa31ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 22/79] fix: MemoryPool::RetrieveEntryIndex takes the padding
 of over-aligned entries into account

---
 include/NazaraUtils/MemoryPool.inl | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 05b3d54..eb51f1f 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -292,11 +292,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* dataPtr = reinterpret_cast<const AlignedStorage*>(data); //< entries may be further apart than sizeof(T)
+			if (dataPtr >= startPtr && dataPtr < startPtr + m_blockSize)
 			{
 				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				localIndex = SafeCast<std::size_t>(dataPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From 8443a81190ff70c775d18dd672381fe35fc73fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 23/79] fix: Signal::ConnectionGuard can be assigned from a
 temporary connection

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From ed4859f5a1f8b23a0bb30c19baf392d2da026464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 24/79] fix: Signal moves leave the source without any slot

---
 include/NazaraUtils/Signal.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..ac33dcf 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -40,7 +40,8 @@ namespace Nz
 	*/
 
 	template<typename... Args>
-	Signal<Args...>::Signal(Signal&& signal) noexcept
+	Signal<Args...>::Signal(Signal&& signal) noexcept :
+	Signal()
 	{
 		operator=(std::move(signal));
 	}
@@ -203,8 +204,12 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
+		if (this == &signal)
+			return *this;
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
+		signal.Clear(); //< moving the slot list may leave null slots behind it
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
-- 
2.43.0


From 199799457fe58c6c2052b6aefda983db21b84728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:20 +0000
Subject: [PATCH 25/79] fix: Signal slots can disconnect any slot, clear or
 trigger their own signal while being called

---
 include/NazaraUtils/Signal.hpp |  31 ++++++++--
 include/NazaraUtils/Signal.inl | 102 ++++++++++++++++++++++-----------
 2 files changed, 94 insertions(+), 39 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 139dde5..f20589e 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -35,9 +35,9 @@ namespace Nz
 			Signal();
 			Signal(const Signal&);
 			Signal(Signal&& signal) noexcept;
-			~Signal() = default;
+			~Signal();
 
-			void Clear();
+			void Clear() noexcept;
 
 			Connection Connect(const Callback& func);
 			Connection Connect(Callback&& func);
@@ -66,14 +66,37 @@ namespace Nz
 				}
 
 				Callback callback;
-				Signal* signal;
+				Signal* signal; //< null once disconnected
 				SlotListIndex index;
 			};
 
+			// Represents a running call of the signal (multiple ones can be running at once if a slot triggers the signal)
+			struct Emission
+			{
+				Emission(const Signal& owner) :
+				signal(owner),
+				parent(owner.m_emission),
+				nextSlot(0)
+				{
+					signal.m_emission = this;
+				}
+
+				Emission(const Emission&) = delete;
+
+				~Emission()
+				{
+					signal.m_emission = parent;
+				}
+
+				const Signal& signal;
+				Emission* parent;
+				SlotListIndex nextSlot; //< every slot before this one has already been called
+			};
+
 			void Disconnect(const SlotPtr& slot) noexcept;
 
 			SlotList m_slots;
-			mutable SlotListIndex m_slotIterator;
+			mutable Emission* m_emission; //< innermost running emission
 	};
 
 	template<typename... Args>
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index ac33dcf..265d340 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -18,7 +18,7 @@ namespace Nz
 	*/
 	template<typename... Args>
 	Signal<Args...>::Signal() :
-	m_slotIterator(0)
+	m_emission(nullptr)
 	{
 	}
 
@@ -46,15 +46,32 @@ namespace Nz
 		operator=(std::move(signal));
 	}
 
+	/*!
+	* \brief Destructs the object and disconnects every slot
+	*/
+
+	template<typename... Args>
+	Signal<Args...>::~Signal()
+	{
+		Clear();
+	}
+
 	/*!
 	* \brief Clears the list of actions attached to the signal
 	*/
 
 	template<typename... Args>
-	void Signal<Args...>::Clear()
+	void Signal<Args...>::Clear() noexcept
 	{
+		// Destroying callbacks can disconnect other slots, ensure we're in a valid state before doing so
+		SlotList slots = std::move(m_slots);
 		m_slots.clear();
-		m_slotIterator = 0;
+
+		for (Emission* emission = m_emission; emission; emission = emission->parent)
+			emission->nextSlot = 0;
+
+		for (SlotPtr& slot : slots)
+			slot->signal = nullptr;
 	}
 
 	/*!
@@ -82,19 +99,12 @@ namespace Nz
 	{
 		assert((func) &&  "Invalid function");
 
-		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
-		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
-
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::move(func);
 		tempPtr->index = m_slots.size();
 
 		m_slots.emplace_back(std::move(tempPtr));
 
-		if (resetIt)
-			m_slotIterator = m_slots.size(); //< Replace the iterator to the end
-
 		return Connection(m_slots.back());
 	}
 
@@ -179,8 +189,12 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::operator()(Args... args) const
 	{
-		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		Emission emission(*this);
+		while (emission.nextSlot < m_slots.size())
+		{
+			SlotPtr slot = m_slots[emission.nextSlot++]; //< keep the slot alive, as it can be disconnected by its own callback
+			slot->callback(args...);
+		}
 	}
 
 	/*!
@@ -207,9 +221,13 @@ namespace Nz
 		if (this == &signal)
 			return *this;
 
+		Clear();
+
 		m_slots = std::move(signal.m_slots);
-		m_slotIterator = signal.m_slotIterator;
-		signal.Clear(); //< moving the slot list may leave null slots behind it
+
+		// moving the slot list may leave null slots behind it
+		signal.m_slots.clear();
+		signal.Clear();
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
@@ -237,30 +255,42 @@ namespace Nz
 
 		// "Swap this slot with the last one and pop" idiom
 		// This will preserve slot indexes
-
-		// Can we safely "remove" this slot?
-		if (m_slotIterator >= (m_slots.size() - 1) || slot->index > m_slotIterator)
+		SlotListIndex freeIndex = slot->index;
+		auto MoveSlot = [&](SlotListIndex from)
 		{
-			// Yes we can
-			SlotPtr& newSlot = m_slots[slot->index];
-			newSlot = std::move(m_slots.back());
-			newSlot->index = slot->index; //< Update the moved slot index before resizing (in case it's the last one)
-		}
-		else
-		{
-			// Nope, let's be tricky
-			SlotPtr& current = m_slots[m_slotIterator];
-			SlotPtr& newSlot = m_slots[slot->index];
-
-			newSlot = std::move(current);
-			newSlot->index = slot->index; //< Update the moved slot index
+			if (from == freeIndex)
+				return;
 
-			current = std::move(m_slots.back());
-			current->index = m_slotIterator; //< Update the moved slot index
+			m_slots[freeIndex] = std::move(m_slots[from]);
+			m_slots[freeIndex]->index = freeIndex; //< Update the moved slot index
+			freeIndex = from;
+		};
 
-			--m_slotIterator;
+		// Slots already called by a running emission have to remain before the ones which weren't: fill the hole with the last slot
+		// called by the emission, which moves the hole to the first slot that remains to be called (starting from the less advanced emission)
+		for (;;)
+		{
+			SlotListIndex nextSlot = m_slots.size() + 1;
+			for (Emission* emission = m_emission; emission; emission = emission->parent)
+			{
+				if (emission->nextSlot > freeIndex && emission->nextSlot < nextSlot)
+					nextSlot = emission->nextSlot;
+			}
+
+			if (nextSlot > m_slots.size())
+				break;
+
+			MoveSlot(nextSlot - 1);
+			for (Emission* emission = m_emission; emission; emission = emission->parent)
+			{
+				if (emission->nextSlot == nextSlot)
+					emission->nextSlot--;
+			}
 		}
 
+		MoveSlot(m_slots.size() - 1);
+		slot->signal = nullptr;
+
 		// Pop the last entry (from where we moved our slot)
 		m_slots.pop_back();
 	}
@@ -315,7 +345,8 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Connection::Disconnect() noexcept
 	{
-		if (SlotPtr ptr = m_ptr.lock())
+		SlotPtr ptr = m_ptr.lock();
+		if (ptr && ptr->signal)
 			ptr->signal->Disconnect(ptr);
 	}
 
@@ -327,7 +358,8 @@ namespace Nz
 	template<typename... Args>
 	bool Signal<Args...>::Connection::IsConnected() const
 	{
-		return !m_ptr.expired();
+		SlotPtr ptr = m_ptr.lock();
+		return ptr && ptr->signal; //< slots are kept alive while their callback is running
 	}
 
 	/*!
-- 
2.43.0


From c0c1695fabd20c41f796c7af6a57b14c46540ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 26/79] fix: SparsePtr offsets don't wrap with unsigned indices
 and negative strides, nor overflow with large indices

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From b9585a0a73f639c8a32c81cab8ef4cc69d47c786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 27/79] fix: SparsePtr conversion to a base class adjusts the
 address

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..44dbbbd 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr.GetPtr())));
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From 6160f61923b62ceacf98670a5e72984007ef1cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 28/79] fix: Result<void, E> built from an lvalue error copies
 it instead of moving from it

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..1558b21 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From e1ddd62c5b376cf833a58ea6af4961a75c468865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 29/79] fix: IntegralLog2 of 64 bits numbers whose high word is
 one

---
 include/NazaraUtils/MathUtils.inl | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..442bb14 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -69,10 +69,9 @@ namespace Nz
 				T mask = T(std::numeric_limits<UInt32>::max()) << i * 8;
 				T val = (number & mask) >> i * 8; // Masking and shifting bits to the right (to bring it back to 32 bits)
 
-				// Call of the function with 32 bits number, if the result is non-null we have our answer
-				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
-					return log2 + i * 8;
+				// Call of the function with 32 bits number, if there's at least a bit in it we have our answer
+				if (val)
+					return IntegralLog2<UInt32>(static_cast<UInt32>(val)) + i * 8;
 			}
 
 			return 0;
-- 
2.43.0


From db24e7e35f47365ad1dc73651cd0695d1ce08e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 30/79] fix: CountBits and FindLastBit of negative integers
 smaller than int

---
 include/NazaraUtils/MathUtils.inl | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 442bb14..afd1af0 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -318,6 +318,9 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<T>);
 
+		// Signed integers smaller than int would get extra bits from their promotion
+		auto unsignedVal = static_cast<UnsignedIntegerType_t<BitCount<T>>>(value);
+
 		if NAZARA_IS_RUNTIME_EVAL()
 		{
 #if defined(NAZARA_COMPILER_MSVC) && (defined(NAZARA_ARCH_x86) || defined(NAZARA_ARCH_x86_64))
@@ -339,22 +342,22 @@ namespace Nz
 			}
 #elif defined(NAZARA_COMPILER_CLANG) || defined(NAZARA_COMPILER_GCC)
 			if constexpr (sizeof(T) == sizeof(unsigned long long))
-				return __builtin_popcountll(static_cast<unsigned long long>(value));
+				return __builtin_popcountll(static_cast<unsigned long long>(unsignedVal));
 			else if constexpr (sizeof(T) == sizeof(unsigned long))
-				return __builtin_popcountl(static_cast<unsigned long>(value));
+				return __builtin_popcountl(static_cast<unsigned long>(unsignedVal));
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				return __builtin_popcount(static_cast<unsigned int>(unsignedVal));
 			}
 #endif
 		}
 
 		// https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetKernighan
 		std::size_t count = 0;
-		while (value)
+		while (unsignedVal)
 		{
-			value &= value - 1;
+			unsignedVal &= unsignedVal - 1;
 			count++;
 		}
 
@@ -465,7 +468,7 @@ NAZARA_WARNING_POP()
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(static_cast<std::make_unsigned_t<T>>(number)));
 			}
 #endif
 		}
-- 
2.43.0


From a3306ad543db909b1dae6b2a9dddb98b7c514832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 31/79] fix: NumberEquals of signed integers smaller than int

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index afd1af0..7fb7483 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -137,7 +137,7 @@ namespace Nz
 				std::swap(a, b);
 
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From db54e1015a62041d8349097835f8b6426ab11a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 32/79] fix: Approach with integers doesn't wrap past the
 objective

---
 include/NazaraUtils/MathUtils.inl | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 7fb7483..e65cdd9 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -627,10 +627,20 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
+		if constexpr (std::is_integral_v<T>)
+		{
+			// Adding the increment may overflow (or wrap), even if the objective is close
+			using UnsignedT = std::make_unsigned_t<T>;
+			if (value < objective && static_cast<UnsignedT>(static_cast<UnsignedT>(objective) - static_cast<UnsignedT>(value)) <= static_cast<UnsignedT>(increment))
+				return objective;
+			else if (value > objective && static_cast<UnsignedT>(static_cast<UnsignedT>(value) - static_cast<UnsignedT>(objective)) <= static_cast<UnsignedT>(increment))
+				return objective;
+		}
+
 		if (value < objective)
-			return std::min(value + increment, objective);
+			return std::min(static_cast<T>(value + increment), objective);
 		else if (value > objective)
-			return std::max(value - increment, objective);
+			return std::max(static_cast<T>(value - increment), objective);
 		else
 			return value;
 	}
-- 
2.43.0


From e58de34d02ef08c9f8342026898a17faaff458a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 33/79] fix: Lerp to a lower unsigned value

---
 include/NazaraUtils/MathUtils.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index e65cdd9..5e801ae 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -828,6 +828,12 @@ NAZARA_WARNING_POP()
 	template<typename T, typename T2>
 	[[nodiscard]] constexpr T Lerp(const T& from, const T& to, const T2& interpolation) noexcept
 	{
+		if constexpr (std::is_unsigned_v<T>)
+		{
+			if (to < from)
+				return static_cast<T>(from - interpolation * (from - to)); //< to - from would wrap
+		}
+
 		return static_cast<T>(from + interpolation * (to - from));
 	}
 
-- 
2.43.0


From 4e492d30df98fe3bbd3f82dc5bb7f0b43d674edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 34/79] fix: SwapBytes of an empty buffer doesn't touch memory

---
 include/NazaraUtils/MathUtils.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 5e801ae..7821a32 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -536,6 +536,9 @@ NAZARA_WARNING_POP()
 	*/
 	inline void SwapBytes(void* buffer, std::size_t size) noexcept
 	{
+		if (size == 0)
+			return;
+
 		UInt8* bytes = static_cast<UInt8*>(buffer);
 		std::size_t i = 0;
 		std::size_t j = size - 1;
-- 
2.43.0


From 326a248578faafd146cd228110356858bab044c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 35/79] fix: NazaraAssert doesn't capture a following else

---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From fbfe5a48263e96fa46136ff3ff07d570051c8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 36/79] fix: Flags can be used as keys of unordered containers

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..996cfef 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 0fae152407857140d28cbd2135c1279334bd0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 37/79] fix: Flags of more than 32 values, with 64 values and
 with non-automatic values

---
 include/NazaraUtils/Flags.hpp | 5 +++--
 include/NazaraUtils/Flags.inl | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..03a90ec 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -53,8 +53,9 @@ namespace Nz
 		static_assert(std::is_enum_v<E>, "Type must be an enumeration");
 		static_assert(IsEnumFlag<E>(), "Enum has not been enabled as flags by an EnumAsFlags specialization nor EnableEnumAsNzFlags ADL function");
 
-		static constexpr std::size_t MaxValue = GetEnumFlagMax<E>::max;
 		static constexpr bool AutoFlag = GetEnumAutoFlag<E>();
+		static constexpr std::size_t MaxValue = (AutoFlag) ? GetEnumFlagMax<E>::max : IntegralLog2(GetEnumFlagMax<E>::max); //< index of the last bit
+		static_assert(MaxValue < 64, "Enum has too many values");
 
 		using BitField16 = std::conditional_t<(MaxValue >= 8), UInt16, UInt8>;
 		using BitField32 = std::conditional_t<(MaxValue >= 16), UInt32, BitField16>;
@@ -97,7 +98,7 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = BitField(std::numeric_limits<UInt64>::max() >> (63 - MaxValue));
 
 		private:
 			BitField m_value;
diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 996cfef..5b77e41 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << ((bitIndex) - 1));
 	}
 
 	/*!
-- 
2.43.0


From 45b45eca0018f2429ab62990a744cc24d0ffb82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 38/79] fix: FNV1a hashes of strings hash their bytes as
 unsigned values

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..876b0f3 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt32(static_cast<UInt8>(str[i]));
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= UInt32(static_cast<UInt8>(str[i]));
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt64(static_cast<UInt8>(str[i]));
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= UInt64(static_cast<UInt8>(str[i]));
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From 4e6569604d7a5de117ee1e982612028781eea75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:40 +0000
Subject: [PATCH 39/79] fix: CallOnExit::CallAndReset calls its functor only
 once even if it throws

---
 include/NazaraUtils/CallOnExit.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..6157da3 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -40,9 +40,13 @@ namespace Nz
 	void CallOnExit<F>::CallAndReset()
 	{
 		if (m_functor)
-			(*m_functor)();
+		{
+			// Disarm first, the functor has to be called only once even if it throws
+			F functor(std::move(*m_functor));
+			m_functor.reset();
 
-		m_functor.reset();
+			functor();
+		}
 	}
 
 	/*!
-- 
2.43.0


From c900bd99ad7b02281a62da205ba6f7fbe058016b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 40/79] fix: CallOnExit move-assignment calls each functor
 exactly once

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index 6157da3..60b9e1d 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -59,5 +59,27 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Calls the current function and takes over the function of another object
+	*
+	* \param callOnExit Object which will no longer call its function
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this != &callOnExit)
+		{
+			CallAndReset();
+
+			if (callOnExit.m_functor)
+			{
+				m_functor.emplace(std::move(*callOnExit.m_functor));
+				callOnExit.m_functor.reset();
+			}
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From dcc92e03dbd5440c2748703c7850b773291f7ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 41/79] fix: FunctionRef built from nullptr initializes its
 callback

---
 include/NazaraUtils/FunctionRef.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..de6c300 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -10,6 +10,7 @@ namespace Nz
 {
 	template<typename Ret, typename ...Args>
 	FunctionRef<Ret(Args...)>::FunctionRef(std::nullptr_t) noexcept :
+	m_callback(nullptr),
 	m_functor(nullptr)
 	{
 	}
-- 
2.43.0


From efb64aac5bb682f8eafc64046e71b46bb38fdb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 42/79] fix: FunctionRef supports const callables and callables
 whose result is discarded

---
 include/NazaraUtils/FunctionRef.inl | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index de6c300..3e0a308 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -19,10 +19,17 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		if constexpr (std::is_object_v<std::remove_reference_t<F>>)
+			m_functor = const_cast<void*>(static_cast<const volatile void*>(std::addressof(f)));
+		else
+			m_functor = reinterpret_cast<void*>(std::addressof(f));
+
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			if constexpr (std::is_void_v<Ret>)
+				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			else
+				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
 		};
 	}
 	
-- 
2.43.0


From c860e1a53ff443864c2d0b58d893cd3e09a95283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 43/79] fix: FunctionRef built from a function pointer refers
 to the function and not to the (maybe temporary) pointer

---
 include/NazaraUtils/FunctionRef.inl | 32 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 3e0a308..2b72f40 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -19,18 +19,30 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		if constexpr (std::is_object_v<std::remove_reference_t<F>>)
-			m_functor = const_cast<void*>(static_cast<const volatile void*>(std::addressof(f)));
+		using FunctorType = std::decay_t<F>;
+		if constexpr (std::is_pointer_v<FunctorType> && std::is_function_v<std::remove_pointer_t<FunctorType>>)
+		{
+			// Functions outlive any reference to them, don't refer to the pointer itself (which may be a temporary)
+			m_functor = reinterpret_cast<void*>(static_cast<FunctorType>(f));
+			m_callback = [](void* functor, Args... args) -> Ret
+			{
+				if constexpr (std::is_void_v<Ret>)
+					std::invoke(reinterpret_cast<FunctorType>(functor), std::forward<Args>(args)...);
+				else
+					return std::invoke(reinterpret_cast<FunctorType>(functor), std::forward<Args>(args)...);
+			};
+		}
 		else
-			m_functor = reinterpret_cast<void*>(std::addressof(f));
-
-		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			if constexpr (std::is_void_v<Ret>)
-				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-			else
-				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
-		};
+			m_functor = const_cast<void*>(static_cast<const volatile void*>(std::addressof(f)));
+			m_callback = [](void* functor, Args... args) -> Ret
+			{
+				if constexpr (std::is_void_v<Ret>)
+					std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+				else
+					return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			};
+		}
 	}
 	
 	template<typename Ret, typename... Args>
-- 
2.43.0


From 8f14fcd3e817f897f3c6a23526502ac4c4a9173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 44/79] fix: PrivateImpl without value can be copied

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..2201a80 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -131,7 +131,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.HasValue())
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -225,6 +226,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.HasValue())
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From b3e6e650c202e0df5493d07bf674cc1889e692ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 45/79] fix: PrivateImpl supports self-assignment

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 2201a80..b1d994c 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,6 +91,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), *pimpl.Get());
 
@@ -100,6 +103,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), std::move(*pimpl.Get()));
 
@@ -241,8 +247,9 @@ namespace Nz
 		}
 		else
 		{
+			T* ptr = new T(*pimpl); //< copy before deleting, pimpl may be this object
 			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			m_ptr = ptr;
 		}
 
 		return *this;
-- 
2.43.0


From 3d0e499853b3ec6d5170541ba9bef76d3f51b9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 46/79] fix: MovableValue/MovableLiteral assignment copies
 lvalues instead of moving from them

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From 58e50376fc99a69c010e8ccc8026c1a78933c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 47/79] fix: EnumArray key/value iterators can be moved by an
 offset and subtracted

---
 include/NazaraUtils/EnumArray.hpp |  9 +++++----
 include/NazaraUtils/EnumArray.inl | 19 +++++++++++++------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..215a9c0 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -76,11 +76,12 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
+			constexpr difference_type operator-(const EnumArrayKvIterator& rhs) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..bcaf2f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,26 +96,33 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(const EnumArrayKvIterator& rhs) const noexcept -> difference_type
+	{
+		assert(m_array == rhs.m_array);
+		return m_index - rhs.m_index;
+	}
+
+	template<typename E, typename V, bool Const>
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From 211a1d503e2838f4ee32556060d554f09dbf9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 48/79] fix: PrivateImpl inplace copy-assignment failures keep
 an object to destroy

---
 include/NazaraUtils/PrivateImpl.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index b1d994c..2724fee 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -94,8 +94,13 @@ namespace Nz
 		if (this == &pimpl)
 			return *this;
 
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if constexpr (std::is_copy_assignable_v<T>)
+			*Get() = *pimpl.Get();
+		else
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), *pimpl.Get());
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 78f679d02129fd3a06d30b0f19b08becf8463de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 49/79] fix: Hash functors can be used by unordered containers
 (const call operator)

---
 include/NazaraUtils/Hash.hpp | 8 ++++----
 include/NazaraUtils/Hash.inl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Hash.hpp b/include/NazaraUtils/Hash.hpp
index 20290e9..a9d01a2 100644
--- a/include/NazaraUtils/Hash.hpp
+++ b/include/NazaraUtils/Hash.hpp
@@ -18,7 +18,7 @@ namespace Nz
 	template<typename T>
 	struct HashFunctor
 	{
-		template<typename... Args> std::size_t operator()(Args&&... args);
+		template<typename... Args> std::size_t operator()(Args&&... args) const;
 	};
 
 	// Cyclic Redundancy Check (CRC) - 32bits
@@ -29,7 +29,7 @@ namespace Nz
 
 	struct CRC32Hash
 	{
-		template<typename... Args> UInt32 operator()(Args&&... args);
+		template<typename... Args> UInt32 operator()(Args&&... args) const;
 	};
 
 	// Fowler–Noll–Vo (FNV) 1a - 32bits
@@ -40,7 +40,7 @@ namespace Nz
 
 	struct FNV1a32Hash
 	{
-		template<typename... Args> UInt32 operator()(Args&&... args);
+		template<typename... Args> UInt32 operator()(Args&&... args) const;
 	};
 
 	// Fowler–Noll–Vo (FNV) 1a - 64bits
@@ -51,7 +51,7 @@ namespace Nz
 
 	struct FNV1a64Hash
 	{
-		template<typename... Args> UInt64 operator()(Args&&... args);
+		template<typename... Args> UInt64 operator()(Args&&... args) const;
 	};
 }
 
diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 876b0f3..cc37b13 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -91,7 +91,7 @@ NAZARA_WARNING_POP()
 
 	template<typename T>
 	template<typename... Args>
-	std::size_t HashFunctor<T>::operator()(Args&&... args)
+	std::size_t HashFunctor<T>::operator()(Args&&... args) const
 	{
 		return static_cast<std::size_t>(T{}(std::forward<Args>(args)...));
 	}
@@ -135,7 +135,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt32 CRC32Hash::operator()(Args&&... args)
+	UInt32 CRC32Hash::operator()(Args&&... args) const
 	{
 		return CRC32(std::forward<Args>(args)...);
 	}
@@ -187,7 +187,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt32 FNV1a32Hash::operator()(Args&&... args)
+	UInt32 FNV1a32Hash::operator()(Args&&... args) const
 	{
 		return FNV1a32(std::forward<Args>(args)...);
 	}
@@ -239,7 +239,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt64 FNV1a64Hash::operator()(Args&&... args)
+	UInt64 FNV1a64Hash::operator()(Args&&... args) const
 	{
 		return FNV1a64(std::forward<Args>(args)...);
 	}
-- 
2.43.0


From 7a8a1211c254e6d06fb2a5a6d2b5023a5edb0b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:26 +0000
Subject: [PATCH 50/79] fix: TypeName of types having a long name

---
 include/NazaraUtils/TypeName.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/TypeName.inl b/include/NazaraUtils/TypeName.inl
index 5081c25..62cc4b0 100644
--- a/include/NazaraUtils/TypeName.inl
+++ b/include/NazaraUtils/TypeName.inl
@@ -12,16 +12,19 @@ constexpr std::string_view NzDetailTypeName()
 
 #ifdef NAZARA_COMPILER_MSVC
 	constexpr std::string_view prefix = "NzDetailTypeName<"sv;
-	constexpr std::string_view suffixes = ">"sv;
+	constexpr std::string_view suffix = ">"sv;
+#elif defined(NAZARA_COMPILER_CLANG)
+	constexpr std::string_view prefix = "T = "sv;
+	constexpr std::string_view suffix = "]"sv;
 #else
 	constexpr std::string_view prefix = "T = "sv;
-	constexpr std::string_view suffixes = ";]"sv;
+	constexpr std::string_view suffix = "; std::string_view = "sv;
 #endif
 
 	constexpr std::size_t b = prettyFuncName.find(prefix);
 	static_assert(b != prettyFuncName.npos);
 
-	constexpr std::size_t e = prettyFuncName.substr(b).find_last_of(suffixes, b) + b;
+	constexpr std::size_t e = prettyFuncName.rfind(suffix);
 	static_assert(e != prettyFuncName.npos);
 
 	std::size_t p = b + prefix.size();
-- 
2.43.0


From 0425dac9da7c25550b8818d8a06702600eacee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 51/79] fix: SafeCast checks lvalues, mixed signedness and
 large floating-point values

---
 include/NazaraUtils/Algorithm.inl | 44 ++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..066fa0a 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -199,30 +199,36 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
 
+		// From is a reference when value is a lvalue
+		using FromType = std::remove_cv_t<std::remove_reference_t<From>>;
+
 		if constexpr (std::is_integral_v<To>)
 		{
-			if constexpr (std::is_enum_v<From>)
+			if constexpr (std::is_enum_v<FromType>)
 			{
-				return SafeCast<To>(static_cast<std::underlying_type_t<From>>(value));
+				return SafeCast<To>(static_cast<std::underlying_type_t<FromType>>(value));
 			}
-			else if constexpr (std::is_floating_point_v<From>)
+			else if constexpr (std::is_floating_point_v<FromType>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
-				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				// max() may not be representable by the floating-point type but max() + 1, a power of two, always is
+				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(value < static_cast<FromType>(std::numeric_limits<To>::max() / 2 + 1) * FromType(2));
+				NazaraAssert(static_cast<FromType>(static_cast<To>(value)) == value);
 			}
-			else if constexpr (std::is_integral_v<From>)
+			else if constexpr (std::is_integral_v<FromType>)
 			{
-				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
-				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
-
-				if constexpr (!std::is_signed_v<To>)
+				if constexpr (std::is_signed_v<FromType> && !std::is_signed_v<To>)
+				{
 					NazaraAssert(value >= 0);
-
-				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
-				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
+					NazaraAssert(static_cast<std::make_unsigned_t<FromType>>(value) <= std::numeric_limits<To>::max());
+				}
+				else if constexpr (!std::is_signed_v<FromType> && std::is_signed_v<To>)
+					NazaraAssert(value <= static_cast<std::make_unsigned_t<To>>(std::numeric_limits<To>::max()));
+				else
+				{
+					NazaraAssert(value <= std::numeric_limits<To>::max());
+					NazaraAssert(value >= std::numeric_limits<To>::lowest());
+				}
 			}
 		}
 		else if constexpr (std::is_enum_v<To>)
@@ -231,12 +237,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_floating_point_v<To>)
 		{
-			if constexpr (std::is_floating_point_v<From>)
+			if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MinValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 
 				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
 				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
-- 
2.43.0


From b23fbc0fc3db00d60cc4ed4772e986657d64c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:05 +0000
Subject: [PATCH 52/79] fix: SafeCast checks downcasts of references and
 pointers

---
 include/NazaraUtils/Algorithm.inl | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 066fa0a..db7983a 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -252,24 +252,23 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		{
 			if constexpr (std::is_reference_v<From>)
 			{
-				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
+				using BaseToType = std::remove_cv_t<std::remove_reference_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<FromType, BaseToType> && std::is_base_of_v<FromType, BaseToType> && std::is_polymorphic_v<FromType>)
 				{
 					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
-					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
+					NazaraAssert(dynamic_cast<ToPtr>(std::addressof(value)) != nullptr);
 				}
 			}
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
-			if constexpr (std::is_pointer_v<From>)
+			if constexpr (std::is_pointer_v<FromType>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
+				using BaseFromType = std::remove_cv_t<std::remove_pointer_t<FromType>>;
+				using BaseToType = std::remove_cv_t<std::remove_pointer_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType> && std::is_polymorphic_v<BaseFromType>)
 				{
 					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
-- 
2.43.0


From 3c8c41a1f8346c68119c40d0d568e491778e91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:17 +0000
Subject: [PATCH 53/79] fix: Result::Map is not noexcept when carrying the
 value or the error over can throw

---
 include/NazaraUtils/Result.hpp | 16 +++++++++++-----
 include/NazaraUtils/Result.inl |  8 ++++----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 44b14f8..930d6d7 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -92,8 +92,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>);
-			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>);
+			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && IsNothrowMappable<std::invoke_result_t<F, const V&>, const E&>);
+			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && IsNothrowMappable<std::invoke_result_t<F, V&&>, E&&>);
 
 			constexpr explicit operator bool() const noexcept;
 
@@ -111,6 +111,9 @@ namespace Nz
 			constexpr void EnsureError() const;
 			constexpr void EnsureValue() const;
 
+			// Mapping also moves the mapped value and carries over the error
+			template<typename MappedVal, typename CarriedError> static constexpr bool IsNothrowMappable = (std::is_void_v<MappedVal> || std::is_nothrow_move_constructible_v<MappedVal>) && std::is_nothrow_constructible_v<E, CarriedError>;
+
 			static constexpr std::size_t ValueIndex = 0;
 			static constexpr std::size_t ErrorIndex = 1;
 
@@ -146,8 +149,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>);
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && IsNothrowMappable<std::invoke_result_t<F>, const E&>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && IsNothrowMappable<std::invoke_result_t<F>, E&&>);
 
 			constexpr explicit operator bool() const noexcept;
 
@@ -156,7 +159,10 @@ namespace Nz
 
 		private:
 			constexpr void EnsureError() const;
-			
+
+			// Mapping also moves the mapped value and carries over the error
+			template<typename MappedVal, typename CarriedError> static constexpr bool IsNothrowMappable = (std::is_void_v<MappedVal> || std::is_nothrow_move_constructible_v<MappedVal>) && std::is_nothrow_constructible_v<E, CarriedError>;
+
 			std::optional<E> m_error;
 	};
 }
diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 1558b21..ca8547b 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -179,7 +179,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>)
+	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&> && IsNothrowMappable<std::invoke_result_t<F, const V&>, const E&>)
 	{
 		using MappedVal = std::invoke_result_t<F, const V&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -200,7 +200,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>)
+	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&> && IsNothrowMappable<std::invoke_result_t<F, V&&>, E&&>)
 	{
 		using MappedVal = std::invoke_result_t<F, V&&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -359,7 +359,7 @@ namespace Nz
 	
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F> && IsNothrowMappable<std::invoke_result_t<F>, const E&>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
@@ -380,7 +380,7 @@ namespace Nz
 
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F> && IsNothrowMappable<std::invoke_result_t<F>, E&&>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
-- 
2.43.0


From d7be5298be516c85e7a4a58fc5a650e6341c3881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:05 +0000
Subject: [PATCH 54/79] fix: ReverseBits no longer shifts a negative value for
 one-byte signed types

---
 include/NazaraUtils/MathUtils.inl | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 7821a32..7b79a81 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -501,11 +501,19 @@ NAZARA_WARNING_POP()
 	template<NAZARA_STD_CONCEPT_T(std::integral) T>
 	[[nodiscard]] constexpr T ReverseBits(T integer) noexcept
 	{
-		T reversed = 0;
-		for (std::size_t i = 0; i < sizeof(T); ++i)
-			reversed |= T(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
+		if constexpr (sizeof(T) == 1)
+		{
+			// T(reversed byte) can be negative here, and must not be shifted
+			return static_cast<T>(Detail::s_BitReverseTable256[integer & 0xFF]);
+		}
+		else
+		{
+			T reversed = 0;
+			for (std::size_t i = 0; i < sizeof(T); ++i)
+				reversed |= T(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
 
-		return reversed;
+			return reversed;
+		}
 	}
 
 	/*!
-- 
2.43.0


From a37f006d4a9959f06d6fb8f90d443d3ed221b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:02 +0000
Subject: [PATCH 55/79] fix: in-place PrivateImpl copy assignment does not
 destroy the object when the copy throws

---
 include/NazaraUtils/PrivateImpl.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 2724fee..4728009 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -96,6 +96,8 @@ namespace Nz
 
 		if constexpr (std::is_copy_assignable_v<T>)
 			*Get() = *pimpl.Get();
+		else if constexpr (std::is_move_constructible_v<T>)
+			*this = PrivateImpl(pimpl); //< copy before destroying, the copy may throw
 		else
 		{
 			PlacementDestroy(Get());
-- 
2.43.0


From 1ee2fb0797025875bda3277d58a2309660b92d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:24 +0000
Subject: [PATCH 56/79] fix: NumberEquals can be evaluated at compile time
 before C++20

---
 include/NazaraUtils/MathUtils.inl | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 7b79a81..68e8741 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -114,30 +114,23 @@ namespace Nz
 			}
 			else
 			{
-				if (b > a)
-					std::swap(a, b);
-
-				T diff = a - b;
+				T diff = (b > a) ? b - a : a - b; //< std::swap is not constexpr before C++20
 				return diff <= maxDifference;
 			}
 		}
 
 		template<typename T> constexpr std::enable_if_t<!std::is_signed<T>::value || (!std::is_integral<T>::value && !std::is_floating_point<T>::value), bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
-			T diff = a - b;
+			T diff = (b > a) ? b - a : a - b; //< std::swap is not constexpr before C++20
 			return diff <= maxDifference;
 		}
 
 		template<typename T> constexpr std::enable_if_t<std::is_signed<T>::value&& std::is_integral<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b)) <= static_cast<UnsignedT>(maxDifference);
+			UnsignedT ua = static_cast<UnsignedT>(a);
+			UnsignedT ub = static_cast<UnsignedT>(b);
+			return static_cast<UnsignedT>((b > a) ? ub - ua : ua - ub) <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From e8a4c7ed0a097a545e5d14cfc731d251c92da609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:42 +0000
Subject: [PATCH 57/79] fix: Mod of floating-point values gives the same result
 at compile time as while running

---
 include/NazaraUtils/MathUtils.inl | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 68e8741..a82e06a 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -106,6 +106,32 @@ namespace Nz
 			return 0;
 		}
 
+		// Compile-time std::fmod: every operation below is exact (x / y isn't, and may not fit an integer)
+		template<typename T> constexpr T FloatMod(T x, T y)
+		{
+			T remainder = (x < 0) ? -x : x;
+			T divisor = (y < 0) ? -y : y;
+			if (!(remainder >= divisor))
+				return x;
+
+			T step = divisor;
+			while (remainder - step >= step)
+				step *= 2;
+
+			while (step > divisor)
+			{
+				if (remainder >= step)
+					remainder -= step;
+
+				step /= 2;
+			}
+
+			if (remainder >= divisor)
+				remainder -= divisor;
+
+			return (x < 0) ? -remainder : remainder;
+		}
+
 		template<typename T> constexpr std::enable_if_t<std::is_floating_point<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
 			if NAZARA_IS_RUNTIME_EVAL()
@@ -852,7 +878,7 @@ NAZARA_WARNING_POP()
 			}
 			else
 			{
-				return x - static_cast<long long>(x / y) * y;
+				return Detail::FloatMod(x, y);
 			}
 		}
 		else
-- 
2.43.0


From 41fb81a9f94cee1623d443cf1a28390f525dcc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:04 +0000
Subject: [PATCH 58/79] fix: NazaraOffsetOf of an inherited member gives its
 offset in the derived class

---
 include/NazaraUtils/OffsetOf.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index a65aa4c..84af8a7 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -14,17 +14,16 @@ namespace Nz
 {
 	namespace Detail
 	{
-		template <typename T, typename M> T GetClassType(M T::*);
-		template <typename T, typename M> M GetMemberType(M T::*);
-
-		template <typename T, typename R, R T::*M>
-		constexpr std::size_t OffsetOf()
+		template <typename T, typename C, typename R>
+		constexpr std::size_t OffsetOf(R C::*baseMember)
 		{
-			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*M));
+			// the member may belong to a base of T
+			R T::*member = baseMember;
+			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*member));
 		}
 	}
 }
 
-#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<decltype(Nz::Detail::GetClassType(&type::member)), decltype(Nz::Detail::GetMemberType(&type::member)), &type::member>()
+#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<type>(&type::member)
 
 #endif // NAZARAUTILS_OFFSETOF_HPP
-- 
2.43.0


From 237db0e5f479354987a44a8bdf17f463b6ef6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 59/79] fix: MemoryPool::Free without destruction checks that
 the entry is allocated, like Free does

---
 include/NazaraUtils/MemoryPool.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index eb51f1f..58c07c7 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -159,7 +159,9 @@ namespace Nz
 		std::size_t blockIndex = index / m_blockSize;
 		std::size_t localIndex = index % m_blockSize;
 
+		assert(blockIndex < m_blocks.size());
 		auto& block = m_blocks[blockIndex];
+		assert(block.occupiedEntries.Test(localIndex));
 		assert(block.occupiedEntryCount > 0);
 		block.occupiedEntryCount--;
 
-- 
2.43.0


From 9d2e100cba9cd67407a273f1a4b1869c145c2494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 60/79] fix: StackArray::front checks that the array has
 elements, like back does

---
 include/NazaraUtils/StackArray.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 7b2a5a1..8ac5169 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -148,12 +148,14 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::reference StackArray<T>::front() noexcept
 	{
+		assert(m_size != 0);
 		return m_ptr[0];
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_reference StackArray<T>::front() const noexcept
 	{
+		assert(m_size != 0);
 		return m_ptr[0];
 	}
 
-- 
2.43.0


From 8f8407dd28452bdd3d4cc4099c28165282ae43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 61/79] fix: Bitset::AppendBits leaves the bitset unchanged
 when memory runs out

---
 include/NazaraUtils/Bitset.inl | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 3456477..b85d629 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -156,33 +156,26 @@ namespace Nz
 	constexpr void Bitset<Block, Container>::AppendBits(T bits, std::size_t bitCount)
 	{
 		std::size_t bitShift = m_bitCount % bitsPerBlock;
+		std::size_t blockIndex = m_blocks.size();
+
+		m_blocks.resize(ComputeBlockCount(m_bitCount + bitCount)); //< may throw, do it before changing anything
 		m_bitCount += bitCount;
 
 		if (bitShift != 0)
 		{
 			std::size_t remainingBits = bitsPerBlock - bitShift;
-			m_blocks.back() |= Block(bits) << bitShift;
+			m_blocks[blockIndex - 1] |= Block(bits) << bitShift;
 			bits = (remainingBits < BitCount<T>) ? bits >> remainingBits : T(0);
-
-			bitCount -= std::min(remainingBits, bitCount);
 		}
 
-		if (bitCount > 0)
+		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
-			std::size_t blockCount = ComputeBlockCount(bitCount);
-			for (std::size_t block = 0; block < blockCount - 1; ++block)
-			{
-				m_blocks.push_back(static_cast<Block>(bits));
-
-				if constexpr (bitsPerBlock < BitCount<T>)
-					bits >>= bitsPerBlock;
-				else
-					bits = 0;
-
-				bitCount -= bitsPerBlock;
-			}
+			m_blocks[blockIndex] = static_cast<Block>(bits);
 
-			m_blocks.push_back(static_cast<Block>(bits));
+			if constexpr (bitsPerBlock < BitCount<T>)
+				bits >>= bitsPerBlock;
+			else
+				bits = 0;
 		}
 
 		// Mask out the bits we don't want (those following the last appended bit)
-- 
2.43.0


From dd69d6bf80510454eddfcae2653a91a99a50cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 62/79] fix: FixedVector::push_back isn't noexcept when it may
 have to allocate its fallback

---
 include/NazaraUtils/FixedVector.hpp | 4 ++--
 include/NazaraUtils/FixedVector.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..b9f69c5 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -94,8 +94,8 @@ namespace Nz
 
 			constexpr size_type max_size() const noexcept;
 
-			constexpr reference push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value);
-			constexpr reference push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value);
+			constexpr reference push_back(const T& value) noexcept(!Base::HasFallback && std::is_nothrow_copy_constructible<T>::value);
+			constexpr reference push_back(T&& value) noexcept(!Base::HasFallback && std::is_nothrow_move_constructible<T>::value);
 
 			constexpr void pop_back();
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index f511315..3348b86 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -533,7 +533,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(!Base::HasFallback && std::is_nothrow_copy_constructible<T>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
@@ -556,7 +556,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(!Base::HasFallback && std::is_nothrow_move_constructible<T>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-- 
2.43.0


From f461fc8ae9c24e62d2b007e1c6cfd6d99342a989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 63/79] fix: FixedVector of integers can be built from a size
 and a value

---
 include/NazaraUtils/FixedVector.hpp | 2 +-
 include/NazaraUtils/FixedVector.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index b9f69c5..736598c 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -46,7 +46,7 @@ namespace Nz
 
 			constexpr FixedVector();
 			constexpr explicit FixedVector(size_type size, const T& value = T{});
-			template<typename InputIt> constexpr FixedVector(InputIt first, InputIt last);
+			template<typename InputIt, typename = std::enable_if_t<!std::is_integral_v<InputIt>>> constexpr FixedVector(InputIt first, InputIt last);
 			constexpr FixedVector(std::initializer_list<T> init);
 			constexpr FixedVector(const FixedVector& vec);
 			constexpr FixedVector(FixedVector&& vec) noexcept;
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 3348b86..a78f253 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -193,7 +193,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	template<typename InputIt>
+	template<typename InputIt, typename>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(InputIt first, InputIt last) :
 	FixedVector()
 	{
-- 
2.43.0


From be3de5494573e9c5bc3ffc63eaea363b36276c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 64/79] revert: FixedVector reverse iteration on const vectors
 wasn't broken (undoes 8f7da70)

---
 include/NazaraUtils/FixedVector.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index a78f253..39e0599 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -685,7 +685,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rbegin() const noexcept -> const_reverse_iterator
 	{
-		return const_reverse_iterator(const_iterator(data(size())));
+		return reverse_iterator(iterator(data(size())));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -697,7 +697,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rend() const noexcept -> const_reverse_iterator
 	{
-		return const_reverse_iterator(const_iterator(data()));
+		return reverse_iterator(iterator(data()));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From 1a6cb45eb7c11ecdb0121de4cdd26d3206db8cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:29 +0000
Subject: [PATCH 65/79] fix: iterator_traits of SparsePtr give the element's
 own reference, pointer and value types

reverse_iterator and move_iterator over a SparsePtr<T> only gave constant
references, and algorithms using the value type failed with SparsePtr<const T>
---
 include/NazaraUtils/SparsePtr.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 44dbbbd..a3653d2 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -472,9 +472,9 @@ namespace std
 	{
 		using difference_type = ptrdiff_t;
 		using iterator_category = random_access_iterator_tag;
-		using reference = const T&;
-		using pointer = const T*;
-		using value_type = T;
+		using reference = T&;
+		using pointer = T*;
+		using value_type = remove_cv_t<T>;
 	};
 }
 
-- 
2.43.0


From 5bf0b13b2c86f7398157e0ce5ea12f4e493afe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:48 +0000
Subject: [PATCH 66/79] fix: Flags honours the AutoFlag member of EnumAsFlags
 specializations

---
 include/NazaraUtils/Flags.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 03a90ec..1119dbb 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -33,7 +33,7 @@ namespace Nz
 	struct GetEnumAutoFlag : std::bool_constant<EnableAutoFlagForNzFlags(E{})> {};
 
 	template<typename E>
-	struct GetEnumAutoFlag<E, std::void_t<decltype(E::AutoFlag)>> : std::bool_constant<E::AutoFlag> {};
+	struct GetEnumAutoFlag<E, std::void_t<decltype(EnumAsFlags<E>::AutoFlag)>> : std::bool_constant<EnumAsFlags<E>::AutoFlag> {};
 
 	template<typename E, typename = void>
 	struct GetEnumFlagMax
-- 
2.43.0


From 4254fa25d627e2e3e0b191ee4221c205fd6c2484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 67/79] fix: push_back of an element of a HybridVector moved by
 its growth into the fallback

---
 include/NazaraUtils/FixedVector.inl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 39e0599..e279a6b 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -560,8 +560,16 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::move(value));
+
+			if (m_size >= Capacity)
+			{
+				Base::ReserveFallback(m_size + 1); //< may throw, value must be left untouched if it does
+				T copy(std::move(value)); // value may refer to an element which is about to be moved
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(copy));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From cd566a578ec000a3596a5d2c5d352d1c11111216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:15 +0000
Subject: [PATCH 68/79] fix: emplace_back and emplace keep their arguments when
 a HybridVector has no memory left

---
 include/NazaraUtils/FixedVector.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index e279a6b..d910615 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -374,6 +374,7 @@ namespace Nz
 
 			if (m_size >= Capacity)
 			{
+				Base::ReserveFallback(m_size + 1); //< may throw, args must be left untouched if it does
 				T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
 				MoveStorageToFallback(m_size + 1);
 				return Base::EmplaceInFallback(index, std::move(value));
@@ -412,6 +413,7 @@ namespace Nz
 
 			if (m_size >= Capacity)
 			{
+				Base::ReserveFallback(m_size + 1); //< may throw, args must be left untouched if it does
 				T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
 				MoveStorageToFallback(m_size + 1);
 				return *Base::EmplaceBackInFallback(std::move(value));
-- 
2.43.0


From fd83ba8577da39e54edb318d3c0828e1c348c0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:08 +0000
Subject: [PATCH 69/79] fix: StackArray did not compile on platforms without
 alloca

---
 include/NazaraUtils/StackArray.hpp | 4 ++--
 include/NazaraUtils/StackArray.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index d7add20..537ec48 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -14,8 +14,8 @@
 	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size)
 	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
 #else
-	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size)
-	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
+	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(operator new((size) * sizeof(T))), size)
+	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(operator new((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
 #endif
 
 #include <cstddef>
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 8ac5169..3ebf88b 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -55,7 +55,7 @@ namespace Nz
 			PlacementDestroy(&m_ptr[i]);
 
 		#ifndef NAZARA_ALLOCA_SUPPORT
-		OperatorDelete(m_ptr);
+		operator delete(m_ptr);
 		#endif
 	}
 
@@ -218,7 +218,7 @@ namespace Nz
 				PlacementDestroy(&m_ptr[i]);
 
 			#ifndef NAZARA_ALLOCA_SUPPORT
-			OperatorDelete(m_ptr);
+			operator delete(m_ptr);
 			#endif
 
 			m_size = std::exchange(array.m_size, 0);
-- 
2.43.0


From 9c6602e251d1fe981976d5204df7ecfbe391a559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 70/79] fix: give the mathematical constants of long double
 their full precision

---
 include/NazaraUtils/Constants.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index 51f71b3..d29d969 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -47,37 +47,37 @@ namespace Nz
 		static constexpr T HalfPi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.5707963267948966192313216916398);
+			return T(1.5707963267948966192313216916398L);
 		}
 
 		static constexpr T Pi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(3.1415926535897932384626433832795);
+			return T(3.1415926535897932384626433832795L);
 		}
 
 		static constexpr T Sqrt2()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.4142135623730950488016887242097);
+			return T(1.4142135623730950488016887242097L);
 		}
 
 		static constexpr T Sqrt3()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.7320508075688772935274463415059);
+			return T(1.7320508075688772935274463415059L);
 		}
 
 		static constexpr T Sqrt5()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(2.2360679774997896964091736687313);
+			return T(2.2360679774997896964091736687313L);
 		}
 
 		static constexpr T Tau()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(6.2831853071795864769252867665590);
+			return T(6.2831853071795864769252867665590L);
 		}
 	};
 
-- 
2.43.0


From 0c9086fffd8dd436fe06098ee4ff861309cfd87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 71/79] fix: include <type_traits> in Constants.hpp, which uses
 it

---
 include/NazaraUtils/Constants.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index d29d969..48fc062 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -11,6 +11,7 @@
 #include <NazaraUtils/Concepts.hpp>
 #include <climits>
 #include <limits>
+#include <type_traits>
 
 namespace Nz
 {
-- 
2.43.0


From ced0f64a7d8877a7893909f1e0e12f4fc02d6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:54 +0000
Subject: [PATCH 72/79] fix: include <cstddef> in OffsetOf.hpp, which uses
 std::size_t

---
 include/NazaraUtils/OffsetOf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index 84af8a7..69ec424 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -7,6 +7,8 @@
 #ifndef NAZARAUTILS_OFFSETOF_HPP
 #define NAZARAUTILS_OFFSETOF_HPP
 
+#include <cstddef>
+
 // By "Jesse Good" from SO:
 // http://stackoverflow.com/questions/12811330/c-compile-time-offsetof-inside-a-template?answertab=votes#tab-top
 
-- 
2.43.0


From dec6d361626c021b60497029076102e4b9d97130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 73/79] fix: trust the byte order given by the compiler before
 guessing it from the architecture

clang defines __ppc__ and __POWERPC__ on little endian PowerPC, which was seen as big endian.
---
 include/NazaraUtils/Endianness.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Endianness.hpp b/include/NazaraUtils/Endianness.hpp
index 630d156..50dd4ba 100644
--- a/include/NazaraUtils/Endianness.hpp
+++ b/include/NazaraUtils/Endianness.hpp
@@ -18,8 +18,12 @@
 #endif
 
 #if !defined(NAZARA_BIG_ENDIAN) && !defined(NAZARA_LITTLE_ENDIAN)
-	// Automatic detection following macros of compiler
-	#if defined(__m68k__) || defined(mc68000) || defined(_M_M68K) || (defined(__MIPS__) && defined(__MISPEB__)) \
+	// Automatic detection following macros of compiler (__BYTE_ORDER__ is trusted first as some architectures support both orders)
+	#if defined(__BYTE_ORDER__) && defined(__ORDER_BIG_ENDIAN__) && __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
+		#define NAZARA_BIG_ENDIAN
+	#elif defined(__BYTE_ORDER__) && defined(__ORDER_LITTLE_ENDIAN__) && __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
+		#define NAZARA_LITTLE_ENDIAN
+	#elif defined(__m68k__) || defined(mc68000) || defined(_M_M68K) || (defined(__MIPS__) && defined(__MISPEB__)) \
 	 || defined(__ppc__) || defined(__POWERPC__) || defined(_M_PPC) || defined(__sparc__) || defined(__hppa__) \
 	 || defined(__BIG_ENDIAN__) || defined(__ARMEB__) || defined(__THUMBEB__) || defined(__AARCH64EB__) || defined(_MIPSEB) \
 	 || defined(__MIPSEB) || defined(__MIPSEB__) \
-- 
2.43.0


From 26196937f36588608c2f4219bdfdf5e339062bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:42 +0000
Subject: [PATCH 74/79] fix: recognise ARM64EC as aarch64 only

_M_ARM64EC is defined together with _M_X64 and _M_AMD64, so that both architectures were detected and the header refused to compile.
---
 include/NazaraUtils/Prerequisites.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Prerequisites.hpp b/include/NazaraUtils/Prerequisites.hpp
index 45df10b..91e9473 100644
--- a/include/NazaraUtils/Prerequisites.hpp
+++ b/include/NazaraUtils/Prerequisites.hpp
@@ -407,7 +407,8 @@
 		#define NAZARA_ARCH_aarch64
 	#endif
 
-	#if defined(__amd64__) || defined(__amd64) || defined(__x86_64__) || defined(__x86_64) || defined(_M_AMD64) || defined (_M_X64)
+	// ARM64EC targets pretend to be x86_64 as well
+	#if !defined(_M_ARM64EC) && (defined(__amd64__) || defined(__amd64) || defined(__x86_64__) || defined(__x86_64) || defined(_M_AMD64) || defined (_M_X64))
 		#define NAZARA_ARCH_x86_64
 	#endif
 
-- 
2.43.0


From 0639b6c5ab2b92a5cff645aa423b528f9d440c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:53 +0000
Subject: [PATCH 75/79] fix: NAZARA_UNREACHABLE() was a whole statement without
 compiler support

Its fallback ended with a semicolon, so that "if (x) NAZARA_UNREACHABLE(); else ..." did not compile, unlike with the other definitions.
---
 include/NazaraUtils/Prerequisites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Prerequisites.hpp b/include/NazaraUtils/Prerequisites.hpp
index 91e9473..2f7e719 100644
--- a/include/NazaraUtils/Prerequisites.hpp
+++ b/include/NazaraUtils/Prerequisites.hpp
@@ -393,7 +393,7 @@
 #endif
 
 #ifndef NAZARA_UNREACHABLE
-	#define NAZARA_UNREACHABLE() throw Nz::UnreachableError{};
+	#define NAZARA_UNREACHABLE() throw Nz::UnreachableError{}
 #endif
 
 // Detect arch
-- 
2.43.0


From c96977c818761e78d387bd7fbac7da64efad9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:22 +0000
Subject: [PATCH 76/79] fix: NAZARA_WARNING_* macros did not compile with, or
 because of, the Intel compiler

_Pragma was given tokens instead of a string literal, and NAZARA_WARNING_ICC_DISABLE took several warnings with this compiler but one only with every other compiler.
---
 include/NazaraUtils/Prerequisites.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Prerequisites.hpp b/include/NazaraUtils/Prerequisites.hpp
index 2f7e719..ab0a681 100644
--- a/include/NazaraUtils/Prerequisites.hpp
+++ b/include/NazaraUtils/Prerequisites.hpp
@@ -76,7 +76,7 @@
 	
 	#define NAZARA_CHECK_ICC_VER(ver) (NAZARA_COMPILER_ICC_VER >= ver)
 
-	#define NAZARA_PRAGMA(x) _Pragma(x)
+	#define NAZARA_PRAGMA(x) _Pragma(#x)
 
 	#define NAZARA_WARNING_ICC_DISABLE(...) NAZARA_PRAGMA(warning(disable: __VA_ARGS__))
 	#define NAZARA_WARNING_POP() NAZARA_PRAGMA(warning(pop))
@@ -159,7 +159,7 @@
 #endif
 
 #ifndef NAZARA_WARNING_ICC_DISABLE
-#define NAZARA_WARNING_ICC_DISABLE(warn)
+#define NAZARA_WARNING_ICC_DISABLE(...)
 #endif
 
 #ifndef NAZARA_WARNING_MSVC_DISABLE
-- 
2.43.0


From abd87165c694807ba61912b3015d232136063806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:45 +0000
Subject: [PATCH 77/79] fix: don't rely on operator& of the elements of vectors
 and results

FixedVector (with a fallback), StackArray, StackVector and Result::operator-> took the address of an object with &, which doesn't compile,
or gives something else, for classes overloading it (smart pointers to COM objects do).
---
 include/NazaraUtils/FixedVector.inl |  5 +--
 include/NazaraUtils/Result.inl      |  5 +--
 include/NazaraUtils/StackArray.inl  | 30 ++++++++---------
 include/NazaraUtils/StackVector.inl | 52 ++++++++++++++---------------
 4 files changed, 47 insertions(+), 45 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index d910615..afcb72e 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -4,6 +4,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <memory>
 #include <new>
 #include <utility>
 
@@ -27,14 +28,14 @@ namespace Nz
 				T* EmplaceInFallback(std::size_t index, Args&&... args)
 				{
 					fallback.emplace(fallback.begin() + index, std::forward<Args>(args)...);
-					return &fallback[index];
+					return std::addressof(fallback[index]);
 				}
 
 				template<typename... Args>
 				T* EmplaceBackInFallback(Args&&... args)
 				{
 					fallback.emplace_back(std::forward<Args>(args)...);
-					return &fallback.back();
+					return std::addressof(fallback.back());
 				}
 
 				std::size_t EraseInFallback(std::size_t n)
diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index ca8547b..ee6f50f 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <functional>
+#include <memory>
 #include <stdexcept>
 
 namespace Nz
@@ -246,13 +247,13 @@ namespace Nz
 	template<typename V, typename E>
 	constexpr V* Result<V, E>::operator->()
 	{
-		return &GetValue();
+		return std::addressof(GetValue());
 	}
 
 	template<typename V, typename E>
 	constexpr const V* Result<V, E>::operator->() const
 	{
-		return &GetValue();
+		return std::addressof(GetValue());
 	}
 
 	template<typename V, typename E>
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 3ebf88b..7f71d2c 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -29,7 +29,7 @@ namespace Nz
 		m_ptr = stackMemory;
 		while (m_size < size)
 		{
-			PlacementNew(&m_ptr[m_size]);
+			PlacementNew(m_ptr + m_size);
 			m_size++;
 		}
 	}
@@ -52,7 +52,7 @@ namespace Nz
 	StackArray<T>::~StackArray()
 	{
 		for (std::size_t i = 0; i < m_size; ++i)
-			PlacementDestroy(&m_ptr[i]);
+			PlacementDestroy(m_ptr + i);
 
 		#ifndef NAZARA_ALLOCA_SUPPORT
 		operator delete(m_ptr);
@@ -76,37 +76,37 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::iterator StackArray<T>::begin() noexcept
 	{
-		return iterator(&m_ptr[0]);
+		return iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_iterator StackArray<T>::begin() const noexcept
 	{
-		return const_iterator(&m_ptr[0]);
+		return const_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_iterator StackArray<T>::cbegin() const noexcept
 	{
-		return const_iterator(&m_ptr[0]);
+		return const_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_iterator StackArray<T>::cend() const noexcept
 	{
-		return const_iterator(&m_ptr[m_size]);
+		return const_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::crbegin() const noexcept
 	{
-		return const_reverse_iterator(&m_ptr[m_size]);
+		return const_reverse_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::crend() const noexcept
 	{
-		return const_reverse_iterator(&m_ptr[0]);
+		return const_reverse_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
@@ -130,13 +130,13 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::iterator StackArray<T>::end() noexcept
 	{
-		return iterator(&m_ptr[m_size]);
+		return iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_iterator StackArray<T>::end() const noexcept
 	{
-		return const_iterator(&m_ptr[m_size]);
+		return const_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
@@ -168,25 +168,25 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::reverse_iterator StackArray<T>::rbegin() noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return reverse_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::rbegin() const noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return reverse_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackArray<T>::reverse_iterator StackArray<T>::rend() noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return reverse_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::rend() const noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return reverse_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
@@ -215,7 +215,7 @@ namespace Nz
 		if (this != &array)
 		{
 			for (std::size_t i = 0; i < m_size; ++i)
-				PlacementDestroy(&m_ptr[i]);
+				PlacementDestroy(m_ptr + i);
 
 			#ifndef NAZARA_ALLOCA_SUPPORT
 			operator delete(m_ptr);
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 6f3e6cd..ceeae23 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -66,13 +66,13 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::iterator StackVector<T>::begin() noexcept
 	{
-		return iterator(&m_ptr[0]);
+		return iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_iterator StackVector<T>::begin() const noexcept
 	{
-		return const_iterator(&m_ptr[0]);
+		return const_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
@@ -92,25 +92,25 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::const_iterator StackVector<T>::cbegin() const noexcept
 	{
-		return const_iterator(&m_ptr[0]);
+		return const_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_iterator StackVector<T>::cend() const noexcept
 	{
-		return const_iterator(&m_ptr[m_size]);
+		return const_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_reverse_iterator StackVector<T>::crbegin() const noexcept
 	{
-		return const_reverse_iterator(&m_ptr[m_size]);
+		return const_reverse_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_reverse_iterator StackVector<T>::crend() const noexcept
 	{
-		return const_reverse_iterator(&m_ptr[0]);
+		return const_reverse_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
@@ -138,16 +138,16 @@ namespace Nz
 			T value(std::forward<Args>(args)...); // args may refer to an element which is about to be moved
 
 			iterator lastElement = end() - 1;
-			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			PlacementNew(m_ptr + m_size, std::move(*lastElement));
 			m_size++;
 
-			std::move_backward(&m_ptr[index], lastElement, lastElement + 1);
+			std::move_backward(m_ptr + index, lastElement, lastElement + 1);
 			m_ptr[index] = std::move(value);
 
-			return &m_ptr[index];
+			return m_ptr + index;
 		}
 
-		T* ptr = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		T* ptr = PlacementNew(m_ptr + m_size, std::forward<Args>(args)...);
 		m_size++;
 
 		return ptr;
@@ -158,7 +158,7 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		T* ptr = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		T* ptr = PlacementNew(m_ptr + m_size, std::forward<Args>(args)...);
 		m_size++;
 
 		return *ptr;
@@ -173,13 +173,13 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::iterator StackVector<T>::end() noexcept
 	{
-		return iterator(&m_ptr[m_size]);
+		return iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_iterator StackVector<T>::end() const noexcept
 	{
-		return const_iterator(&m_ptr[m_size]);
+		return const_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
@@ -190,7 +190,7 @@ namespace Nz
 		std::move(begin() + index + 1, end(), begin() + index);
 		pop_back();
 
-		return iterator(&m_ptr[index]);
+		return iterator(m_ptr + index);
 	}
 
 	template<typename T>
@@ -210,7 +210,7 @@ namespace Nz
 		for (std::size_t i = 0; i < count; ++i) // can't use resize, which requires T to be default-constructible
 			pop_back();
 
-		return iterator(&m_ptr[index]);
+		return iterator(m_ptr + index);
 	}
 
 	template<typename T>
@@ -249,7 +249,7 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		T* ptr = PlacementNew(&m_ptr[m_size], value);
+		T* ptr = PlacementNew(m_ptr + m_size, value);
 		m_size++;
 
 		return *ptr;
@@ -259,7 +259,7 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		T* ptr = PlacementNew(&m_ptr[m_size], std::move(value));
+		T* ptr = PlacementNew(m_ptr + m_size, std::move(value));
 		m_size++;
 
 		return *ptr;
@@ -269,7 +269,7 @@ namespace Nz
 	void StackVector<T>::pop_back()
 	{
 		assert(!empty());
-		PlacementDestroy(&m_ptr[--m_size]);
+		PlacementDestroy(m_ptr + --m_size);
 	}
 
 	template<typename T>
@@ -280,14 +280,14 @@ namespace Nz
 		{
 			while (m_size < count)
 			{
-				PlacementNew(&m_ptr[m_size]);
+				PlacementNew(m_ptr + m_size);
 				m_size++;
 			}
 		}
 		else if (count < m_size)
 		{
 			for (std::size_t i = count; i < m_size; ++i)
-				PlacementDestroy(&m_ptr[i]);
+				PlacementDestroy(m_ptr + i);
 
 			m_size = count;
 		}
@@ -301,14 +301,14 @@ namespace Nz
 		{
 			while (m_size < count)
 			{
-				PlacementNew(&m_ptr[m_size], value);
+				PlacementNew(m_ptr + m_size, value);
 				m_size++;
 			}
 		}
 		else if (count < m_size)
 		{
 			for (std::size_t i = count; i < m_size; ++i)
-				PlacementDestroy(&m_ptr[i]);
+				PlacementDestroy(m_ptr + i);
 
 			m_size = count;
 		}
@@ -317,25 +317,25 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::reverse_iterator StackVector<T>::rbegin() noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return reverse_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_reverse_iterator StackVector<T>::rbegin() const noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return reverse_iterator(m_ptr + m_size);
 	}
 
 	template<typename T>
 	typename StackVector<T>::reverse_iterator StackVector<T>::rend() noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return reverse_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
 	typename StackVector<T>::const_reverse_iterator StackVector<T>::rend() const noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return reverse_iterator(m_ptr.Get());
 	}
 
 	template<typename T>
-- 
2.43.0


From 64926278a93ce6e8cc34bba27a165ed7e1e123e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 78/79] fix: copies of movable values whose content can be made
 from anything made it from the holder

---
 include/NazaraUtils/MovableValue.hpp | 9 +++++----
 include/NazaraUtils/MovableValue.inl | 8 ++++----
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.hpp b/include/NazaraUtils/MovableValue.hpp
index 1a53a5c..a6e23a8 100644
--- a/include/NazaraUtils/MovableValue.hpp
+++ b/include/NazaraUtils/MovableValue.hpp
@@ -7,6 +7,7 @@
 #ifndef NAZARAUTILS_MOVABLEVALUE_HPP
 #define NAZARAUTILS_MOVABLEVALUE_HPP
 
+#include <NazaraUtils/TypeTraits.hpp>
 #include <type_traits>
 
 namespace Nz
@@ -16,7 +17,7 @@ namespace Nz
 	{
 		public:
 			constexpr MovableLiteral();
-			template<typename U, typename = std::enable_if_t<std::is_constructible_v<T, U>>> constexpr MovableLiteral(U&& value);
+			template<typename U, typename = PreventHiddenCopyMove<MovableLiteral, U>, typename = std::enable_if_t<std::is_constructible_v<T, U>>> constexpr MovableLiteral(U&& value);
 			constexpr MovableLiteral(const MovableLiteral&) = default;
 			constexpr MovableLiteral(MovableLiteral&& val) noexcept;
 			~MovableLiteral() = default;
@@ -29,7 +30,7 @@ namespace Nz
 			constexpr operator T&&() &&;
 			constexpr operator const T&() const &;
 
-			template<typename U, typename = std::enable_if_t<std::is_assignable_v<T&, U>>> constexpr MovableLiteral& operator=(U&& value);
+			template<typename U, typename = PreventHiddenCopyMove<MovableLiteral, U>, typename = std::enable_if_t<std::is_assignable_v<T&, U>>> constexpr MovableLiteral& operator=(U&& value);
 			constexpr MovableLiteral& operator=(const MovableLiteral&) = default;
 			constexpr MovableLiteral& operator=(MovableLiteral&& ptr) noexcept;
 
@@ -42,7 +43,7 @@ namespace Nz
 	{
 		public:
 			constexpr MovableValue() = default;
-			template<typename U, typename = std::enable_if_t<std::is_constructible_v<T, U>>> constexpr MovableValue(U&& value);
+			template<typename U, typename = PreventHiddenCopyMove<MovableValue, U>, typename = std::enable_if_t<std::is_constructible_v<T, U>>> constexpr MovableValue(U&& value);
 			constexpr MovableValue(const MovableValue&) = default;
 			constexpr MovableValue(MovableValue&& val) noexcept;
 			~MovableValue() = default;
@@ -55,7 +56,7 @@ namespace Nz
 			constexpr operator T&&() &&;
 			constexpr operator const T&() const &;
 
-			template<typename U, typename = std::enable_if_t<std::is_assignable_v<T&, U>>> constexpr MovableValue& operator=(U&& value);
+			template<typename U, typename = PreventHiddenCopyMove<MovableValue, U>, typename = std::enable_if_t<std::is_assignable_v<T&, U>>> constexpr MovableValue& operator=(U&& value);
 			constexpr MovableValue& operator=(const MovableValue&) = default;
 			constexpr MovableValue& operator=(MovableValue&& val) noexcept;
 
diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index c84ec2f..5118bb2 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -13,7 +13,7 @@ namespace Nz
 	}
 
 	template<typename T, T DefaultValue>
-	template<typename U, typename>
+	template<typename U, typename, typename>
 	constexpr MovableLiteral<T, DefaultValue>::MovableLiteral(U&& value) :
 	m_value(std::forward<U>(value))
 	{
@@ -63,7 +63,7 @@ namespace Nz
 	}
 
 	template<typename T, T DefaultValue>
-	template<typename U, typename>
+	template<typename U, typename, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
 		m_value = std::forward<U>(value);
@@ -80,7 +80,7 @@ namespace Nz
 	/************************************************************************/ 
 
 	template<typename T>
-	template<typename U, typename>
+	template<typename U, typename, typename>
 	constexpr MovableValue<T>::MovableValue(U&& value) :
 	m_value(std::forward<U>(value))
 	{
@@ -129,7 +129,7 @@ namespace Nz
 	}
 
 	template<typename T>
-	template<typename U, typename>
+	template<typename U, typename, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
 		m_value = std::forward<U>(value);
-- 
2.43.0


From 608ede5eef507f108cb2fb91f2a0687606b824a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:20 +0000
Subject: [PATCH 79/79] fix: a result was built from its value as if it were
 another result, when the value is itself a result

---
 include/NazaraUtils/Result.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 930d6d7..d27d9e9 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -69,8 +69,8 @@ namespace Nz
 			template<typename T> constexpr Result(ResultError<T> error);
 			template<typename... Args> constexpr Result(ValueTag, Args&&... args);
 			template<typename... Args> constexpr Result(ErrorTag, Args&&... args);
-			template<typename V2, typename E2, typename = std::enable_if_t<std::is_convertible_v<V2, V> && std::is_convertible_v<E2, E>>> constexpr Result(const Result<V2, E2>& result);
-			template<typename V2, typename E2, typename = std::enable_if_t<std::is_convertible_v<V2, V> && std::is_convertible_v<E2, E>>> constexpr Result(Result<V2, E2>&& result);
+			template<typename V2, typename E2, typename = std::enable_if_t<!std::is_same_v<V, Result<V2, E2>> && std::is_convertible_v<V2, V> && std::is_convertible_v<E2, E>>> constexpr Result(const Result<V2, E2>& result);
+			template<typename V2, typename E2, typename = std::enable_if_t<!std::is_same_v<V, Result<V2, E2>> && std::is_convertible_v<V2, V> && std::is_convertible_v<E2, E>>> constexpr Result(Result<V2, E2>&& result);
 			constexpr Result(const Result&) = default;
 			constexpr Result(Result&&) = default;
 			~Result() = default;
-- 
2.43.0

