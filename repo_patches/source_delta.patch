From a4efd8230c4eb3a85b3657bfefdb1ec391bb0db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 01/37] fix: decimal negative zero compares equal to zero

---
 Awl/Decimal.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 6683be7..04d2718 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -188,7 +188,8 @@ namespace awl
                 return a.m_data.exp() == b.m_data.exp() && a.m_data.man() == b.m_data.man();
             }
             
-            return false;
+            //Zero has no sign.
+            return m_data.man() == 0 && other.m_data.man() == 0;
         }
 
         bool operator != (const decimal& other) const
@@ -574,6 +575,12 @@ namespace awl
                 return compare_positive(a, b, comp);
             }
 
+            //Zero has no sign.
+            if (a.m_data.man() == 0 && b.m_data.man() == 0)
+            {
+                return comp(0u, 0u);
+            }
+
             //1 < 0
 
             auto make_sign = [](const Data& data) -> uint8_t { return data.positive() ? 0 : 1; };
-- 
2.43.0


From f047351405448a4efd518427c7787959f91a4435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 02/37] fix: decimal addition and subtraction throw on overflow
 instead of truncating the mantissa

---
 Awl/Decimal.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 04d2718..c07d12a 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -127,6 +127,11 @@ namespace awl
 
         constexpr void set_mantissa(Int val)
         {
+            if (val > static_cast<Int>(max_mantissa()) || val < -static_cast<Int>(max_mantissa()))
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
             if (val >= 0)
             {
                 m_data.set_positive(true);
-- 
2.43.0


From 04c4fd2d25d65ca75b739a40550e5c2f862fdf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 03/37] fix: decimal multiply throws on overflow as documented

---
 Awl/Decimal.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index c07d12a..c707553 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -854,7 +854,19 @@ namespace awl
     template <typename UInt, uint8_t exp_len, template <typename, uint8_t> class DataTemplate>
     constexpr decimal<UInt, exp_len, DataTemplate> multiply(decimal<UInt, exp_len, DataTemplate> a, decimal<UInt, exp_len, DataTemplate> b)
     {
-        decimal<UInt, exp_len, DataTemplate> c(a.exponent() + b.exponent());
+        using Decimal = decimal<UInt, exp_len, DataTemplate>;
+
+        if (a.exponent() + b.exponent() > Decimal::max_exponent())
+        {
+            throw std::logic_error("Too many digits in a decimal.");
+        }
+
+        if (a.unsigned_mantissa() != 0 && b.unsigned_mantissa() > Decimal::max_mantissa() / a.unsigned_mantissa())
+        {
+            throw std::logic_error("Decimal overflow.");
+        }
+
+        Decimal c(a.exponent() + b.exponent());
 
         c.set_mantissa(a.mantissa() * b.mantissa());
 
-- 
2.43.0


From 42864373ada8cc17535cafe87eba14f324d4cefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 04/37] fix: decimal floor and ceil round negative values in
 the right direction

---
 Awl/Decimal.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index c707553..35e458f 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -375,13 +375,15 @@ namespace awl
 
         constexpr decimal floor(uint8_t digits) const
         {
-            return truncate(digits);
+            awl::decimal temp = *this;
+            temp.round_self(digits, negative());
+            return temp;
         }
 
         constexpr decimal ceil(uint8_t digits) const
         {
             awl::decimal temp = *this;
-            temp.ceil_self(digits);
+            temp.round_self(digits, positive());
             return temp;
         }
 
@@ -524,7 +526,7 @@ namespace awl
             }
         }
 
-        constexpr void ceil_self(uint8_t digits)
+        constexpr void round_self(uint8_t digits, bool away_from_zero)
         {
             if (digits < m_data.exp())
             {
@@ -534,7 +536,7 @@ namespace awl
 
                 UInt new_man = m_data.man() / denom;
 
-                if (m_data.man() % denom != 0)
+                if (away_from_zero && m_data.man() % denom != 0)
                 {
                     ++new_man;
                 }
-- 
2.43.0


From fa8816c2e0e2f6a6c21c29e57c40a57d173b1a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 05/37] fix: decimal parsing does not read past the end of an
 empty string

---
 Awl/Decimal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 35e458f..4da205f 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -698,7 +698,7 @@ namespace awl
         {
             typename string_view::const_iterator i = fixed_string.begin();
 
-            if (*i == '+' || *i == '-')
+            if (i != fixed_string.end() && (*i == '+' || *i == '-'))
             {
                 positive = *i == '+';
 
-- 
2.43.0


From 7df83acfddd678297f18d5cf058385e49c139e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 06/37] fix: decimal parsing does not lose more than 255 zeros
 after the point

---
 Awl/Decimal.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 4da205f..d94d2e8 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -782,7 +782,7 @@ namespace awl
     {
         uint8_t digit_count = 0;
 
-        uint8_t zero_count = 0;
+        size_t zero_count = 0;
 
         UInt val = 0;
 
@@ -820,7 +820,12 @@ namespace awl
                 else
                 {
                     //flush accumulated zeros
-                    for (uint8_t i = 0; i < zero_count; ++i)
+                    if (zero_count > max_exponent())
+                    {
+                        throw std::logic_error("Too many digits in a decimal.");
+                    }
+
+                    for (size_t i = 0; i < zero_count; ++i)
                     {
                         do_append(0);
                     }
-- 
2.43.0


From 34e5a951b9db8d051b0293840b618bd570621f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 07/37] fix: case-insensitive comparison of characters outside
 ASCII is defined

---
 Awl/String.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 7fd7ed5..333a75f 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -25,6 +25,8 @@
 #include <type_traits>
 #include <algorithm>
 #include <wchar.h>
+#include <cctype>
+#include <cwctype>
 #include <cassert>
 #include <iterator>
 #include <optional>
@@ -110,6 +112,17 @@ namespace awl
         }
     };
 
+    //std::tolower(int) is undefined for negative characters and for most of wide ones.
+    inline int CharToLower(char c)
+    {
+        return std::tolower(static_cast<unsigned char>(c));
+    }
+
+    inline std::wint_t CharToLower(wchar_t c)
+    {
+        return std::towlower(static_cast<std::wint_t>(c));
+    }
+
     template <typename Ch>
     struct CStringInsensitiveLess
     {
@@ -120,11 +133,12 @@ namespace awl
 
             while (*l != 0 && *r != 0)
             {
-                auto diff = std::tolower(*l++) - std::tolower(*r++);
+                const auto lc = CharToLower(*l++);
+                const auto rc = CharToLower(*r++);
 
-                if (diff != 0)
+                if (lc != rc)
                 {
-                    return diff < 0;
+                    return lc < rc;
                 }
             }
 
@@ -146,7 +160,7 @@ namespace awl
     {
         bool operator() (Ch c1, Ch c2) const
         {
-            return std::tolower(c1) == std::tolower(c2);
+            return CharToLower(c1) == CharToLower(c2);
         }
     };
 
-- 
2.43.0


From 847a5e5a4110d07b34382a0b758e5842846023c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 08/37] fix: 128-bit integers wider than the field width and
 the least negative one are printed exactly

---
 Awl/String.h | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/Awl/String.h b/Awl/String.h
index 333a75f..fa34b87 100644
--- a/Awl/String.h
+++ b/Awl/String.h
@@ -424,17 +424,6 @@ namespace awl
             }
         }
 
-        // There is always at least one digit.
-        if (out.width() > 1 && len > out.width())
-        {
-            const std::streamsize diff = len - out.width();
-            
-            for (std::streamsize i = 0; i < diff; ++i)
-            {
-                out << out.fill();
-            }
-        }
-
         constexpr const C zero_symbol = static_cast<C>('0');
 
         std::size_t length = static_cast<std::size_t>(len);
@@ -478,7 +467,7 @@ namespace awl
         {
             out << static_cast<C>('-');
 
-            return out << static_cast<__uint128_t>(-val);
+            return out << -static_cast<__uint128_t>(val);
         }
 
         return out << static_cast<__uint128_t>(val);
-- 
2.43.0


From 00460800c5688181236f35e76a21576c967e2bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 09/37] fix: bitmap initializer list supports enumerators above
 63

---
 Awl/BitMap.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/Awl/BitMap.h b/Awl/BitMap.h
index 9016d2d..3458f4e 100644
--- a/Awl/BitMap.h
+++ b/Awl/BitMap.h
@@ -30,12 +30,8 @@ namespace awl
 
         constexpr bitmap() = default;
 
-        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeLong(values))
+        constexpr bitmap(std::initializer_list<Enum> values) : m_bits(MakeBits(values))
         {
-            //for (Enum v : values)
-            //{
-            //    m_bits |= Enum2Bits(v);
-            //}
         }
 
         constexpr bitmap operator|(Enum value) const
@@ -187,6 +183,26 @@ namespace awl
             return bits;
         }
 
+        static constexpr BitSet MakeBits(std::initializer_list<Enum> values)
+        {
+            //The constructor of std::bitset sets only the first 64 bits.
+            if constexpr (N <= 64)
+            {
+                return BitSet(MakeLong(values));
+            }
+            else
+            {
+                BitSet bits;
+
+                for (Enum v : values)
+                {
+                    bits.set(Enum2Index(v));
+                }
+
+                return bits;
+            }
+        }
+
         static constexpr unsigned long long MakeLong(std::initializer_list<Enum> values)
         {
             unsigned long long val = 0ull;
-- 
2.43.0


From 3d20697b62f5c84a60105268a2f822b13eca389d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 10/37] fix: reflected member and enumerator names are split
 also when the commas are not followed by a space

---
 Awl/Reflection.h | 49 +++++++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/Awl/Reflection.h b/Awl/Reflection.h
index 7d00783..bdfd6cf 100644
--- a/Awl/Reflection.h
+++ b/Awl/Reflection.h
@@ -82,37 +82,44 @@ namespace awl
             template <class Accept>
             static void traverse(const char * va, Accept accept)
             {
-                const char * p_start = va;
-                bool eaten_separator = false;
-
+                // The space after a comma is optional: the preprocessor keeps
+                // the white space as it is written in the source.
                 const char * p = va;
-                while (*p != 0)
+
+                while (true)
                 {
-                    if (*p == ',' && *(p + 1) == ' ')
+                    while (*p == ' ')
                     {
-                        assert(p_start != nullptr);
-                        assert(p > p_start);
-                        accept(p_start, p - p_start);
-                        p_start = nullptr;
-                        eaten_separator = true;
                         ++p;
                     }
-                    else if (eaten_separator)
+
+                    //the list can be empty
+                    if (*p == 0)
                     {
-                        p_start = p;
-                        eaten_separator = false;
+                        return;
                     }
 
-                    ++p;
-                }
+                    const char * p_start = p;
 
-                assert(p_start != nullptr);
+                    while (*p != 0 && *p != ',')
+                    {
+                        ++p;
+                    }
 
-                //the list can be empty
-                if (p != p_start)
-                {
-                    assert(p > p_start);
-                    accept(p_start, p - p_start);
+                    const char * p_end = p;
+
+                    while (p_end != p_start && *(p_end - 1) == ' ')
+                    {
+                        --p_end;
+                    }
+
+                    assert(p_end > p_start);
+                    accept(p_start, p_end - p_start);
+
+                    if (*p == ',')
+                    {
+                        ++p;
+                    }
                 }
             }
 
-- 
2.43.0


From 951aff98afcf8957cf014f0522de3102951070c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 11/37] fix: checked access to a ring fails for the index equal
 to the size

---
 Awl/Ring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index fdc7391..c70d2e4 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -392,7 +392,7 @@ namespace awl
 
         void check_index(std::size_t index) const
         {
-            if (index > size())
+            if (index >= size())
             {
                 throw std::out_of_range("ring index is out of range");
             }
-- 
2.43.0


From b6db46336af5fd9b9584a8b33d6b797d92949364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 12/37] fix: default constructed and moved-from rings are empty
 and can be copied and cleared

---
 Awl/Ring.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index c70d2e4..b8737f6 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -176,8 +176,7 @@ namespace awl
         using reverse_iterator = std::reverse_iterator<iterator>;
         using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-        ring(Allocator alloc = {}) : m_alloc(alloc),
-            m_buf(nullptr)
+        ring(Allocator alloc = {}) : m_alloc(alloc)
         {
         }
 
@@ -271,8 +270,6 @@ namespace awl
 
         void clear()
         {
-            assert(m_buf != nullptr);
-
             while(!empty())
             {
                 pop_front();
@@ -541,13 +538,17 @@ namespace awl
 
                 m_alloc.deallocate(m_buf, capacity());
 
-                m_buf = nullptr;
+                release();
             }
         }
 
         void release()
         {
             m_buf = nullptr;
+            m_capacity = 0;
+
+            m_data = nullptr;
+            m_size = 0;
         }
 
         void attach(const ring & other)
@@ -561,6 +562,12 @@ namespace awl
 
         void copy(const ring & other)
         {
+            //There is nothing to copy from a default constructed or moved ring.
+            if (other.m_buf == nullptr)
+            {
+                return;
+            }
+
             m_capacity = other.m_capacity;
             m_buf = m_alloc.allocate(m_capacity);
 
@@ -575,11 +582,11 @@ namespace awl
 
         Allocator m_alloc;
 
-        T * m_buf;
-        std::size_t m_capacity;
+        T * m_buf = nullptr;
+        std::size_t m_capacity = 0;
 
-        T * m_data;
-        std::size_t m_size;
+        T * m_data = nullptr;
+        std::size_t m_size = 0;
 
         template <class E>
         friend class ring_iterator;
-- 
2.43.0


From 10a5c0b4a0ec9ea04f6b4cc5f746bcbeedd5921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:46 +0000
Subject: [PATCH 13/37] fix: a ring does not lose track of its elements when an
 element constructor throws or an own element is pushed

---
 Awl/Ring.h | 78 ++++++++++++++++++++++++++++++++++++------------------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/Awl/Ring.h b/Awl/Ring.h
index b8737f6..fd331f6 100644
--- a/Awl/Ring.h
+++ b/Awl/Ring.h
@@ -10,6 +10,8 @@
 #include <initializer_list>
 #include <iterator>
 #include <algorithm>
+#include <memory>
+#include <utility>
 #include <ranges>
 
 namespace awl
@@ -249,9 +251,22 @@ namespace awl
             {
                 min_size = std::min(cap, size());
 
-                for (size_type i = 0; i != min_size; ++i)
+                size_type i = 0;
+
+                try
+                {
+                    for (; i != min_size; ++i)
+                    {
+                        new (buf + i) T(std::move(operator[](size() - min_size + i)));
+                    }
+                }
+                catch (...)
                 {
-                    new (buf + i) T(std::move(operator[](size() - min_size + i)));
+                    std::destroy_n(buf, i);
+
+                    m_alloc.deallocate(buf, cap);
+
+                    throw;
                 }
 
                 free();
@@ -287,22 +302,22 @@ namespace awl
 
         void push_front(const value_type & val)
         {
-            new (allocate_prev()) T(val);
+            construct_prev(val);
         }
 
         void push_front(value_type && val)
         {
-            new (allocate_prev()) T(std::move(val));
+            construct_prev(std::move(val));
         }
 
         void push_back(const value_type & val)
         {
-            new (allocate_next()) T(val);
+            construct_next(val);
         }
 
         void push_back(value_type && val)
         {
-            new (allocate_next()) T(std::move(val));
+            construct_next(std::move(val));
         }
 
         void pop_front()
@@ -458,7 +473,6 @@ namespace awl
         }
 
         //The address where we write the next element.
-        //If the buffer is full it is equal to m_data.
         T * data_end() const
         {
             return address<T>(size());
@@ -492,42 +506,45 @@ namespace awl
             return p_prev;
         }
 
-        T * allocate_next()
+        template <class V>
+        void construct_next(V && val)
         {
-            T * const p_write = data_end();
-
             if (full())
             {
-                assert(m_data == p_write);
+                //The value can be the element to be discarded.
+                T temp(std::forward<V>(val));
 
-                m_data->~T();
+                pop_front();
 
-                m_data = next(m_data);
+                new (data_end()) T(std::move(temp));
             }
             else
             {
-                ++m_size;
+                new (data_end()) T(std::forward<V>(val));
             }
 
-            return p_write;
+            ++m_size;
         }
 
-        T * allocate_prev()
+        template <class V>
+        void construct_prev(V && val)
         {
-            const bool saved_full = full();
-            
-            m_data = prev(m_data);
-
-            if (saved_full)
+            if (full())
             {
-                m_data->~T();
+                T temp(std::forward<V>(val));
+
+                pop_back();
+
+                new (prev(m_data)) T(std::move(temp));
             }
             else
             {
-                ++m_size;
+                new (prev(m_data)) T(std::forward<V>(val));
             }
 
-            return m_data;
+            m_data = prev(m_data);
+
+            ++m_size;
         }
 
         void free()
@@ -574,9 +591,18 @@ namespace awl
             m_data = m_buf;
             m_size = 0;
 
-            for (const T & val : other)
+            try
+            {
+                for (const T & val : other)
+                {
+                    push_back(val);
+                }
+            }
+            catch (...)
             {
-                push_back(val);
+                free();
+
+                throw;
             }
         }
 
-- 
2.43.0


From b3045856216203d48f8ed919b3b4ab6e3bbaedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:18 +0000
Subject: [PATCH 14/37] fix: a hashing input stream delivers nothing after a
 corrupted block or a failed read

---
 Awl/Io/HashStream.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 26f98b4..8329478 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -51,10 +51,19 @@ namespace awl
             
             void PeekBuf()
             {
+                if (m_corrupted)
+                {
+                    //The position in the underlying stream is after the corrupted block.
+                    throw CorruptionException();
+                }
+
                 if (m_i == m_block.end())
                 {
                     m_block.resize(blockSize);
 
+                    //Nothing is delivered from the block until it is read and checked.
+                    m_i = m_block.end();
+
                     const size_t actually_read = m_in.Read(m_block.data(), blockSize);
 
                     if (actually_read == 0)
@@ -68,11 +77,9 @@ namespace awl
 
                         if (actually_read < Hash::size())
                         {
-                            throw CorruptionException();
+                            OnCorrupted();
                         }
 
-                        m_block.resize(actually_read);
-
                         typename Hash::value_type read_val;
 
                         auto hash_begin = m_block.begin() + actually_read - Hash::size();
@@ -86,7 +93,7 @@ namespace awl
 
                         if (calculated_val != read_val)
                         {
-                            throw CorruptionException();
+                            OnCorrupted();
                         }
 
                         m_block.resize(actually_read - Hash::size());
@@ -96,6 +103,13 @@ namespace awl
                 }
             }
 
+            void OnCorrupted()
+            {
+                m_corrupted = true;
+
+                throw CorruptionException();
+            }
+
             void FlushBuf(uint8_t * buffer, size_t & flushed_count, size_t count)
             {
                 assert(m_i <= m_block.end());
@@ -125,6 +139,8 @@ namespace awl
             std::vector<uint8_t> m_block;
 
             std::vector<uint8_t>::iterator m_i;
+
+            bool m_corrupted = false;
         };
 
         template <class Hash, class UnderlyingStream>
-- 
2.43.0


From 23069c9b1fc5fc3c5d1f4b71a0b9a500bb825eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 15/37] fix: a failure to write the last block of a hashing
 stream is reported instead of terminating the program

---
 Awl/Io/HashStream.h          | 26 ++++++++++++++++++++++----
 Awl/Io/HashingSerializable.h |  4 ++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/HashStream.h b/Awl/Io/HashStream.h
index 8329478..4fe5765 100644
--- a/Awl/Io/HashStream.h
+++ b/Awl/Io/HashStream.h
@@ -187,15 +187,21 @@ namespace awl
             {
             }
 
+            //The destructor can't report a failure, so call Flush() to be sure that the data is written.
             ~HashOutputStream()
             {
-                Flush();
+                try
+                {
+                    Flush();
+                }
+                catch (...)
+                {
+                }
             }
 
             void Write(const uint8_t * buffer, size_t count) override;
 
-        private:
-
+            //Writes the last incomplete block, so it should be called once when all the data is written.
             void Flush()
             {
                 if (!m_v.empty())
@@ -204,12 +210,24 @@ namespace awl
 
                     m_v.insert(m_v.end(), val.begin(), val.end());
 
-                    m_out.Write(m_v.data(), m_v.size());
+                    try
+                    {
+                        m_out.Write(m_v.data(), m_v.size());
+                    }
+                    catch (...)
+                    {
+                        //Do not write the block again.
+                        m_v.clear();
+
+                        throw;
+                    }
 
                     m_v.clear();
                 }
             }
 
+        private:
+
             Hash m_hash;
 
             UnderlyingStream& m_out;
diff --git a/Awl/Io/HashingSerializable.h b/Awl/Io/HashingSerializable.h
index ba2d78d..7f39872 100644
--- a/Awl/Io/HashingSerializable.h
+++ b/Awl/Io/HashingSerializable.h
@@ -52,6 +52,8 @@ namespace awl::io
             WriteHeader(out);
 
             m_val.Write(out);
+
+            out.Flush();
         }
 
     protected:
@@ -64,6 +66,8 @@ namespace awl::io
 
             // Write vector without leading 8 bytes containing its size.
             hashing_out.Write(v.data(), v.size());
+
+            hashing_out.Flush();
         }
 
         virtual bool ReadHeader(HashIStream&) { return true; }
-- 
2.43.0


From 311018f4e6460762ec1f96f5350e76b8dacabc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 16/37] fix: a save repeated after a failed one does not
 destroy the only valid copy of the settings

---
 Awl/Io/AtomicStorage.cpp | 12 +++++-------
 Awl/Io/AtomicStorage.h   | 30 ++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/Awl/Io/AtomicStorage.cpp b/Awl/Io/AtomicStorage.cpp
index 8663700..2eee029 100644
--- a/Awl/Io/AtomicStorage.cpp
+++ b/Awl/Io/AtomicStorage.cpp
@@ -18,11 +18,13 @@ bool AtomicStorage::Load(Value& val)
     {
         m_logger.warning(format() << _T("The settings have been loaded from backup file '") << m_backup.GetFileName() << "'.");
 
-        WriteToStream(m_s, val);
+        WriteMaster([&val](UniqueStream& s) { WriteToStream(s, val); });
     }
 
     ClearBackup();
 
+    m_masterValid = true;
+
     if (backup_success)
     {
         return true;
@@ -39,9 +41,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 {
     if (p_mutex == nullptr)
     {
-        WriteToStream(m_backup, val);
-
-        WriteToStream(m_s, val);
+        WriteBoth([&val](UniqueStream& s) { WriteToStream(s, val); });
     }
     else
     {
@@ -53,9 +53,7 @@ void AtomicStorage::Save(const Value& val, IMutex* p_mutex)
 
         lock.unlock();
 
-        WriteSnapshot(m_backup, snapshotable, v);
-
-        WriteSnapshot(m_s, snapshotable, v);
+        WriteBoth([&snapshotable, &v](UniqueStream& s) { WriteSnapshot(s, snapshotable, v); });
     }
     
     ClearBackup();
diff --git a/Awl/Io/AtomicStorage.h b/Awl/Io/AtomicStorage.h
index 7c40d48..174e64e 100644
--- a/Awl/Io/AtomicStorage.h
+++ b/Awl/Io/AtomicStorage.h
@@ -42,6 +42,7 @@ namespace awl::io
         {
             m_s = std::move(other.m_s);
             m_backup = std::move(other.m_backup);
+            m_masterValid = other.m_masterValid;
             return *this;
         }
 
@@ -84,6 +85,7 @@ namespace awl::io
         {
             m_s = {};
             m_backup = {};
+            m_masterValid = true;
         }
 
     private:
@@ -116,6 +118,31 @@ namespace awl::io
             WriteToStreamFunc(s, [&snapshotable, &v](UniqueStream& s) { snapshotable.WriteSnapshot(s, v); });
         }
 
+        template <class Func>
+        void WriteMaster(Func&& write)
+        {
+            m_masterValid = false;
+
+            write(m_s);
+
+            m_masterValid = true;
+        }
+
+        template <class Func>
+        void WriteBoth(Func&& write)
+        {
+            //If the previous save failed while writing the master file, the only valid value is in the backup file.
+            if (m_masterValid)
+            {
+                //A new value should not be mixed with a value that was not saved completely.
+                ClearBackup();
+
+                write(m_backup);
+            }
+
+            WriteMaster(write);
+        }
+
         bool LoadFromFile(Value& val, awl::io::UniqueStream& s, LogLevel level);
 
         void ClearBackup()
@@ -128,5 +155,8 @@ namespace awl::io
         Logger& m_logger;
         UniqueStream m_s;
         UniqueStream m_backup;
+
+        //False if the master file may be written partially, so that the backup file should not be changed.
+        bool m_masterValid = true;
     };
 }
-- 
2.43.0


From 0fff1c6106f0d0491086e8d1bc59a9d05d3b92b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 17/37] fix: a movable link assigned to itself stays in its
 list

---
 Awl/QuickLink.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Awl/QuickLink.h b/Awl/QuickLink.h
index 2708d76..2fb5176 100644
--- a/Awl/QuickLink.h
+++ b/Awl/QuickLink.h
@@ -171,8 +171,11 @@ namespace awl
 
         basic_movable_link& operator = (basic_movable_link&& other)
         {
-            Base::safe_exclude();
-            reinsert(std::move(other));
+            if (this != &other)
+            {
+                Base::safe_exclude();
+                reinsert(std::move(other));
+            }
             return *this;
         }
 
-- 
2.43.0


From cb2c60d64f8f3f9dd12e4d67cf4788bfcbd615cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 18/37] fix: a vector_set assigned to itself keeps its elements

---
 Awl/VectorSet.h | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index dcaaa47..cc40d10 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -277,22 +277,28 @@ namespace awl
 
         vector_set & operator = (const vector_set & other)
         {
-            clear();
-            //Should we copy the allocator?
-            m_comp = other.m_comp;
-            CopyElements(other);
+            if (this != &other)
+            {
+                clear();
+                //Should we copy the allocator?
+                m_comp = other.m_comp;
+                CopyElements(other);
+            }
             return *this;
         }
 
         vector_set & operator = (vector_set && other) noexcept
         {
-            clear();
-            m_comp = std::move(other.m_comp);
-            m_alloc = std::move(other.m_alloc);
-            m_nodeAlloc = std::move(other.m_nodeAlloc);
-            m_root = std::move(other.m_root);
-            m_list = std::move(other.m_list);
-            other.m_root = nullptr;
+            if (this != &other)
+            {
+                clear();
+                m_comp = std::move(other.m_comp);
+                m_alloc = std::move(other.m_alloc);
+                m_nodeAlloc = std::move(other.m_nodeAlloc);
+                m_root = std::move(other.m_root);
+                m_list = std::move(other.m_list);
+                other.m_root = nullptr;
+            }
             return *this;
         }
 
-- 
2.43.0


From 77ad30ebc6cfaaa877b90157091871dd8dddabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:38 +0000
Subject: [PATCH 19/37] fix: removing a node of a vector_set takes the color of
 the node that leaves its place

---
 Awl/VectorSet.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index cc40d10..8804517 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -1057,6 +1057,9 @@ namespace awl
             if (x != nullptr)
                 x->SetParent(y->parent);
 
+            //CopyFrom changes the color of y.
+            const Color removed_color = y->color;
+
             if (y->parent == nullptr)
                 m_root = x;
             else
@@ -1080,7 +1083,7 @@ namespace awl
                 //z.mKey = y.mKey;
             }
 
-            if (y->color == Color::Black && x != nullptr)
+            if (removed_color == Color::Black && x != nullptr)
                 BalanceAfterRemove(x);
 
             //Remove the node from the list.
-- 
2.43.0


From 4264d900338d919e70f3159499f43c6af4eee3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 20/37] fix: reading a collection, an optional or a pointer
 replaces the previous value

---
 Awl/Io/Rw/CollectionReadWrite.h | 6 ++++++
 Awl/Io/Rw/OptionalReadWrite.h   | 4 ++++
 Awl/Io/Rw/PointerReadWrite.h    | 8 ++++++++
 3 files changed, 18 insertions(+)

diff --git a/Awl/Io/Rw/CollectionReadWrite.h b/Awl/Io/Rw/CollectionReadWrite.h
index fef6fac..9c3be43 100644
--- a/Awl/Io/Rw/CollectionReadWrite.h
+++ b/Awl/Io/Rw/CollectionReadWrite.h
@@ -35,6 +35,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -53,6 +55,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::value_type elem;
@@ -72,6 +76,8 @@ namespace awl::io
 
         Read(s, count, ctx);
 
+        coll.clear();
+
         for (size_t i = 0; i < count; ++i)
         {
             typename Coll::key_type key;
diff --git a/Awl/Io/Rw/OptionalReadWrite.h b/Awl/Io/Rw/OptionalReadWrite.h
index e97631d..9d37424 100644
--- a/Awl/Io/Rw/OptionalReadWrite.h
+++ b/Awl/Io/Rw/OptionalReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             opt_val = std::move(val);
         }
+        else
+        {
+            opt_val.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
diff --git a/Awl/Io/Rw/PointerReadWrite.h b/Awl/Io/Rw/PointerReadWrite.h
index a703bf4..16703ac 100644
--- a/Awl/Io/Rw/PointerReadWrite.h
+++ b/Awl/Io/Rw/PointerReadWrite.h
@@ -28,6 +28,10 @@ namespace awl::io
 
             p = std::make_shared<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
@@ -60,6 +64,10 @@ namespace awl::io
 
             p = std::make_unique<T>(val);
         }
+        else
+        {
+            p.reset();
+        }
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From deee370f513b4714cc2212d74c2e4382ea96f92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 21/37] fix: a wrong variant or structure index in a stream is
 reported with an exception

---
 Awl/Io/Reader.h              | 7 ++++++-
 Awl/Io/Rw/VariantReadWrite.h | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 17b7079..3cbde0e 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -338,7 +338,12 @@ namespace awl::io
         typename Base::StructIndexType ReadStructIndex(InputStream & s) const
         {
             typename Base::StructIndexType index = Base::ReadStructIndex(s);
-            assert(index < oldPrototypes.size());
+
+            if (index >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
+
             return index;
         }
 
diff --git a/Awl/Io/Rw/VariantReadWrite.h b/Awl/Io/Rw/VariantReadWrite.h
index e476a30..f05ac8b 100644
--- a/Awl/Io/Rw/VariantReadWrite.h
+++ b/Awl/Io/Rw/VariantReadWrite.h
@@ -55,7 +55,11 @@ namespace awl::io
                 std::size_t index;
                 Read(in, index, ctx);
 
-                assert(index < std::variant_size_v<V>);
+                if (index >= std::variant_size_v<V>)
+                {
+                    throw CorruptionException();
+                }
+
 
                 vra[index]->ReadAlternative(in, v, ctx);
             }
-- 
2.43.0


From 85acd063dacc35a925d64f859897796e9ef5d6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 22/37] fix: a structure that was empty when it was written is
 not read with its new fields

---
 Awl/Io/Reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 3cbde0e..28c28ba 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -235,7 +235,7 @@ namespace awl::io
 
                 //An empty map means either an empty structure or equal prototypes
                 //(the prototypes of empty structures are equal).
-                if (name_map.empty())
+                if (name_map.empty() && oldPrototypes[old_struct_index].GetCount() == this->template FindNewPrototype<Struct>().GetCount())
                 {
                     //Read in the same way we write it.
                     ReadTuplizable(s, val);
-- 
2.43.0


From 2e4c828ef6e802bb1ad8584f6b2f1fa500db8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 23/37] fix: incompatible structures are reported each time
 they are read

---
 Awl/Io/Reader.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 28c28ba..59c6cc1 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -386,10 +386,8 @@ namespace awl::io
             
             std::optional<ProtoMap> & pm = protoMaps[old_struct_index];
 
-            pm = ProtoMap{};
-            assert(pm.has_value());
-            pm->newStructIndex = new_index;
-            pm->fieldMap = MakeProtoMap<Struct>(old_struct_index, new_index);
+            //If MakeProtoMap throws, the map remains absent.
+            pm = ProtoMap{ new_index, MakeProtoMap<Struct>(old_struct_index, new_index) };
 
             return pm->fieldMap;
         }
-- 
2.43.0


From 8cab99d59851c8ca9b5fbcb982381dc2981da470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:32 +0000
Subject: [PATCH 24/37] fix: a failed read of a non-movable value restores it
 whatever exception is thrown

---
 Awl/Io/VersionTolerantSerializable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/Io/VersionTolerantSerializable.h b/Awl/Io/VersionTolerantSerializable.h
index 26568c4..f8b5aaf 100644
--- a/Awl/Io/VersionTolerantSerializable.h
+++ b/Awl/Io/VersionTolerantSerializable.h
@@ -62,7 +62,7 @@ namespace awl::io
                     {
                         Read(in, m_val);
                     }
-                    catch (const IoException&)
+                    catch (...)
                     {
                         // Restore old value.
                         ReadSnapshot(v);
-- 
2.43.0


From 68b91706379013786ce86d8f76381de719d0e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 25/37] fix: a corrupted size does not make a reader allocate
 memory for data that is not there

---
 Awl/Io/Rw/ReadRaw.h         | 25 ++++++++++++++++++++++++
 Awl/Io/Rw/StringReadWrite.h |  7 +------
 Awl/Io/Rw/VectorReadWrite.h | 39 +++++++++++++++++++++++++++++++++++--
 3 files changed, 63 insertions(+), 8 deletions(-)

diff --git a/Awl/Io/Rw/ReadRaw.h b/Awl/Io/Rw/ReadRaw.h
index 227e9c7..afb04a0 100644
--- a/Awl/Io/Rw/ReadRaw.h
+++ b/Awl/Io/Rw/ReadRaw.h
@@ -13,6 +13,9 @@
 
 namespace awl::io
 {
+    //A size read from a stream may be corrupted, so memory is allocated by portions of this number of bytes as the data is read.
+    inline constexpr size_t maxReadPortion = 64 * 1024;
+
     //The benefit of having Stream template parameter in all Read/Write methods is that Stream::Read and Stream::Write functions
     //can be called as non-virtual and even as constexpr if the final Stream type is known at compile time.
 
@@ -29,4 +32,26 @@ namespace awl::io
             throw EndOfFileException(count, actually_read);
         }
     }
+
+    //Reads count elements of a string or of a vector of an arithmetic type.
+    template <class Stream, class Container>
+        requires sequential_input_stream<Stream>
+    void ReadPortions(Stream & s, Container & v, size_t count)
+    {
+        constexpr size_t elem_size = sizeof(typename Container::value_type);
+        constexpr size_t portion = maxReadPortion / elem_size;
+
+        for (size_t pos = 0; pos < count;)
+        {
+            const size_t n = count - pos < portion ? count - pos : portion;
+
+            v.resize(pos + n);
+
+            ReadRaw(s, reinterpret_cast<uint8_t *>(v.data() + pos), n * elem_size);
+
+            pos += n;
+        }
+
+        v.resize(count);
+    }
 }
diff --git a/Awl/Io/Rw/StringReadWrite.h b/Awl/Io/Rw/StringReadWrite.h
index f931d76..25c740f 100644
--- a/Awl/Io/Rw/StringReadWrite.h
+++ b/Awl/Io/Rw/StringReadWrite.h
@@ -49,12 +49,7 @@ namespace awl::io
 
         CheckStringLimit(ctx, string_length);
 
-        val.resize(len);
-
-        //There is non-const version of data() since C++ 17.
-        ReadRaw(s, reinterpret_cast<uint8_t *>(val.data()), string_length);
-
-        *(val.data() + len) = 0;
+        ReadPortions(s, val, len);
     }
 
     template<
diff --git a/Awl/Io/Rw/VectorReadWrite.h b/Awl/Io/Rw/VectorReadWrite.h
index 304667f..d38486c 100644
--- a/Awl/Io/Rw/VectorReadWrite.h
+++ b/Awl/Io/Rw/VectorReadWrite.h
@@ -99,9 +99,44 @@ namespace awl::io
 
         Read(s, size, ctx);
 
-        v.resize(size);
+        //The size may be corrupted, so we do not resize the vector before the elements are read.
+        if constexpr (std::is_same_v<T, bool>)
+        {
+            v.clear();
 
-        ReadVector(s, v, ctx);
+            while (v.size() < size)
+            {
+                std::array<bool, 8> portion;
+
+                ReadVector(s, portion, ctx);
+
+                for (size_t i = 0; i < portion.size() && v.size() < size; ++i)
+                {
+                    v.push_back(portion[i]);
+                }
+            }
+        }
+        else if constexpr (std::is_arithmetic_v<T>)
+        {
+            ReadPortions(s, v, size);
+        }
+        else
+        {
+            if (v.size() > size)
+            {
+                v.resize(size);
+            }
+
+            for (size_t i = 0; i < size; ++i)
+            {
+                if (i == v.size())
+                {
+                    v.emplace_back();
+                }
+
+                Read(s, v[i], ctx);
+            }
+        }
     }
 
     template <class Stream, class T, class Allocator = std::allocator<T>, class Context = FakeContext>
-- 
2.43.0


From 7158cf6da3e2c5b6d4c44a821c8a62f6dc8e8078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:10 +0000
Subject: [PATCH 26/37] fix: skipping a corrupted structure does not exhaust
 the stack

---
 Awl/Io/Reader.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index 59c6cc1..d679153 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -289,7 +289,7 @@ namespace awl::io
             }
         }
 
-        void SkipField(InputStream & s, Field old_field) const
+        void SkipField(InputStream & s, Field old_field, size_t depth = 0) const
         {
             if (old_field.type != Field::NoType)
             {
@@ -300,12 +300,18 @@ namespace awl::io
             else
             {
                 //The common routine for skipping structures.
-                SkipStruct(s);
+                SkipStruct(s, depth);
             }
         }
 
-        void SkipStruct(InputStream & s) const
+        void SkipStruct(InputStream & s, size_t depth = 0) const
         {
+            //A structure does not contain itself.
+            if (depth >= oldPrototypes.size())
+            {
+                throw CorruptionException();
+            }
+
             typename Base::StructIndexType old_struct_index = ReadStructIndex(s);
             const DetachedPrototype & old_proto = oldPrototypes[old_struct_index];
 
@@ -313,7 +319,7 @@ namespace awl::io
             {
                 const auto old_field = old_proto.GetField(old_index);
 
-                SkipField(s, old_field);
+                SkipField(s, old_field, depth + 1);
             }
         }
 
-- 
2.43.0


From 3ee545f54496c9c23c8dd4d4cc7a2940f044c63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 27/37] fix: reading a wrong enum index does not store it in
 the target

---
 Awl/Io/Rw/EnumReadWrite.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Awl/Io/Rw/EnumReadWrite.h b/Awl/Io/Rw/EnumReadWrite.h
index b0f4cc4..fad2e20 100644
--- a/Awl/Io/Rw/EnumReadWrite.h
+++ b/Awl/Io/Rw/EnumReadWrite.h
@@ -66,9 +66,13 @@ namespace awl::io
         requires (sequential_input_stream<Stream> && is_sequential_enum<T>)
     void Read(Stream& s, T& val, const Context& ctx = {})
     {
-        ReadEnum(s, val, ctx);
+        T new_val;
 
-        ValidateEnum(val);
+        ReadEnum(s, new_val, ctx);
+
+        ValidateEnum(new_val);
+
+        val = new_val;
     }
 
     template <class Stream, typename T, class Context = FakeContext>
-- 
2.43.0


From 6a365d031a218b53a2ce3a5b27786fe46efffa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:45 +0000
Subject: [PATCH 28/37] fix: a removed collection of structures is skipped by
 the structure that was written

---
 Awl/Io/Reader.h | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/Awl/Io/Reader.h b/Awl/Io/Reader.h
index d679153..362a40d 100644
--- a/Awl/Io/Reader.h
+++ b/Awl/Io/Reader.h
@@ -61,6 +61,33 @@ namespace awl::io
             virtual void SkipField(const Reader & context, InputStream & in) const = 0;
         };
 
+        //The names of the types of all collections of structures are equal,
+        //so Field can be a collection of other structures than the skipped one.
+        struct SkipContext
+        {
+            template <class T>
+            void ReadV(InputStream & in, T & val) const
+            {
+                if constexpr (is_reflectable_v<T>)
+                {
+                    reader.SkipStruct(in);
+                }
+                else if constexpr (is_tuplizable_v<T>)
+                {
+                    for_each(object_as_tuple(val), [this, &in](auto & field_val)
+                    {
+                        this->ReadV(in, field_val);
+                    });
+                }
+                else
+                {
+                    Read(in, val, *this);
+                }
+            }
+
+            const Reader & reader;
+        };
+
         template <class Field>
         class FieldSkipperImpl : public FieldSkipper
         {
@@ -70,7 +97,7 @@ namespace awl::io
             {
                 // It is the only place where Field type is required to be default constructable.
                 Field val;
-                context.ReadV(in, val);
+                SkipContext{ context }.ReadV(in, val);
             }
         };
 
-- 
2.43.0


From fccacff3bcc525a2caeee7e91fbf2ab58d0c3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:52 +0000
Subject: [PATCH 29/37] fix: an update that cannot be copied into the queue
 does not leak or lose a message

---
 Awl/UpdateQueue.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/Awl/UpdateQueue.h b/Awl/UpdateQueue.h
index cb1b6bb..1e43598 100644
--- a/Awl/UpdateQueue.h
+++ b/Awl/UpdateQueue.h
@@ -65,20 +65,17 @@ namespace awl
         {
             std::lock_guard<std::recursive_mutex> lock(queueMutex);
 
-            Message * p_message = nullptr;
-
+            //copying the function can throw, so the message should not leave its list before that
             if (freeBlocks.empty())
             {
-                p_message = new Message(func);
+                freeBlocks.push_back(new Message(func));
             }
             else
             {
-                p_message = freeBlocks.pop_front();
+                freeBlocks.front()->Func = func;
             }
 
-            p_message->Func = func;
-
-            pendingMessages.push_back(p_message);
+            pendingMessages.push_back(freeBlocks.pop_front());
         }
 
         //called by render thread to apply changes queued by UI thread
-- 
2.43.0


From ae025c8dd0a95510d4512525432a9a23dfffd311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 30/37] fix: a unique_ptr assigned to itself or from the object
 it owns does not delete an object twice

---
 Awl/UniquePtr.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Awl/UniquePtr.h b/Awl/UniquePtr.h
index 03bda6d..386b25a 100644
--- a/Awl/UniquePtr.h
+++ b/Awl/UniquePtr.h
@@ -65,9 +65,8 @@ namespace awl
 
         constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
         {
-            reset(other.m_p);
-
-            other.m_p = nullptr;
+            //other can be this or can be owned by the object that is being destroyed
+            reset(other.release());
 
             return *this;
         }
-- 
2.43.0


From bdb6bab1b2d07a651de39b0fe5ce250667f03ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 31/37] fix: a moved scope_guard neither runs a released action
 nor loses the action of its target

---
 Awl/ScopeGuard.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/Awl/ScopeGuard.h b/Awl/ScopeGuard.h
index 58c460f..b060269 100644
--- a/Awl/ScopeGuard.h
+++ b/Awl/ScopeGuard.h
@@ -23,15 +23,23 @@ namespace awl
 
         scope_guard & operator = (const scope_guard &) = delete;
 
-        scope_guard(scope_guard && other) : free(std::move(other.free))
+        scope_guard(scope_guard && other) : free(std::move(other.free)), engaged(std::exchange(other.engaged, false))
         {
-            other.engaged = false;
         }
 
         scope_guard & operator = (scope_guard && other)
         {
-            free = std::move(other.free);
-            other.engaged = false;
+            if (this != &other)
+            {
+                if (std::exchange(engaged, false))
+                {
+                    free();
+                }
+
+                free = std::move(other.free);
+                engaged = std::exchange(other.engaged, false);
+            }
+
             return *this;
         }
 
-- 
2.43.0


From 3725f91386b1060c4224900d78ef7ecd02c6906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 32/37] fix: an object pool does not hand out an object that is
 being finalized

---
 Awl/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Awl/ObjectPool.h b/Awl/ObjectPool.h
index 23c7dda..1dbf319 100644
--- a/Awl/ObjectPool.h
+++ b/Awl/ObjectPool.h
@@ -69,8 +69,9 @@ namespace awl
             {
                 p_this->m_used.erase(p);
                 //p->pooled_object::exclude();
-                p_this->m_free.push_back(p);
                 p->Finalize();
+                //an object that is being finalized should not be used again
+                p_this->m_free.push_back(p);
             }
         };
 
-- 
2.43.0


From d2551d360f31178df86501435ef5aaf0857249aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 33/37] fix: an observable or an observable_set assigned to
 itself keeps its observers

---
 Awl/Observable.h    |  8 ++++++--
 Awl/ObservableSet.h | 13 ++++++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/Awl/Observable.h b/Awl/Observable.h
index 7b1448f..21d68da 100644
--- a/Awl/Observable.h
+++ b/Awl/Observable.h
@@ -76,8 +76,12 @@ namespace awl
 
         Observable& operator = (Observable&& other) noexcept
         {
-            ClearObservers();
-            Observers = std::move(other.Observers);
+            if (this != &other)
+            {
+                ClearObservers();
+                Observers = std::move(other.Observers);
+            }
+
             return *this;
         }
 
diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index 830b003..44ab281 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -78,13 +78,16 @@ namespace awl
         //so with move assignment one set becomes another set with its content and subscribers.
         observable_set& operator = (observable_set&& other) noexcept
         {
-            if (!m_set.empty())
+            if (this != &other)
             {
-                NotifyClearing();
-            }
+                if (!m_set.empty())
+                {
+                    NotifyClearing();
+                }
 
-            m_set = std::move(other.m_set);
-            m_observable = std::move(other.m_observable);
+                m_set = std::move(other.m_set);
+                m_observable = std::move(other.m_observable);
+            }
 
             return *this;
         }
-- 
2.43.0


From b345ef8895bc4951bc55b8f7118dd31c68685059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:19 +0000
Subject: [PATCH 34/37] fix: observable_set::emplace constructs the element
 from its arguments

---
 Awl/ObservableSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Awl/ObservableSet.h b/Awl/ObservableSet.h
index 44ab281..7c00016 100644
--- a/Awl/ObservableSet.h
+++ b/Awl/ObservableSet.h
@@ -160,7 +160,7 @@ namespace awl
         template <class... Args>
         std::pair<iterator, bool> emplace(Args&&... args)
         {
-            const std::pair<iterator, bool> result = m_set.insert(std::forward<Args>(args) ...);
+            const std::pair<iterator, bool> result = m_set.emplace(std::forward<Args>(args) ...);
             NotifyAdded(result);
             return result;
         }
-- 
2.43.0


From 81924b4131d64f980e0e9a2e68321d35f17931f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:24 +0000
Subject: [PATCH 35/37] fix: a vector_set does not leak a node whose element
 cannot be constructed, and frees all nodes with its allocator

---
 Awl/VectorSet.h | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/Awl/VectorSet.h b/Awl/VectorSet.h
index 8804517..cd7d491 100644
--- a/Awl/VectorSet.h
+++ b/Awl/VectorSet.h
@@ -166,25 +166,21 @@ namespace awl
 
         using NodeAllocator = typename std::allocator_traits<Allocator>::template rebind_alloc<Node>;
 
-        Node * CreateNode(const T & val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(val);
-            return node;
-        }
-
-        Node * CreateNode(T && val)
-        {
-            Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::move(val));
-            return node;
-        }
-
         template <class... Args>
         Node * CreateNode(Args&&... args)
         {
             Node * node = m_nodeAlloc.allocate(1);
-            new (node) Node(std::forward<Args>(args) ...);
+
+            try
+            {
+                new (node) Node(std::forward<Args>(args) ...);
+            }
+            catch (...)
+            {
+                m_nodeAlloc.deallocate(node, 1);
+                throw;
+            }
+
             return node;
         }
 
@@ -228,7 +224,8 @@ namespace awl
         {
         }
 
-        vector_set(const vector_set & other) : m_comp(other.m_comp), m_alloc(other.m_alloc), m_nodeAlloc(other.m_nodeAlloc)
+        //The destructor frees the elements if copying one of them fails.
+        vector_set(const vector_set & other) : vector_set(other.m_comp, other.m_alloc)
         {
             CopyElements(other);
         }
@@ -239,7 +236,7 @@ namespace awl
             other.m_root = nullptr;
         }
 
-        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : m_comp(comp), m_alloc(alloc)
+        vector_set(std::initializer_list<value_type> init, const Compare& comp = Compare(), const Allocator& alloc = Allocator()) : vector_set(comp, alloc)
         {
             //It is not clear how to move the elemetns from std::initializer_list,
             //see https://stackoverflow.com/questions/8193102/initializer-list-and-move-semantics
@@ -265,7 +262,7 @@ namespace awl
         }
 
         template <class InputIt>
-        vector_set(InputIt first, InputIt last, const Allocator& alloc = Allocator()) :
+        vector_set(InputIt first, InputIt last, const Allocator& alloc) :
             vector_set(first, last, Compare(), alloc)
         {
         }
@@ -360,8 +357,8 @@ namespace awl
         std::pair<iterator, bool> emplace(Args&&... args)
         {
             Node * parent;
-            //TODO: It is probably a bug. We probably need a deleter here.
-            std::unique_ptr<Node> val_node(CreateNode(std::forward<Args>(args) ...));
+            auto deleter = [this](Node * p) { DestroyNode(p); };
+            std::unique_ptr<Node, decltype(deleter)> val_node(CreateNode(std::forward<Args>(args) ...), deleter);
             Node * node = FindNodeByKey(val_node->value, &parent);
             const bool exists = node != nullptr;
 
-- 
2.43.0


From c3d019085e5be7a08a233999fb263a9d903f4797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 36/37] fix: making a decimal of a number that does not fit
 throws instead of converting it with undefined behaviour

---
 Awl/Decimal.h | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index d94d2e8..982084a 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -178,7 +178,7 @@ namespace awl
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
             //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_mantissa(static_cast<Int>(val * static_cast<double>(denominator())));
+            set_scaled(val * static_cast<double>(denominator()));
 
             return *this;
         }
@@ -412,7 +412,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::llround(val * static_cast<double>(d.denominator()))));
+            d.set_scaled(std::round(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -429,7 +429,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::ceil(val * static_cast<double>(d.denominator()))));
+            d.set_scaled(std::ceil(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -446,7 +446,7 @@ namespace awl
         {
             decimal d(digits);
 
-            d.set_mantissa(static_cast<Int>(std::floor(val * static_cast<double>(d.denominator()))));
+            d.set_scaled(std::floor(val * static_cast<double>(d.denominator())));
 
             return d;
         }
@@ -466,6 +466,21 @@ namespace awl
 
     private:
 
+        //A conversion of a floating point value that does not fit into Int is undefined.
+        template <class Float>
+        constexpr void set_scaled(Float val)
+        {
+            const Float bound = static_cast<Float>(max_mantissa()) + 1;
+
+            //NaN does not satisfy this condition.
+            if (!(val > -bound && val < bound))
+            {
+                throw std::logic_error("Decimal overflow.");
+            }
+
+            set_mantissa(static_cast<Int>(val));
+        }
+
         //If check==false losing precision (trimming) is allowed.
         constexpr void rescale_self(uint8_t digits, bool check = true)
         {
-- 
2.43.0


From 65a0395e5c0e4efe8a0882699c12022966896ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:59 +0000
Subject: [PATCH 37/37] fix: decimals made of integers, and integers made of
 decimals, do not lose digits in double

---
 Awl/Decimal.h | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/Awl/Decimal.h b/Awl/Decimal.h
index 982084a..67b0d86 100644
--- a/Awl/Decimal.h
+++ b/Awl/Decimal.h
@@ -92,7 +92,15 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, Float> cast() const
         {
-            return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                //The mantissa may be wider than the result and may have more digits than double.
+                return static_cast<Float>(mantissa() / static_cast<Int>(denominator()));
+            }
+            else
+            {
+                return static_cast<Float>(static_cast<Float>(mantissa()) / static_cast<double>(denominator()));
+            }
         }
 
         //IEEE 754 double stores 2^53 without losing precision that is 15 decimal digits,
@@ -177,8 +185,27 @@ namespace awl
         template <class Float>
         constexpr std::enable_if_t<std::is_arithmetic_v<Float>, decimal&> operator = (Float val)
         {
-            //We do not round the floating point value here so abs(decimal) < abs(val).
-            set_scaled(val * static_cast<double>(denominator()));
+            if constexpr (std::is_integral_v<Float>)
+            {
+                const Int man = static_cast<Int>(val);
+
+                if (static_cast<Float>(man) != val || (man < 0) != (val < 0))
+                {
+                    throw std::logic_error("Decimal overflow.");
+                }
+
+                //An integer is not converted to double, because it may have more digits.
+                decimal temp(man, 0);
+
+                temp.extend_self(exponent());
+
+                *this = temp;
+            }
+            else
+            {
+                //We do not round the floating point value here so abs(decimal) < abs(val).
+                set_scaled(val * static_cast<double>(denominator()));
+            }
 
             return *this;
         }
-- 
2.43.0

