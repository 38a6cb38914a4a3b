From af2a19abad3f4bf63e54317e27f35c07e2780c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:42 +0000
Subject: [PATCH 001/140] fix: copy_backward_fast copied past a short range and
 misplaced the tail after the dword loop

---
 ualgobase.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index 9561e6f..efa43c7 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -141,7 +141,7 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
     prefetch (result, 1, 0);
     size_t nBytes (distance (first, last));
     movsb_dir_down();
-    size_t nHeadBytes = uintptr_t(last) % 4;
+    size_t nHeadBytes = min (size_t(uintptr_t(last) % 4), nBytes);
     advance (last, -1);
     advance (result, -1);
     movsb (last, nHeadBytes, result);
@@ -151,6 +151,8 @@ void copy_backward_fast (const void* first, const void* last, void* result) noex
 	advance (last, -3);
 	advance (result, -3);
 	movsd (last, nMiddleBlocks, result);
+	advance (last, 3);
+	advance (result, 3);
 	nBytes %= 4;
     }
     movsb (last, nBytes, result);
-- 
2.43.0


From db20fc006a8682bfdae4cd627dbcf0ef72461f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 002/140] fix: memblock::reserve read one byte past the end of
 a linked block

---
 memblock.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a90cc68..15d2ce9 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -88,8 +88,12 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-    if (!oldBlock & (cdata() != nullptr))
-	copy_n (cdata(), min (size() + 1, newSize), newBlock);
+    if (!oldBlock & (cdata() != nullptr)) {
+	const size_type nCopied = min (size(), newSize);
+	copy_n (cdata(), nCopied, newBlock);
+	if (nCopied < newSize)
+	    newBlock[nCopied] = 0;	// keeps a linked string terminated
+    }
     link (newBlock, size());
     _capacity = newSize;
 }
-- 
2.43.0


From 085039cacfe495cb4b6d3f8f95a9f2a0a7e8a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 003/140] fix: memblock::reserve above 2G shrank the request to
 a truncated power of two

---
 memblock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index 15d2ce9..afd6371 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -84,7 +84,7 @@ void memblock::reserve (size_type newSize, bool bExact)
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
     if (!bExact)
-	newSize = alignedSize;
+	newSize = max (newSize, alignedSize);	// NextPow2 is 32 bit
     pointer newBlock = static_cast<pointer> (realloc (oldBlock, newSize));
     if (!newBlock)
 	throw bad_alloc (newSize);
-- 
2.43.0


From 5e01dc4ee3308a8105c0f93da86fa5305ee7ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 004/140] fix: memblock::reserve below the size of a linked
 block left size past the allocation

---
 memblock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memblock.cc b/memblock.cc
index afd6371..a6ac62c 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -79,7 +79,7 @@ void memblock::assign (const void* p, size_type n)
 ///
 void memblock::reserve (size_type newSize, bool bExact)
 {
-    if ((newSize += minimumFreeCapacity()) <= _capacity)
+    if ((newSize = max (newSize, size()) + minimumFreeCapacity()) <= _capacity)
 	return;
     pointer oldBlock (is_linked() ? nullptr : data());
     const size_t alignedSize (NextPow2 (newSize));
-- 
2.43.0


From cc5a6b4a13df7eb923ded862fdd5ac7d43ce5048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 005/140] fix: vector::operator== compared raw bytes instead of
 elements

---
 uvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uvector.h b/uvector.h
index 4e33096..1180148 100644
--- a/uvector.h
+++ b/uvector.h
@@ -43,7 +43,7 @@ public:
 				vector (const_iterator i1, const_iterator i2);
     inline			~vector (void) noexcept;
     inline const vector&	operator= (const vector& v);
-    inline bool			operator== (const vector& v) const	{ return _data == v._data; }
+    inline bool			operator== (const vector& v) const	{ return size() == v.size() && equal (begin(), end(), v.begin()); }
     inline			operator cmemlink (void) const	{ return cmemlink (_data); }
     inline			operator cmemlink (void)	{ return cmemlink (_data); }
     inline			operator memlink (void)		{ return memlink (_data); }
-- 
2.43.0


From dc3696a05efb65ba23c1fb17eb6f9bbc3db0eb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 006/140] fix: string::insert (pos, string) inserted as many
 copies as the string has characters

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index c13eac2..0123fc9 100644
--- a/ustring.h
+++ b/ustring.h
@@ -157,7 +157,7 @@ public:
     inline string&		insert (pos_type ip, size_type n, value_type c)				{ insert (iat(ip), n, c); return *this; }
     inline string&		insert (pos_type ip, const_pointer s)					{ insert (iat(ip), s, s + strlen(s)); return *this; }
     inline string&		insert (pos_type ip, const_pointer s, size_type nlen)			{ insert (iat(ip), s, s + nlen); return *this; }
-    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.c_str(), s.size()); return *this; }
+    inline string&		insert (pos_type ip, const string& s)					{ insert (iat(ip), s.begin(), s.end()); return *this; }
     inline string&		insert (pos_type ip, const string& s, size_type sp, size_type slen)	{ insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }
     string&			insert (pos_type ip, size_type n, wvalue_type c);
     string&			insert (pos_type ip, const_wpointer first, const_wpointer last, size_type n = 1);
-- 
2.43.0


From fec8cf5c4d2199762a6077e4378f4d95163d389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 007/140] fix: shrink_to_fit cut off the terminator of a string

---
 memblock.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/memblock.cc b/memblock.cc
index a6ac62c..14546f8 100644
--- a/memblock.cc
+++ b/memblock.cc
@@ -103,10 +103,11 @@ void memblock::shrink_to_fit (void)
 {
     if (is_linked())
 	return;
-    pointer newBlock = static_cast<pointer> (realloc (begin(), size()));
-    if (!newBlock && size())
-	throw bad_alloc (size());
-    _capacity = size();
+    const size_type newSize (size() + minimumFreeCapacity());
+    pointer newBlock = static_cast<pointer> (realloc (begin(), newSize));
+    if (!newBlock && newSize)
+	throw bad_alloc (newSize);
+    _capacity = newSize;
     memlink::relink (newBlock, size());
 }
 
-- 
2.43.0


From 5bfcb31e6757c614486788b34a4ab0ae353fb0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 008/140] fix: string move constructor left the source with a
 null c_str()

---
 ustring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.h b/ustring.h
index 0123fc9..e5bf816 100644
--- a/ustring.h
+++ b/ustring.h
@@ -218,7 +218,7 @@ public:
     static hashvalue_t		hash (const char* f1, const char* l1) noexcept;
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    inline			string (string&& v)		: memblock (move(v)) {}
+    inline			string (string&& v)		: string() { swap (v); }
     inline			string (initlist_t v)		: memblock() { assign (v.begin(), v.size()); }
     inline string&		assign (string&& v)		{ swap (v); return *this; }
     inline string&		assign (initlist_t v)		{ return assign (v.begin(), v.size()); }
-- 
2.43.0


From c849410d2e99cf0e33b5b0f5dfe6676b1d5728a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 009/140] fix: string::replace with text of the same length
 wrote into linked memory

---
 ustring.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index 261e47d..eb14624 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -230,6 +230,11 @@ string& string::replace (const_iterator first, const_iterator last, const_pointe
 	rp = memblock::erase (rp, bte - bti);
     else if (bte < bti)
 	rp = memblock::insert (rp, bti - bte);
+    else {
+	const uoff_t ro = distance (memblock::const_iterator(begin()), rp);
+	reserve (size());	// copy-on-write
+	rp = memblock::iat (ro);
+    }
     fill (rp, i1, distance(i1, i2), n);
     *end() = 0;
     return *this;
-- 
2.43.0


From c42e222dfc3152662cf93480446e422ba96c3173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 010/140] fix: string::vformat looped forever on an empty
 result in an unallocated string

---
 ustring.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ustring.cc b/ustring.cc
index eb14624..cabcab2 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -337,7 +337,7 @@ int string::vformat (const char* fmt, va_list args)
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
 	resize (rv);
-    } while (rv >= wcap);
+    } while (rv && rv >= wcap);
     return rv;
 }
 
-- 
2.43.0


From 9338a151e2d990af7f06a526fc18988cea362d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 011/140] fix: backward searches of an empty string read
 outside of it

---
 ustring.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index cabcab2..baaed70 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -267,7 +267,7 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of character \p c before \p pos.
 string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; --i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (at(i) == c)
 	    return i;
     return npos;
@@ -307,7 +307,7 @@ string::pos_type string::find_first_not_of (const string& s, pos_type pos) const
 /// Returns the offset of the last occurence of one of characters in \p s of size \p n before \p pos.
 string::pos_type string::find_last_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(size_type(pos),size()-1); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) != npos)
 	    return i;
     return npos;
@@ -316,7 +316,7 @@ string::pos_type string::find_last_of (const string& s, pos_type pos) const noex
 /// Returns the offset of the last occurence of one of characters not in \p s of size \p n before \p pos.
 string::pos_type string::find_last_not_of (const string& s, pos_type pos) const noexcept
 {
-    for (int i = min(pos,pos_type(size()-1)); i >= 0; -- i)
+    for (size_type i = pos < size() ? pos+1 : size(); i-- > 0;)
 	if (s.find (at(i)) == npos)
 	    return i;
     return npos;
-- 
2.43.0


From 2b4ce831dd1ba1b463d45afb4defb6e419395c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 012/140] fix: string::rfind missed a substring at offset 0 or
 1

---
 ustring.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index baaed70..c40fd38 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -276,14 +276,10 @@ string::pos_type string::rfind (value_type c, pos_type pos) const noexcept
 /// Returns the offset of the last occurence of substring \p s of size \p n before \p pos.
 string::pos_type string::rfind (const string& s, pos_type pos) const noexcept
 {
-    const_iterator d = iat(pos) - 1;
-    const_iterator sp = begin() + s.size() - 1;
-    const_iterator m = s.end() - 1;
-    for (long int i = 0; d > sp && size_type(i) < s.size(); -- d)
-	for (i = 0; size_type(i) < s.size(); ++ i)
-	    if (m[-i] != d[-i])
-		break;
-    return d > sp ? pos_type (distance (begin(), d + 2 - s.size())) : npos;
+    for (size_type i = min(size_type(pos),size()); i >= s.size(); --i)
+	if (0 == memcmp (begin() + i - s.size(), s.begin(), s.size()))
+	    return i - s.size();
+    return npos;
 }
 
 /// Returns the offset of the first occurence of one of characters in \p s of size \p n after \p pos.
-- 
2.43.0


From 50e8bfdc4068c65f02e93c72669cc6d6d056000a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 013/140] fix: set::insert (hint, value&&) did not compile

---
 uset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uset.h b/uset.h
index 51220d4..41b3c4b 100644
--- a/uset.h
+++ b/uset.h
@@ -73,7 +73,7 @@ public:
     inline			set (initlist_t v)			: base_class() { insert (v.begin(), v.end()); }
     inline set&			operator= (set&& v)			{ base_class::operator= (move(v)); return *this; }
     insertrv_t			insert (T&& v);
-    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)); }
+    inline iterator		insert (const_iterator, T&& v)		{ return insert (move(v)).first; }
     inline void			insert (initlist_t v)			{ insert (v.begin(), v.end()); }
     template <typename... Args>
     inline insertrv_t		emplace (Args&&... args)		{ return insert (T(forward<Args>(args)...)); }
-- 
2.43.0


From 0ac23d5f0af42fe934e4b09dcc494854194668c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:59 +0000
Subject: [PATCH 014/140] fix: set and multiset find compared with operator==
 instead of the ordering

---
 umultiset.h | 2 +-
 uset.h      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/umultiset.h b/umultiset.h
index b8e0272..1923d2f 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -48,7 +48,7 @@ public:
     inline Comp			value_comp (void) const			{ return Comp(); }
     inline Comp			key_comp (void) const			{ return value_comp(); }
     inline void			assign (const_iterator i1, const_iterator i2)	{ clear(); insert (i1, i2); }
-    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const		{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
diff --git a/uset.h b/uset.h
index 41b3c4b..666e7cb 100644
--- a/uset.h
+++ b/uset.h
@@ -46,7 +46,7 @@ public:
     inline iterator		end (void)		{ return base_class::end(); }
     inline const_iterator	end (void) const	{ return base_class::end(); }
     inline const_iterator	cend (void) const	{ return base_class::cend(); }
-    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && *i == v) ? i : end(); }
+    inline const_iterator	find (const_reference v) const	{ const_iterator i = ::ustl::lower_bound (begin(), end(), v, Comp()); return (i != end() && !Comp()(v,*i)) ? i : end(); }
     inline iterator		find (const_reference v)	{ return const_cast<iterator>(const_cast<rcself_t>(*this).find (v)); }
     inline const_iterator	lower_bound (const_reference v) const	{ return ::ustl::lower_bound (begin(), end(), v, Comp()); }
     inline iterator		lower_bound (const_reference v)		{ return const_cast<iterator>(const_cast<rcself_t>(*this).lower_bound (v)); }
-- 
2.43.0


From 857d81812f5ffeb7dac1fff44e8b1994484b184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 015/140] fix: queue copy constructor brought back popped
 elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 5701e2c..9022f53 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -24,7 +24,7 @@ public:
 public:
     inline			queue (void)			: _storage(), _front (0) { }
     explicit inline		queue (const container_type& s)	: _storage (s), _front (0) { }
-    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (0) { }
+    explicit inline		queue (const queue& s)		: _storage (s._storage), _front (s._front) { }
     inline size_type		size (void) const		{ return _storage.size() - _front; }
     inline bool			empty (void) const		{ return !size(); }
     inline reference		front (void)			{ return _storage [_front]; }
-- 
2.43.0


From c80ba1c6983bbb0f992b96e675af88da0bb511a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 016/140] fix: queue::operator== compared popped elements

---
 uqueue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uqueue.h b/uqueue.h
index 9022f53..5ad75af 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -39,7 +39,7 @@ public:
 				    }
 				}
     inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
-    inline bool			operator== (const queue& s) const	{ return _storage == s._storage && _front == s._front; }
+    inline bool			operator== (const queue& s) const	{ return size() == s.size() && equal (_storage.begin()+_front, _storage.end(), s._storage.begin()+s._front); }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
-- 
2.43.0


From 4825141efe4ec4d14c22a880876aa4cad7e7cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 017/140] fix: swap and move assignment of queue, stack and
 priority_queue did not compile

---
 uheap.h  | 2 +-
 uqueue.h | 2 +-
 ustack.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/uheap.h b/uheap.h
index 2fbbf81..02f6d8a 100644
--- a/uheap.h
+++ b/uheap.h
@@ -143,7 +143,7 @@ public:
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
     inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
-    constexpr void		swap (priority_queue& v){ _v.swap (v._v); swap (_c, v._c); }
+    constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
     constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
diff --git a/uqueue.h b/uqueue.h
index 5ad75af..0971f05 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -38,7 +38,7 @@ public:
 					_front = 0;
 				    }
 				}
-    inline void			swap (queue& v)			{ _storage.swap (v); swap (_front, v._front); }
+    inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return size() == s.size() && equal (_storage.begin()+_front, _storage.end(), s._storage.begin()+s._front); }
     inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
 #if HAVE_CPP11
diff --git a/ustack.h b/ustack.h
index 0599842..5d62502 100644
--- a/ustack.h
+++ b/ustack.h
@@ -31,7 +31,7 @@ public:
     inline const_reference	top (void) const		{ return _storage.back(); }
     inline void			push (const_reference v)	{ _storage.push_back (v); }
     inline void			pop (void)			{ _storage.pop_back(); }
-    inline void			swap (stack& v)			{ _storage.swap (v); }
+    inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
     inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
 #if HAVE_CPP11
-- 
2.43.0


From 6cf82031dc64041de75a0305ce59e1ea88917391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 018/140] fix: priority_queue::pop ignored the comparator

---
 uheap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uheap.h b/uheap.h
index 02f6d8a..a17e544 100644
--- a/uheap.h
+++ b/uheap.h
@@ -142,7 +142,7 @@ public:
     constexpr bool			empty (void) const	{ return _v.empty(); }
     constexpr const_reference	top (void) const	{ return _v.front(); }
     inline void			push (const_reference v){ _v.push_back (v); push_heap (_v.begin(), _v.end(), _c); }
-    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end()); _v.pop_back(); }
+    inline void			pop (void)		{ pop_heap (_v.begin(), _v.end(), _c); _v.pop_back(); }
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-- 
2.43.0


From 532830dada211e8163803b4be73950b8382c5313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 019/140] fix: priority_queue made from a container was not a
 heap

---
 uheap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uheap.h b/uheap.h
index a17e544..2a3ee67 100644
--- a/uheap.h
+++ b/uheap.h
@@ -135,7 +135,7 @@ public:
     typedef typename container_type::const_iterator	const_iterator;
 public:
     constexpr explicit		priority_queue (const Comp& c = Comp()) : _v(), _c(c) {}
-    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) {}
+    constexpr			priority_queue (const Comp& c, const container_type& v) : _v(v), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr			priority_queue (const_iterator f, const_iterator l, const Comp& c = Comp())
 				    : _v(f, l), _c(c) { make_heap (_v.begin(), _v.end(), _c); }
     constexpr size_type		size (void) const	{ return _v.size(); }
@@ -146,7 +146,7 @@ public:
     constexpr void		swap (priority_queue& v){ _v.swap (v._v); ::ustl::swap (_c, v._c); }
 #if HAVE_CPP11
     constexpr explicit		priority_queue (priority_queue&& v)	: _v(move(v._v)),_c(v._c) {}
-    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) {}
+    constexpr			priority_queue (const Comp& c, container_type&& v)	: _v(move(v)),_c(c) { make_heap (_v.begin(), _v.end(), _c); }
 				priority_queue (const_iterator f, const_iterator l, const Comp& c, container_type&& v)
 				    : _v(move(v)), _c(c) { _v.insert (_v.end(), f, l); make_heap (_v.begin(), _v.end(), _c); }
     constexpr priority_queue&	operator= (priority_queue&& v)	{ swap (v); return *this; }
-- 
2.43.0


From d233bd6227ce769702145904fc846d8774e5ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 020/140] fix: list::merge left the merged elements in the
 source list

---
 ulist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ulist.h b/ulist.h
index a911529..0d54717 100644
--- a/ulist.h
+++ b/ulist.h
@@ -61,6 +61,7 @@ void list<T>::merge (list& l)
 {
     this->insert_space (begin(), l.size());
     ::ustl::merge (this->iat(l.size()), end(), l.begin(), l.end(), begin());
+    l.clear();
 }
 
 /// Moves the range [first, last) from \p l to this list at \p ip.
-- 
2.43.0


From 283b99f6e28e25105ff5c2f8d85e1b963cbcb0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 021/140] fix: binary_search with a comparator found values
 that are not there

---
 upredalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/upredalgo.h b/upredalgo.h
index 1ba9e29..d71e60a 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -224,7 +224,7 @@ template <typename ForwardIterator, typename T, typename StrictWeakOrdering>
 constexpr bool binary_search (ForwardIterator first, ForwardIterator last, const T& value, StrictWeakOrdering comp)
 {
     ForwardIterator found = lower_bound (first, last, value, comp);
-    return found != last && !comp(*found, value);
+    return found != last && !comp(value, *found);
 }
 
 /// Returns the furthermost iterator i in [first,last) such that for
-- 
2.43.0


From adc9e365a6c82f7b7bcc78c3ee475a8406d6c086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 022/140] fix: find_end never looked at the first position

---
 upredalgo.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/upredalgo.h b/upredalgo.h
index d71e60a..30443d5 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -296,9 +296,10 @@ constexpr ForwardIterator1 search (ForwardIterator1 first1, ForwardIterator1 las
 template <typename ForwardIterator1, typename ForwardIterator2, typename BinaryPredicate>
 constexpr ForwardIterator1 find_end (ForwardIterator1 first1, ForwardIterator1 last1, ForwardIterator2 first2, ForwardIterator2 last2, BinaryPredicate comp)
 {
-    ForwardIterator1 s = last1 - distance(first2, last2);
-    for (; first1 < s; --s) {
-	ForwardIterator2 i = first2, j = s;
+    const ForwardIterator1 slast = last1 - distance(first2, last2) + 1;
+    for (ForwardIterator1 s = slast; first1 < s;) {
+	ForwardIterator2 i = first2;
+	ForwardIterator1 j = --s;
 	for (; i != last2 && comp(*j, *i); ++i, ++j) {}
 	if (i == last2)
 	    return s;
-- 
2.43.0


From 96f3b1ec5cd6f2e8d029d68d3714671dbaed15e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 023/140] fix: replace_copy and replace_copy_if did not return
 a value

---
 ualgo.h     | 1 +
 upredalgo.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ualgo.h b/ualgo.h
index c95b699..c93d539 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -147,6 +147,7 @@ inline constexpr OutputIterator replace_copy (InputIterator first, InputIterator
 {
     for (; first != last; ++result, ++first)
         *result = (*first == old_value) ? new_value : *first;
+    return result;
 }
 
 /// Generate assigns the result of invoking gen, a function object that
diff --git a/upredalgo.h b/upredalgo.h
index 30443d5..8aecfb6 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -120,6 +120,7 @@ constexpr OutputIterator replace_copy_if (InputIterator first, InputIterator las
 {
     for (; first != last; ++result, ++first)
         *result = pred(*first) ? new_value : *first;
+    return result;
 }
 
 /// Remove_copy_if copies elements from the range [first, last) to a range
-- 
2.43.0


From 20eccbec4dcef710bc6cfdad2f028cec118996fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 024/140] fix: adjacent_difference never ended

---
 unumeric.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index fa9601b..eca0da8 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -96,11 +96,16 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result++ = *first++;
-    while (first < last)
-	*result++ = *first - *(first - 1);
-    return result;
+    if (!(first < last))
+	return result;
+    auto prev = *first;
+    *result = prev;
+    while (++first < last) {
+	auto v = *first;
+	*++result = v - prev;
+	prev = v;
+    }
+    return ++result;
 }
 
 /// Writes result such that result[i] = differenceOp (first[i], first[i - 1])
@@ -109,11 +114,16 @@ constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator adjacent_difference (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation differenceOp)
 {
-    if (first < last)
-	*result++ = *first++;
-    while (first < last)
-	*result++ = differenceOp (*first, *(first - 1));
-    return result;
+    if (!(first < last))
+	return result;
+    auto prev = *first;
+    *result = prev;
+    while (++first < last) {
+	auto v = *first;
+	*++result = differenceOp (v, prev);
+	prev = v;
+    }
+    return ++result;
 }
 
 /// \brief Returns x^n.
-- 
2.43.0


From ccc7c09beb3d3b4d34d6d16fa7f3d47d52f9a290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 025/140] fix: partial_sum returned the last element instead of
 the end and applied the operation in reverse

---
 unumeric.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/unumeric.h b/unumeric.h
index eca0da8..43217ab 100644
--- a/unumeric.h
+++ b/unumeric.h
@@ -70,11 +70,13 @@ constexpr T inner_product
 template <typename InputIterator, typename OutputIterator>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = *first++ + *result;
-    return result;
+    if (!(first < last))
+	return result;
+    auto sum = *first;
+    *result = sum;
+    while (++first < last)
+	*++result = sum = sum + *first;
+    return ++result;
 }
 
 /// Writes result such that result[i] = sumOp (first...first+i)
@@ -83,11 +85,13 @@ constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, O
 template <typename InputIterator, typename OutputIterator, typename BinaryOperation>
 constexpr OutputIterator partial_sum (InputIterator first, InputIterator last, OutputIterator result, BinaryOperation sumOp)
 {
-    if (first < last)
-	*result = *first++;
-    while (first < last)
-	*++result = sumOp (*first++, *result);
-    return result;
+    if (!(first < last))
+	return result;
+    auto sum = *first;
+    *result = sum;
+    while (++first < last)
+	*++result = sum = sumOp (sum, *first);
+    return ++result;
 }
 
 /// Writes result such that result[i] = first[i] - first[i - 1]
-- 
2.43.0


From 327756387660ed06e39aaaa742db4c8eda1dade0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 026/140] fix: search_n for zero values did not match at the
 start

---
 upredalgo.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/upredalgo.h b/upredalgo.h
index 8aecfb6..9607e71 100644
--- a/upredalgo.h
+++ b/upredalgo.h
@@ -315,6 +315,8 @@ template <typename Iterator, typename T, typename BinaryPredicate>
 constexpr Iterator search_n (Iterator first, Iterator last, size_t count, const T& value, BinaryPredicate comp)
 {
     size_t n = 0;
+    if (!count)
+	return first;
     for (; first != last; ++first) {
 	if (!comp (*first, value))
 	    n = 0;
-- 
2.43.0


From ed3918c4f0f79841df5a0df3087a8a781f9dbc7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 027/140] fix: merge and inplace_merge put equal elements of
 the second range first

---
 ualgo.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index c93d539..6ce63ba 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -241,10 +241,10 @@ OutputIterator merge (InputIterator1 first1, InputIterator1 last1,
 		      InputIterator2 first2, InputIterator2 last2, OutputIterator result)
 {
     for (; first1 != last1 && first2 != last2; ++result) {
-	if (*first1 < *first2)
-	    *result = *first1++;
-	else
+	if (*first2 < *first1)
 	    *result = *first2++;
+	else
+	    *result = *first1++;
     }
     if (first1 < last1)
 	return copy (first1, last1, result);
@@ -259,8 +259,10 @@ template <typename InputIterator>
 constexpr void inplace_merge (InputIterator first, InputIterator middle, InputIterator last)
 {
     for (; middle != last; ++first) {
-	while (*first < *middle)
+	while (first != middle && !(*middle < *first))
 	    ++ first;
+	if (first == middle)
+	    return;
 	reverse (first, middle);
 	reverse (first, ++middle);
     }
-- 
2.43.0


From 315c237e90343fa2d537ef843b3fd3d5cbe4222f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 028/140] fix: minmax_element returned the first of equal
 maxima

---
 ualgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 6ce63ba..1a836d5 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -682,7 +682,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (*first < *r.first)
 	    r.first = first;
-	if (*r.second < *first)
+	if (!(*first < *r.second))
 	    r.second = first;
     }
     return r;
@@ -694,7 +694,7 @@ constexpr pair<ForwardIterator,ForwardIterator> minmax_element (ForwardIterator
     for (; first != last; ++first) {
 	if (comp (*first, *r.first))
 	    r.first = first;
-	if (comp (*r.second, *first))
+	if (!comp (*first, *r.second))
 	    r.second = first;
     }
     return r;
-- 
2.43.0


From 484750a2fcc587fbfefca78dae8310d9c5a58483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 029/140] fix: rotate did not return the new position of the
 first element

---
 ualgo.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 1a836d5..ea83f13 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -205,13 +205,19 @@ inline constexpr OutputIterator reverse_copy (BidirectionalIterator first, Bidir
 template <typename ForwardIterator>
 constexpr ForwardIterator rotate (ForwardIterator first, ForwardIterator middle, ForwardIterator last)
 {
-    if (first == middle || middle == last)
+    if (first == middle)
+	return last;
+    if (middle == last)
 	return first;
     reverse (first, middle);
     reverse (middle, last);
     for (;first != middle && middle != last; ++first)
 	iter_swap (first, --last);
-    reverse (first, (first == middle ? last : middle));
+    if (first == middle) {
+	reverse (first, last);
+	return last;
+    }
+    reverse (first, middle);
     return first;
 }
 
@@ -220,7 +226,7 @@ template <typename T>
 inline T* rotate (T* first, T* middle, T* last)
 {
     rotate_fast (first, middle, last);
-    return first;
+    return first + distance (middle, last);
 }
  
 
-- 
2.43.0


From a63438590bdcaa0f96cd57499432b0a51a0c8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 030/140] fix: iterator adaptors subtracted and offset in the
 wrong direction

---
 uiterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1d82ce5..dd1e4cb 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -267,7 +267,7 @@ public:
     constexpr reverse_iterator	operator+ (size_t n) const { return reverse_iterator (_i - n); }
     constexpr reverse_iterator	operator- (size_t n) const { return reverse_iterator (_i + n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (i._i, _i); }
+    constexpr difference_type	operator- (const reverse_iterator& i) const { return distance (_i, i._i); }
 protected:
     Iterator			_i;
 };
@@ -307,10 +307,10 @@ public:
     constexpr move_iterator	operator-- (int)		{ move_iterator r (*this); -- _i; return r; }
     constexpr move_iterator&	operator+= (size_t n)		{ _i += n; return *this; }
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
-    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
+    constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
     constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
-    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (_i, i._i); }
+    constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
 };
@@ -454,7 +454,7 @@ public:
     constexpr index_iterate	operator+ (size_t n) const { return index_iterate (_base, _i + n); }
     constexpr index_iterate	operator- (size_t n) const { return index_iterate (_base, _i - n); }
     constexpr reference		operator[] (uoff_t n) const { return *(*this + n); }
-    constexpr difference_type	operator- (const index_iterate& i) const { return distance (_i, i._i); }
+    constexpr difference_type	operator- (const index_iterate& i) const { return distance (i._i, _i); }
 private:
     RandomAccessIterator	_base;
     IndexIterator		_i;
-- 
2.43.0


From b4142d16d370fecda8c2b7bcd850b260c676a542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 031/140] fix: min and max returned the second of equal values

---
 uutility.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uutility.h b/uutility.h
index 3c13f29..a63ca1c 100644
--- a/uutility.h
+++ b/uutility.h
@@ -47,12 +47,12 @@ namespace ustl {
 /// Returns the minimum of \p a and \p b
 template <typename T1, typename T2>
 inline constexpr T1 min (const T1& a, const T2& b)
-    { return a < b ? a : b; }
+    { return b < a ? b : a; }
 
 /// Returns the maximum of \p a and \p b
 template <typename T1, typename T2>
 inline constexpr T1 max (const T1& a, const T2& b)
-    { return b < a ? a : b; }
+    { return a < b ? b : a; }
 
 /// Indexes into a static array with bounds limit
 template <typename T, size_t N>
-- 
2.43.0


From 2f71089578bde1ca87f50608e55f33752c4219e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 032/140] fix: copy_backward of bytes and shorts returned the
 end of the output

---
 ualgobase.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ualgobase.h b/ualgobase.h
index 1d9b28a..cb0ef34 100644
--- a/ualgobase.h
+++ b/ualgobase.h
@@ -200,7 +200,7 @@ template <>
 inline uint8_t* copy_backward (const uint8_t* first, const uint8_t* last, uint8_t* result)
 {
     copy_backward_fast (first, last, result);
-    return result;
+    return result - distance (first, last);
 }
 
 template <typename T>
-- 
2.43.0


From 9b21221ae829d9b16b23b5b5a8aca31733f8db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 033/140] fix: rotate of a large range overflowed the stack

---
 ualgobase.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ualgobase.cc b/ualgobase.cc
index efa43c7..9de96c9 100644
--- a/ualgobase.cc
+++ b/ualgobase.cc
@@ -229,7 +229,9 @@ void rotate_fast (void* first, void* middle, void* last) noexcept
     const size_t hmin (min (half1, half2));
     if (!hmin)
 	return;
-    void* buf = alloca (hmin);
+    void* buf = nullptr;
+    if (hmin <= 32768)		// larger ranges would overflow the stack
+	buf = alloca (hmin);
     if (buf) {
 	if (half2 < half1) {
 	    copy_n_fast (middle, half2, buf);
-- 
2.43.0


From fadc72a29acad85d027e8ea98a6e8abc286dc37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 034/140] fix: seven byte UTF-8 characters were written
 incorrectly

---
 utf8.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/utf8.h b/utf8.h
index 7fb47d0..d010179 100644
--- a/utf8.h
+++ b/utf8.h
@@ -183,10 +183,12 @@ utf8out_iterator<Iterator,WChar>& utf8out_iterator<Iterator,WChar>::operator= (W
     if (nBytes > 1) {
 	// Write the bits 6 bits at a time, except for the first one,
 	// which may be less than 6 bits.
-	wchar_t shift = nBytes * 6;
-	*_i++ = ((v >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
+	// 64 bit because 7 byte characters shift by 36.
+	const uint64_t uv = uint32_t(v);
+	unsigned shift = nBytes * 6;
+	*_i++ = ((uv >> (shift -= 6)) & 0x3F) | (0xFF << (8 - nBytes));
 	while (shift)
-	    *_i++ = ((v >> (shift -= 6)) & 0x3F) | 0x80;
+	    *_i++ = ((uv >> (shift -= 6)) & 0x3F) | 0x80;
     } else	// If only one byte, there is no header.
 	*_i++ = v;
     return *this;
-- 
2.43.0


From dc73a67f407b5e00363332d01cb9f40c92bc1c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 035/140] fix: UTF-8 iterator difference counted the bytes of
 the current character

---
 utf8.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utf8.h b/utf8.h
index d010179..441bf91 100644
--- a/utf8.h
+++ b/utf8.h
@@ -140,8 +140,11 @@ typename utf8in_iterator<Iterator,WChar>::difference_type
 utf8in_iterator<Iterator,WChar>::operator- (const utf8in_iterator<Iterator,WChar>& last) const
 {
     difference_type dist = 0;
-    for (Iterator first (last._i); first < _i; ++dist)
-	advance (first, Utf8SequenceBytes (*first));
+    // _i is at the last byte of the current character.
+    for (Iterator first (last._i); first < _i; ++dist) {
+	++first;
+	advance (first, Utf8SequenceBytes (*first) - 1);
+    }
     return dist;
 }
 
-- 
2.43.0


From 8e4f1cbf0bd6d573a266a2788517b09a599b4e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 036/140] fix: stream alignment of pairs and containers ignored
 their elements

---
 uspecial.h | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/uspecial.h b/uspecial.h
index b59e320..03cc65f 100644
--- a/uspecial.h
+++ b/uspecial.h
@@ -8,6 +8,8 @@
 #include "ustring.h"
 #include "uset.h"
 #include "umultiset.h"
+#include "umap.h"
+#include "umultimap.h"
 #include "ubitset.h"
 #include "ulaalgo.h"
 #include "uarray.h"
@@ -40,6 +42,13 @@ TEMPLATE_SWAP_PSPEC (TEMPLATE_TYPE2 (tuple,N,T),	TEMPLATE_FULL_DECL2 (size_t,N,t
 
 //----{ pair }----------------------------------------------------------
 
+/// A pair has to start on the larger of the alignments of its members
+template <typename T1, typename T2>
+inline constexpr size_t stream_align_of (const pair<T1,T2>&)
+{
+    return max (stream_align_of (NullValue<T1>()), stream_align_of (NullValue<T2>()));
+}
+
 /// \brief Reads pair \p p from stream \p is.
 template <typename T1, typename T2>
 void pair<T1,T2>::read (istream& is)
@@ -47,7 +56,7 @@ void pair<T1,T2>::read (istream& is)
     is >> first;
     is.align (stream_align_of(second));
     is >> second;
-    is.align (stream_align_of(first));
+    is.align (stream_align_of(*this));
 }
 
 /// Writes pair \p p to stream \p os.
@@ -57,15 +66,15 @@ void pair<T1,T2>::write (ostream& os) const
     os << first;
     os.align (stream_align_of(second));
     os << second;
-    os.align (stream_align_of(first));
+    os.align (stream_align_of(*this));
 }
 
 /// Returns the written size of the object.
 template <typename T1, typename T2>
 constexpr size_t pair<T1,T2>::stream_size (void) const
 {
-    return Align (stream_size_of(first), stream_align_of(second)) +
-	    Align (stream_size_of(second), stream_align_of(first));
+    return Align (Align (stream_size_of(first), stream_align_of(second)) +
+	    stream_size_of(second), stream_align_of(*this));
 }
 
 /// Writes pair \p p to stream \p os.
@@ -104,13 +113,26 @@ unconst (const pair<typename Container::const_iterator, typename Container::cons
 
 //----{ vector }--------------------------------------------------------
 
-template <typename T>
-inline size_t stream_align_of (const vector<T>&)
+/// Containers are written as the size, followed by the aligned elements
+template <typename Container>
+inline size_t container_stream_align (void)
 {
-    typedef typename vector<T>::written_size_type written_size_type;
-    return stream_align_of (written_size_type());
+    typedef typename Container::written_size_type written_size_type;
+    typedef typename Container::value_type value_type;
+    return max (stream_align_of (written_size_type()), stream_align_of (NullValue<value_type>()));
 }
 
+template <typename T>
+inline size_t stream_align_of (const vector<T>&)	{ return container_stream_align<vector<T> >(); }
+template <typename T, typename Comp>
+inline size_t stream_align_of (const set<T,Comp>&)	{ return container_stream_align<set<T,Comp> >(); }
+template <typename T, typename Comp>
+inline size_t stream_align_of (const multiset<T,Comp>&)	{ return container_stream_align<multiset<T,Comp> >(); }
+template <typename K, typename V, typename Comp>
+inline size_t stream_align_of (const map<K,V,Comp>&)	{ return container_stream_align<map<K,V,Comp> >(); }
+template <typename K, typename V, typename Comp>
+inline size_t stream_align_of (const multimap<K,V,Comp>&)	{ return container_stream_align<multimap<K,V,Comp> >(); }
+
 //----{ bitset }--------------------------------------------------------
 
 /// Writes bitset \p v into stream \p os.
-- 
2.43.0


From b30b7d33ef335a8744c85b551533264ac423594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:52 +0000
Subject: [PATCH 037/140] fix: ostream::align aligned the address,
 istream::align the position

---
 mistream.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index ea99d97..fd84974 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -77,16 +77,14 @@ streamsize istream::underflow (streamsize n)
 void ostream::align (size_type grain)
 {
     assert (!((grain-1)&grain) && "grain must be a power of 2");
-    iterator ip = ipos();
-    iterator ipa = iterator((uintptr_t(ip) + (grain-1)) & ~(grain-1));
-    size_t nb = distance (ip, ipa);
+    const size_t nb = align_size (grain);	// of the position, like istream::align
 #if WANT_STREAM_BOUNDS_CHECKING
     if (!verify_remaining ("align", "padding", nb))
 	return;
 #else
     assert (remaining() >= nb && "Buffer overrun. Check your stream size calculations.");
 #endif
-    memset (ip, '\x0', nb);
+    memset (ipos(), '\x0', nb);
     _pos += nb;
 }
 
-- 
2.43.0


From 5adb5020a95dacdc5770b996b3f48ee63cf726d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 038/140] fix: read_strz moved past the end of a stream without
 a terminator

---
 mistream.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mistream.cc b/mistream.cc
index fd84974..be74fe8 100644
--- a/mistream.cc
+++ b/mistream.cc
@@ -48,8 +48,11 @@ void istream::text_write (ostringstream& os) const
 void istream::read_strz (string& str)
 {
     const_iterator zp = find (ipos(), end(), '\0');
-    if (zp == end())
-	zp = ipos();
+    if (zp == end()) {
+	str.clear();
+	verify_remaining ("read", "null-terminated string", remaining()+1);
+	return;
+    }
     const size_type strl = distance (ipos(), zp);
     str.assign (ipos(), strl);
     _pos += strl + 1;
-- 
2.43.0


From 17bcdc94109863bf94d45a784b87c9b0b229106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:31 +0000
Subject: [PATCH 039/140] fix: skipping by a huge amount moved a stream
 backwards

---
 mistream.h | 4 ++++
 mostream.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mistream.h b/mistream.h
index 4e32a1f..00e71ce 100644
--- a/mistream.h
+++ b/mistream.h
@@ -208,6 +208,10 @@ inline void istream::seekg (off_t p, seekdir d)
 /// Skips \p nBytes without reading them.
 inline void istream::skip (streamsize nBytes)
 {
+#if WANT_STREAM_BOUNDS_CHECKING
+    if (nBytes > remaining())	// checked here because the sum may wrap around
+	return overrun ("skip", "byte", nBytes, pos(), remaining());
+#endif
     seek (pos() + nBytes);
 }
 
diff --git a/mostream.h b/mostream.h
index 7e8ecaf..7e99749 100644
--- a/mostream.h
+++ b/mostream.h
@@ -186,6 +186,10 @@ inline void ostream::seekp (off_t p, seekdir d)
 /// Skips \p nBytes without writing anything.
 inline void ostream::skip (streamsize nBytes)
 {
+#if WANT_STREAM_BOUNDS_CHECKING
+    if (nBytes > remaining())	// checked here because the sum may wrap around
+	return overrun ("skip", "byte", nBytes, pos(), remaining());
+#endif
     seek (pos() + nBytes);
 }
 
-- 
2.43.0


From 10a76742fd08f29a28ed2d102c001a5d3e802647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 040/140] fix: field widths and precisions of two digits were
 written reversed

---
 sostream.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index f094b17..193abd9 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -64,9 +64,12 @@ ostringstream& ostringstream::write (const void* buffer, size_type sz)
 /// Simple decimal encoding of \p n into \p fmt.
 inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 {
+    uint32_t d = 1;
+    while (n / d >= 10)
+	d *= 10;
     do {
-	*fmt++ = '0' + n % 10;
-    } while (n /= 10);
+	*fmt++ = '0' + n / d % 10;
+    } while (d /= 10);
     return fmt;
 }
 
-- 
2.43.0


From 97d2414fc406ce5ac5086468a9bda1cbb9fa3779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 041/140] fix: left, showpos, and showbase with a field width
 made an invalid format

---
 sostream.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sostream.cc b/sostream.cc
index 193abd9..61a8167 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -77,11 +77,7 @@ inline char* ostringstream::encode_dec (char* fmt, uint32_t n) const noexcept
 void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) const
 {
     *fmt++ = '%';
-    if (_width) {
-	if (_fill == '0')
-	    *fmt++ = '0';
-	fmt = encode_dec (fmt, _width);
-    }
+    // printf flags have to come before the width
     if (_flags & left)
 	*fmt++ = '-';
     if (bInteger) {
@@ -89,7 +85,13 @@ void ostringstream::fmtstring (char* fmt, const char* typestr, bool bInteger) co
 	    *fmt++ = '+';
 	if (_flags & showbase)
 	    *fmt++ = '#';
-    } else {
+    }
+    if (_width) {
+	if (_fill == '0')
+	    *fmt++ = '0';
+	fmt = encode_dec (fmt, _width);
+    }
+    if (!bInteger) {
 	*fmt++ = '.';
 	fmt = encode_dec (fmt, _precision);
     }
-- 
2.43.0


From f2218355a1486716029df674b4374a2f3b9cb6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 042/140] fix: setf with a mask did not return the previous
 flags

---
 sistream.h | 2 +-
 sostream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sistream.h b/sistream.h
index 9070bdf..b434b7c 100644
--- a/sistream.h
+++ b/sistream.h
@@ -29,7 +29,7 @@ public:
     inline fmtflags		flags (fmtflags f)		{ fmtflags of (_flags); _flags = f; return of; }
     inline fmtflags		setf (fmtflags f)		{ fmtflags of (_flags); _flags |= f; return of; }
     inline fmtflags		unsetf (fmtflags f)		{ fmtflags of (_flags); _flags &= ~f; return of; }
-    inline fmtflags		setf (fmtflags f, fmtflags m)	{ unsetf(m); return setf(f); }
+    inline fmtflags		setf (fmtflags f, fmtflags m)	{ fmtflags of (_flags); unsetf(m); setf(f); return of; }
     inline void			iread (char& v)			{ v = skip_delimiters(); }
     inline void			iread (unsigned char& v)	{ char c; iread(c); v = c; }
     void			iread (int& v);
diff --git a/sostream.h b/sostream.h
index 0c394c8..3252612 100644
--- a/sostream.h
+++ b/sostream.h
@@ -24,7 +24,7 @@ public:
     inline fmtflags		flags (fmtflags f)		{ fmtflags of (_flags); _flags = f; return of; }
     inline fmtflags		setf (fmtflags f)		{ fmtflags of (_flags); _flags |= f; return of; }
     inline fmtflags		unsetf (fmtflags f)		{ fmtflags of (_flags); _flags &= ~f; return of; }
-    inline fmtflags		setf (fmtflags f, fmtflags m)	{ unsetf(m); return setf(f); }
+    inline fmtflags		setf (fmtflags f, fmtflags m)	{ fmtflags of (_flags); unsetf(m); setf(f); return of; }
     void			iwrite (unsigned char v);
     void			iwrite (wchar_t v);
     inline void			iwrite (char v)			{ iwrite (static_cast<unsigned char>(v)); }
-- 
2.43.0


From 7a16e495756a0e4a999eeeb7241335c13627a45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 043/140] fix: ostringstream made from a linked string wrote
 into the linked memory

---
 sostream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 61a8167..7ae99b6 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -27,13 +27,15 @@ ostringstream::ostringstream (void* p, size_t n) noexcept
 /// Creates an output string stream, initializing the buffer with v.
 ostringstream::ostringstream (const string& v)
 : ostream()
-,_buffer (v)
+,_buffer()
 ,_flags (0)
 ,_width (0)
 ,_precision (2)
 ,_fill (0)
 {
     exceptions (goodbit);
+    if (!v.empty())
+	_buffer = v;	// copies; the copy constructor would link to a literal
     ostream::link (_buffer);
 }
 
-- 
2.43.0


From 7bd3df9e16178b5bc7d048c66ba245e1c4dcdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 044/140] fix: an output string stream lost text written to the
 user's buffer after str() or flush()

---
 sostream.cc | 17 +++++++++++++++++
 sostream.h  |  3 ++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index 7ae99b6..bb91a66 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -163,11 +163,28 @@ void ostringstream::link (void* p, size_type n) noexcept
     _buffer.link (p, n);
 }
 
+/// Copies the text written to the user's buffer, if _buffer is no longer linked to it.
+void ostringstream::sync_buffer (void)
+{
+    if (_buffer.begin() != begin())
+	_buffer.assign (begin(), pos());
+}
+
+/// Writes all buffered text to str()
+ostream& ostringstream::flush (void)
+{
+    ostream::flush();
+    sync_buffer();
+    _buffer.resize (pos());
+    return *this;
+}
+
 /// Attempts to create more output space. Returns remaining().
 ostringstream::size_type ostringstream::overflow (size_type n)
 {
     if (n > remaining() && (good() || n <= capacity() - pos())) {
 	const uoff_t oldPos (pos());
+	sync_buffer();
 	_buffer.reserve (oldPos + n, false);
 	_buffer.resize (oldPos + n);
 	ostream::link (_buffer);
diff --git a/sostream.h b/sostream.h
index 3252612..9da5b05 100644
--- a/sostream.h
+++ b/sostream.h
@@ -68,7 +68,7 @@ public:
     ostringstream&		write (const void* buffer, size_type size);
     inline ostringstream&	write (const cmemlink& buf)	{ return write (buf.begin(), buf.size()); }
     inline ostringstream&	seekp (off_t p, seekdir d =beg)	{ ostream::seekp(p,d); return *this; }
-    virtual ostream&		flush (void) override		{ ostream::flush(); _buffer.resize (pos()); return *this; }
+    virtual ostream&		flush (void) override;
     virtual size_type		overflow (size_type n = 1) override;
 protected:
     inline void			reserve (size_type n)		{ _buffer.reserve (n, false); }
@@ -76,6 +76,7 @@ protected:
 private:
     inline void			write_strz (const char*)	{ assert (!"Writing nul characters into a text stream is not allowed"); }
     inline char*		encode_dec (char* fmt, uint32_t n) const noexcept;
+    void			sync_buffer (void);
     void			fmtstring (char* fmt, const char* typestr, bool bInteger) const;
     template <typename T>
     void			iformat (T v);
-- 
2.43.0


From b83347f3d6a50837844257dfaf0480a31e7de416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 045/140] fix: the last word, number, or line of a stream was
 reported as a failure

---
 ofstream.cc | 11 ++++++++++-
 ofstream.h  |  2 ++
 sistream.cc | 23 ++++++++++++++++++-----
 sistream.h  |  2 ++
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index fb99918..2d8a37a 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -127,6 +127,15 @@ void ifstream::set_buffer_size (size_type sz)
 
 /// Reads at least \p n more bytes and returns available bytes.
 ifstream::size_type ifstream::underflow (size_type n)
+{
+    refill (n);
+    if (_file.eof())
+	verify_remaining ("read", _file.name(), n);
+    return remaining();
+}
+
+/// Reads at least \p n more bytes, if there are that many, and returns available bytes.
+ifstream::size_type ifstream::refill (size_type n)
 {
     if (!_file.eof()) {
 	const ssize_t freeSpace = _buffer.size() - pos();
@@ -154,7 +163,7 @@ ifstream::size_type ifstream::underflow (size_type n)
 	seek (oldPos);
     }
     if (_file.eof())
-	verify_remaining ("read", _file.name(), n);
+	istringstream::clear (remaining() < n ? eofbit : goodbit);
     return remaining();
 }
 
diff --git a/ofstream.h b/ofstream.h
index 413ba5a..9f6ee8b 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -65,6 +65,8 @@ public:
     ifstream&		seekg (off_t p, seekdir d = beg);
     int			sync (void);
     virtual size_type	underflow (size_type n = 1) override;
+protected:
+    virtual size_type	refill (size_type n = 1) override;
 private:
     string		_buffer;
     fstream		_file;
diff --git a/sistream.cc b/sistream.cc
index 4081cc8..0e4bbbe 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -57,6 +57,15 @@ bool istringstream::is_delimiter (char c) const noexcept
     return memchr (_delimiters, c, VectorSize(_delimiters)-1);
 }
 
+/// Makes \p n characters available, if there are that many. If not, sets only eofbit, because
+/// a word, number, or line ended by the end of the stream is not a failure. Returns remaining().
+istringstream::size_type istringstream::refill (size_type n)
+{
+    if (remaining() < n)
+	setstate (eofbit);
+    return remaining();
+}
+
 char istringstream::skip_delimiters (void)
 {
     char c = _delimiters[0];
@@ -97,7 +106,7 @@ inline void istringstream::read_number (T& v)
     do {
 	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
 	skip (distance (ipos(), ilast));
-    } while (ilast == end() && underflow());
+    } while (ilast == end() && more());
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
@@ -128,7 +137,7 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && (remaining() || underflow()); ++tv)
+    for (const char* tv = tf[v]; c == *tv && more(); ++tv)
 	istream::iread (c);
     ungetc();
 }
@@ -143,7 +152,7 @@ void istringstream::iread (string& v)
 	quoteChar = c;
     else
 	v += c;
-    while (remaining() || underflow()) {
+    while (more()) {
 	prevc = c;
 	istream::iread (c);
 	if (!quoteChar && is_delimiter(c))
@@ -181,7 +190,9 @@ istringstream& istringstream::read (void* buffer, size_type sz)
 istringstream& istringstream::get (char* p, size_type n, char delim)
 {
     _gcount = 0;
-    for (char c = 0, *pend = p+n-1; p < pend && (remaining() || underflow()); ++p, ++_gcount) {
+    if (!remaining())
+	underflow();	// fails if nothing is left
+    for (char c = 0, *pend = p+n-1; p < pend && more(); ++p, ++_gcount) {
 	istream::iread (c);
 	if (c == delim) {
 	    ungetc();
@@ -198,7 +209,9 @@ istringstream& istringstream::get (string& v, char delim)
 {
     _gcount = 0;
     v.clear();
-    while ((remaining() || underflow()) && ipos()[0] != delim) {
+    if (!remaining())
+	underflow();	// fails if nothing is left
+    while (more() && ipos()[0] != delim) {
 	const_iterator p = ipos();
 	size_type n = find (p, end(), delim) - p;
 	v.append (p, n);
diff --git a/sistream.h b/sistream.h
index b434b7c..214427a 100644
--- a/sistream.h
+++ b/sistream.h
@@ -71,6 +71,8 @@ public:
     inline int			sync (void)			{ skip (remaining()); return 0; }
 protected:
     char			skip_delimiters (void);
+    virtual size_type		refill (size_type n = 1);
+    inline bool			more (void)	{ return remaining() || refill(); }
 private:
     inline void			read_strz (string&)	{ assert (!"Reading nul characters is not allowed from text streams"); }
     inline bool			is_delimiter (char c) const noexcept;
-- 
2.43.0


From dfb645cecfe3470692217f26ae0cc91381b3b4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:29 +0000
Subject: [PATCH 046/140] fix: numbers were read past the end of the text, or
 wrongly across buffer boundaries

---
 sistream.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 0e4bbbe..e4e1f9a 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -95,6 +95,10 @@ template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base,
 
 } //}}} namespace
 
+// Characters that strtol or strtod may use as a part of a number.
+inline bool is_number_char (char c)
+    { return isalnum (uint8_t(c)) || (c && strchr ("+-._()", c)); }
+
 template <typename T>
 inline void istringstream::read_number (T& v)
 {
@@ -102,11 +106,21 @@ inline void istringstream::read_number (T& v)
     if (!skip_delimiters())
 	return;
     ungetc();
+    size_type n = 0;	// strtol needs the entire number, followed by something else.
+    bool bSpace = true;
+    while ((n < remaining() || refill (n+1) > n) &&
+	    ((bSpace = bSpace && isspace (uint8_t(ipos()[n]))) || is_number_char (ipos()[n])))
+	++n;
+    const unsigned base = (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0;
     iterator ilast;
-    do {
-	str_to_num<T> (ipos(), &ilast, (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0, v);
+    if (n < remaining()) {
+	str_to_num<T> (ipos(), &ilast, base, v);
 	skip (distance (ipos(), ilast));
-    } while (ilast == end() && more());
+    } else {
+	const string num (ipos(), n);
+	str_to_num<T> (num.begin(), &ilast, base, v);
+	skip (distance (num.begin(), ilast));
+    }
 }
 
 void istringstream::iread (int& v)		{ read_number (v); }
-- 
2.43.0


From b5f1f6649d0c611f26786f85be44e5083cfe2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 047/140] fix: unsigned long values above LONG_MAX were read as
 LONG_MAX

---
 sistream.cc | 8 ++++++++
 sistream.h  | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index e4e1f9a..e4ee24d 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -88,6 +88,12 @@ inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, T& v)
     { v = strtol (i, const_cast<char**>(iend), base); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, double& v)
     { v = strtod (i, const_cast<char**>(iend)); }
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long& v)
+    { v = strtoul (i, const_cast<char**>(iend), base); }
+#if HAVE_LONG_LONG
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long long& v)
+    { v = strtoull (i, const_cast<char**>(iend), base); }
+#endif
 #if HAVE_LONG_LONG && SIZE_OF_LONG_LONG > SIZE_OF_LONG
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, long long& v)
     { v = strtoll (i, const_cast<char**>(iend), base); }
@@ -126,8 +132,10 @@ inline void istringstream::read_number (T& v)
 void istringstream::iread (int& v)		{ read_number (v); }
 void istringstream::iread (double& v)		{ read_number (v); } 
 void istringstream::iread (long& v)		{ read_number (v); }
+void istringstream::iread (unsigned long& v)	{ read_number (v); }
 #if HAVE_LONG_LONG
 void istringstream::iread (long long& v)	{ read_number (v); }
+void istringstream::iread (unsigned long long& v)	{ read_number (v); }
 #endif
 
 void istringstream::iread (wchar_t& v)
diff --git a/sistream.h b/sistream.h
index 214427a..5c39644 100644
--- a/sistream.h
+++ b/sistream.h
@@ -37,13 +37,13 @@ public:
     inline void			iread (short& v)		{ int c; iread(c); v = c; }
     inline void			iread (unsigned short& v)	{ int c; iread(c); v = c; }
     void			iread (long& v);
-    inline void			iread (unsigned long& v)	{ long c; iread(c); v = c; }
+    void			iread (unsigned long& v);
 #if HAVE_THREE_CHAR_TYPES
     void			iread (signed char& v)		{ char c; iread(c); v = c; }
 #endif
 #if HAVE_LONG_LONG
     void			iread (long long& v);
-    inline void			iread (unsigned long long& v)	{ long long c; iread(c); v = c; }
+    void			iread (unsigned long long& v);
 #endif
     void			iread (double& v);
     inline void			iread (float& v)		{ double c; iread(c); v = c; }
-- 
2.43.0


From 58c5c6f53b91b20b6ab1a4929c0424cca1006203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 048/140] fix: reading true or false at the end of the stream
 left the last letter unread

---
 sistream.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index e4ee24d..f96db21 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -159,9 +159,8 @@ void istringstream::iread (bool& v)
     v = (c == 't' || c == '1');
     if (c != tf[v][0])
 	return;
-    for (const char* tv = tf[v]; c == *tv && more(); ++tv)
-	istream::iread (c);
-    ungetc();
+    for (const char* tv = tf[v]; *++tv && more() && *ipos() == *tv;)
+	skip (1);
 }
 
 void istringstream::iread (string& v)
-- 
2.43.0


From 55f834d1c5b68352632421495996edfc9d035dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 049/140] fix: an escaped backslash in a word escaped the
 character after it

---
 sistream.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sistream.cc b/sistream.cc
index f96db21..0b9feaa 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -190,6 +190,7 @@ void istringstream::iread (string& v)
 		case '\\':	c = '\\'; break;
 	    };
 	    v.end()[-1] = c;
+	    c = 0;	// an escaped backslash does not escape the next character
 	} else {
 	    if (c == quoteChar)
 		break;
-- 
2.43.0


From cfac4f8c712719142c2b3195e3e3a74d2fdccd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 050/140] fix: istringstream::read at the end of the stream
 stopped at a nul and overwrote the last byte, get() returned 0

---
 sistream.cc | 7 +++----
 sistream.h  | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 0b9feaa..f426816 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -201,10 +201,9 @@ void istringstream::iread (string& v)
 
 istringstream& istringstream::read (void* buffer, size_type sz)
 {
-    if (remaining() < sz && underflow(sz) < sz)
-	get (static_cast<char*>(buffer), sz, 0);
-    else
-	istream::read (buffer, _gcount = sz);
+    if (remaining() < sz)
+	underflow (sz);
+    istream::read (buffer, _gcount = min (sz, remaining()));
     return *this;
 }
 
diff --git a/sistream.h b/sistream.h
index 5c39644..4916147 100644
--- a/sistream.h
+++ b/sistream.h
@@ -55,7 +55,7 @@ public:
     inline string		str (void) const	{ string s; s.link (*this); return s; }
     inline istringstream&	str (const string& s)	{ link (s); return *this; }
     inline istringstream&	get (char& c)	{ return read (&c, sizeof(c)); }
-    inline int			get (void)	{ char c = EOF; get(c); return c; }
+    inline int			get (void)	{ unsigned char c; read (&c, sizeof(c)); return _gcount ? c : EOF; }
     istringstream&		get (char* p, size_type n, char delim = '\n');
     istringstream&		get (string& s, char delim = '\n');
     istringstream&		getline (char* p, size_type n, char delim = '\n');
-- 
2.43.0


From 155f94e55d61904b6cc9d3a61f8614e2ecc307a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 051/140] fix: istringstream::peek at the end of the stream
 stepped back over the last character

---
 sistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.h b/sistream.h
index 4916147..0b379c4 100644
--- a/sistream.h
+++ b/sistream.h
@@ -61,7 +61,7 @@ public:
     istringstream&		getline (char* p, size_type n, char delim = '\n');
     istringstream&		getline (string& s, char delim = '\n');
     istringstream&		ignore (size_type n, char delim = '\0');
-    inline char			peek (void)	{ char v = get(); ungetc(); return v; }
+    inline int			peek (void)	{ return more() ? static_cast<unsigned char>(*ipos()) : EOF; }
     inline istringstream&	unget (void)	{ ungetc(); return *this; }
     inline void			set_delimiters (const char* delimiters);
     istringstream&		read (void* buffer, size_type size);
-- 
2.43.0


From c70932ae25b1f3e53cd3abd48863623c6ee3f59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 052/140] fix: istringstream::ignore set gcount wrong, and
 failed when reaching the end

---
 sistream.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index f426816..34ca9d1 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -267,9 +267,15 @@ istringstream& istringstream::getline (char* p, size_type n, char delim)
 /// Extract until \p delim or \p n chars have been read.
 istringstream& istringstream::ignore (size_type n, char delim)
 {
-    _gcount = n;
-    while (n-- && (remaining() || underflow()) && get() != delim) {}
-    _gcount -= n;
+    size_type nr = 0;
+    for (char c; nr < n && more(); ++nr) {
+	istream::iread (c);
+	if (c == delim) {
+	    ++nr;
+	    break;
+	}
+    }
+    _gcount = nr;
     return *this;
 }
 
-- 
2.43.0


From 0b989e48edadd9ead10fcc69af046f3b92e80338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 053/140] fix: getline into a buffer left the delimiter when it
 was the first character of the next block

---
 sistream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index 34ca9d1..6376a3c 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -257,7 +257,7 @@ istringstream& istringstream::getline (string& s, char delim)
 istringstream& istringstream::getline (char* p, size_type n, char delim)
 {
     get (p, n, delim);
-    if (remaining() && ipos()[0] == delim) {
+    if (more() && ipos()[0] == delim) {
 	skip (1);
 	++_gcount;
     }
-- 
2.43.0


From 2f84f3854f0967e722e1d48905d1c6688fe30416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:39 +0000
Subject: [PATCH 054/140] fix: istream_iterator dropped the last value of a
 text stream

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index 00e71ce..8959c8e 100644
--- a/mistream.h
+++ b/mistream.h
@@ -113,7 +113,7 @@ template <typename T>
 inline constexpr streamsize required_stream_size (T v, const istream&) { return stream_size_of(v); }
 
 template <typename Stream>
-inline constexpr bool stream_at_eof (const Stream& stm)	{ return stm.eof(); }
+inline constexpr bool stream_at_eof (const Stream& stm)	{ return stm.fail(); }
 template <>
 inline constexpr bool stream_at_eof (const istream&)	{ return false; }
 
-- 
2.43.0


From c04dc6437b97206a7be634d66bd999b7a88dd71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:27 +0000
Subject: [PATCH 055/140] fix: istream_iterator: an iterator at the end of the
 stream was less than another one at the end

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index 8959c8e..ff17f42 100644
--- a/mistream.h
+++ b/mistream.h
@@ -146,7 +146,7 @@ public:
     inline istream_iterator	operator- (streamoff n) const			{ istream_iterator result (*this); return result -= n; }
     constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / stream_size_of(_v); }
     constexpr bool		operator== (const istream_iterator& i) const	{ return (!_pis && !i._pis) || (_pis && i._pis && _pis->pos() == i._pis->pos()); }
-    constexpr bool		operator< (const istream_iterator& i) const	{ return !i._pis || (_pis && _pis->pos() < i._pis->pos()); }
+    constexpr bool		operator< (const istream_iterator& i) const	{ return _pis && (!i._pis || _pis->pos() < i._pis->pos()); }
 private:
     void Read (void)
     {
-- 
2.43.0


From 7aad5b2dd6d9ecb68abd6e427683af6ffcc8bff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 056/140] fix: ifstream: refilling the buffer discarded the
 characters still unread in it

---
 ofstream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 2d8a37a..6ebb935 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -145,9 +145,9 @@ ifstream::size_type ifstream::refill (size_type n)
 	_buffer.memlink::erase (_buffer.begin(), nToErase);
 	const uoff_t oldPos (pos() - nToErase);
 
-	size_type br = oldPos;
-	if (_buffer.size() - br < n) {
-	    _buffer.resize (br + neededFreeSpace);
+	size_type br = oldPos + remaining();	// keeping what has not been read yet
+	if (_buffer.size() - oldPos < n) {
+	    _buffer.resize (oldPos + neededFreeSpace);
 	    link (_buffer.data(), streamsize(0));
 	}
 	if (_file.fd() == STDIN_FILENO)
-- 
2.43.0


From f11b30055582fbaccc19637b91d61a484672d669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 057/140] fix: ifstream::seekg relative to the current position
 ignored the buffered characters

---
 ofstream.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 6ebb935..08153a2 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -179,8 +179,9 @@ int ifstream::sync (void)
 /// Seeks to \p p based on \p d.
 ifstream& ifstream::seekg (off_t p, seekdir d)
 {
-    _buffer.clear();
-    link (_buffer);
+    if (d == cur)
+	p -= remaining();	// the file is ahead by what is buffered
+    link (_buffer.data(), streamsize(0));
     _file.seekg (p, d);
     clear (_file.rdstate());
     return *this;
-- 
2.43.0


From f06c80f17966a6c0c6dc5b0ee108dcc44b9b1c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 058/140] fix: an ifstream opened again delivered the
 characters buffered from the previous file

---
 ofstream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ofstream.h b/ofstream.h
index 9f6ee8b..8db73a7 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -47,8 +47,8 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ _file.open (filename, mode); clear (_file.rdstate()); }
-    inline void		close (void)			{ _file.close(); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		close (void)			{ link (_buffer.data(), streamsize(0)); _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
     inline void		setstate (iostate v)		{ istringstream::setstate(v); _file.setstate(v); }
-- 
2.43.0


From ffb08ca52a96f5aac6d8fd3445d4508c3e7cfd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 059/140] fix: ifstream::putback without room overwrote the
 next character

---
 ofstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ofstream.h b/ofstream.h
index 8db73a7..4ac2918 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -58,7 +58,7 @@ public:
     inline void		stat (struct stat& rs) const	{ _file.stat (rs); }
     inline void		set_nonblock (bool v = true)	{ _file.set_nonblock (v); }
     void		set_buffer_size (size_type sz);
-    ifstream&		putback (char c)		{ ungetc(); _buffer[pos()] = c; return *this; }
+    ifstream&		putback (char c)		{ const bool hasRoom = pos(); ungetc(); if (hasRoom) _buffer[pos()] = c; return *this; }
     inline int		ioctl (const char* rname, int request, long argument = 0)	{ return _file.ioctl (rname, request, argument); }
     inline int		ioctl (const char* rname, int request, int argument)		{ return _file.ioctl (rname, request, argument); }
     inline int		ioctl (const char* rname, int request, void* argument)		{ return _file.ioctl (rname, request, argument); }
-- 
2.43.0


From 2c8f0f40df8aa0f6f476b8a63cfba864fdb2b5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 060/140] fix: ifstream::sync returned -1 on success and 0 on
 failure

---
 ofstream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index 08153a2..9f61c67 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -173,7 +173,7 @@ int ifstream::sync (void)
     istringstream::sync();
     underflow (0U);
     clear (_file.rdstate());
-    return -good();
+    return good() ? 0 : -1;
 }
 
 /// Seeks to \p p based on \p d.
-- 
2.43.0


From d6352ecd43d010cb98036031a738706b700a9ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:57 +0000
Subject: [PATCH 061/140] fix: an ifstream with exceptions enabled lost the end
 of the file

---
 ofstream.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index 9f61c67..48d1dba 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -5,7 +5,7 @@
 
 #include "ofstream.h"
 #include "ustring.h"
-#include "uexception.h"
+#include "ustdxept.h"
 #include <stdio.h>
 
 namespace ustl {
@@ -153,14 +153,19 @@ ifstream::size_type ifstream::refill (size_type n)
 	if (_file.fd() == STDIN_FILENO)
 	    cout.flush();
 
+	const iostate oldExceptions = _file.exceptions();
+	_file.exceptions (goodbit);		// do not throw until the buffer is consistent
 	size_type brn = 1;
 	for (; br < oldPos + n && brn && _file.good(); br += brn)
 	    brn = _file.readsome (_buffer.begin() + br, _buffer.size() - br);
+	_file.exceptions (oldExceptions);
 	clear (_file.rdstate());
 
 	_buffer[br] = 0;
 	link (_buffer.data(), br);
 	seek (oldPos);
+	if (!_file.eof() && (_file.rdstate() & oldExceptions))
+	    throw file_exception ("read", _file.name());
     }
     if (_file.eof())
 	istringstream::clear (remaining() < n ? eofbit : goodbit);
-- 
2.43.0


From ce4f32d547fff50156d94c1db1b7f77e6637dd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 062/140] fix: istringstream::get and getline at the end of a
 file stream must report failure

---
 sistream.cc | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/sistream.cc b/sistream.cc
index 6376a3c..047b83d 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -211,15 +211,15 @@ istringstream& istringstream::read (void* buffer, size_type sz)
 istringstream& istringstream::get (char* p, size_type n, char delim)
 {
     _gcount = 0;
-    if (!remaining())
-	underflow();	// fails if nothing is left
-    for (char c = 0, *pend = p+n-1; p < pend && more(); ++p, ++_gcount) {
-	istream::iread (c);
-	if (c == delim) {
-	    ungetc();
-	    break;
+    if (remaining() || underflow()) {	// fails if nothing is left
+	for (char c = 0, *pend = p+n-1; p < pend && more(); ++p, ++_gcount) {
+	    istream::iread (c);
+	    if (c == delim) {
+		ungetc();
+		break;
+	    }
+	    *p = c;
 	}
-	*p = c;
     }
     *p = 0;
     return *this;
@@ -230,8 +230,8 @@ istringstream& istringstream::get (string& v, char delim)
 {
     _gcount = 0;
     v.clear();
-    if (!remaining())
-	underflow();	// fails if nothing is left
+    if (!remaining() && !underflow())
+	return *this;	// fails if nothing is left
     while (more() && ipos()[0] != delim) {
 	const_iterator p = ipos();
 	size_type n = find (p, end(), delim) - p;
@@ -257,7 +257,7 @@ istringstream& istringstream::getline (string& s, char delim)
 istringstream& istringstream::getline (char* p, size_type n, char delim)
 {
     get (p, n, delim);
-    if (more() && ipos()[0] == delim) {
+    if ((remaining() || (_gcount && more())) && ipos()[0] == delim) {
 	skip (1);
 	++_gcount;
     }
-- 
2.43.0


From 3b6d50cffda8b41298ef363ac58c203b9911c493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 063/140] fix: a write error was not reported by ofstream, and
 made flush an endless loop

---
 ofstream.cc | 24 +++++++++++++++++++-----
 ofstream.h  |  2 ++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 48d1dba..7873fce 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -62,7 +62,7 @@ void ofstream::close (void)
 /// Flushes the buffer to the file.
 ostream& ofstream::flush (void)
 {
-    while (good() && pos() && overflow (capacity())) {}
+    while (good() && pos() && write_buffer()) {}
     return *this;
 }
 
@@ -78,13 +78,27 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
 /// Called when more buffer space (\p n bytes) is needed.
 ofstream::size_type ofstream::overflow (size_type n)
 {
-    if (_file.good() && n > capacity() - pos()) {
-	size_type bw = _file.write (cdata(), pos());
-	erase (begin(), bw);
-    }
+    if (_file.good() && n > capacity() - pos())
+	write_buffer();
     return ostringstream::overflow (n);
 }
 
+/// Writes the buffer to the file and returns the number of bytes written.
+ofstream::size_type ofstream::write_buffer (void)
+{
+    const iostate oldExceptions = _file.exceptions();
+    _file.exceptions (goodbit);		// what has been written must be erased before throwing
+    const size_type bw = _file.write (cdata(), pos());
+    _file.exceptions (oldExceptions);
+    erase (begin(), bw);
+    if (!_file.good()) {
+	setstate (_file.rdstate());
+	if (_file.rdstate() & oldExceptions)
+	    throw file_exception ("write", _file.name());
+    }
+    return bw;
+}
+
 //----------------------------------------------------------------------
 
 /// Constructs an unattached stream
diff --git a/ofstream.h b/ofstream.h
index 4ac2918..6494407 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -35,6 +35,8 @@ public:
     ofstream&		seekp (off_t p, seekdir d = beg);
     virtual ostream&	flush (void) override;
     virtual size_type	overflow (size_type n = 1) override;
+private:
+    size_type		write_buffer (void);
 private:
     fstream		_file;
 };
-- 
2.43.0


From 98e249c171e1319fb83272f74f26af000f4fd96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 064/140] fix: ofstream::close did not report failures, and
 left unwritten text for the next file

---
 ofstream.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ofstream.cc b/ofstream.cc
index 7873fce..afa873f 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -56,7 +56,12 @@ void ofstream::close (void)
 {
     clear (_file.rdstate());
     flush();
+    if (pos()) {	// can not be written any more
+	setstate (failbit);
+	erase (begin(), pos());
+    }
     _file.close();
+    clear (rdstate() | _file.rdstate());
 }
 
 /// Flushes the buffer to the file.
-- 
2.43.0


From 262c270e3070dc6c1937fb4ecc195dc7f87c1964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 065/140] fix: opening another file with an open ofstream wrote
 the text buffered for the first file into the second

---
 ofstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ofstream.h b/ofstream.h
index 6494407..bd4e56a 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); _file.open (filename, mode); clear (_file.rdstate()); }
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From bc9d1087cda9e874cf1170e68daf5fe682dd9ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 066/140] fix: ofstream::seekp moved text that could not be
 written to the new position

---
 ofstream.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index afa873f..2287149 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -75,8 +75,12 @@ ostream& ofstream::flush (void)
 ofstream& ofstream::seekp (off_t p, seekdir d)
 {
     flush();
-    _file.seekp (p, d);
-    clear (_file.rdstate());
+    if (pos())		// what is left belongs to the current position
+	setstate (failbit);
+    else {
+	_file.seekp (p, d);
+	clear (_file.rdstate());
+    }
     return *this;
 }
 
-- 
2.43.0


From 99adca65d954b20dba0e67b2e90c975ddcf510ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 067/140] fix: fstream closed its descriptor twice when close
 failed and exceptions were enabled

---
 fstream.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 37e9cc5..d8760ef 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -118,12 +118,11 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    while (::close(_fd)) {
-	if (errno != EINTR) {
-	    set_and_throw (badbit | failbit, "close");
-	    break;
-	}
-    }
+    int rv;
+    while ((rv = ::close(_fd)) && errno == EINTR) {}
+    _fd = -1;			// even after an error
+    if (rv)
+	set_and_throw (badbit | failbit, "close");
     detach();
 }
 
-- 
2.43.0


From 18746d402f35fd95efce71c16375930a1dab236a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 068/140] fix: fstream forgot the name of a file opened while
 another one was open

---
 fstream.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index d8760ef..5cc1300 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -64,11 +64,12 @@ void fstream::set_and_throw (iostate s, const char* op)
 void fstream::attach (int nfd, const char* filename)
 {
     assert (filename && "Don't do that");
-    _filename = filename;
     clear (goodbit);
-    if (nfd < 0)
-	set_and_throw (badbit, "open");
+    if (nfd < 0 && ios_base::set_and_throw (badbit))
+	throw file_exception ("open", filename);
+    const string newName (filename);	// close erases the current name
     close();
+    _filename = newName;
     _fd = nfd;
 }
 
-- 
2.43.0


From 03076532729c3fc3d7bf0188d5035245ed7fe82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 069/140] fix: fstream::read from a nonblocking file without
 data never returned

---
 fstream.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 5cc1300..6a213df 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -146,8 +146,8 @@ off_t fstream::pos (void) const noexcept
 off_t fstream::read (void* p, off_t n)
 {
     off_t br = 0;
-    while ((br < n) & good())
-	br += readsome (advance_ptr(p,br), n-br);
+    for (off_t brn = 1; brn && (br < n) & good(); br += brn)
+	brn = readsome (advance_ptr(p,br), n-br);
     return br;
 }
 
-- 
2.43.0


From 800466f855bd392c1249a044497be648423dc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 070/140] fix: a failed fstream::mmap returned a link to
 invalid memory

---
 fstream.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstream.cc b/fstream.cc
index 6a213df..7108a17 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -242,8 +242,10 @@ void fstream::set_nonblock (bool v) noexcept
 memlink fstream::mmap (off_t n, off_t offset)
 {
     void* result = ::mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, _fd, offset);
-    if (result == MAP_FAILED)
+    if (result == MAP_FAILED) {
 	set_and_throw (failbit, "mmap");
+	return memlink();
+    }
     return memlink (result, n);
 }
 
-- 
2.43.0


From 2c9aebdcfa5ef804122f08b0a0c4492bb5397f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 071/140] fix: fstream::set_nonblock terminated the program
 when failing with exceptions enabled

---
 fstream.cc | 2 +-
 fstream.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index 7108a17..e52e553 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -228,7 +228,7 @@ int fstream::fcntl (const char* rname, int request, long argument)
     return rv;
 }
 
-void fstream::set_nonblock (bool v) noexcept
+void fstream::set_nonblock (bool v)
 {
     int curf = max (0, fcntl (FCNTLID (F_GETFL)));
     if (v) curf |=  O_NONBLOCK;
diff --git a/fstream.h b/fstream.h
index 1f973b8..cd27fd4 100644
--- a/fstream.h
+++ b/fstream.h
@@ -44,7 +44,7 @@ public:
     int			fcntl (const char* rname, int request, long argument = 0);
     inline int		fcntl (const char* rname, int request, int argument)	{ return fstream::fcntl (rname, request, long(argument)); }
     inline int		fcntl (const char* rname, int request, void* argument)	{ return fstream::fcntl (rname, request, intptr_t(argument)); }
-    void		set_nonblock (bool v = true) noexcept;
+    void		set_nonblock (bool v = true);
 #if HAVE_SYS_MMAN_H
     memlink		mmap (off_t n, off_t offset = 0);
     void		munmap (memlink& l);
-- 
2.43.0


From 35cffe8aa35e11319695ff191cd485533c202992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 072/140] fix: a descriptor leaked when closing the previous
 one failed in fstream::open

---
 fstream.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/fstream.cc b/fstream.cc
index e52e553..8218bf8 100644
--- a/fstream.cc
+++ b/fstream.cc
@@ -60,6 +60,14 @@ void fstream::set_and_throw (iostate s, const char* op)
 	throw file_exception (op, name());
 }
 
+/// Closes \p fd and returns zero if successful.
+static int close_fd (int fd) noexcept
+{
+    int rv;
+    while ((rv = ::close(fd)) && errno == EINTR) {}
+    return rv;
+}
+
 /// Attaches to the given \p nfd.
 void fstream::attach (int nfd, const char* filename)
 {
@@ -67,10 +75,11 @@ void fstream::attach (int nfd, const char* filename)
     clear (goodbit);
     if (nfd < 0 && ios_base::set_and_throw (badbit))
 	throw file_exception ("open", filename);
-    const string newName (filename);	// close erases the current name
-    close();
-    _filename = newName;
-    _fd = nfd;
+    string oldName (filename);
+    _filename.swap (oldName);
+    ::ustl::swap (_fd, nfd);		// now nfd is the old one, and closing it may fail
+    if (nfd >= 0 && close_fd (nfd) && ios_base::set_and_throw (badbit | failbit))
+	throw file_exception ("close", oldName);
 }
 
 /// Detaches from the current fd.
@@ -119,8 +128,7 @@ void fstream::close (void)
 {
     if (_fd < 0)
 	return;	// already closed
-    int rv;
-    while ((rv = ::close(_fd)) && errno == EINTR) {}
+    const int rv = close_fd (_fd);
     _fd = -1;			// even after an error
     if (rv)
 	set_and_throw (badbit | failbit, "close");
-- 
2.43.0


From f6fbbbf6a998fd7b72f16cae68ee81a558cea056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 073/140] fix: ofstream opened with only ios::app or ios::trunc
 used an invalid access mode

---
 ofstream.cc | 4 ++--
 ofstream.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 2287149..431f789 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -38,7 +38,7 @@ ofstream::ofstream (int ofd)
 /// Constructs a stream for writing to \p filename.
 ofstream::ofstream (const char* filename, openmode mode)
 : ostringstream()
-,_file (filename, mode)
+,_file (filename, mode | out)
 {
     clear (_file.rdstate());
 }
@@ -132,7 +132,7 @@ ifstream::ifstream (int ifd)
 ifstream::ifstream (const char* filename, openmode mode)
 : istringstream()
 ,_buffer()
-,_file (filename, mode)
+,_file (filename, mode | in)
 {
     set_buffer_size (default_stream_buffer_size);
     clear (_file.rdstate());
diff --git a/ofstream.h b/ofstream.h
index bd4e56a..bc8d831 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); _file.open (filename, mode | out); clear (_file.rdstate()); }
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
@@ -49,7 +49,7 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode | in); clear (_file.rdstate()); }
     inline void		close (void)			{ link (_buffer.data(), streamsize(0)); _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From 45df3759a4862f628f02d3a582d19214ec4db115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:17 +0000
Subject: [PATCH 074/140] fix: formatted text that did not fit the stream was
 counted with its terminating nul

---
 sostream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sostream.cc b/sostream.cc
index bb91a66..bff3790 100644
--- a/sostream.cc
+++ b/sostream.cc
@@ -141,7 +141,7 @@ int ostringstream::vformat (const char* fmt, va_list args)
 	if (0 > (rv = vsnprintf (ipos(), space, fmt, args2)))
 	    return rv;
     } while (rv >= space && rv < int(overflow(rv+1)));
-    SetPos (pos() + min (rv, space));
+    SetPos (pos() + (rv < space ? rv : max (space-1, 0)));	// what is truncated is ended by a nul
     return rv;
 }
 
-- 
2.43.0


From 35d3ca5969e3c3076c6d3844e569de6de9ed1425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:27 +0000
Subject: [PATCH 075/140] fix: a failing open, close, or seek of an ifstream or
 ofstream that throws left its state good

---
 ofstream.cc | 7 ++++++-
 ofstream.h  | 6 +++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ofstream.cc b/ofstream.cc
index 431f789..840fe08 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -60,8 +60,10 @@ void ofstream::close (void)
 	setstate (failbit);
 	erase (begin(), pos());
     }
+    const iostate oldState = rdstate();
+    ostringstream::clear (badbit | failbit);	// in case it throws
     _file.close();
-    clear (rdstate() | _file.rdstate());
+    clear (oldState | _file.rdstate());
 }
 
 /// Flushes the buffer to the file.
@@ -78,6 +80,7 @@ ofstream& ofstream::seekp (off_t p, seekdir d)
     if (pos())		// what is left belongs to the current position
 	setstate (failbit);
     else {
+	ostringstream::setstate (failbit);	// in case it throws
 	_file.seekp (p, d);
 	clear (_file.rdstate());
     }
@@ -125,6 +128,7 @@ ifstream::ifstream (int ifd)
 ,_buffer()
 ,_file (ifd)
 {
+    clear (_file.rdstate());
     set_buffer_size (default_stream_buffer_size);
 }
 
@@ -210,6 +214,7 @@ ifstream& ifstream::seekg (off_t p, seekdir d)
     if (d == cur)
 	p -= remaining();	// the file is ahead by what is buffered
     link (_buffer.data(), streamsize(0));
+    istringstream::setstate (failbit);	// in case it throws
     _file.seekg (p, d);
     clear (_file.rdstate());
     return *this;
diff --git a/ofstream.h b/ofstream.h
index bc8d831..2482dcb 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); _file.open (filename, mode | out); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); ostringstream::clear (badbit); _file.open (filename, mode | out); clear (_file.rdstate()); }
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
@@ -49,8 +49,8 @@ public:
 			ifstream (void);
     explicit		ifstream (int ifd);
     explicit		ifstream (const char* filename, openmode mode = in);
-    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); _file.open (filename, mode | in); clear (_file.rdstate()); }
-    inline void		close (void)			{ link (_buffer.data(), streamsize(0)); _file.close(); clear (_file.rdstate()); }
+    inline void		open (const char* filename, openmode mode = in)	{ link (_buffer.data(), streamsize(0)); istringstream::clear (badbit); _file.open (filename, mode | in); clear (_file.rdstate()); }
+    inline void		close (void)			{ link (_buffer.data(), streamsize(0)); istringstream::clear (badbit | failbit); _file.close(); clear (_file.rdstate()); }
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ istringstream::exceptions(v); return _file.exceptions(v); }
     inline void		setstate (iostate v)		{ istringstream::setstate(v); _file.setstate(v); }
-- 
2.43.0


From 7b74e64d84710f52ce260d789b3b74aabd4da6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:06 +0000
Subject: [PATCH 076/140] fix: ofstream::open hid a failure to write and close
 the previous file

---
 ofstream.cc | 14 ++++++++++++++
 ofstream.h  |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ofstream.cc b/ofstream.cc
index 840fe08..246abc8 100644
--- a/ofstream.cc
+++ b/ofstream.cc
@@ -51,6 +51,20 @@ ofstream::~ofstream (void) noexcept
 	_file.detach();
 }
 
+/// Opens \p filename. If another file is open, flushes and closes it, and keeps the failure to do so in the state.
+void ofstream::open (const char* filename, openmode mode)
+{
+    iostate oldState = goodbit;
+    if (is_open()) {
+	clear();
+	close();
+	oldState = rdstate();
+    }
+    ostringstream::clear (badbit);	// in case it throws
+    _file.open (filename, mode | out);
+    clear (oldState | _file.rdstate());
+}
+
 /// Flushes the buffer and closes the file.
 void ofstream::close (void)
 {
diff --git a/ofstream.h b/ofstream.h
index 2482dcb..0103ff0 100644
--- a/ofstream.h
+++ b/ofstream.h
@@ -19,7 +19,7 @@ public:
     explicit		ofstream (int ofd);
     explicit		ofstream (const char* filename, openmode mode = out);
     virtual		~ofstream (void) noexcept;
-    inline void		open (const char* filename, openmode mode = out) { if (is_open()) close(); ostringstream::clear (badbit); _file.open (filename, mode | out); clear (_file.rdstate()); }
+    void		open (const char* filename, openmode mode = out);
     void		close (void);
     inline bool		is_open (void) const		{ return _file.is_open(); }
     inline iostate	exceptions (iostate v)		{ ostringstream::exceptions(v); return _file.exceptions(v); }
-- 
2.43.0


From fc01e0ddb4926943d1be1a283c684cdaa3952193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 077/140] fix: auto_ptr operator< compared in reverse

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 13ec13a..31a365c 100644
--- a/umemory.h
+++ b/umemory.h
@@ -51,7 +51,7 @@ public:
     inline pointer	operator-> (void) const		{ return _p; }
     inline bool		operator== (const pointer p) const	{ return _p == p; }
     inline bool		operator== (const auto_ptr<T>& p) const	{ return _p == p._p; }
-    inline bool		operator< (const auto_ptr<T>& p) const	{ return p._p < _p; }
+    inline bool		operator< (const auto_ptr<T>& p) const	{ return _p < p._p; }
 private:
     pointer		_p;
 };
-- 
2.43.0


From a45cb144f9891f7327daf98526ac60d5b01c5fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 078/140] fix: shared_ptr use_count and unique do not compile

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 31a365c..e6ff014 100644
--- a/umemory.h
+++ b/umemory.h
@@ -178,7 +178,7 @@ public:
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
-    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs : 0; }
+    inline constexpr size_t	use_count (void) const		{ return _p ? _p->refs.load() : 0; }
     inline constexpr bool	unique (void) const		{ return use_count() == 1; }
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
-- 
2.43.0


From 566002b510a73f61d7c16f6318f7cb4721b73f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 079/140] fix: shared_ptr copy assignment does not compile and
 would release before sharing

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index e6ff014..6ef72a0 100644
--- a/umemory.h
+++ b/umemory.h
@@ -192,7 +192,7 @@ public:
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
     inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
-    inline shared_ptr&		operator= (const shared_ptr& p)	{ reset(); _p = p; if (_p) ++_p->refs; return *this; }
+    inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr t (p); swap (t); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
     inline constexpr reference	operator[] (size_t i) const	{ return get()[i]; }
-- 
2.43.0


From 71e97504da22a1f8065b18b0f9e0fa61d95aeead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 080/140] fix: shared_ptr move assignment kept the old object
 in the source

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 6ef72a0..915e8f7 100644
--- a/umemory.h
+++ b/umemory.h
@@ -191,7 +191,7 @@ public:
     inline void			swap (shared_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return get(); }
     inline shared_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-    inline shared_ptr&		operator= (shared_ptr&& p)	{ swap (p); return *this; }
+    inline shared_ptr&		operator= (shared_ptr&& p)	{ shared_ptr t (move(p)); swap (t); return *this; }
     inline shared_ptr&		operator= (const shared_ptr& p)	{ shared_ptr t (p); swap (t); return *this; }
     inline constexpr reference	operator* (void) const		{ return *get(); }
     inline constexpr pointer	operator-> (void) const		{ return get(); }
-- 
2.43.0


From 335519f25901301af9eb23f8a32a8cc9f5ac4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 081/140] fix: shared_ptr leaks the object when the count can
 not be allocated

---
 umemory.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/umemory.h b/umemory.h
index 915e8f7..e233a08 100644
--- a/umemory.h
+++ b/umemory.h
@@ -174,7 +174,7 @@ private:
     };
 public:
     inline constexpr		shared_ptr (void)		: _p (nullptr) {}
-    inline explicit		shared_ptr (pointer p)		: _p (new container (p)) {}
+    inline explicit		shared_ptr (pointer p)		: _p (own (p)) {}
     inline			shared_ptr (shared_ptr&& p)	: _p (p._p) { p._p = nullptr; }
     inline			shared_ptr (const shared_ptr& p): _p (p._p) { if (_p) ++_p->refs; }
     inline			~shared_ptr (void)		{ reset(); }
@@ -183,8 +183,9 @@ public:
     inline constexpr pointer	get (void) const		{ return _p ? _p->p : nullptr; }
     void			reset (pointer p = nullptr) {
 				    assert (p != get() || !p);
+				    auto nv = p ? own(p) : nullptr;
 				    auto ov = _p;
-				    _p = p ? new container(p) : nullptr;
+				    _p = nv;
 				    if (ov && !--ov->refs)
 					delete ov;
 				}
@@ -200,6 +201,9 @@ public:
     inline constexpr bool	operator!= (const pointer p) const	{ return get() != p; }
     inline constexpr bool	operator== (const shared_ptr& p) const	{ return get() == p.get(); }
     inline constexpr bool	operator< (const shared_ptr& p) const	{ return get() < p.get(); }
+private:
+    /// Creates a container for \p p, which is deleted if that fails.
+    static inline container*	own (pointer p)	{ unique_ptr<T> g (p); auto c = new container (p); g.release(); return c; }
 private:
     container*			_p;
 };
-- 
2.43.0


From cf9d3fd54c49857d9c332a49f70a0b89a07d2e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:57 +0000
Subject: [PATCH 082/140] fix: unique_ptr of an array can not be reset to null
 when empty

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index e233a08..c7f8808 100644
--- a/umemory.h
+++ b/umemory.h
@@ -112,7 +112,7 @@ public:
     inline			~unique_ptr (void)		{ delete [] _p; }
     inline constexpr pointer	get (void) const		{ return _p; }
     inline pointer			release (void)			{ auto rv (_p); _p = nullptr; return rv; }
-    inline void			reset (pointer p)		{ assert (p != _p); auto ov (_p); _p = p; delete [] ov; }
+    inline void			reset (pointer p = nullptr)	{ assert (p != _p || !p); auto ov (_p); _p = p; delete [] ov; }
     inline void			swap (unique_ptr& v)		{ ::ustl::swap (_p, v._p); }
     inline constexpr explicit	operator bool (void) const	{ return _p != nullptr; }
     inline unique_ptr&		operator= (pointer p)		{ reset (p); return *this; }
-- 
2.43.0


From ee169209aefa80611e8666ff4d7d7ba95a97cb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 083/140] fix: atomic postfix operators do not compile

---
 uatomic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index e030139..adf91b7 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -67,8 +67,8 @@ public:
 			    { return __atomic_xor_fetch (&_v, v, order); }
     inline		operator T (void) const	{ return load(); }
     inline atomic&	operator= (T v)		{ store(v); return *this; }
-    inline atomic	operator++ (int)	{ return fetch_add (1); }
-    inline atomic	operator-- (int)	{ return fetch_sub (1); }
+    inline T		operator++ (int)	{ return fetch_add (1); }
+    inline T		operator-- (int)	{ return fetch_sub (1); }
     inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
     inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
     inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-- 
2.43.0


From ff123b6cf523ad5d022726941538c4db6867d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 084/140] fix: atomic increments and decrements returned a
 value read again later

---
 uatomic.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/uatomic.h b/uatomic.h
index adf91b7..a5fb7d3 100644
--- a/uatomic.h
+++ b/uatomic.h
@@ -69,13 +69,13 @@ public:
     inline atomic&	operator= (T v)		{ store(v); return *this; }
     inline T		operator++ (int)	{ return fetch_add (1); }
     inline T		operator-- (int)	{ return fetch_sub (1); }
-    inline atomic&	operator++ (void)	{ add_fetch (1); return *this; }
-    inline atomic&	operator-- (void)	{ sub_fetch (1); return *this; }
-    inline atomic&	operator+= (T v)	{ add_fetch (v); return *this; }
-    inline atomic&	operator-= (T v)	{ sub_fetch (v); return *this; }
-    inline atomic&	operator&= (T v)	{ and_fetch (v); return *this; }
-    inline atomic&	operator|= (T v)	{  or_fetch (v); return *this; }
-    inline atomic&	operator^= (T v)	{ xor_fetch (v); return *this; }
+    inline T		operator++ (void)	{ return add_fetch (1); }
+    inline T		operator-- (void)	{ return sub_fetch (1); }
+    inline T		operator+= (T v)	{ return add_fetch (v); }
+    inline T		operator-= (T v)	{ return sub_fetch (v); }
+    inline T		operator&= (T v)	{ return and_fetch (v); }
+    inline T		operator|= (T v)	{ return or_fetch (v); }
+    inline T		operator^= (T v)	{ return xor_fetch (v); }
 };
 #define ATOMIC_VAR_INIT	{0}
 
-- 
2.43.0


From 23a779e2bc0400b5af6dbd39b5f4675edc391d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 085/140] fix: BitMask of no bits was a mask of all

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index a63ca1c..43f6ef4 100644
--- a/uutility.h
+++ b/uutility.h
@@ -21,7 +21,7 @@ namespace ustl {
 #define BitsInType(t)	(sizeof(t) * CHAR_BIT)
 
 /// Returns the mask of type \p t with the lowest \p n bits set.
-#define BitMask(t,n)	(t(~t(0)) >> (BitsInType(t) - (n)))
+#define BitMask(t,n)	((n) ? t(t(~t(0)) >> ((BitsInType(t) - (n)) % BitsInType(t))) : t(0))
 
 /// Argument that is used only in debug builds (as in an assert)
 #ifndef NDEBUG
-- 
2.43.0


From 169305893bc0b5426d45218b0300b9f28adfb050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 086/140] fix: bitset range set left the bits that were already
 set

---
 ubitset.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ubitset.h b/ubitset.h
index bdf0d8b..fa42f2d 100644
--- a/ubitset.h
+++ b/ubitset.h
@@ -80,12 +80,16 @@ public:
 			    br = val ? bOn : bOff;
 			}
 			// Sets the value of the bitrange \p first through \p last to the equivalent number of bits from \p v.
-    constexpr void	set (uoff_t first, uoff_t DebugArg(last), value_type v)
+    constexpr void	set (uoff_t first, uoff_t last, value_type v)
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
-			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
+			    assert (first / s_WordBits == (last - (first != last)) / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
 			    assert ((v & BitMask(value_type,distance(first,last))) == v && "The value is too large to fit in the given bit range");
-			    BitRef(first) |= v << (first % s_WordBits);
+			    if (first == last)
+				return;
+			    const value_type mask (BitMask(value_type,distance(first,last)) << (first % s_WordBits));
+			    value_type& br (BitRef (first));
+			    br = (br & ~mask) | ((v << (first % s_WordBits)) & mask);
 			}
     			/// Clears the bit \p n.
     constexpr void	reset (uoff_t n)		{ set (n, false); }
@@ -101,8 +105,8 @@ public:
     constexpr value_type at (uoff_t first, uoff_t last) const
 			{
 			    assert (size_t (distance (first, last)) <= s_WordBits && "Bit ranges must be 32 bits or smaller");
-			    assert (first / s_WordBits == last / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
-			    return (BitRef(first) >> (first % s_WordBits)) & BitMask(value_type,distance(first, last));
+			    assert (first / s_WordBits == (last - (first != last)) / s_WordBits && "Bit ranges can not cross dword (4 byte) boundary");
+			    return first == last ? 0 : (BitRef(first) >> (first % s_WordBits)) & BitMask(value_type,distance(first, last));
 			}
     constexpr bool	any (void) const	{ value_type sum = 0; foreach (const_iterator, i, *this) sum |= *i; return sum; }
     constexpr bool	none (void) const	{ return !any(); }
-- 
2.43.0


From 3df64e49be261b0fbd619fa442c6d54f90287d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:42 +0000
Subject: [PATCH 087/140] fix: BitMask of a narrow type keeps its promoted
 type, as it printed before

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index 43f6ef4..f65d6b4 100644
--- a/uutility.h
+++ b/uutility.h
@@ -21,7 +21,7 @@ namespace ustl {
 #define BitsInType(t)	(sizeof(t) * CHAR_BIT)
 
 /// Returns the mask of type \p t with the lowest \p n bits set.
-#define BitMask(t,n)	((n) ? t(t(~t(0)) >> ((BitsInType(t) - (n)) % BitsInType(t))) : t(0))
+#define BitMask(t,n)	((n) ? (t(~t(0)) >> ((BitsInType(t) - (n)) % BitsInType(t))) : 0)
 
 /// Argument that is used only in debug builds (as in an assert)
 #ifndef NDEBUG
-- 
2.43.0


From d73231cdc7cf26d760eff8dc5643f9700104f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:45 +0000
Subject: [PATCH 088/140] fix: packed operations of three operands do not
 compile

---
 simd.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index 74d97a1..1be6d49 100644
--- a/simd.h
+++ b/simd.h
@@ -51,8 +51,10 @@ template <typename Ctr, typename BinaryOperation>
 inline void packop (const Ctr& op1, const Ctr& op2, Ctr& result, BinaryOperation op)
 {
     assert (op1.size() <= op2.size() && op1.size() <= result.size());
-    passign (op1, result);
-    op (op2, result);
+    typename Ctr::const_iterator i1 (op1.begin()), i2 (op2.begin());
+    typename Ctr::iterator d (result.begin());
+    for (; i1 != op1.end(); ++i1, ++i2, ++d)
+	*d = op (*i1, *i2);
 }
 
 /// Copies \p op1 into \p result.
-- 
2.43.0


From 03619631fc5c1906ac1258655a93209047fe1e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 089/140] fix: converting constructor of matrix does not
 compile

---
 umatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umatrix.h b/umatrix.h
index ddf7e8c..c610a13 100644
--- a/umatrix.h
+++ b/umatrix.h
@@ -34,7 +34,7 @@ public:
 public:
     inline			matrix (void)			: tuple<NX*NY,T>() { }
     template <typename T2>
-    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T2>(src) {}
+    inline			matrix (const matrix<NX,NY,T2>& src) : tuple<NX*NY,T>(src) {}
     inline			matrix (const matrix<NX,NY,T>& src) : tuple<NX*NY,T>(src) {}
     inline size_type		columns (void) const		{ return NX; }
     inline size_type		rows (void) const		{ return NY; }
-- 
2.43.0


From eb7de8058840c364ba8b27acee72a986c2841575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 090/140] fix: unary packed operations discarded their results

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 1be6d49..ac778ef 100644
--- a/simd.h
+++ b/simd.h
@@ -32,7 +32,7 @@ template <typename Ctr, typename UnaryOperation>
 inline void packop (Ctr& op1, UnaryOperation op)
 {
     foreach (typename Ctr::iterator, i, op1)
-	op (*i);
+	*i = op (*i);
 }
 
 /// Applies \p op to each element in \p op1 and \p op2 and stores in \p op2.
-- 
2.43.0


From 2c4e91deb45fdd6d091e6dc473d1c5c2c75d3a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 091/140] fix: saturated operations on signed values overflowed

---
 simd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd.h b/simd.h
index ac778ef..fdda613 100644
--- a/simd.h
+++ b/simd.h
@@ -86,8 +86,8 @@ inline void pconvert (const Ctr1& op1, Ctr2& op2, ConvertFunction f)
 }
 
 // Functionoids for SIMD operations, like saturation arithmetic, shifts, etc.
-STD_BINARY_FUNCTOR (fpadds, T, ((b > numeric_limits<T>::max() - a) ? numeric_limits<T>::max() : a + b))
-STD_BINARY_FUNCTOR (fpsubs, T, ((a < numeric_limits<T>::min() + b) ? numeric_limits<T>::min() : a - b))
+STD_BINARY_FUNCTOR (fpadds, T, (b > 0 ? (a > numeric_limits<T>::max() - b ? numeric_limits<T>::max() : a + b) : (a < numeric_limits<T>::lowest() - b ? numeric_limits<T>::lowest() : a + b)))
+STD_BINARY_FUNCTOR (fpsubs, T, (b > 0 ? (a < numeric_limits<T>::lowest() + b ? numeric_limits<T>::lowest() : a - b) : (a > numeric_limits<T>::max() + b ? numeric_limits<T>::max() : a - b)))
 STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
-- 
2.43.0


From c848a8c23b10655ac02c8c8e233092d8f6b3ee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 092/140] fix: average of large or negative values

---
 simd.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simd.h b/simd.h
index fdda613..330275e 100644
--- a/simd.h
+++ b/simd.h
@@ -92,7 +92,7 @@ STD_BINARY_FUNCTOR (fpshl,  T, (a << b))
 STD_BINARY_FUNCTOR (fpshr,  T, (a >> b))
 STD_BINARY_FUNCTOR (fpmin,  T, (min (a, b)))
 STD_BINARY_FUNCTOR (fpmax,  T, (max (a, b)))
-STD_BINARY_FUNCTOR (fpavg,  T, ((a + b + 1) / 2))
+STD_BINARY_FUNCTOR (fpavg,  T, ((a | b) - ((a ^ b) >> 1)))	// (a+b+1)/2 without overflow
 STD_CONVERSION_FUNCTOR (fcast, (D(a)))
 #if HAVE_MATH_H
 STD_UNARY_FUNCTOR (fpreciprocal,T, (1 / a))
@@ -109,6 +109,7 @@ STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rint(a))))
 template <> inline int32_t fround<double,int32_t>::operator()(const double& a) const { reset_mmx(); return int32_t(rint(a)); }
 #endif
 template <> inline float fpavg<float>::operator()(const float& a, const float& b) const { return (a + b) / 2; }
+template <> inline long double fpavg<long double>::operator()(const long double& a, const long double& b) const { return (a + b) / 2; }
 template <> inline double fpavg<double>::operator()(const double& a, const double& b) const { return (a + b) / 2; }
 
 #define SIMD_PACKEDOP1(name, operation)		\
@@ -345,9 +346,7 @@ MMX_DBL_PKOP2_SPEC(4,int32_t,bitwise_xor,pxor)
 
 #if __SSE2__ || __3DNOW__
 MMX_PKOP2_SPEC(8,uint8_t,fpavg,pavgb)
-MMX_PKOP2_SPEC(8,int8_t,fpavg,pavgb)
 MMX_PKOP2_SPEC(4,uint16_t,fpavg,pavgw)
-MMX_PKOP2_SPEC(4,int16_t,fpavg,pavgw)
 MMX_PKOP2_SPEC(8,uint8_t,fpmin,pminub)
 MMX_PKOP2_SPEC(8,uint8_t,fpmax,pmaxub)
 MMX_PKOP2_SPEC(4,int16_t,fpmax,pmaxsw)
-- 
2.43.0


From fd1c7d9742ddd5a32f4b85b79d493268eb011af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:21 +0000
Subject: [PATCH 093/140] fix: SSE packed operations clobber a register they do
 not declare

---
 simd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simd.h b/simd.h
index 330275e..b01c5fd 100644
--- a/simd.h
+++ b/simd.h
@@ -390,7 +390,7 @@ MMX_DBL_IPASSIGN_SPEC(4,int32_t)
 #endif // __MMX__
 
 #if __SSE__
-#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "memory"
+#define STD_SSE_ARGS	: "m"(oout[0]), "m"(oin[0]) : "xmm0", "xmm1", "memory"
 #define SSE_PKOP2_SPEC(n,type,optype,instruction)	\
 SIMD_PKOP2_SPEC(n,type,optype)		\
 { asm ("movups %0, %%xmm0\n\tmovups %1, %%xmm1\n\t" #instruction " %%xmm1, %%xmm0\n\tmovups %%xmm0, %0" : STD_SSE_ARGS);}
-- 
2.43.0


From 912053ef1fc370eb98ebe9ff907c4ec53c755666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:11 +0000
Subject: [PATCH 094/140] fix: rounding through float loses precision

---
 simd.h | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/simd.h b/simd.h
index b01c5fd..a641e86 100644
--- a/simd.h
+++ b/simd.h
@@ -101,11 +101,7 @@ STD_UNARY_FUNCTOR (fprecipsqrt,	T, (reset_mmx(), 1 / T(sqrt (a))))
 STD_UNARY_FUNCTOR (fsin,	T, (reset_mmx(), T (sin (a))))
 STD_UNARY_FUNCTOR (fcos,	T, (reset_mmx(), T (cos (a))))
 STD_UNARY_FUNCTOR (ftan,	T, (reset_mmx(), T (tan (a))))
-#if HAVE_RINTF
-STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rintf(a))))
-#else
 STD_CONVERSION_FUNCTOR (fround, (reset_mmx(), D(rint(a))))
-#endif
 template <> inline int32_t fround<double,int32_t>::operator()(const double& a) const { reset_mmx(); return int32_t(rint(a)); }
 #endif
 template <> inline float fpavg<float>::operator()(const float& a, const float& b) const { return (a + b) / 2; }
@@ -435,13 +431,6 @@ template <> inline int32_t fround<float,int32_t>::operator()(const float& a) con
 	 : "=r"(rv) : "m"(a) : "xmm0" );
     return rv;
 }
-template <> inline uint32_t fround<float,uint32_t>::operator()(const float& a) const {
-    uint32_t rv;
-    asm ("movss %1, %%xmm0\n\t"
-	 "cvtss2si %%xmm0, %0"
-	 : "=r"(rv) : "m"(a) : "xmm0" );
-    return rv;
-}
 
 SSE_IPASSIGN_SPEC(4,float)
 SSE_IPASSIGN_SPEC(4,int32_t)
-- 
2.43.0


From 16d91eaaa9cf1217db627ac9ab91004689da85e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 095/140] fix: array operations with a short list read past its
 end

---
 uarray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/uarray.h b/uarray.h
index aa89cbc..0aa82a9 100644
--- a/uarray.h
+++ b/uarray.h
@@ -30,14 +30,14 @@ public:
 public:
 #if HAVE_CPP11
     using initlist_t = std::initializer_list<value_type>;
-    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] += v.begin()[i]; return *this; }
-    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] -= v.begin()[i]; return *this; }
-    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] *= v.begin()[i]; return *this; }
-    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N; ++i) _v[i] /= v.begin()[i]; return *this; }
-    constexpr auto		operator+ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] + v.begin()[i]; return result; }
-    constexpr auto		operator- (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] - v.begin()[i]; return result; }
-    constexpr auto		operator* (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] * v.begin()[i]; return result; }
-    constexpr auto		operator/ (initlist_t v) const		{ array result; for (size_type i = 0; i < N; ++i) result[i] = _v[i] / v.begin()[i]; return result; }
+    constexpr auto&		operator+= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] += v.begin()[i]; return *this; }
+    constexpr auto&		operator-= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] -= v.begin()[i]; return *this; }
+    constexpr auto&		operator*= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] *= v.begin()[i]; return *this; }
+    constexpr auto&		operator/= (initlist_t v)		{ for (size_type i = 0; i < N && i < v.size(); ++i) _v[i] /= v.begin()[i]; return *this; }
+    constexpr auto		operator+ (initlist_t v) const		{ array result (*this); result += v; return result; }
+    constexpr auto		operator- (initlist_t v) const		{ array result (*this); result -= v; return result; }
+    constexpr auto		operator* (initlist_t v) const		{ array result (*this); result *= v; return result; }
+    constexpr auto		operator/ (initlist_t v) const		{ array result (*this); result /= v; return result; }
 #else
     inline			array (void)				{ fill_n (_v, N, T()); }
     template <typename T2>
-- 
2.43.0


From 092e91427c362ee24548667605b1eceb2716155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:20 +0000
Subject: [PATCH 096/140] fix: identity of a matrix with more rows than columns

---
 ulaalgo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 4c69c0e..d55af87 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -15,8 +15,8 @@ template <size_t NX, size_t NY, typename T>
 void load_identity (matrix<NX,NY,T>& m)
 {
     fill_n (m.begin(), NX * NY, 0);
-    for (typename matrix<NX,NY,T>::iterator i = m.begin(); i < m.end(); i += NX + 1)
-	*i = 1;
+    for (uoff_t i = 0; i < NX && i < NY; ++ i)
+	m[i][i] = 1;
 }
 
 /// \brief Multiplies two matrices
-- 
2.43.0


From 3daf8f617402c73d904bc5560a743ac49177c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 097/140] fix: product with a 4x4 float matrix used the wrong
 elements

---
 ulaalgo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index d55af87..1130f71 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -104,7 +104,7 @@ inline void _sse_transform_to_vector (float* result)
 	"movaps %%xmm0, %%xmm2		\n\t" // xmm1 = t[0 1 2 3]
 	"movaps %%xmm0, %%xmm3		\n\t" // xmm1 = t[0 1 2 3]
 	"shufps $0x00, %%xmm0, %%xmm0	\n\t" // xmm0 = t[0 0 0 0]
-	"shufps $0x66, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
+	"shufps $0x55, %%xmm1, %%xmm1	\n\t" // xmm1 = t[1 1 1 1]
 	"shufps $0xAA, %%xmm2, %%xmm2	\n\t" // xmm2 = t[2 2 2 2]
 	"shufps $0xFF, %%xmm3, %%xmm3	\n\t" // xmm3 = t[3 3 3 3]
 	"mulps  %%xmm4, %%xmm0		\n\t" // xmm0 = t[0 0 0 0] * m[0 1 2 3]
-- 
2.43.0


From c7a3f8a672342dbb0a57ab62dccf34af08259740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:03 +0000
Subject: [PATCH 098/140] fix: SSE load_identity changed a register it only
 declares as read

---
 ulaalgo.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/ulaalgo.h b/ulaalgo.h
index 1130f71..f5ddc38 100644
--- a/ulaalgo.h
+++ b/ulaalgo.h
@@ -68,18 +68,20 @@ void transpose (matrix<N,N,T>& m)
 template <>
 inline void load_identity (matrix<4,4,float>& m)
 {
+    float one = 1.0f;
     asm (
-	"movaps %4, %%xmm1		\n\t"	// 1 0 0 0
-	"movups %4, %0			\n\t"	// 1 0 0 0
+	"movss %4, %%xmm2		\n\t"	// 1 0 0 0
+	"movaps %%xmm2, %%xmm1		\n\t"	// 1 0 0 0
+	"movups %%xmm2, %0		\n\t"	// 1 0 0 0
 	"shufps $0xB1,%%xmm1,%%xmm1	\n\t"	// 0 1 0 0
 	"movups %%xmm1, %1		\n\t"	// 0 1 0 0
-	"shufps $0x4F,%4,%%xmm1		\n\t"	// 0 0 1 0
-	"shufps $0x1B,%4,%4		\n\t"	// 0 0 0 1
+	"shufps $0x4F,%%xmm2,%%xmm1		\n\t"	// 0 0 1 0
+	"shufps $0x1B,%%xmm2,%%xmm2	\n\t"	// 0 0 0 1
 	"movups %%xmm1, %2		\n\t"	// 0 0 1 0
-	"movups %4, %3"				// 0 0 0 1
+	"movups %%xmm2, %3"			// 0 0 0 1
 	: "=m"(m[0][0]), "=m"(m[1][0]), "=m"(m[2][0]), "=m"(m[3][0])
-	: "x"(1.0f)
-	: "xmm1", "memory"
+	: "m"(one)
+	: "xmm1", "xmm2", "memory"
     );
     asm ("":::"memory");
 }
-- 
2.43.0


From 2c6ad54fcc4de2273b9fbf18329e3e67ed2f03b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 099/140] fix: name of a function in a library with a plus in
 its name was read past the end

---
 bktrace.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bktrace.cc b/bktrace.cc
index 7be0f3d..d364095 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -54,7 +54,7 @@ static size_t ExtractAbiName (const char* isym, char* nmbuf) noexcept
 	const char* mnStart = strchr (isym, '(');
 	if (++mnStart == reinterpret_cast<const char*>(1))
 	    mnStart = isym;
-	const char* mnEnd = strchr (isym, '+');
+	const char* mnEnd = strchr (mnStart, '+');	// the file name may have one too
 	const char* isymEnd = isym + strlen (isym);
 	if (!mnEnd)
 	    mnEnd = isymEnd;
-- 
2.43.0


From 93d9d6ae88b85221ae7d52713e2cc8509dc9266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 100/140] fix: assigning a backtrace leaked its symbols,
 copying one without symbols crashed

---
 bktrace.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index d364095..3315399 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -37,10 +37,17 @@ CBacktrace::CBacktrace (const CBacktrace& v) noexcept
 /// Copy operator.
 const CBacktrace& CBacktrace::operator= (const CBacktrace& v) noexcept
 {
+    if (this == &v)
+	return *this;
     memcpy (_addresses, v._addresses, sizeof(_addresses));
-    _symbols = strdup (v._symbols);
     _nFrames = v._nFrames;
-    _symbolsSize = v._symbolsSize;
+    nfree (_symbols);
+    _symbols = nullptr;
+    _symbolsSize = 0;
+    if (v._symbols && (_symbols = static_cast<char*> (malloc (v._symbolsSize + 1)))) {
+	memcpy (_symbols, v._symbols, v._symbolsSize + 1);
+	_symbolsSize = v._symbolsSize;
+    }
     return *this;
 }
 
-- 
2.43.0


From f103753e66ad462f45984f2b12a1350793e802b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:56 +0000
Subject: [PATCH 101/140] fix: printing a backtrace without symbols crashed

---
 bktrace.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 3315399..c4b8086 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -6,6 +6,7 @@
 #include "bktrace.h"
 #include "sostream.h"
 #include "mistream.h"
+#include "ualgo.h"
 #if HAVE_EXECINFO_H
     #include <execinfo.h>
 #else
@@ -104,12 +105,13 @@ void CBacktrace::GetSymbols (void) noexcept
 /// Prints the backtrace to \p os.
 void CBacktrace::text_write (ostringstream& os) const
 {
-    const char *ss = _symbols, *se;
+    const char *ss = _symbols, *send = _symbols + _symbolsSize;
     for (uoff_t i = 0; i < _nFrames; ++ i) {
 	os.format (ADDRESS_FMT, _addresses[i]);
-	se = strchr (ss, '\n') + 1;
+	const char* se = find (ss, send, '\n');	// there may be no symbols for it
 	os.write (ss, distance (ss, se));
-	ss = se;
+	os.write ("\n", 1);
+	ss = se + (se != send);
     }
 }
 
-- 
2.43.0


From 93860c9cf98bf7cf4055ada0e5702b25ee80e10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 102/140] fix: reading a damaged backtrace wrote past its end

---
 bktrace.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index c4b8086..1c203f9 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -119,13 +119,24 @@ void CBacktrace::text_write (ostringstream& os) const
 void CBacktrace::read (istream& is)
 {
     assert (is.aligned (stream_align_of (_addresses[0])) && "Backtrace object contains pointers and must be void* aligned");
-    is >> _nFrames >> _symbolsSize;
+    uint32_t nFrames = 0, symbolsSize = 0;
+    is >> nFrames >> symbolsSize;
     nfree (_symbols);
-    _symbols = static_cast<char*> (malloc (_symbolsSize + 1));
-    is.read (_symbols, _symbolsSize);
-    _symbols [_symbolsSize] = 0;
+    _symbols = nullptr;
+    _nFrames = _symbolsSize = 0;
+    size_t n = Align (is.pos() + symbolsSize) - is.pos() + nFrames * sizeof(void*);
+    if (nFrames > VectorSize(_addresses))	// never written
+	n = is.remaining() + 1;
+    if (!is.verify_remaining ("read", "ustl::CBacktrace", n))
+	return;
+    if (!(_symbols = static_cast<char*> (malloc (symbolsSize + size_t(1)))))
+	throw bad_alloc (symbolsSize + size_t(1));
+    is.read (_symbols, symbolsSize);
+    _symbols [symbolsSize] = 0;
+    _symbolsSize = symbolsSize;
     is.align();
-    is.read (_addresses, _nFrames * sizeof(void*));
+    is.read (_addresses, nFrames * sizeof(void*));
+    _nFrames = nFrames;
 }
 
 /// Writes the object to stream \p os.
-- 
2.43.0


From a377a2139d127b165584d2a78f204938fcf1bc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 103/140] fix: a record of a different or damaged exception was
 accepted in release builds

---
 uexception.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 8cfacc8..3e821d7 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -34,9 +34,14 @@ void exception::read (istream& is)
     uint32_t stmSize = 0;
     xfmt_t fmt = xfmt_Exception;
     is >> fmt >> stmSize >> _backtrace;
-    assert (fmt == _format && "The saved exception is of a different type.");
-    assert ((stmSize + 8) - exception::stream_size() <= is.remaining() && "The saved exception data is corrupt.");
-    _format = fmt;
+    if (is.fail())
+	return;
+    // The rest of the exception must follow, and be of the same type
+    const size_t bsz = exception::stream_size(), esz = stmSize + size_t(8);
+    if (fmt != _format || esz < bsz)
+	is.verify_remaining ("read", "ustl::exception", is.remaining() + 1);
+    else
+	is.verify_remaining ("read", "ustl::exception", esz - bsz);
 }
 
 /// Writes the exception into stream \p os as an IFF chunk.
-- 
2.43.0


From 30a457720ba16b9828ca2dd698452b81238c47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 104/140] fix: sizes over 2G were described wrong by bad_alloc
 and stream_bounds_exception

---
 uexception.cc | 4 ++--
 ustdxept.cc   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index 3e821d7..c453d88 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -105,10 +105,10 @@ bad_alloc::bad_alloc (size_t nBytes) noexcept
     set_format (ustl::xfmt_BadAlloc);
 }
 
-/// Returns a descriptive error message. fmt="failed to allocate %d bytes"
+/// Returns a descriptive error message. fmt="failed to allocate %zu bytes"
 void bad_alloc::info (ustl::string& msgbuf, const char* fmt) const noexcept
 {
-    if (!fmt) fmt = "failed to allocate %d bytes";
+    if (!fmt) fmt = "failed to allocate %zu bytes";
     try { msgbuf.format (fmt, _bytesRequested); } catch (...) {}
 }
 
diff --git a/ustdxept.cc b/ustdxept.cc
index 7f0715c..add3b68 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -158,7 +158,7 @@ void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexc
     char typeName [256];
     strncpy (typeName, _typeName, VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
-    if (!fmt) fmt = "%s stream %s: @0x%X: need %u bytes, have %u";
+    if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
 }
 
-- 
2.43.0


From 79245d80dbc524c333af42c80b718c14127bca8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 105/140] fix: stream_bounds_exception wrote its type name as a
 pointer

---
 ustdxept.cc | 11 ++++++-----
 ustdxept.h  |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index add3b68..e159f17 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -144,11 +144,12 @@ size_t file_exception::stream_size (void) const noexcept
 /// Initializes the empty object. \p operation is the function that returned the error code.
 stream_bounds_exception::stream_bounds_exception (const char* operation, const char* type, uoff_t offset, size_t expected, size_t remaining) noexcept
 : system_error (operation)
-,_typeName (type)
+,_typeName()
 ,_offset (offset)
 ,_expected (expected)
 ,_remaining (remaining)
 {
+    try { _typeName = type; } catch (...) {}
     set_format (xfmt_StreamBoundsException);
 }
 
@@ -156,7 +157,7 @@ stream_bounds_exception::stream_bounds_exception (const char* operation, const c
 void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexcept
 {
     char typeName [256];
-    strncpy (typeName, _typeName, VectorSize(typeName));
+    strncpy (typeName, _typeName.c_str(), VectorSize(typeName));
     typeName[VectorSize(typeName)-1] = 0;
     if (!fmt) fmt = "%s stream %s: @0x%zX: need %zu bytes, have %zu";
     try { msgbuf.format (fmt, demangle_type_name (VectorBlock(typeName)), Operation(), _offset, _expected, _remaining); } catch (...) {}
@@ -166,21 +167,21 @@ void stream_bounds_exception::info (string& msgbuf, const char* fmt) const noexc
 void stream_bounds_exception::read (istream& is)
 {
     system_error::read (is);
-    is >> _typeName >> _offset >> _expected >> _remaining;
+    is >> _typeName >> ios::align() >> _offset >> _expected >> _remaining;
 }
 
 /// Writes the exception into stream \p os.
 void stream_bounds_exception::write (ostream& os) const
 {
     system_error::write (os);
-    os << _typeName << _offset << _expected << _remaining;
+    os << _typeName << ios::align() << _offset << _expected << _remaining;
 }
 
 /// Returns the size of the written exception.
 size_t stream_bounds_exception::stream_size (void) const noexcept
 {
     return system_error::stream_size() +
-	    stream_size_of(_typeName) +
+	    Align (stream_size_of(_typeName)) +
 	    stream_size_of(_offset) +
 	    stream_size_of(_expected) +
 	    stream_size_of(_remaining);
diff --git a/ustdxept.h b/ustdxept.h
index 77d7003..a90271d 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -208,12 +208,12 @@ public:
     virtual void	read (istream& is) override;
     virtual void	write (ostream& os) const override;
     virtual size_t	stream_size (void) const noexcept override;
-    inline const char*	TypeName (void) const	{ return _typeName; }
+    inline const char*	TypeName (void) const	{ return _typeName.c_str(); }
     inline uoff_t	Offset (void) const	{ return _offset; }
     inline size_t	Expected (void) const	{ return _expected; }
     inline size_t	Remaining (void) const	{ return _remaining; }
 private:
-    const char*		_typeName;
+    string		_typeName;
     uoff_t		_offset;
     size_t		_expected;
     size_t		_remaining;
-- 
2.43.0


From 6108e1afb70e222fc7cf3ae619182837acede706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 106/140] fix: system_error linked to the name of the
 operation, and made from an error code had the wrong format

---
 ustdxept.cc | 17 ++++++++++++++++-
 ustdxept.h  |  3 +--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/ustdxept.cc b/ustdxept.cc
index e159f17..0d6d652 100644
--- a/ustdxept.cc
+++ b/ustdxept.cc
@@ -63,13 +63,28 @@ system_error::system_error (const char* operation) noexcept
 : system_error (errno, system_category(), operation)
 #else
 : runtime_error (strerror (errno))
-,_operation (operation)
+,_operation()
 ,_errno (errno)
 #endif
 {
+#if !HAVE_CPP14
+    try { _operation = operation; } catch (...) {}	// it may not outlive the exception
+#endif
     set_format (xfmt_SystemError);
 }
 
+#if HAVE_CPP14
+/// \p ec is the error returned by the function \p operation.
+system_error::system_error (error_code ec, const char* operation) noexcept
+: runtime_error (ec.message())
+,_operation()
+,_errno (ec.value())
+{
+    try { _operation = operation; } catch (...) {}	// it may not outlive the exception
+    set_format (xfmt_SystemError);
+}
+#endif
+
 /// Reads the exception from stream \p is.
 void system_error::read (istream& is)
 {
diff --git a/ustdxept.h b/ustdxept.h
index a90271d..cd2a8de 100644
--- a/ustdxept.h
+++ b/ustdxept.h
@@ -155,8 +155,7 @@ public:
     inline int		Errno (void) const	{ return _errno; }
     inline const char*	Operation (void) const	{ return _operation.c_str(); }
 #if HAVE_CPP14
-			system_error (error_code ec, const char* operation) noexcept
-			    : runtime_error (ec.message()),_operation(operation),_errno(ec.value()) {}
+			system_error (error_code ec, const char* operation) noexcept;
     inline              system_error (error_code ec, const string& operation) noexcept
 			    : system_error (ec, operation.c_str()) {}
     inline              system_error (int ec, const error_category& ecat, const char* operation)
-- 
2.43.0


From ab7227e6c2d3382444301af0a7037c0f8d9ad6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:38 +0000
Subject: [PATCH 107/140] fix: errc::not_supported was EINVAL

---
 uerror.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uerror.h b/uerror.h
index d3bbb00..c7aedb6 100644
--- a/uerror.h
+++ b/uerror.h
@@ -73,7 +73,7 @@ enum class errc {
     not_a_stream			= ENOSTR,
     not_connected			= ENOTCONN,
     not_enough_memory			= ENOMEM,
-    not_supported			= EINVAL,
+    not_supported			= ENOTSUP,
     operation_canceled			= ECANCELED,
     operation_in_progress		= EINPROGRESS,
     operation_not_permitted		= EPERM,
-- 
2.43.0


From 192e71322c1934420a24baaf372fd55008be59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 108/140] fix: duration_cast converted to the type of the
 result before scaling

---
 uchrono.h | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 5e986c4..4b47437 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -18,9 +18,10 @@ template <typename Rep, typename Period> struct duration;
 template <typename ToDuration, typename Rep, typename Period>
 struct __duration_cast_impl {
     using to_rep	= typename ToDuration::rep;
+    using calc_rep	= common_type_t<to_rep, Rep, intmax_t>;	// converting to to_rep first would truncate
     using conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     static inline constexpr ToDuration cast (const duration<Rep, Period>& d)
-	{ return ToDuration (static_cast<to_rep>(d.count()) * conv_ratio::num / conv_ratio::den); }
+	{ return ToDuration (static_cast<to_rep>(static_cast<calc_rep>(d.count()) * conv_ratio::num / conv_ratio::den)); }
 };
 
 /// Converts durations of different periods or representations
@@ -264,16 +265,40 @@ template <> struct treat_as_floating_point<hrtime_t> : public true_type {};
 template <typename ToDuration, typename Period>
 struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     using to_rep	= typename ToDuration::rep;
+    using calc_rep	= common_type_t<to_rep, intmax_t>;
     using ns_conv_ratio	= typename ratio_divide<Period, typename ToDuration::period>::type;
     using s_conv_ratio	= typename ratio_divide<ns_conv_ratio, Period>::type;
     static inline constexpr ToDuration cast (const duration<hrtime_t, Period>& d) {
 	auto& t = d.count();
-	return ToDuration (
-		static_cast<to_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
-		+ static_cast<to_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den);
+	return ToDuration (static_cast<to_rep>(
+		static_cast<calc_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
+		+ static_cast<calc_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den));
     }
 };
 
+// hrtime_t is made of an integer number of nanoseconds
+template <typename ToPeriod, typename Rep, typename Period>
+struct __duration_cast_impl<duration<hrtime_t,ToPeriod>, Rep, Period> {
+    using conv_ratio	= typename ratio_divide<Period, ToPeriod>::type;
+    static inline constexpr auto cast (const duration<Rep, Period>& d)
+	{ return duration<hrtime_t,ToPeriod> (from_count (d.count(), is_floating_point<Rep>())); }
+private:
+    static inline constexpr hrtime_t from_count (const Rep& c, false_type)
+	{ return hrtime_t (static_cast<intmax_t>(c)) * conv_ratio::num / conv_ratio::den; }
+    static inline constexpr hrtime_t from_count (const Rep& c, true_type) {
+	const double n = static_cast<double>(c) * conv_ratio::num / conv_ratio::den;
+	const intmax_t s = n / nano::den;
+	return hrtime_t (s, 0) + hrtime_t (static_cast<intmax_t>(n - static_cast<double>(s) * nano::den));
+    }
+};
+
+template <typename ToPeriod, typename Period>
+struct __duration_cast_impl<duration<hrtime_t,ToPeriod>, hrtime_t, Period> {
+    using conv_ratio	= typename ratio_divide<Period, ToPeriod>::type;
+    static inline constexpr auto cast (const duration<hrtime_t, Period>& d)
+	{ return duration<hrtime_t,ToPeriod> (d.count() * conv_ratio::num / conv_ratio::den); }
+};
+
 //}}}-------------------------------------------------------------------
 //{{{ time_point
 
-- 
2.43.0


From 5ddcdaafc367256b5c1a74e695c9e7c529459d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 109/140] fix: hrtime_t incremented to a whole second was not
 normalised

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 4b47437..28f0f07 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -190,7 +190,7 @@ struct hrtime_t : public timespec {
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
     inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
     constexpr hrtime_t&		operator++ (void) {
-				    if (++tv_nsec > nano::den) {
+				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
 					++tv_sec;
 				    }
-- 
2.43.0


From c6d0953236baad6ed41c8a4257e218b9339a93df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 110/140] fix: hrtime_t division turned the remainder of the
 seconds into whole seconds of nanoseconds

---
 uchrono.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 28f0f07..70135dd 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -231,9 +231,19 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
-				    tv_nsec /= v;
-				    tv_nsec += (tv_sec % v) * nano::den;
+				    if (v < 0)
+					return *this = -*this /= -v;
+				    if (tv_sec < 0)	// truncates toward zero
+					return *this = -(-*this /= v);
+				    intmax_t r = tv_sec % v, ns = 0;
 				    tv_sec /= v;
+				    // Thousands of nanoseconds at a time, to not overflow
+				    for (long d = 1000000; d; d /= 1000) {
+					r = r * 1000 + tv_nsec / d % 1000;
+					ns = ns * 1000 + r / v;
+					r %= v;
+				    }
+				    tv_nsec = ns;
 				    return *this;
 				}
     inline constexpr hrtime_t	operator+ (const hrtime_t& v) const	{ hrtime_t r(*this); return r += v; }
-- 
2.43.0


From 4f3b0fa6f64a5d68568774b39b867ef621187b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 111/140] fix: negative times were kept with negative
 nanoseconds, and multiplication overflowed

---
 uchrono.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/uchrono.h b/uchrono.h
index 70135dd..cabd958 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -181,14 +181,14 @@ struct hrtime_t : public timespec {
     constexpr hrtime_t&		operator= (const hrtime_t&) = default;
     inline explicit constexpr	hrtime_t (const timespec& v)	: timespec(v){}
     inline constexpr		hrtime_t (time_t s, long ns)	: timespec{s,ns}{}
-    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)}{}
-    inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
-    inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)}{}
+    inline explicit constexpr	hrtime_t (intmax_t v)		: timespec{time_t(v/nano::den),time_t(v%nano::den)} { normalize(); }
+    inline explicit constexpr	hrtime_t (float v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)} { normalize(); }
+    inline explicit constexpr	hrtime_t (double v)		: timespec{time_t(v),time_t((v-time_t(v))*nano::den)} { normalize(); }
     inline constexpr		operator intmax_t (void) const	{ return intmax_t(tv_sec)*nano::den + tv_nsec; }
     inline constexpr		operator float (void) const	{ return float(tv_nsec)/nano::den + tv_sec; }
     inline constexpr		operator double (void) const	{ return double(tv_nsec)/nano::den + tv_sec; }
     inline constexpr hrtime_t	operator+ (void) const		{ return *this; }
-    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec); }
+    inline constexpr hrtime_t	operator- (void) const		{ return hrtime_t(-tv_sec,-tv_nsec).normalize(); }
     constexpr hrtime_t&		operator++ (void) {
 				    if (++tv_nsec >= nano::den) {
 					tv_nsec -= nano::den;
@@ -223,12 +223,11 @@ struct hrtime_t : public timespec {
 				    return *this;
 				}
     constexpr hrtime_t&		operator*= (intmax_t v) {
-				    tv_sec *= v;
-				    if (nano::den <= (tv_nsec *= v)) {
-					tv_sec += tv_nsec / nano::den;
-					tv_nsec %= nano::den;
-				    }
-				    return *this;
+				    // The whole billions of v apart, to not overflow
+				    const intmax_t ns = tv_nsec * (v % nano::den);
+				    tv_sec = tv_sec * v + tv_nsec * (v / nano::den) + ns / nano::den;
+				    tv_nsec = ns % nano::den;
+				    return normalize();
 				}
     constexpr hrtime_t&		operator/= (intmax_t v)	{
 				    if (v < 0)
@@ -256,6 +255,15 @@ struct hrtime_t : public timespec {
     inline void			write (ostream& os) const		{ os << tv_sec << tv_nsec; }
     void			text_write (ostringstream& os) const	{ os.format ("%ld.%09ld", tv_sec, tv_nsec); }
     inline constexpr streamsize	stream_size (void) const		{ return stream_size_of(tv_sec) + stream_size_of(tv_nsec); }
+private:
+    // Nanoseconds are never negative, as in all values the system makes
+    constexpr hrtime_t&		normalize (void) {
+				    if (tv_nsec < 0) {
+					tv_nsec += nano::den;
+					--tv_sec;
+				    }
+				    return *this;
+				}
 };
 
 // numeric_limits<hrtime_t>::min,max will always return 0
-- 
2.43.0


From ee1164c1499890237a8a3d58b79d6afabfb14776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 112/140] fix: text of negative times

---
 uchrono.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index cabd958..429976a 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -253,7 +253,12 @@ struct hrtime_t : public timespec {
     inline constexpr bool	operator< (const hrtime_t& v) const	{ return tv_sec < v.tv_sec || (tv_sec == v.tv_sec && tv_nsec < v.tv_nsec); }
     inline void			read (istream& is)			{ is >> tv_sec >> tv_nsec; }
     inline void			write (ostream& os) const		{ os << tv_sec << tv_nsec; }
-    void			text_write (ostringstream& os) const	{ os.format ("%ld.%09ld", tv_sec, tv_nsec); }
+    void			text_write (ostringstream& os) const	{
+				    if (tv_sec < 0)
+					os.format ("-%ld.%09ld", -(tv_sec + !!tv_nsec), tv_nsec ? nano::den - tv_nsec : 0);
+				    else
+					os.format ("%ld.%09ld", tv_sec, tv_nsec);
+				}
     inline constexpr streamsize	stream_size (void) const		{ return stream_size_of(tv_sec) + stream_size_of(tv_nsec); }
 private:
     // Nanoseconds are never negative, as in all values the system makes
-- 
2.43.0


From 5fc2c5d755c239cfd85ef055d3e39701e060a666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 113/140] fix: casts of negative times did not truncate toward
 zero

---
 uchrono.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uchrono.h b/uchrono.h
index 429976a..500ec0b 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -293,6 +293,8 @@ struct __duration_cast_impl<ToDuration, hrtime_t, Period> {
     using s_conv_ratio	= typename ratio_divide<ns_conv_ratio, Period>::type;
     static inline constexpr ToDuration cast (const duration<hrtime_t, Period>& d) {
 	auto& t = d.count();
+	if (t.tv_sec < 0 && t.tv_nsec)	// truncates toward zero
+	    return -cast (-d);
 	return ToDuration (static_cast<to_rep>(
 		static_cast<calc_rep>(t.tv_sec) * s_conv_ratio::num / s_conv_ratio::den
 		+ static_cast<calc_rep>(t.tv_nsec) * ns_conv_ratio::num / ns_conv_ratio::den));
-- 
2.43.0


From 6e40145383ea06896869fa309f05762052f3f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:48 +0000
Subject: [PATCH 114/140] fix: the smallest hrtime_t duration was not the
 smallest

---
 uchrono.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uchrono.h b/uchrono.h
index 500ec0b..0cbc092 100644
--- a/uchrono.h
+++ b/uchrono.h
@@ -276,7 +276,7 @@ template <> struct duration_values<hrtime_t> {
     static constexpr hrtime_t zero (void)
 	{ return hrtime_t(); }
     static constexpr hrtime_t min (void)
-	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), nano::den-1); }
+	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::lowest(), 0); }
     static constexpr hrtime_t max (void)
 	{ return hrtime_t (numeric_limits<decltype(hrtime_t::tv_sec)>::max(), nano::den-1); }
 };
-- 
2.43.0


From a17bc8af0efd8de1116478339f9be7101e13637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:29 +0000
Subject: [PATCH 115/140] fix: gcd and lcm of integers narrower than int did
 not compile

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index f65d6b4..04c7028 100644
--- a/uutility.h
+++ b/uutility.h
@@ -120,7 +120,7 @@ inline constexpr T sign (T v)
 template <typename T>
 constexpr T gcd (T a, T b)
 {
-    return b ? gcd(b,a%b) : absv(a);
+    return b ? gcd (b, T(a%b)) : absv(a);
 }
 
 /// Returns the least common multiple
-- 
2.43.0


From 15cec07108be1072f6f9da60a700d32c522fb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 116/140] fix: numeric_limits of wchar_t did not know it is
 signed

---
 ulimits.h | 2 +-
 utypes.h  | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/ulimits.h b/ulimits.h
index 626066d..ffe7758 100644
--- a/ulimits.h
+++ b/ulimits.h
@@ -272,7 +272,7 @@ _NUMERIC_LIMITS (unsigned char,	0,		UCHAR_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned int,	0,		UINT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned short,0,		USHRT_MAX,	false,	true,	true);
 _NUMERIC_LIMITS (unsigned long,	0,		ULONG_MAX,	false,	true,	true);
-_NUMERIC_LIMITS (wchar_t,	0,		WCHAR_MAX,	false,	true,	true);
+_NUMERIC_LIMITS (wchar_t,	WCHAR_MIN,	WCHAR_MAX,	(WCHAR_MIN != 0), true,	true);
 #if HAVE_LONG_LONG
 _NUMERIC_LIMITS (long long,	LLONG_MIN,	LLONG_MAX,	true,	true,	true);
 _NUMERIC_LIMITS (unsigned long long,	0,	ULLONG_MAX,	false,	true,	true);
diff --git a/utypes.h b/utypes.h
index be29e7e..bdb6893 100644
--- a/utypes.h
+++ b/utypes.h
@@ -46,6 +46,7 @@
     #define UINTPTR_MAX		ULONG_MAX
 #endif
 #ifndef WCHAR_MAX
+    #define WCHAR_MIN	0
     #ifdef __WCHAR_MAX__
 	#define WCHAR_MAX	__WCHAR_MAX__
     #else
-- 
2.43.0


From 11c4e83462c5dcbc3b7dfcb3eb000a404a1e5054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 117/140] fix: pack_type of negative values filled with the
 sign

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index 04c7028..ad04025 100644
--- a/uutility.h
+++ b/uutility.h
@@ -209,7 +209,7 @@ inline constexpr bool operator>= (const T& x, const T& y)
 template <typename TSmall, typename TBig>
 inline constexpr void pack_type (TSmall s, TBig& b)
 {
-    b = s;
+    b = s & BitMask(TBig,BitsInType(TSmall));	// without the sign of s
     for (unsigned h = BitsInType(TSmall); h < BitsInType(TBig); h *= 2)
 	b = (b << h)|b;
 }
-- 
2.43.0


From e24cb8362e81118690cd33e3cc7f591c0c39901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 118/140] fix: DivRU overflowed near the limits of the type

---
 uutility.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/uutility.h b/uutility.h
index ad04025..5ec6184 100644
--- a/uutility.h
+++ b/uutility.h
@@ -219,10 +219,7 @@ inline constexpr void pack_type (TSmall s, TBig& b)
 template <typename T1, typename T2>
 inline constexpr T1 DivRU (T1 n1, T2 n2)
 {
-    T2 adj = n2 - 1;
-    if (is_negative (n1))
-	adj = -adj;
-    return (n1 + adj) / n2;
+    return n1 / n2 + sign (n1 % n2);
 }
 
 /// Sets the contents of \p pm to 1 and returns true if the previous value was 0.
-- 
2.43.0


From 351abd553a53ca004a29c1d8554133153ec30cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 119/140] fix: lcm (0, 0) divided by zero

---
 uutility.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uutility.h b/uutility.h
index 5ec6184..7ff310e 100644
--- a/uutility.h
+++ b/uutility.h
@@ -127,7 +127,7 @@ constexpr T gcd (T a, T b)
 template <typename T>
 constexpr T lcm (T a, T b)
 {
-    return a/gcd(a,b)*b;
+    return a ? a/gcd(a,b)*b : a;
 }
 
 // Defined in byteswap.h, which is usually unusable.
-- 
2.43.0


From 4bdb129092c766f5aec927f49a00154345364077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:05 +0000
Subject: [PATCH 120/140] fix: sort ignored the comparison object it was given

---
 ualgo.h | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index ea83f13..24d51d1 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -446,17 +446,39 @@ constexpr int qsort_adapter (const void* p1, const void* p2)
     return comp (*i1, *i2) ? -1 : (comp (*i2, *i1) ? 1 : 0);
 }
 
+#ifndef DOXYGEN_SHOULD_SKIP_THIS
+/// Makes the comparison object given to sort available to the function called by qsort
+template <typename ConstPointer, typename Compare>
+class __qsort_compare {
+public:
+    explicit	__qsort_compare (Compare* comp) : _outer (s_comp) { s_comp = comp; }
+		~__qsort_compare (void) { s_comp = _outer; }
+    static int	call (const void* p1, const void* p2)
+    {
+	ConstPointer i1 = static_cast<ConstPointer>(p1), i2 = static_cast<ConstPointer>(p2);
+	Compare& comp = *s_comp;
+	return comp (*i1, *i2) ? -1 : (comp (*i2, *i1) ? 1 : 0);
+    }
+private:
+    Compare*			_outer;	///< Object of the sort that called this one, if any.
+    static __thread Compare*	s_comp;
+};
+template <typename ConstPointer, typename Compare>
+__thread Compare* __qsort_compare<ConstPointer,Compare>::s_comp = nullptr;
+#endif
+
 /// Sorts the container
 /// \ingroup SortingAlgorithms
 /// \ingroup PredicateAlgorithms
 ///
 template <typename RandomAccessIterator, typename Compare>
-void sort (RandomAccessIterator first, RandomAccessIterator last, Compare)
+void sort (RandomAccessIterator first, RandomAccessIterator last, Compare comp)
 {
     typedef typename iterator_traits<RandomAccessIterator>::value_type value_type;
     typedef typename iterator_traits<RandomAccessIterator>::const_pointer const_pointer;
-    qsort (first, distance (first, last), sizeof(value_type),
-	   &qsort_adapter<const_pointer, Compare>);
+    typedef __qsort_compare<const_pointer, Compare> compare_t;
+    compare_t active (&comp);
+    qsort (first, distance (first, last), sizeof(value_type), &compare_t::call);
 }
 
 /// Sorts the container
-- 
2.43.0


From 61605f07c2520387ec45cbe836c5ad075ae3a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:29 +0000
Subject: [PATCH 121/140] fix: move_iterator over pointers to fundamental types
 did not compile

---
 uiterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index dd1e4cb..1ddb866 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -299,7 +299,7 @@ public:
     constexpr bool		operator== (const move_iterator& iter) const	{ return _i == iter._i; }
     constexpr bool		operator< (const move_iterator& iter) const	{ return _i < iter._i; }
     constexpr Iterator		base (void) const		{ return _i; }
-    constexpr reference		operator* (void) const		{ return move(*_i); }
+    constexpr reference		operator* (void) const		{ return static_cast<reference>(*_i); }
     constexpr pointer		operator-> (void) const		{ return &*_i; }
     constexpr move_iterator&	operator++ (void)		{ ++_i; return *this; }
     constexpr move_iterator&	operator-- (void)		{ --_i; return *this; }
@@ -309,7 +309,7 @@ public:
     constexpr move_iterator&	operator-= (size_t n)		{ _i -= n; return *this; }
     constexpr move_iterator	operator+ (size_t n) const	{ return move_iterator (_i + n); }
     constexpr move_iterator	operator- (size_t n) const	{ return move_iterator (_i - n); }
-    constexpr reference		operator[] (uoff_t n) const	{ return move(*(*this + n)); }
+    constexpr reference		operator[] (uoff_t n) const	{ return static_cast<reference>(*(_i + n)); }
     constexpr difference_type	operator- (const move_iterator& i) const	{ return distance (i._i, _i); }
 protected:
     Iterator			_i;
-- 
2.43.0


From 182d01d739a583d0dac5c03f68d21650e079460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 122/140] fix: inserter lost its position with *i++ = v or no
 ++ at all

---
 uiterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/uiterator.h b/uiterator.h
index 1ddb866..6d79a92 100644
--- a/uiterator.h
+++ b/uiterator.h
@@ -340,10 +340,10 @@ public:
 public:
     constexpr explicit		insert_iterator (Container& ctr, iterator ip) : _rctr (ctr), _ip (ip) {}
     inline insert_iterator&	operator= (typename Container::const_reference v)
-				    { _ip = _rctr.insert (_ip, v); return *this; }
+				    { _ip = _rctr.insert (_ip, v); ++_ip; return *this; }
     constexpr insert_iterator&	operator* (void)  { return *this; }
-    constexpr insert_iterator&	operator++ (void) { ++ _ip; return *this; }
-    constexpr insert_iterator	operator++ (int)  { insert_iterator prev (*this); ++_ip; return prev; }
+    constexpr insert_iterator&	operator++ (void) { return *this; }
+    constexpr insert_iterator&	operator++ (int)  { return *this; }
 protected:
     Container&			_rctr;
     iterator			_ip;
-- 
2.43.0


From 009511cf77fd621f9225a2808513754a7de7f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 123/140] fix: read long double values with their full range
 and precision

---
 sistream.cc | 3 +++
 sistream.h  | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index 047b83d..3c19680 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -88,6 +88,8 @@ inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, T& v)
     { v = strtol (i, const_cast<char**>(iend), base); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, double& v)
     { v = strtod (i, const_cast<char**>(iend)); }
+template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned, long double& v)
+    { v = strtold (i, const_cast<char**>(iend)); }
 template <> inline void str_to_num (issiter_t i, issiter_t* iend, unsigned base, unsigned long& v)
     { v = strtoul (i, const_cast<char**>(iend), base); }
 #if HAVE_LONG_LONG
@@ -131,6 +133,7 @@ inline void istringstream::read_number (T& v)
 
 void istringstream::iread (int& v)		{ read_number (v); }
 void istringstream::iread (double& v)		{ read_number (v); } 
+void istringstream::iread (long double& v)	{ read_number (v); }
 void istringstream::iread (long& v)		{ read_number (v); }
 void istringstream::iread (unsigned long& v)	{ read_number (v); }
 #if HAVE_LONG_LONG
diff --git a/sistream.h b/sistream.h
index 0b379c4..66ae29d 100644
--- a/sistream.h
+++ b/sistream.h
@@ -47,7 +47,7 @@ public:
 #endif
     void			iread (double& v);
     inline void			iread (float& v)		{ double c; iread(c); v = c; }
-    inline void			iread (long double& v)		{ double c; iread(c); v = c; }
+    void			iread (long double& v);
     void			iread (bool& v);
     void			iread (wchar_t& v);
     void			iread (string& v);
-- 
2.43.0


From 18eb2774549375f1e8bcc4ff029e6faaf6ebed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:57 +0000
Subject: [PATCH 124/140] fix: read numbers as decimal when the dec flag is set

---
 sistream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sistream.cc b/sistream.cc
index 3c19680..9682816 100644
--- a/sistream.cc
+++ b/sistream.cc
@@ -119,7 +119,7 @@ inline void istringstream::read_number (T& v)
     while ((n < remaining() || refill (n+1) > n) &&
 	    ((bSpace = bSpace && isspace (uint8_t(ipos()[n]))) || is_number_char (ipos()[n])))
 	++n;
-    const unsigned base = (_flags & hex) ? 16 : (_flags & oct) ? 8 : 0;
+    const unsigned base = (_flags & hex) ? 16 : (_flags & oct) ? 8 : (_flags & dec) ? 10 : 0;
     iterator ilast;
     if (n < remaining()) {
 	str_to_num<T> (ipos(), &ilast, base, v);
-- 
2.43.0


From ceb46cc68eab579f99006f4f6dc0be37ec009a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:35 +0000
Subject: [PATCH 125/140] fix: list could not be assigned from a list with
 C++11

---
 ulist.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ulist.h b/ulist.h
index 0d54717..d8d8d03 100644
--- a/ulist.h
+++ b/ulist.h
@@ -28,6 +28,7 @@ public:
     inline			list (size_type n, const T& v)	: vector<T> (n, v) {}
     inline			list (const list<T>& v)		: vector<T> (v) {}
     inline			list (const_iterator i1, const_iterator i2)	: vector<T> (i1, i2) {}
+    inline const list&		operator= (const list& v)	{ vector<T>::operator= (v); return *this; }
     inline size_type		size (void) const		{ return vector<T>::size(); }
     inline iterator		begin (void)			{ return vector<T>::begin(); }
     inline const_iterator	begin (void) const		{ return vector<T>::begin(); }
-- 
2.43.0


From d603513e953da96c686b669c380aa82801131675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 126/140] fix: raw storage algorithms leaked the constructed
 elements when a constructor threw

---
 umemory.h | 92 +++++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/umemory.h b/umemory.h
index c7f8808..589c036 100644
--- a/umemory.h
+++ b/umemory.h
@@ -332,6 +332,15 @@ template <typename T>
 inline void construct (T* p)
     { construct_at(p); }
 
+/// Destroys what was constructed in [first, last) before a constructor threw.
+template <typename ForwardIterator>
+void destroy_constructed (ForwardIterator first, ForwardIterator last) noexcept
+{
+    typedef typename iterator_traits<ForwardIterator>::value_type value_type;
+    for (; first != last; ++first)
+	(&*first)->~value_type();
+}
+
 /// Calls the placement new on \p p.
 /// \ingroup RawStorageAlgorithms
 ///
@@ -345,9 +354,16 @@ inline void uninitialized_default_construct (ForwardIterator first, ForwardItera
     if (numeric_limits<value_type>::is_integral)
 #endif
 	memset (static_cast<void*>(first), 0, max(distance(first,last),0)*sizeof(value_type));
-    else
-	for (--last; intptr_t(first) <= intptr_t(last); ++first)
-	    construct_at (&*first);
+    else {
+	const ForwardIterator start (first);
+	try {
+	    for (--last; intptr_t(first) <= intptr_t(last); ++first)
+		construct_at (&*first);
+	} catch (...) {
+	    destroy_constructed (start, first);
+	    throw;
+	}
+    }
 }
 template <typename ForwardIterator>
 inline void uninitialized_default_construct_n (ForwardIterator first, size_t n)
@@ -361,8 +377,14 @@ template <typename ForwardIterator>
 inline void uninitialized_value_construct (ForwardIterator first, ForwardIterator last)
 {
     typedef typename iterator_traits<ForwardIterator>::value_type value_type;
-    for (--last; intptr_t(first) <= intptr_t(last); ++first)
-	construct_at (&*first, value_type());
+    const ForwardIterator start (first);
+    try {
+	for (--last; intptr_t(first) <= intptr_t(last); ++first)
+	    construct_at (&*first, value_type());
+    } catch (...) {
+	destroy_constructed (start, first);
+	throw;
+    }
 }
 template <typename ForwardIterator>
 inline void uninitialized_value_construct_n (ForwardIterator first, size_t n)
@@ -444,8 +466,14 @@ inline pair<T*, ptrdiff_t> make_temporary_buffer (void* p, size_t n, const T* pt
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, ForwardIterator result)
 {
-    for (; first < last; ++result, ++first)
-	construct_at (&*result, *first);
+    const ForwardIterator start (result);
+    try {
+	for (; first < last; ++result, ++first)
+	    construct_at (&*result, *first);
+    } catch (...) {
+	destroy_constructed (start, result);
+	throw;
+    }
     return result;
 }
 
@@ -455,8 +483,14 @@ ForwardIterator uninitialized_copy (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIterator result)
 {
-    for (++n; --n; ++result, ++first)
-	construct_at (&*result, *first);
+    const ForwardIterator start (result);
+    try {
+	for (++n; --n; ++result, ++first)
+	    construct_at (&*result, *first);
+    } catch (...) {
+	destroy_constructed (start, result);
+	throw;
+    }
     return result;
 }
 
@@ -466,8 +500,14 @@ ForwardIterator uninitialized_copy_n (InputIterator first, size_t n, ForwardIter
 template <typename ForwardIterator, typename T>
 void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v)
 {
-    for (; first < last; ++first)
-	construct_at (&*first, v);
+    const ForwardIterator start (first);
+    try {
+	for (; first < last; ++first)
+	    construct_at (&*first, v);
+    } catch (...) {
+	destroy_constructed (start, first);
+	throw;
+    }
 }
 
 /// Calls construct on all elements in [first, first + n) with value \p v.
@@ -476,8 +516,14 @@ void uninitialized_fill (ForwardIterator first, ForwardIterator last, const T& v
 template <typename ForwardIterator, typename T>
 ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T& v)
 {
-    for (++n; --n; ++first)
-	construct_at (&*first, v);
+    const ForwardIterator start (first);
+    try {
+	for (++n; --n; ++first)
+	    construct_at (&*first, v);
+    } catch (...) {
+	destroy_constructed (start, first);
+	throw;
+    }
     return first;
 }
 
@@ -489,8 +535,14 @@ ForwardIterator uninitialized_fill_n (ForwardIterator first, size_t n, const T&
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move (InputIterator first, InputIterator last, ForwardIterator result)
 {
-    for (; first < last; ++result, ++first)
-	construct_at (&*result, move(*first));
+    const ForwardIterator start (result);
+    try {
+	for (; first < last; ++result, ++first)
+	    construct_at (&*result, move(*first));
+    } catch (...) {
+	destroy_constructed (start, result);
+	throw;
+    }
     return result;
 }
 
@@ -500,8 +552,14 @@ ForwardIterator uninitialized_move (InputIterator first, InputIterator last, For
 template <typename InputIterator, typename ForwardIterator>
 ForwardIterator uninitialized_move_n (InputIterator first, size_t n, ForwardIterator result)
 {
-    for (++n; --n; ++result, ++first)
-	construct_at (&*result, move(*first));
+    const ForwardIterator start (result);
+    try {
+	for (++n; --n; ++result, ++first)
+	    construct_at (&*result, move(*first));
+    } catch (...) {
+	destroy_constructed (start, result);
+	throw;
+    }
     return result;
 }
 
-- 
2.43.0


From 5b642839df42b67a6838480f0e0bd39b97711a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 127/140] fix: vector had an unconstructed element after a
 constructor threw

---
 uvector.h | 53 ++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/uvector.h b/uvector.h
index 1180148..6001055 100644
--- a/uvector.h
+++ b/uvector.h
@@ -108,7 +108,7 @@ public:
     inline size_t		stream_size (void) const		{ return container_stream_size (*this); }
 #if HAVE_CPP11
     inline			vector (vector&& v)			: _data(move(v._data)) {}
-    inline			vector (std::initializer_list<T> v)	: _data() { uninitialized_copy_n (v.begin(), v.size(), append_hole(v.size())); }
+    inline			vector (std::initializer_list<T> v)	: _data() { uninitialized_copy_n (v.begin(), v.size(), reserve_hole(v.size())); grow (v.size()); }
     inline vector&		operator= (vector&& v)			{ swap (v); return *this; }
     template <typename... Args>
     inline iterator		emplace (const_iterator ip, Args&&... args);
@@ -122,7 +122,9 @@ protected:
     inline iterator		insert_space (const_iterator ip, size_type n);
 private:
     inline iterator		insert_hole (const_iterator ip, size_type n);
-    inline iterator		append_hole (size_type n);
+    inline void			close_hole (iterator ip, size_type n);
+    inline iterator		reserve_hole (size_type n);
+    inline void			grow (size_type n)		{ _data.memlink::resize (_data.size() + n*sizeof(T)); }
     void			destroy_all (void)
 				    { if (!is_linked()) destroy (begin(), end()); }
 private:
@@ -136,14 +138,12 @@ inline void vector<T>::reserve (size_type n, bool bExact)
     _data.reserve (n*sizeof(T), bExact);
 }
 
+/// Makes space for \p n elements at the end. Call grow when they are constructed.
 template <typename T>
-inline typename vector<T>::iterator vector<T>::append_hole (size_type n)
+inline typename vector<T>::iterator vector<T>::reserve_hole (size_type n)
 {
-    size_type nsz = _data.size() + n*sizeof(T);
-    _data.reserve (nsz);
-    iterator hp = end();
-    _data.memlink::resize (nsz);
-    return hp;
+    _data.reserve (_data.size() + n*sizeof(T));
+    return end();
 }
 
 /// Resizes the vector to contain \p n elements.
@@ -202,7 +202,8 @@ template <typename T>
 vector<T>::vector (size_type n, const T& v)
 :_data()
 {
-    uninitialized_fill_n (append_hole (n), n, v);
+    uninitialized_fill_n (reserve_hole (n), n, v);
+    grow (n);
 }
 
 /// Copies \p v.
@@ -210,7 +211,8 @@ template <typename T>
 vector<T>::vector (const vector<T>& v)
 :_data()
 {
-    uninitialized_copy_n (v.begin(), v.size(), append_hole(v.size()));
+    uninitialized_copy_n (v.begin(), v.size(), reserve_hole(v.size()));
+    grow (v.size());
 }
 
 /// Copies range [\p i1, \p i2]
@@ -218,7 +220,8 @@ template <typename T>
 vector<T>::vector (const_iterator i1, const_iterator i2)
 :_data()
 {
-    uninitialized_copy (i1, i2, append_hole(distance(i1,i2)));
+    uninitialized_copy (i1, i2, reserve_hole(distance(i1,i2)));
+    grow (distance(i1,i2));
 }
 
 /// Destructor
@@ -262,12 +265,19 @@ inline typename vector<T>::iterator vector<T>::insert_hole (const_iterator ip, s
     return iterator (_data.insert (_data.iat(ipmi), n * sizeof(T)));
 }
 
+/// Removes \p n uninitialized elements at \p ip, when they could not be constructed.
+template <typename T>
+inline void vector<T>::close_hole (iterator ip, size_type n)
+{
+    _data.erase (memblock::iterator(ip), n * sizeof(T));
+}
+
 /// Inserts \p n uninitialized elements at \p ip.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::insert_space (const_iterator ip, size_type n)
 {
     iterator ih = insert_hole (ip, n);
-    uninitialized_default_construct_n (ih, n);
+    try { uninitialized_default_construct_n (ih, n); } catch (...) { close_hole (ih, n); throw; }
     return ih;
 }
 
@@ -276,7 +286,7 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, size_type n, const T& v)
 {
     iterator d = insert_hole (ip, n);
-    uninitialized_fill_n (d, n, v);
+    try { uninitialized_fill_n (d, n, v); } catch (...) { close_hole (d, n); throw; }
     return d;
 }
 
@@ -285,7 +295,7 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const T& v)
 {
     iterator d = insert_hole (ip, 1);
-    construct_at (d, v);
+    try { construct_at (d, v); } catch (...) { close_hole (d, 1); throw; }
     return d;
 }
 
@@ -294,8 +304,9 @@ template <typename T>
 inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const_iterator i1, const_iterator i2)
 {
     assert (i1 <= i2);
-    iterator d = insert_hole (ip, distance (i1, i2));
-    uninitialized_copy (i1, i2, d);
+    const size_type n = distance (i1, i2);
+    iterator d = insert_hole (ip, n);
+    try { uninitialized_copy (i1, i2, d); } catch (...) { close_hole (d, n); throw; }
     return d;
 }
 
@@ -320,7 +331,8 @@ inline typename vector<T>::iterator vector<T>::erase (const_iterator ep1, const_
 template <typename T>
 inline void vector<T>::push_back (const T& v)
 {
-    construct_at (append_hole(1), v);
+    construct_at (reserve_hole(1), v);
+    grow (1);
 }
 
 #if HAVE_CPP11
@@ -330,7 +342,9 @@ template <typename T>
 template <typename... Args>
 inline typename vector<T>::iterator vector<T>::emplace (const_iterator ip, Args&&... args)
 {
-    return new (insert_hole(ip,1)) T (forward<Args>(args)...);
+    iterator d = insert_hole (ip, 1);
+    try { new (d) T (forward<Args>(args)...); } catch (...) { close_hole (d, 1); throw; }
+    return d;
 }
 
 /// Constructs value at the end of the vector.
@@ -338,7 +352,8 @@ template <typename T>
 template <typename... Args>
 inline void vector<T>::emplace_back (Args&&... args)
 {
-    new (append_hole(1)) T (forward<Args>(args)...);
+    new (reserve_hole(1)) T (forward<Args>(args)...);
+    grow (1);
 }
 
 #endif
-- 
2.43.0


From aeec8b0a24382b7143373a42e300b0a7ae95c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:15 +0000
Subject: [PATCH 128/140] fix: a failed assignment left a set or a map unsorted

---
 umap.h      | 2 +-
 umultimap.h | 2 +-
 umultiset.h | 2 +-
 uset.h      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/umap.h b/umap.h
index 925bb68..e2c6065 100644
--- a/umap.h
+++ b/umap.h
@@ -54,7 +54,7 @@ public:
     explicit inline		map (size_type n)		: base_class (n) {}
     inline			map (rcself_t v)		: base_class (v) {}
     inline			map (const_iterator i1, const_iterator i2) : base_class() { insert (i1, i2); }
-    inline rcself_t		operator= (rcself_t v)		{ base_class::operator= (v); return *this; }
+    inline rcself_t		operator= (rcself_t v)		{ map t (v); swap (t); return *this; }
     inline const_data_ref	at (const_key_ref k) const	{ assert (find(k) != end()); return find(k)->second; }
     inline data_type&		at (const_key_ref k)		{ assert (find(k) != end()); return find(k)->second; }
     inline const_data_ref	operator[] (const_key_ref i) const	{ return at(i); }
diff --git a/umultimap.h b/umultimap.h
index 19d8837..89fed0d 100644
--- a/umultimap.h
+++ b/umultimap.h
@@ -42,7 +42,7 @@ public:
     explicit inline		multimap (size_type n)	: base_class (n) {}
     inline			multimap (rcself_t v)	: base_class (v) {}
     inline			multimap (const_iterator i1, const_iterator i2)	: base_class() { insert (i1, i2); }
-    inline rcself_t		operator= (rcself_t v)	{ base_class::operator= (v); return *this; }
+    inline rcself_t		operator= (rcself_t v)	{ multimap t (v); swap (t); return *this; }
     inline key_compare		key_comp (void) const	{ return key_compare(); }
     inline value_compare	value_comp (void) const	{ return value_compare(); }
     inline size_type		size (void) const	{ return base_class::size(); }
diff --git a/umultiset.h b/umultiset.h
index 1923d2f..35fc74b 100644
--- a/umultiset.h
+++ b/umultiset.h
@@ -37,7 +37,7 @@ public:
     inline explicit		multiset (size_type n)			: base_class (n) {}
     inline explicit		multiset (rcself_t v)			: base_class (v) {}
     inline			multiset (const_iterator i1, const_iterator i2) : base_class() { insert (i1, i2); }
-    inline rcself_t		operator= (rcself_t v)			{ base_class::operator= (v); return *this; }
+    inline rcself_t		operator= (rcself_t v)			{ multiset t (v); swap (t); return *this; }
     inline size_type		size (void) const			{ return base_class::size(); }
     inline iterator		begin (void)				{ return base_class::begin(); }
     inline const_iterator	begin (void) const			{ return base_class::begin(); }
diff --git a/uset.h b/uset.h
index 666e7cb..909cf07 100644
--- a/uset.h
+++ b/uset.h
@@ -38,7 +38,7 @@ public:
     explicit inline		set (size_type n)	: base_class (n) { }
     inline			set (rcself_t v)	: base_class (v) { }
     inline			set (const_iterator i1, const_iterator i2) : base_class() { insert (i1, i2); }
-    inline rcself_t		operator= (rcself_t v)	{ base_class::operator= (v); return *this; }
+    inline rcself_t		operator= (rcself_t v)	{ set t (v); swap (t); return *this; }
     inline size_type		size (void) const	{ return base_class::size(); }
     inline iterator		begin (void)		{ return base_class::begin(); }
     inline const_iterator	begin (void) const	{ return base_class::begin(); }
-- 
2.43.0


From f7a250e082ac3f88d70bb686ddad074ed8beaf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:10 +0000
Subject: [PATCH 129/140] fix: elements could not be moved to raw storage

---
 umemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/umemory.h b/umemory.h
index 589c036..428d20e 100644
--- a/umemory.h
+++ b/umemory.h
@@ -325,7 +325,7 @@ inline void construct_at (T* p, const T& value)
 ///
 template <typename T>
 inline void construct_at (T* p, T&& value)
-    { new (p) T (move<T>(value)); }
+    { new (p) T (move(value)); }
 #endif
 
 template <typename T>
-- 
2.43.0


From dbe7c03e4fd9e8a9abf8777282f6ad1108c7d72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 130/140] fix: a failed format left the string without a
 terminator

---
 ustring.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ustring.cc b/ustring.cc
index c40fd38..fc0c8ef 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -332,6 +332,8 @@ int string::vformat (const char* fmt, va_list args)
     do {
 	__va_copy (args2, args);
 	rv = vsnprintf (data(), wcap = memblock::capacity(), fmt, args2);
+	if (wcap && rv >= wcap)
+	    memlink::resize (wcap-1);	// The part that fits, in case resize throws
 	resize (rv);
     } while (rv && rv >= wcap);
     return rv;
-- 
2.43.0


From 0cc18c580145e56330564533c505dfe0db566948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:05 +0000
Subject: [PATCH 131/140] fix: compare stack and queue lexicographically

---
 uqueue.h | 2 +-
 ustack.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/uqueue.h b/uqueue.h
index 0971f05..dc0cca0 100644
--- a/uqueue.h
+++ b/uqueue.h
@@ -40,7 +40,7 @@ public:
 				}
     inline void			swap (queue& v)			{ _storage.swap (v._storage); ::ustl::swap (_front, v._front); }
     inline bool			operator== (const queue& s) const	{ return size() == s.size() && equal (_storage.begin()+_front, _storage.end(), s._storage.begin()+s._front); }
-    inline bool			operator< (const queue& s) const	{ return size() < s.size(); }
+    inline bool			operator< (const queue& s) const	{ return lexicographical_compare (_storage.begin()+_front, _storage.end(), s._storage.begin()+s._front, s._storage.end()); }
 #if HAVE_CPP11
     inline			queue (queue&& v)		: _storage(move(v._storage)),_front(v._front) { v._front = 0; }
     inline			queue (container_type&& s)	: _storage(move(s)),_front(0) {}
diff --git a/ustack.h b/ustack.h
index 5d62502..7cc20f4 100644
--- a/ustack.h
+++ b/ustack.h
@@ -33,7 +33,7 @@ public:
     inline void			pop (void)			{ _storage.pop_back(); }
     inline void			swap (stack& v)			{ _storage.swap (v._storage); }
     inline bool			operator== (const stack& s) const	{ return _storage == s._storage; }
-    inline bool			operator< (const stack& s) const	{ return _storage.size() < s._storage.size(); }
+    inline bool			operator< (const stack& s) const	{ return lexicographical_compare (_storage.begin(), _storage.end(), s._storage.begin(), s._storage.end()); }
 #if HAVE_CPP11
     inline			stack (stack&& v)		: _storage(move(v._storage)) {}
     inline			stack (container_type&& s)	: _storage(move(s)) {}
-- 
2.43.0


From b49ea209dd096cee76fd0f3af56534524ad2c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 132/140] fix: copy the elements when a linked vector of
 objects is modified

---
 uvector.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/uvector.h b/uvector.h
index 6001055..5c7f3bd 100644
--- a/uvector.h
+++ b/uvector.h
@@ -80,7 +80,7 @@ public:
     inline reference		back (void)			{ assert (!empty()); return end()[-1]; }
     inline const_reference	back (void) const		{ assert (!empty()); return end()[-1]; }
     inline void			push_back (const T& v = T());
-    inline void			pop_back (void)			{ size_type nsz = _data.size()-sizeof(T); destroy (iterator(_data.begin()+nsz)); _data.memlink::resize (nsz); }
+    inline void			pop_back (void)			{ size_type nsz = _data.size()-sizeof(T); if (!is_linked()) destroy (iterator(_data.begin()+nsz)); _data.memlink::resize (nsz); }
     inline void			clear (void)			{ destroy_all(); _data.clear(); }
     inline void			shrink_to_fit (void)		{ _data.shrink_to_fit(); }
     inline void			deallocate (void) noexcept;
@@ -95,7 +95,7 @@ public:
     inline void			manage (pointer p, size_type n)		{ _data.manage (p, n * sizeof(T)); }
     inline bool			is_linked (void) const			{ return _data.is_linked(); }
     inline void			unlink (void)				{ _data.unlink(); }
-    inline void			copy_link (void)			{ _data.copy_link(); }
+    inline void			copy_link (void)			{ reserve (size()); }
     inline void			link (const_pointer p, size_type n)	{ _data.link (p, n * sizeof(T)); }
     inline void			link (pointer p, size_type n)		{ _data.link (p, n * sizeof(T)); }
     inline void			link (const vector& v)		{ _data.link (v); }
@@ -135,14 +135,21 @@ private:
 template <typename T>
 inline void vector<T>::reserve (size_type n, bool bExact)
 {
-    _data.reserve (n*sizeof(T), bExact);
+    if (is_linked() && !empty()) {	// linked elements belong to somebody else, so use copies of them
+	vector t;
+	t._data.reserve (max (n, size())*sizeof(T), bExact);
+	uninitialized_copy_n (const_iterator(begin()), size(), t.end());
+	t.grow (size());
+	swap (t);
+    } else
+	_data.reserve (n*sizeof(T), bExact);
 }
 
 /// Makes space for \p n elements at the end. Call grow when they are constructed.
 template <typename T>
 inline typename vector<T>::iterator vector<T>::reserve_hole (size_type n)
 {
-    _data.reserve (_data.size() + n*sizeof(T));
+    reserve (size() + n);
     return end();
 }
 
@@ -151,7 +158,7 @@ template <typename T>
 void vector<T>::resize (size_type n)
 {
     size_type nb = n*sizeof(T);
-    _data.reserve (nb);
+    reserve (n);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
 	destroy (inewend, end());
@@ -165,7 +172,7 @@ template <typename T>
 void vector<T>::resize (size_type n, const_reference v)
 {
     size_type nb = n*sizeof(T);
-    _data.reserve (nb);
+    reserve (n);
     iterator inewend = iterator(_data.begin()+nb);
     if (nb < _data.size())
 	destroy (inewend, end());
@@ -314,7 +321,9 @@ inline typename vector<T>::iterator vector<T>::insert (const_iterator ip, const_
 template <typename T>
 inline typename vector<T>::iterator vector<T>::erase (const_iterator ep, size_type n)
 {
-    iterator d = const_cast<iterator>(ep);
+    const size_type i = distance (const_iterator(begin()), ep);
+    reserve (size());
+    iterator d = iat (i);
     destroy_n (d, n);
     return iterator (_data.erase (memblock::iterator(d), n * sizeof(T)));
 }
-- 
2.43.0


From ca516953b9c41209b009cdeebfea9e61bf7fb9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:09 +0000
Subject: [PATCH 133/140] fix: initialize packed tuples for any optimization
 level

---
 utuple.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utuple.h b/utuple.h
index fd61d46..e44e0d9 100644
--- a/utuple.h
+++ b/utuple.h
@@ -252,7 +252,8 @@ SSE_TUPLE_SPECS(4,uint32_t)
 #define LONG_TUPLE_SPECS(n,type)		\
 template <> inline tuple<n,type>::tuple (void)	\
 { asm("":"+m"(_v[0])::"memory");		\
-  *noalias_cast<long*>(_v) = 0; }				\
+  *noalias_cast<long*>(_v) = 0;			\
+  asm("":"+m"(_v[0])::"memory"); }		\
 template<> inline void tuple<n,type>::swap (tuple<n,type>& v)	\
 { asm("":"+m"(_v[0]),"+m"(v._v[0])::"memory");			\
   iter_swap (noalias_cast<long*>(_v), noalias_cast<long*>(v._v));	\
-- 
2.43.0


From 4720178d3f801d05dde38a23f260d3b012d4ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:20 +0000
Subject: [PATCH 134/140] fix: negative distance between istream iterators

---
 mistream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mistream.h b/mistream.h
index ff17f42..b3e1310 100644
--- a/mistream.h
+++ b/mistream.h
@@ -144,7 +144,7 @@ public:
     inline istream_iterator&	operator+= (streamsize n)	{ while (n--) operator++(); return *this; }
     inline istream_iterator&	operator-= (streamsize n)	{ _pis->seek (_pis->pos() - (n + 1) * stream_size_of(_v)); return operator++(); }
     inline istream_iterator	operator- (streamoff n) const			{ istream_iterator result (*this); return result -= n; }
-    constexpr difference_type	operator- (const istream_iterator& i) const	{ return distance (i._pis->pos(), _pis->pos()) / stream_size_of(_v); }
+    constexpr difference_type	operator- (const istream_iterator& i) const	{ return difference_type(distance (i._pis->pos(), _pis->pos())) / difference_type(stream_size_of(_v)); }
     constexpr bool		operator== (const istream_iterator& i) const	{ return (!_pis && !i._pis) || (_pis && i._pis && _pis->pos() == i._pis->pos()); }
     constexpr bool		operator< (const istream_iterator& i) const	{ return _pis && (!i._pis || _pis->pos() < i._pis->pos()); }
 private:
-- 
2.43.0


From 6e66e88522271769c0949e7dd1e81cc23a4d06a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:58 +0000
Subject: [PATCH 135/140] fix: stream position lost on self-assignment

---
 cmemlink.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmemlink.h b/cmemlink.h
index c00c2e9..bf8070b 100644
--- a/cmemlink.h
+++ b/cmemlink.h
@@ -57,7 +57,7 @@ public:
     inline void		link (const void* first, const void* last)	{ link (first, distance (first, last)); }
     constexpr void	relink (const void* p, size_type n) { _data = static_cast<const_pointer>(p); _size = n; }
     virtual void	unlink (void) noexcept		{ _data = nullptr; _size = 0; }
-    inline rcself_t	operator= (const cmemlink& l)	{ link (l); return *this; }
+    inline rcself_t	operator= (const cmemlink& l)	{ if (&l != this) link (l); return *this; }
     constexpr bool	operator== (const cmemlink& l) const
 							{ return l._size == _size && (l._data == _data || 0 == __builtin_memcmp (l._data, _data, _size)); }
     constexpr void	swap (cmemlink& l)		{ ::ustl::swap (_data, l._data); ::ustl::swap (_size, l._size); }
-- 
2.43.0


From b744b1a68a69172b4e86d5deabd9afae2151496a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:21 +0000
Subject: [PATCH 136/140] fix: make_pair of variables returned references to
 them

---
 ualgo.h | 6 +++---
 upair.h | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/ualgo.h b/ualgo.h
index 24d51d1..818238b 100644
--- a/ualgo.h
+++ b/ualgo.h
@@ -669,13 +669,13 @@ inline constexpr ForwardIterator min_element (ForwardIterator first, ForwardIter
 /// Returns min,max pair of the argument
 template <typename T>
 inline constexpr auto minmax (const T& a, const T& b)
-    { return a < b ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
+    { return a < b ? pair<const T&,const T&>(a,b) : pair<const T&,const T&>(b,a); }
 template <typename T>
 inline constexpr auto minmax (T& a, T& b)
-    { return a < b ? make_pair<T&,T&>(a,b) : make_pair<T&,T&>(b,a); }
+    { return a < b ? pair<T&,T&>(a,b) : pair<T&,T&>(b,a); }
 template <typename T, typename Compare>
 inline constexpr auto minmax (const T& a, const T& b, Compare comp)
-    { return comp(a,b) ? make_pair<const T&,const T&>(a,b) : make_pair<const T&,const T&>(b,a); }
+    { return comp(a,b) ? pair<const T&,const T&>(a,b) : pair<const T&,const T&>(b,a); }
 template <typename T> constexpr void minmax (T&& a, T&& b) = delete;
 template <typename T, typename Compare> constexpr void minmax (const T& a, const T& b, Compare comp) = delete;
 
diff --git a/upair.h b/upair.h
index f6a9817..7700d77 100644
--- a/upair.h
+++ b/upair.h
@@ -5,6 +5,7 @@
 
 #pragma once
 #include "ualgobase.h"
+#include "uttraits.h"
 
 namespace ustl {
 
@@ -60,8 +61,8 @@ public:
 
 /// Returns a pair object with (a,b)
 template <typename T1, typename T2>
-inline constexpr pair<T1,T2> make_pair (T1&& a, T2&& b)
-    { return pair<T1,T2> (forward<T1>(a), forward<T2>(b)); }
+inline constexpr pair<decay_t<T1>,decay_t<T2>> make_pair (T1&& a, T2&& b)
+    { return pair<decay_t<T1>,decay_t<T2>> (forward<T1>(a), forward<T2>(b)); }
 
 #endif
 
-- 
2.43.0


From e9039ed2ff989f0bb57a45b1fda83914ac20c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:16 +0000
Subject: [PATCH 137/140] fix: demangling long names freed a buffer on the
 stack

---
 uexception.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/uexception.cc b/uexception.cc
index c453d88..bb71062 100644
--- a/uexception.cc
+++ b/uexception.cc
@@ -75,14 +75,13 @@ const char* demangle_type_name (char* buf, size_t bufSize, size_t* pdmSize) noex
 {
     size_t bl = strlen (buf);
 #if HAVE_CXXABI_H && WANT_NAME_DEMANGLING
-    char dmname [256];
-    size_t sz = VectorSize(dmname);
-    int bFailed;
-    __cxa_demangle (buf, dmname, &sz, &bFailed);
-    if (!bFailed) {
+    int bFailed = 0;
+    char* dmname = __cxa_demangle (buf, nullptr, nullptr, &bFailed);	// it must be free to reallocate its buffer
+    if (dmname) {
 	bl = min (strlen (dmname), bufSize - 1);
 	memcpy (buf, dmname, bl);
 	buf[bl] = 0;
+	free (dmname);
     }
 #else
     bl = min (bl, bufSize);
-- 
2.43.0


From 8fb4331ffce846b81191b23172319f09d6464e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:16 +0000
Subject: [PATCH 138/140] fix: backtrace symbols overflow when demangling fails
 once

---
 bktrace.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bktrace.cc b/bktrace.cc
index 1c203f9..0e446ad 100644
--- a/bktrace.cc
+++ b/bktrace.cc
@@ -86,8 +86,9 @@ void CBacktrace::GetSymbols (void) noexcept
     for (uoff_t i = 0; i < _nFrames; ++ i)
 	symSize += ExtractAbiName (symbols[i], nmbuf) + 1;
     if ((_symbols = static_cast<char*>(calloc (symSize, 1)))) {
-	for (uoff_t i = 0; _symbolsSize < symSize - 1; ++ i) {
-	    size_t sz = ExtractAbiName (symbols[i], nmbuf);
+	for (uoff_t i = 0; i < _nFrames && _symbolsSize < symSize - 1; ++ i) {
+	    // The name may come out different the second time, if demangling runs out of memory
+	    size_t sz = min (ExtractAbiName (symbols[i], nmbuf), symSize - 2 - _symbolsSize);
 	    memcpy (_symbols + _symbolsSize, nmbuf, sz);
 	    _symbolsSize += sz + 1;
 	    _symbols [_symbolsSize - 1] = '\n';
-- 
2.43.0


From 743bc1c2e0e114ee4cdc7d8a7065dc205b9751f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:16 +0000
Subject: [PATCH 139/140] fix: debug assertion in finding a part of a text

---
 ustring.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ustring.cc b/ustring.cc
index fc0c8ef..662860a 100644
--- a/ustring.cc
+++ b/ustring.cc
@@ -253,9 +253,9 @@ string::pos_type string::find (const string& s, pos_type pos) const noexcept
     if (s.empty() || s.size() > size() - pos)
 	return npos;
     pos_type endi = s.size() - 1;
-    value_type endchar = s[endi];
+    value_type endchar = s.at(endi);	// s may be linked and not terminated
     pos_type lastPos = endi;
-    while (lastPos-- && s[lastPos] != endchar) {}
+    while (lastPos-- && s.at(lastPos) != endchar) {}
     const size_type skip = endi - lastPos;
     const_iterator i = iat(pos) + endi;
     for (; i < end() && (i = ::ustl::find (i, end(), endchar)) < end(); i += skip)
-- 
2.43.0


From 19cfde2f54bd7d6edaf9b4ba6e64a02e1aa1e90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:16 +0000
Subject: [PATCH 140/140] fix: debug assertion after a failed read or write

---
 mistream.h | 2 +-
 mostream.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mistream.h b/mistream.h
index b3e1310..46b5062 100644
--- a/mistream.h
+++ b/mistream.h
@@ -225,7 +225,7 @@ inline void istream::align (streamsize grain)
 template <typename T>
 inline void istream::iread (T& v)
 {
-    assert (aligned (stream_align_of (v)));
+    assert (fail() || aligned (stream_align_of (v)));
 #if WANT_STREAM_BOUNDS_CHECKING
     if (!verify_remaining ("read", typeid(v).name(), sizeof(T)))
 	return;
diff --git a/mostream.h b/mostream.h
index 7e99749..3608c14 100644
--- a/mostream.h
+++ b/mostream.h
@@ -216,7 +216,7 @@ inline void ostream::write (const cmemlink& buf)
 template <typename T>
 inline void ostream::iwrite (const T& v)
 {
-    assert (aligned (stream_align_of (v)));
+    assert (fail() || aligned (stream_align_of (v)));
 #if WANT_STREAM_BOUNDS_CHECKING
     if (!verify_remaining ("write", typeid(v).name(), sizeof(T)))
 	return;
-- 
2.43.0

