From 1eeff449aa0989a3327cb09619d40b58b96ca2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:51 +0000
Subject: [PATCH 01/23] fix: zera: envelope bounds check overflowed 32 bits for
 env_size near 4 GiB

---
 include/zerialize/protocols/zera.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b474e42..7aaea75 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -498,8 +498,8 @@ class ZeraDeserializer final : public ZeraViewBase {
         require(h.root_ofs < h.env_size, "zera: root_ofs out of bounds");
         require(h.arena_ofs <= buf.size(), "zera: arena_ofs out of bounds");
         require((h.arena_ofs % ArenaBaseAlign) == 0, "zera: arena_ofs not aligned");
-        require(h.arena_ofs >= HeaderSize + h.env_size, "zera: arena_ofs overlaps envelope");
-        require(HeaderSize + h.env_size <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
+        require(h.arena_ofs >= std::size_t(HeaderSize) + h.env_size, "zera: arena_ofs overlaps envelope");
+        require(std::size_t(HeaderSize) + h.env_size <= h.arena_ofs, "zera: envelope exceeds arena_ofs");
 
         buf_ = buf.data();
         buf_len_ = buf.size();
-- 
2.43.0


From fc2b4a8bb4b3e17ba0dbfb3b119a8e97cbc3bc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:51 +0000
Subject: [PATCH 02/23] fix: zera: envelope offsets beyond 4 GiB wrapped to 32
 bits and aliased other entries

---
 include/zerialize/protocols/zera.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 7aaea75..3484896 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,10 +195,10 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
-    const std::uint8_t* env_ptr_at(std::uint32_t ofs, std::size_t need) const {
+    const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
         require(ofs <= env_size_, "zera: envelope offset out of bounds");
         require(need <= env_size_, "zera: envelope need out of bounds");
-        require(std::size_t(ofs) + need <= env_size_, "zera: envelope span out of bounds");
+        require(ofs + need <= env_size_, "zera: envelope span out of bounds");
         return env_ + ofs;
     }
 
@@ -396,7 +396,7 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        const auto* entries = env_ptr_at(obj_ofs + 4, 0);
+        const auto* entries = env_ptr_at(std::size_t(obj_ofs) + 4, 0);
         return KeysView{this, entries, count};
     }
 
@@ -406,16 +406,16 @@ public:
         const std::uint32_t obj_ofs = a();
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
-        std::size_t ofs = obj_ofs + 4;
+        std::size_t ofs = std::size_t(obj_ofs) + 4;
         for (std::uint32_t i = 0; i < count; ++i) {
-            const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+            const auto* e = env_ptr_at(ofs, 4);
             const std::uint16_t key_len = read_u16_le(e);
             (void)read_u16_le(e + 2); // reserved
-            const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
+            const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
             if (key_len == key.size() &&
                 std::memcmp(key_bytes, key.data(), key.size()) == 0) return true;
             ofs += 4 + std::size_t(key_len) + 16;
-            (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+            (void)env_ptr_at(ofs, 0);
         }
         return false;
     }
@@ -458,7 +458,7 @@ inline ZeraValue ZeraViewBase::operator[](std::size_t idx) const {
     const std::uint32_t count = read_u32_le(p);
     require(idx < count, "zera: array index out of bounds");
     const std::size_t elem_ofs = std::size_t(arr_ofs) + 4 + 16 * idx;
-    const auto* vr = env_ptr_at(static_cast<std::uint32_t>(elem_ofs), 16);
+    const auto* vr = env_ptr_at(elem_ofs, 16);
     return ZeraValue(*this, vr);
 }
 
@@ -468,18 +468,18 @@ inline ZeraValue ZeraViewBase::operator[](std::string_view key) const {
     const std::uint32_t obj_ofs = a();
     const auto* p = env_ptr_at(obj_ofs, 4);
     const std::uint32_t count = read_u32_le(p);
-    std::size_t ofs = obj_ofs + 4;
+    std::size_t ofs = std::size_t(obj_ofs) + 4;
     for (std::uint32_t i = 0; i < count; ++i) {
-        const auto* e = env_ptr_at(static_cast<std::uint32_t>(ofs), 4);
+        const auto* e = env_ptr_at(ofs, 4);
         const std::uint16_t key_len = read_u16_le(e);
         (void)read_u16_le(e + 2); // reserved
-        const auto* key_bytes = env_ptr_at(static_cast<std::uint32_t>(ofs + 4), key_len);
-        const auto* value_vr = env_ptr_at(static_cast<std::uint32_t>(ofs + 4 + key_len), 16);
+        const auto* key_bytes = env_ptr_at(ofs + 4, key_len);
+        const auto* value_vr = env_ptr_at(ofs + 4 + key_len, 16);
         if (key_len == key.size() && std::memcmp(key_bytes, key.data(), key.size()) == 0) {
             return ZeraValue(*this, value_vr);
         }
         ofs += 4 + std::size_t(key_len) + 16;
-        (void)env_ptr_at(static_cast<std::uint32_t>(ofs), 0);
+        (void)env_ptr_at(ofs, 0);
     }
     throw DeserializationError("zera: key not found: " + std::string(key));
 }
-- 
2.43.0


From d4a3d255cfd68dcada8b8944d92aaa560da72cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 03/23] fix: zera: mapKeys() iteration read a key length before
 checking it lies inside the envelope

---
 include/zerialize/protocols/zera.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index 3484896..caf867c 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -365,17 +365,20 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
+                const auto cur_ofs = std::size_t(cur - self->env_);
+                (void)self->env_ptr_at(cur_ofs, 4);
                 const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(std::uint32_t(cur - self->env_), 4 + key_len + 16);
+                (void)self->env_ptr_at(cur_ofs, 4 + key_len + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
+                const auto cur_ofs = std::size_t(cur - self->env_);
+                (void)self->env_ptr_at(cur_ofs, 4);
                 const auto key_len = read_u16_le(cur);
                 const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                const auto cur_ofs = std::uint32_t(cur - self->env_);
-                cur = self->env_ptr_at(cur_ofs + std::uint32_t(adv), 0);
+                cur = self->env_ptr_at(cur_ofs + adv, 0);
                 ++i;
                 return *this;
             }
-- 
2.43.0


From c8b27fb8f944fa12360e008f4783db222350dcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:15 +0000
Subject: [PATCH 04/23] fix: zera: mapKeys() of a temporary view kept a
 dangling pointer to it

---
 include/zerialize/protocols/zera.hpp | 39 ++++++++++++++++------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index caf867c..b002302 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -195,11 +195,15 @@ protected:
         return std::span<const std::byte>(reinterpret_cast<const std::byte*>(arena_ + ofs), len);
     }
 
+    static const std::uint8_t* env_ptr_at(const std::uint8_t* env, std::size_t env_size,
+                                          std::size_t ofs, std::size_t need) {
+        require(ofs <= env_size, "zera: envelope offset out of bounds");
+        require(need <= env_size, "zera: envelope need out of bounds");
+        require(ofs + need <= env_size, "zera: envelope span out of bounds");
+        return env + ofs;
+    }
     const std::uint8_t* env_ptr_at(std::size_t ofs, std::size_t need) const {
-        require(ofs <= env_size_, "zera: envelope offset out of bounds");
-        require(need <= env_size_, "zera: envelope need out of bounds");
-        require(ofs + need <= env_size_, "zera: envelope span out of bounds");
-        return env_ + ofs;
+        return env_ptr_at(env_, env_size_, ofs, need);
     }
 
     void require_flags_ok() const {
@@ -348,12 +352,15 @@ public:
 
     // mapKeys() must be a forward range of string_view, zero-alloc.
     struct KeysView {
-        const ZeraViewBase* self = nullptr;
+        // the envelope is kept by value: the view mapKeys() was called on may be a temporary
+        const std::uint8_t* env = nullptr;
+        std::size_t env_size = 0;
         const std::uint8_t* p = nullptr;
         std::uint32_t count = 0;
 
         struct iterator {
-            const ZeraViewBase* self = nullptr;
+            const std::uint8_t* env = nullptr;
+            std::size_t env_size = 0;
             const std::uint8_t* cur = nullptr;
             std::uint32_t i = 0;
             std::uint32_t n = 0;
@@ -365,30 +372,30 @@ public:
 
             reference operator*() const {
                 if (i >= n) ZeraViewBase::fail("zera: KeysView deref out of range");
-                const auto cur_ofs = std::size_t(cur - self->env_);
-                (void)self->env_ptr_at(cur_ofs, 4);
+                const auto cur_ofs = std::size_t(cur - env);
+                (void)ZeraViewBase::env_ptr_at(env, env_size, cur_ofs, 4);
                 const auto key_len = read_u16_le(cur);
-                (void)self->env_ptr_at(cur_ofs, 4 + key_len + 16);
+                (void)ZeraViewBase::env_ptr_at(env, env_size, cur_ofs, 4 + key_len + 16);
                 return std::string_view(reinterpret_cast<const char*>(cur + 4), key_len);
             }
 
             iterator& operator++() {
                 if (i >= n) return *this;
-                const auto cur_ofs = std::size_t(cur - self->env_);
-                (void)self->env_ptr_at(cur_ofs, 4);
+                const auto cur_ofs = std::size_t(cur - env);
+                (void)ZeraViewBase::env_ptr_at(env, env_size, cur_ofs, 4);
                 const auto key_len = read_u16_le(cur);
                 const std::size_t adv = 4 + std::size_t(key_len) + 16;
-                cur = self->env_ptr_at(cur_ofs + adv, 0);
+                cur = ZeraViewBase::env_ptr_at(env, env_size, cur_ofs + adv, 0);
                 ++i;
                 return *this;
             }
             iterator operator++(int) { iterator tmp = *this; ++(*this); return tmp; }
-            friend bool operator==(const iterator& a, const iterator& b) { return a.self==b.self && a.i==b.i && a.n==b.n; }
+            friend bool operator==(const iterator& a, const iterator& b) { return a.env==b.env && a.i==b.i && a.n==b.n; }
         };
 
-        iterator begin() const { return iterator{self, p, 0, count}; }
+        iterator begin() const { return iterator{env, env_size, p, 0, count}; }
         iterator end() const {
-            auto it = iterator{self, p, count, count};
+            auto it = iterator{env, env_size, p, count, count};
             return it;
         }
     };
@@ -400,7 +407,7 @@ public:
         const auto* p = env_ptr_at(obj_ofs, 4);
         const std::uint32_t count = read_u32_le(p);
         const auto* entries = env_ptr_at(std::size_t(obj_ofs) + 4, 0);
-        return KeysView{this, entries, count};
+        return KeysView{env_, env_size_, entries, count};
     }
 
     bool contains(std::string_view key) const {
-- 
2.43.0


From 992bc44908970611ccac4fa8ddc469561046d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 05/23] fix: zera: copying an owning deserializer left the copy
 viewing the source's bytes

---
 include/zerialize/protocols/zera.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/zerialize/protocols/zera.hpp b/include/zerialize/protocols/zera.hpp
index b002302..5e371f3 100644
--- a/include/zerialize/protocols/zera.hpp
+++ b/include/zerialize/protocols/zera.hpp
@@ -525,6 +525,17 @@ class ZeraDeserializer final : public ZeraViewBase {
 public:
     ZeraDeserializer() = default;
 
+    // A copy of an owning reader owns its own bytes, so its views must refer to those.
+    ZeraDeserializer(const ZeraDeserializer& o) : ZeraViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) {
+            view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
+            init_from(view_);
+        }
+    }
+    ZeraDeserializer& operator=(const ZeraDeserializer& o) { return *this = ZeraDeserializer(o); }
+    ZeraDeserializer(ZeraDeserializer&&) = default;
+    ZeraDeserializer& operator=(ZeraDeserializer&&) = default;
+
     explicit ZeraDeserializer(const std::vector<std::uint8_t>& buf) : owned_(buf) {
         view_ = std::span<const std::uint8_t>(owned_.data(), owned_.size());
         init_from(view_);
-- 
2.43.0


From aefba2fcca835c28d5cf89f2dcada4d25f1adc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 06/23] fix: msgpack: copying an owning deserializer left the
 copy viewing the source's bytes

---
 include/zerialize/protocols/msgpack.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 9127f04..fa5b7b5 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -216,6 +216,14 @@ public:
     // ---- ctors ----
     MsgPackDeserializer() = default;
 
+    // A copy of an owning reader owns its own bytes, so its view must refer to those.
+    MsgPackDeserializer(const MsgPackDeserializer& o) : owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) view_ = owned_;
+    }
+    MsgPackDeserializer& operator=(const MsgPackDeserializer& o) { return *this = MsgPackDeserializer(o); }
+    MsgPackDeserializer(MsgPackDeserializer&&) = default;
+    MsgPackDeserializer& operator=(MsgPackDeserializer&&) = default;
+
     // Non-owning view constructor (zero-copy): caller must keep `bytes` alive.
     explicit MsgPackDeserializer(std::span<const uint8_t> bytes)
       : view_(bytes) {}
-- 
2.43.0


From 4d81cf950689a7fbac9ddfde6c97cc11b9448151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:51 +0000
Subject: [PATCH 07/23] fix: flex: copying an owning deserializer left the copy
 viewing the source's bytes

---
 include/zerialize/protocols/flex.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 7a4a8ab..de01e24 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -375,6 +375,14 @@ public:
         ref_ = owned_.empty() ? ::flexbuffers::Reference{} : ::flexbuffers::GetRoot(owned_);
       }
 
+    // A copy of an owning reader owns its own bytes, so its reference must point into those.
+    FlexDeserializer(const FlexDeserializer& o) : FlexViewBase(o), owned_(o.owned_), view_(o.view_) {
+        if (!owned_.empty()) ref_ = ::flexbuffers::GetRoot(owned_);
+    }
+    FlexDeserializer& operator=(const FlexDeserializer& o) { return *this = FlexDeserializer(o); }
+    FlexDeserializer(FlexDeserializer&&) = default;
+    FlexDeserializer& operator=(FlexDeserializer&&) = default;
+
     // -------- constructors (non-owning / zero-copy) --------
     explicit FlexDeserializer(std::span<const uint8_t> bytes)
       : FlexViewBase(), view_(bytes) {
-- 
2.43.0


From 6b70151ccdc445043970c7d0a5e42edd557c057e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 08/23] fix: msgpack: mp_skip returned sizes beyond the input,
 and recursed once per nesting level

---
 include/zerialize/protocols/msgpack.hpp | 66 ++++++++++---------------
 1 file changed, 27 insertions(+), 39 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index fa5b7b5..ef06df2 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -31,13 +31,13 @@ inline uint64_t mp_read_be64(const uint8_t* p) {
            (uint64_t(p[4]) << 24) | (uint64_t(p[5]) << 16) | (uint64_t(p[6]) << 8) | uint64_t(p[7]);
 }
 
-// Forward decl
-inline size_t mp_skip(std::span<const uint8_t>);
-
 // ===== minimal element skipper (for iterators / indexing) ====================
-inline size_t mp_skip(std::span<const uint8_t> v) {
+// Bytes taken by the element at the front of v, not counting its children
+// (array elements, or map keys and values), whose number is stored in `children`.
+inline size_t mp_head(std::span<const uint8_t> v, size_t& children) {
     if (v.empty()) throw DeserializationError("msgpack: empty in skip");
     const uint8_t m = v[0];
+    children = 0;
 
     // Single byte: nil/bool/fixint/neg fixint
     if ((m <= 0x7f) || (m >= 0xe0) || m == 0xc0 || m == 0xc2 || m == 0xc3) return 1;
@@ -45,20 +45,9 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
     // fixstr
     if ((m & 0xe0) == 0xa0) return 1 + (m & 0x1f);
     // fixarray
-    if ((m & 0xf0) == 0x90) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) { auto s = mp_skip(v.subspan(off)); off += s; }
-        return off;
-    }
+    if ((m & 0xf0) == 0x90) { children = m & 0x0f; return 1; }
     // fixmap
-    if ((m & 0xf0) == 0x80) {
-        size_t n = m & 0x0f, off = 1;
-        for (size_t i = 0; i < n; ++i) {
-            auto ks = mp_skip(v.subspan(off)); off += ks;
-            auto vs = mp_skip(v.subspan(off)); off += vs;
-        }
-        return off;
-    }
+    if ((m & 0xf0) == 0x80) { children = 2 * size_t(m & 0x0f); return 1; }
 
     switch (m) {
         // ints / floats
@@ -70,41 +59,40 @@ inline size_t mp_skip(std::span<const uint8_t> v) {
         // str
         case 0xd9: { if (v.size() < 2) throw DeserializationError("str8");  return 2 + v[1]; }
         case 0xda: { if (v.size() < 3) throw DeserializationError("str16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xdb: { if (v.size() < 5) throw DeserializationError("str32"); return 5 + size_t(mp_read_be32(v.data()+1)); }
 
         // bin
         case 0xc4: { if (v.size() < 2) throw DeserializationError("bin8");  return 2 + v[1]; }
         case 0xc5: { if (v.size() < 3) throw DeserializationError("bin16"); return 3 + mp_read_be16(v.data()+1); }
-        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + mp_read_be32(v.data()+1); }
+        case 0xc6: { if (v.size() < 5) throw DeserializationError("bin32"); return 5 + size_t(mp_read_be32(v.data()+1)); }
 
         // arrays
-        case 0xdc: {
-            if (v.size() < 3) throw DeserializationError("array16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
-        case 0xdd: {
-            if (v.size() < 5) throw DeserializationError("array32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto s=mp_skip(v.subspan(off)); off+=s; } return off;
-        }
+        case 0xdc: { if (v.size() < 3) throw DeserializationError("array16"); children = mp_read_be16(v.data()+1); return 3; }
+        case 0xdd: { if (v.size() < 5) throw DeserializationError("array32"); children = mp_read_be32(v.data()+1); return 5; }
 
         // maps
-        case 0xde: {
-            if (v.size() < 3) throw DeserializationError("map16");
-            size_t n = mp_read_be16(v.data()+1), off = 3;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
-        case 0xdf: {
-            if (v.size() < 5) throw DeserializationError("map32");
-            size_t n = mp_read_be32(v.data()+1), off = 5;
-            for (size_t i=0;i<n;++i){ auto ks=mp_skip(v.subspan(off)); off+=ks; auto vs=mp_skip(v.subspan(off)); off+=vs; } return off;
-        }
+        case 0xde: { if (v.size() < 3) throw DeserializationError("map16"); children = 2 * size_t(mp_read_be16(v.data()+1)); return 3; }
+        case 0xdf: { if (v.size() < 5) throw DeserializationError("map32"); children = 2 * size_t(mp_read_be32(v.data()+1)); return 5; }
         default: break;
     }
     throw DeserializationError("msgpack: unsupported marker");
 }
 
+// Size in bytes of the element at the front of v, children included; never more than v.size().
+inline size_t mp_skip(std::span<const uint8_t> v) {
+    size_t off = 0;
+    for (size_t pending = 1; pending > 0; --pending) {
+        size_t children = 0;
+        const size_t n = mp_head(v.subspan(off), children);
+        if (n > v.size() - off) throw DeserializationError("msgpack: truncated element");
+        off += n;
+        // each child takes at least one byte
+        if (children > v.size() - off) throw DeserializationError("msgpack: truncated container");
+        pending += children;
+    }
+    return off;
+}
+
 // ===== Deserializer ==========================================================
 class MsgPackDeserializer {
     // root ownership if constructed from bytes/vector
-- 
2.43.0


From 5cd8bb60e4d6fc48056aacf20b3f174afe64e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 09/23] fix: msgpack: string, bin, array and map accessors read
 past a truncated element

---
 include/zerialize/protocols/msgpack.hpp | 29 +++++++++++++++----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index ef06df2..5ad5746 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -101,33 +101,40 @@ class MsgPackDeserializer {
     std::span<const uint8_t> view_{};
 
     // helpers: decode headers
+    static void need(std::span<const uint8_t> v, size_t n) {
+        if (v.size() < n) throw DeserializationError("msgpack: truncated element");
+    }
     static void str_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); p = v.data()+1; return; }
-        if (m == 0xd9) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xda) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xdb) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if ((m & 0xe0) == 0xa0) { len = (m & 0x1f); need(v, 1 + len); p = v.data()+1; return; }
+        if (m == 0xd9) { need(v, 2); len = v[1]; need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xda) { need(v, 3); len = mp_read_be16(v.data()+1); need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xdb) { need(v, 5); len = mp_read_be32(v.data()+1); need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a string");
     }
     static void bin_info(std::span<const uint8_t> v, const uint8_t*& p, size_t& len) {
+        need(v, 1);
         const uint8_t m = v[0];
-        if (m == 0xc4) { len = v[1]; p=v.data()+2; return; }
-        if (m == 0xc5) { len = mp_read_be16(v.data()+1); p=v.data()+3; return; }
-        if (m == 0xc6) { len = mp_read_be32(v.data()+1); p=v.data()+5; return; }
+        if (m == 0xc4) { need(v, 2); len = v[1]; need(v, 2 + len); p=v.data()+2; return; }
+        if (m == 0xc5) { need(v, 3); len = mp_read_be16(v.data()+1); need(v, 3 + len); p=v.data()+3; return; }
+        if (m == 0xc6) { need(v, 5); len = mp_read_be32(v.data()+1); need(v, 5 + len); p=v.data()+5; return; }
         throw DeserializationError("msgpack: not a bin");
     }
     static void arr_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x90) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xdc) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdd) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xdc) { need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdd) { need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not an array");
     }
     static void map_info(std::span<const uint8_t> v, size_t& count, size_t& off) {
+        need(v, 1);
         const uint8_t m = v[0];
         if ((m & 0xf0) == 0x80) { count = (m & 0x0f); off = 1; return; }
-        if (m == 0xde) { count = mp_read_be16(v.data()+1); off = 3; return; }
-        if (m == 0xdf) { count = mp_read_be32(v.data()+1); off = 5; return; }
+        if (m == 0xde) { need(v, 3); count = mp_read_be16(v.data()+1); off = 3; return; }
+        if (m == 0xdf) { need(v, 5); count = mp_read_be32(v.data()+1); off = 5; return; }
         throw DeserializationError("msgpack: not a map");
     }
 
-- 
2.43.0


From 04dec64dbe640a1f9c3a6fef58ab068bc1dea1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 10/23] fix: msgpack: asInt64/asUInt64 wrapped values the
 result type cannot hold

---
 include/zerialize/protocols/msgpack.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index 5ad5746..a3a38de 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -305,7 +305,10 @@ public:
         if (m==0xcc){ if(view_.size()<2) throw DeserializationError("u8");  return uint8_t(view_[1]); }
         if (m==0xcd){ if(view_.size()<3) throw DeserializationError("u16"); return uint16_t(mp_read_be16(view_.data()+1)); }
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return uint32_t(mp_read_be32(view_.data()+1)); }
-        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return uint64_t(mp_read_be64(view_.data()+1)); }
+        if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64");
+            const uint64_t u = mp_read_be64(view_.data()+1);
+            if (u > uint64_t(std::numeric_limits<std::int64_t>::max())) throw DeserializationError("int64 out of range");
+            return int64_t(u); }
         throw DeserializationError("not int");
     }
     
@@ -342,7 +345,9 @@ public:
         if (m==0xce){ if(view_.size()<5) throw DeserializationError("u32"); return mp_read_be32(view_.data()+1); }
         if (m==0xcf){ if(view_.size()<9) throw DeserializationError("u64"); return mp_read_be64(view_.data()+1); }
         // fall back for signed fix/neg
-        return uint64_t(asInt64());
+        const std::int64_t val = asInt64();
+        if (val < 0) throw DeserializationError("uint64 out of range");
+        return uint64_t(val);
     }
     
     float asFloat() const {
-- 
2.43.0


From 4780c944915c9a7b2edacd9463357680fe367118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:55 +0000
Subject: [PATCH 11/23] fix: flex: narrow integer accessors silently truncated
 out-of-range values

---
 include/zerialize/protocols/flex.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index de01e24..538dea5 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -2,6 +2,7 @@
 
 #include <flatbuffers/flexbuffers.h>
 #include <cstdint>
+#include <limits>
 #include <string>
 #include <string_view>
 #include <vector>
@@ -118,6 +119,13 @@ protected:
         if (!cond) throw DeserializationError(msg);
     }
 
+    template <class To, class From>
+    static To narrow(From v) {
+        if (v < std::numeric_limits<To>::min() || v > std::numeric_limits<To>::max())
+            throw DeserializationError("integer out of range");
+        return static_cast<To>(v);
+    }
+
     static std::string json_escape(std::string_view s) {
         std::string out;
         out.reserve(s.size() + 4);
@@ -222,14 +230,14 @@ public:
     bool isArray()  const { return ref_.IsAnyVector() && !ref_.IsMap(); }
 
     // Scalars
-    int8_t   asInt8()   const { require(isInt(), "value is not a signed integer"); return ref_.AsInt8(); }
-    int16_t  asInt16()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt16(); }
-    int32_t  asInt32()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt32(); }
+    int8_t   asInt8()   const { return narrow<int8_t>(asInt64()); }
+    int16_t  asInt16()  const { return narrow<int16_t>(asInt64()); }
+    int32_t  asInt32()  const { return narrow<int32_t>(asInt64()); }
     int64_t  asInt64()  const { require(isInt(), "value is not a signed integer"); return ref_.AsInt64(); }
 
-    uint8_t  asUInt8()  const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint8_t>(ref_.AsUInt8()); }
-    uint16_t asUInt16() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint16_t>(ref_.AsUInt16()); }
-    uint32_t asUInt32() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint32_t>(ref_.AsUInt32()); }
+    uint8_t  asUInt8()  const { return narrow<uint8_t>(asUInt64()); }
+    uint16_t asUInt16() const { return narrow<uint16_t>(asUInt64()); }
+    uint32_t asUInt32() const { return narrow<uint32_t>(asUInt64()); }
     uint64_t asUInt64() const { require(isUInt(), "value is not an unsigned integer"); return static_cast<uint64_t>(ref_.AsUInt64()); }
 
     float    asFloat()  const { require(isFloat(), "value is not a float"); return static_cast<float>(ref_.AsFloat()); }
-- 
2.43.0


From 5bfc5249e188790515067663ae33f12d63ac7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 12/23] fix: xtensor: byte size of a huge shape wrapped to the
 size of a small blob

---
 include/zerialize/tensor/xtensor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 0a82e38..11b2361 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -147,6 +147,9 @@ XTensorView<T> asXTensorView(const Reader auto& buf) {
 
     // Validate payload size to avoid reading off the end, truncating, or leaving elements uninitialized.
     const std::size_t element_count = checked_element_count(vshape);
+    if (element_count > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw DeserializationError("tensor byte size overflow");
+    }
     const std::size_t expected_bytes = element_count * sizeof(T);
     if (bytes.size() != expected_bytes) {
         throw DeserializationError(
-- 
2.43.0


From f30596108008dd77764a41d05b1e05b080a7af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 13/23] fix: eigen: byte size of a huge shape wrapped to the
 size of a small blob

---
 include/zerialize/tensor/eigen.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 9145157..6c31cf5 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -154,6 +154,9 @@ EigenMatrixView<T, NRows, NCols, Options> asEigenMatrixView(const Reader auto& b
     };
     auto bytes = to_span(blob);
 
+    if (rows != 0 && cols > std::numeric_limits<std::size_t>::max() / sizeof(T) / rows) {
+        throw DeserializationError("matrix byte size overflow");
+    }
     const std::size_t expected = rows * cols * sizeof(T);
     if (bytes.size() != expected) {
         throw DeserializationError(
-- 
2.43.0


From dd619b7a6d84d26303c28e910f7a3431e252d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 14/23] fix: zbuffer: an empty deleter terminated the program
 instead of throwing invalid_argument

---
 include/zerialize/zbuffer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index 103cc40..d1951b8 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -121,6 +121,7 @@ public:
             throw std::invalid_argument("ZBuffer: Non-zero size requires a non-null pointer");
         }
         if (!std::get<ManagedPtr>(storage_).ptr.get_deleter()) { // Check if deleter is valid (!= nullptr)
+            (void)std::get<ManagedPtr>(storage_).ptr.release(); // no deleter to run while unwinding
             throw std::invalid_argument("ZBuffer: A valid deleter function must be provided");
         }
     }
@@ -130,6 +131,7 @@ public:
     ZBuffer(char* data_to_own, size_t size, std::function<void(char*)> char_deleter)
         // Delegate to the uint8_t* constructor, wrapping the deleter
         : ZBuffer(reinterpret_cast<uint8_t*>(data_to_own), size,
+            !char_deleter ? std::function<void(uint8_t*)>() :
             // Create a lambda that captures the original char* deleter
             // and performs the cast back before calling it.
             [cd = std::move(char_deleter)](uint8_t* ptr_to_delete) {
@@ -143,6 +145,7 @@ public:
     // Useful for C APIs returning void* (like from malloc).
     ZBuffer(void* data_to_own, size_t size, std::function<void(void*)> void_deleter)
         : ZBuffer(static_cast<uint8_t*>(data_to_own), size,
+            !void_deleter ? std::function<void(uint8_t*)>() :
             [vd = std::move(void_deleter)](uint8_t* ptr_to_delete) {
                 if (ptr_to_delete) {
                     vd(static_cast<void*>(ptr_to_delete)); // Cast back to void* for deleter
-- 
2.43.0


From ccb6094bb55e993ef926d37d7ed280755a0ace64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:03 +0000
Subject: [PATCH 15/23] fix: zbuffer: a moved-from pointer-backed buffer kept
 its size with a null pointer

---
 include/zerialize/zbuffer.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/zerialize/zbuffer.hpp b/include/zerialize/zbuffer.hpp
index d1951b8..55d3f38 100644
--- a/include/zerialize/zbuffer.hpp
+++ b/include/zerialize/zbuffer.hpp
@@ -8,6 +8,7 @@
 #include <span>
 #include <variant>
 #include <functional>
+#include <utility>
 
 namespace zerialize {
 
@@ -95,6 +96,14 @@ private:
 
         // Default constructor needed for variant default construction (if needed)
         ManagedPtr() = default;
+
+        // A moved-from buffer is empty: no pointer, no bytes.
+        ManagedPtr(ManagedPtr&& o) noexcept : ptr(std::move(o.ptr)), count(std::exchange(o.count, 0)) {}
+        ManagedPtr& operator=(ManagedPtr&& o) noexcept {
+            ptr = std::move(o.ptr);
+            count = std::exchange(o.count, 0);
+            return *this;
+        }
     };
 
     // --- Variant holding the active storage strategy ---
-- 
2.43.0


From ab0e3800e577e8cb3aef7ec96e060e4efc1c60cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:19 +0000
Subject: [PATCH 16/23] fix: flex: string() and key() read one byte past a
 string_view, and keys ran on into it

---
 include/zerialize/protocols/flex.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index 538dea5..e9c8bdb 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -56,7 +56,8 @@ struct Serializer {
     void uint64(std::uint64_t v) { r->fbb.UInt(v); r->wrote_root_ = true; }
     void double_(double v)       { r->fbb.Double(v); r->wrote_root_ = true; }
     void string(std::string_view sv) {
-        r->fbb.String(sv.data(), sv.size()); r->wrote_root_ = true;
+        // Builder::String copies the terminating NUL too, which a view need not have
+        r->fbb.String(std::string(sv)); r->wrote_root_ = true;
     }
     void binary(std::span<const std::byte> b) {
         auto ptr = reinterpret_cast<const std::uint8_t*>(b.data());
@@ -91,7 +92,8 @@ struct Serializer {
 
     void key(std::string_view k) {
         // FlexBuffers requires a key immediately before its value
-        r->fbb.Key(k.data(), k.size());
+        // (and takes the NUL after it as its terminator, which a view need not have)
+        r->fbb.Key(std::string(k));
     }
 
 private:
-- 
2.43.0


From 9a82aaddc1a561fad64fc0aeaa3a99527f18a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:19 +0000
Subject: [PATCH 17/23] fix: flex: a key containing a NUL byte was silently cut
 short at it

---
 include/zerialize/protocols/flex.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/zerialize/protocols/flex.hpp b/include/zerialize/protocols/flex.hpp
index e9c8bdb..74ea7e0 100644
--- a/include/zerialize/protocols/flex.hpp
+++ b/include/zerialize/protocols/flex.hpp
@@ -91,6 +91,9 @@ struct Serializer {
     }
 
     void key(std::string_view k) {
+        // keys are NUL-terminated: a NUL inside would silently cut the key short
+        if (k.find('\0') != std::string_view::npos)
+            throw SerializationError("flex: key contains a NUL byte");
         // FlexBuffers requires a key immediately before its value
         // (and takes the NUL after it as its terminator, which a view need not have)
         r->fbb.Key(std::string(k));
-- 
2.43.0


From bd0d0b5c30c4b8c99b8dd82d65dce83631451f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:50 +0000
Subject: [PATCH 18/23] fix: msgpack: sizes of 4 GiB and more were silently
 truncated to 32 bits

---
 include/zerialize/protocols/msgpack.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/protocols/msgpack.hpp b/include/zerialize/protocols/msgpack.hpp
index a3a38de..609cf18 100644
--- a/include/zerialize/protocols/msgpack.hpp
+++ b/include/zerialize/protocols/msgpack.hpp
@@ -525,6 +525,12 @@ public:
 
 class MsgPackSerializer {
     msgpack_packer& pk_;
+
+    // the format stores sizes in at most 32 bits
+    static std::size_t size32(std::size_t n) {
+        if (n > UINT32_MAX) throw SerializationError("msgpack: size exceeds 32 bits");
+        return n;
+    }
 public:
     explicit MsgPackSerializer(MsgPackRootSerializer& rs) : pk_(rs.pk) {}
 
@@ -535,20 +541,20 @@ public:
     void uint64(std::uint64_t v){ msgpack_pack_uint64(&pk_, v); }
     void double_(double v)      { msgpack_pack_double(&pk_, v); }
     void string(std::string_view sv) {
-        msgpack_pack_str(&pk_, sv.size());
+        msgpack_pack_str(&pk_, size32(sv.size()));
         msgpack_pack_str_body(&pk_, sv.data(), sv.size());
     }
     void binary(std::span<const std::byte> b) {
         auto p = reinterpret_cast<const char*>(b.data());
-        msgpack_pack_bin(&pk_, b.size());
+        msgpack_pack_bin(&pk_, size32(b.size()));
         msgpack_pack_bin_body(&pk_, p, b.size());
     }
 
     // arrays/maps (MsgPack needs sizes up-front)
-    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, n); }
+    void begin_array(std::size_t n) { msgpack_pack_array(&pk_, size32(n)); }
     void end_array()                { /* no-op */ }
 
-    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, n); }
+    void begin_map(std::size_t n)   { msgpack_pack_map(&pk_, size32(n)); }
     void end_map()                  { /* no-op */ }
 
     void key(std::string_view k)    { string(k); }
-- 
2.43.0


From cbb7efa79c5b6d27f6894fc866896b55a793e419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:44 +0000
Subject: [PATCH 19/23] fix: builders: zvec and zmap kept dangling references
 to temporary arguments

---
 include/zerialize/zbuilders.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/zerialize/zbuilders.hpp b/include/zerialize/zbuilders.hpp
index 8c64d33..57175ef 100644
--- a/include/zerialize/zbuilders.hpp
+++ b/include/zerialize/zbuilders.hpp
@@ -55,8 +55,8 @@ struct BuilderWrapper {
 template<typename... Ts>
 constexpr auto zvec(Ts&&... xs)
 {
-    // Capture by value with perfect forwarding into a tuple.
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    // Capture temporaries by value (the builder may outlive them) and lvalues by reference.
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         w.begin_array(sizeof...(Ts));
@@ -91,7 +91,7 @@ constexpr auto zmap(Ts&&... xs)
     static_assert(sizeof...(Keys) == sizeof...(Ts),
                   "zmap: number of keys must match number of values");
 
-    auto l = [data = std::forward_as_tuple(std::forward<Ts>(xs)...)]
+    auto l = [data = std::tuple<Ts...>(std::forward<Ts>(xs)...)]
              <Writer W>(W& w) mutable
     {
         constexpr std::size_t N = sizeof...(Keys);
-- 
2.43.0


From 7a0ec60d785bcbe092ee4bbe658d330f5acf7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:39 +0000
Subject: [PATCH 20/23] fix: serialize xtensor expressions in row-major order
 whatever their layout

---
 include/zerialize/tensor/xtensor.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index 11b2361..b7ef73a 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -21,6 +21,12 @@ namespace xt {
 
 template <zerialize::HasDataAndSize X, zerialize::Writer W>
 void serialize(const X& t, W& w) {
+    // The stored elements are in row-major order, and data() is the start of the whole storage:
+    // a column-major container or a view into one is laid out as a row-major array first.
+    if (t.layout() != layout_type::row_major || !t.is_contiguous() || t.data_offset() != 0) {
+        serialize(xarray<typename X::value_type, layout_type::row_major>(t), w);
+        return;
+    }
     zerialize::zvec(
         zerialize::tensor_dtype_index<typename X::value_type>,
         zerialize::shape_of_sizet(t.shape()),
-- 
2.43.0


From c4b167d69cb23abf8cbb30d92098aebd55c34d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:28 +0000
Subject: [PATCH 21/23] fix: refuse to serialize a tensor dimension the format
 cannot hold

---
 include/zerialize/tensor/utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/utils.hpp b/include/zerialize/tensor/utils.hpp
index 58e1336..5cba2c2 100644
--- a/include/zerialize/tensor/utils.hpp
+++ b/include/zerialize/tensor/utils.hpp
@@ -78,7 +78,12 @@ inline TensorShape shape_of_sizet(const auto& tshape) {
     TensorShape shape;
     shape.reserve(tshape.size());
     std::transform(tshape.begin(), tshape.end(), std::back_inserter(shape),
-        [](auto x) { return static_cast<TensorShapeElement>(x); });
+        [](auto x) {
+            if (x > std::numeric_limits<TensorShapeElement>::max()) {
+                throw SerializationError("tensor dimension exceeds TensorShapeElement range");
+            }
+            return static_cast<TensorShapeElement>(x);
+        });
     return shape;
 }
 
-- 
2.43.0


From db0d17a43ded732207235001825d7dd29fb2e630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:07 +0000
Subject: [PATCH 22/23] fix: keep xtensor strides from overflowing for an empty
 tensor with huge extents

---
 include/zerialize/tensor/xtensor.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/zerialize/tensor/xtensor.hpp b/include/zerialize/tensor/xtensor.hpp
index b7ef73a..7a7b3ed 100644
--- a/include/zerialize/tensor/xtensor.hpp
+++ b/include/zerialize/tensor/xtensor.hpp
@@ -69,7 +69,7 @@ public:
     // If the view is not zero-copy, it adapts the owned array storage.
     auto tensor() const {
         T* ptr = owned_ ? const_cast<T*>(owned_->data()) : const_cast<T*>(reinterpret_cast<const T*>(bytes_.data()));
-        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_);
+        return xt::adapt(ptr, element_count_, xt::no_ownership(), shape_as_sizet());
     }
 
     // Returns an owning xarray (copying if this is backed by a span).
@@ -98,16 +98,20 @@ private:
 // Multiply all dimensions (with overflow checking) to get total element count.
 // This is used for validating that the blob size matches prod(shape) * sizeof(T).
 inline std::size_t checked_element_count(const TensorShape& shape) {
+    // The non-zero dimensions must multiply to an addressable count even when another one is zero:
+    // xtensor computes (signed) strides from them.
+    constexpr auto limit = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
     std::size_t count = 1;
+    bool empty = false;
     for (auto d : shape) {
         const std::size_t dim = static_cast<std::size_t>(d);
-        if (dim == 0) return 0;
-        if (count > (std::numeric_limits<std::size_t>::max() / dim)) {
+        if (dim == 0) { empty = true; continue; }
+        if (count > limit / dim) {
             throw DeserializationError("tensor element count overflow");
         }
         count *= dim;
     }
-    return count;
+    return empty ? 0 : count;
 }
 
 // Normalize the protocol-specific blob representation into a `std::span<const std::byte>`.
-- 
2.43.0


From 6eb8dc4e4eb69317e3c2fe13469ac963a984965b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 23/23] fix: refuse to serialize an Eigen matrix extent the
 format cannot hold

---
 include/zerialize/tensor/eigen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/zerialize/tensor/eigen.hpp b/include/zerialize/tensor/eigen.hpp
index 6c31cf5..6f4cfaf 100644
--- a/include/zerialize/tensor/eigen.hpp
+++ b/include/zerialize/tensor/eigen.hpp
@@ -23,7 +23,7 @@ void serialize(const Eigen::Matrix<T, R, C, Options>& m, W& w) {
 
     zerialize::zvec(
         zerialize::tensor_dtype_index<T>,
-        shape,
+        zerialize::shape_of_sizet(shape), // as for xtensor: the reader refuses an extent beyond 32 bits
         zerialize::span_from_data_of(m)
     )(w);
 }
-- 
2.43.0

