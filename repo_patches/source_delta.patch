From 7b89408cd8a0b18bb74e2c27b557aae13e1cdc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 01/28] fix: detect empty lager::effect objects

The overload for std::function was never chosen for lager::effect, so
returning a default constructed effect called an empty function.
---
 lager/effect.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..047c870 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -190,6 +190,13 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Action, typename Deps>
+bool is_empty_effect(const effect<Action, Deps>& v)
+{
+    using base_t = typename effect<Action, Deps>::base_t;
+    return is_empty_effect(static_cast<const base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From 82eb56ed91b022be564d5edd37ecc9967bf98c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 02/28] fix: compute cursor updates from the latest pending
 value

update() read the node before it was refreshed, so an update through one
cursor overwrote pending writes made through overlapping ones.
---
 lager/writer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..84df291 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,9 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 2fc410d91a18b5a237a475060a63ad1cfe829647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 03/28] fix: do not move the held alternative out of rvalue
 variants

Setting nullopt through alternative<T> on an rvalue returned a variant
holding a moved-from value.
---
 lager/lenses/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..ff14780 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,7 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From 961b65c8a553d069b7aad3ca402db5be2d40ae6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 04/28] fix: do not move the part out of rvalues when getting
 in lenses::getset

With getters taking the whole by value, the setter then received a
moved-from whole.
---
 lager/lenses.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..755e258 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -107,7 +107,14 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            // a getter returning by value must not consume `p`, it is still
+            // needed by the setter
+            using part_t = decltype(getter(std::forward<decltype(p)>(p)));
+            using whole_t =
+                std::conditional_t<std::is_reference<part_t>::value,
+                                   decltype(p),
+                                   decltype((p))>;
+            return f(getter(static_cast<whole_t>(p)))([&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
             });
-- 
2.43.0


From 28757e2ce9005c56f48b03dfac3bc54604ca735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 05/28] fix: do not move the parts out of rvalues when getting
 in lenses::zip

With partial inner lenses, setting then returned moved-from parts.
---
 lager/lenses/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/lenses/tuple.hpp b/lager/lenses/tuple.hpp
index 8a19c6f..f320ec2 100644
--- a/lager/lenses/tuple.hpp
+++ b/lager/lenses/tuple.hpp
@@ -147,7 +147,7 @@ auto zip(Lenses&&... lenses)
             return [&, f = LAGER_FWD(f)](auto&& whole_tuple) {
                 using Whole = std::decay_t<decltype(whole_tuple)>;
                 return f(detail::apply_zip<Whole>(
-                    detail::fobj_view, lens_tuple, LAGER_FWD(whole_tuple)))(
+                    detail::fobj_view, lens_tuple, whole_tuple))(
                     [&](auto&& part_tuple) {
                         return detail::apply_zip<Whole>(detail::fobj_set,
                                                         lens_tuple,
-- 
2.43.0


From 554c197a48c6cdd7e80aca4058be87ac85ec4242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 06/28] fix: keep the value when setting nullopt through lifted
 and forced lenses

map_opt, bind_opt, with_opt and force_opt moved the value out when
getting and then returned the moved-from value.
---
 lager/lenses/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..83d656b 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,7 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                return f(Part{::lager::view(lens, whole.value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
@@ -150,7 +150,7 @@ ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
         auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        return f(opt_t{opt})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
                 return LAGER_FWD(x).value_or(*std::move(opt));
             else
-- 
2.43.0


From fead275b1a7597f9d70d871d177df479507f8452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 07/28] fix: move the tree debugger into the branch it just
 opened

Acting from a step that already had branches left the cursor at the
first of them instead of the new one.
---
 lager/debug/tree_debugger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..fdab707 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,7 +165,8 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
+                        new_cursor = cursor.push_back(
+                            {history[pos.step]->branches.size(), 0});
                         return history.update(pos.step, [&](auto node_) {
                             auto node = *node_;
                             node.branches =
-- 
2.43.0


From f8b53b008d98ebe9eaa205d0d6f5b3fdc69febd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:31 +0000
Subject: [PATCH 08/28] fix: check for a previous continuation under the lock

future::then() read the callback without holding the mutex, racing with
the promise being fulfilled in the loop's thread.
---
 lager/future.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/future.hpp b/lager/future.hpp
index aa101ba..87234a4 100644
--- a/lager/future.hpp
+++ b/lager/future.hpp
@@ -200,7 +200,6 @@ future future::then(Fn&& fn) &&
     } else {
         assert(state_);
         assert(state_->post);
-        assert(!state_->callback);
         auto [p, f]   = promise::with_post(state_->post);
         auto callback = [p  = std::move(p),
                          fn = std::forward<Fn>(fn)]() mutable {
@@ -213,6 +212,7 @@ future future::then(Fn&& fn) &&
         };
         {
             auto lock = std::unique_lock{state_->mutex};
+            assert(!state_->callback);
             if (state_->done) {
                 // The promise was already fullfilled, so let's follow up
                 // immediatelly...
-- 
2.43.0


From d28cce8a01b88b80fe6075a4a9c062e2b792cbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 09/28] fix: make with_thunk() inline

Including the header from several translation units did not link.
---
 lager/extra/thunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/thunk.hpp b/lager/extra/thunk.hpp
index 8939db7..c3488af 100644
--- a/lager/extra/thunk.hpp
+++ b/lager/extra/thunk.hpp
@@ -30,7 +30,7 @@ namespace lager {
  * Thunks are handled as effects and invoked by the loop with the given
  * context.
  */
-auto with_thunk()
+inline auto with_thunk()
 {
     return [](auto next) {
         return [next](auto action,
-- 
2.43.0


From b513cca56e0d31870130a6b96458e3f05a9b49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 10/28] fix: replace the contents when loading immer maps and
 sets

Loading over a non-empty map or set merged the contents, or failed with a
duplicate id error.
---
 lager/extra/cereal/immer_map.hpp | 12 ++++++++----
 lager/extra/cereal/immer_set.hpp |  6 ++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..2373943 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,14 +48,16 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    auto r = immer::map<K, T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
         auto id = get_auto_id(x);
-        m       = std::move(m).set(std::move(id), std::move(x));
+        r       = std::move(r).set(std::move(id), std::move(x));
     }
-    if (size != m.size())
+    if (size != r.size())
         LAGER_THROW(std::runtime_error{"duplicate ids?"});
+    m = std::move(r);
 }
 
 template <typename Archive,
@@ -86,14 +88,16 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    auto r = immer::map<K, T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
         ar(make_map_item(k, x));
-        m = std::move(m).set(std::move(k), std::move(x));
+        r = std::move(r).set(std::move(k), std::move(x));
     }
-    if (size != m.size())
+    if (size != r.size())
         LAGER_THROW(std::runtime_error{"duplicate ids?"});
+    m = std::move(r);
 }
 
 template <typename Archive,
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..16e0e2c 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,13 +31,15 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    auto r = immer::set<T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
-        m = std::move(m).insert(std::move(x));
+        r = std::move(r).insert(std::move(x));
     }
-    if (size != m.size())
+    if (size != r.size())
         LAGER_THROW(std::runtime_error{"duplicate items?"});
+    m = std::move(r);
 }
 
 template <typename Archive,
-- 
2.43.0


From 428a3779f25192c5a29c973c1a5a819c33b4695a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 11/28] fix: replace the contents when loading empty immer
 sequences

Loading an empty vector, flex_vector or array over a non-empty one left
the old contents in place.
---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 3 files changed, 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From e791d958e8adc8c1aaa6f55893d2ec725263ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 12/28] fix: make serialize_camel_case compile

serialize_optional_nvp takes the name as a const char*.
---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From 35c7c6197265d9ae3637b1e0277ad3cffd448855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 13/28] fix: reject tuples of the wrong size when loading

The size comes from the input, so it must not be checked with an assert.
---
 lager/extra/cereal/tuple.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/extra/cereal/tuple.hpp b/lager/extra/cereal/tuple.hpp
index ccc420b..2831925 100644
--- a/lager/extra/cereal/tuple.hpp
+++ b/lager/extra/cereal/tuple.hpp
@@ -12,6 +12,8 @@
 
 #pragma once
 
+#include <lager/config.hpp>
+
 #include <cereal/cereal.hpp>
 #include <immer/box.hpp>
 #include <type_traits>
@@ -46,7 +48,8 @@ inline void CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar,
 {
     auto ts = static_cast<size_type>(sizeof...(Types));
     ar(make_size_tag(ts));
-    assert(ts == sizeof...(Types));
+    if (ts != sizeof...(Types))
+        LAGER_THROW(::cereal::Exception("Invalid tuple size"));
     detail::serialize<sizeof...(Types)>::template apply(ar, tuple);
 }
 
-- 
2.43.0


From 57c448729f3d77dd1f9adc05acd992c000b9f276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 14/28] fix: serve the initial model from the debug server

Until the first change the server answered with a default constructed
model.
---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..517bca2 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From 6e0589554870be8698b596f1bc7f100ef58b7b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:14 +0000
Subject: [PATCH 15/28] fix: do not serve files outside the resources folder

The target of the request was appended to the path without looking for
parent folder components.
---
 lager/debug/http_server.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 517bca2..a1cd926 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -339,6 +339,10 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                // never leave the resources folder
+                if (std::regex_search(req_path,
+                                      std::regex{R"((^|/)\.\.(/|$))"}))
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-- 
2.43.0


From 63ef2456b2948c353dc5f32b11b4e10afd1527e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 16/28] fix: write the parts of merged cursors in order

---
 lager/detail/nodes.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..5c1e1ce 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -317,9 +317,11 @@ private:
     void push_up(T&& value, std::index_sequence<Indices...>)
     {
         auto& parents = this->parents();
-        noop((std::get<Indices>(parents)->send_up(
-                  std::get<Indices>(std::forward<T>(value))),
-              0)...);
+        // the order in which function arguments are evaluated is unspecified,
+        // but it matters when several parents write to the same place
+        (std::get<Indices>(parents)->send_up(
+             std::get<Indices>(std::forward<T>(value))),
+         ...);
     }
 
     template <typename T>
-- 
2.43.0


From e5f9ca162ca17fa305de307c48febb58423b4f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:18 +0000
Subject: [PATCH 17/28] fix: let writers be zoomed and transformed

---
 lager/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/with.hpp b/lager/with.hpp
index c13166d..ec1b819 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -451,7 +451,7 @@ template <typename... WriterTs>
 auto with_aux(const writer_mixin<WriterTs>&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(std::move(ins))...));
+        std::make_tuple(access::node(ins.make())...));
 }
 
 template <typename... CursorTs>
-- 
2.43.0


From a6c44ab02f208421e4db6ac8debbd580aee20041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 18/28] fix: let dep::as be used with reference dependencies

The storage of a reference is a std::reference_wrapper, which has a nested
`type` of its own, so the `type` of the tagged value was ambiguous.
---
 lager/deps.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lager/deps.hpp b/lager/deps.hpp
index e247597..e8d1fd4 100644
--- a/lager/deps.hpp
+++ b/lager/deps.hpp
@@ -214,6 +214,9 @@ struct spec_value
     : Spec
     , Spec::storage
 {
+    // The storage may have a nested `type` as well
+    using type = typename Spec::type;
+
     spec_value(typename Spec::storage v)
         : Spec::storage{std::move(v)}
     {}
-- 
2.43.0


From 3c1905f99e2de1cfc36358b6ee0ee0cf7b728a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:38 +0000
Subject: [PATCH 19/28] fix: prefer the same action type when narrowing
 contexts

The first action type that the action converts to was used, even when the
context supports the very action, so that for example a double was dispatched
as an int through a narrowed context<actions<int, double>>.
---
 lager/context.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lager/context.hpp b/lager/context.hpp
index b85613f..3a08c83 100644
--- a/lager/context.hpp
+++ b/lager/context.hpp
@@ -72,11 +72,20 @@ namespace detail {
 template <typename Action, typename Candidates>
 auto find_convertible_action_aux(Action act, Candidates candidates)
 {
+    auto is_same = [](auto t) {
+        return std::is_same<typename Action::type,
+                            typename decltype(t)::type>{};
+    };
     auto is_convertible = [](auto t) {
         return std::is_convertible<typename Action::type,
                                    typename decltype(t)::type>{};
     };
-    return boost::hana::find_if(candidates, is_convertible).value();
+    auto same = boost::hana::find_if(candidates, is_same);
+    return boost::hana::if_(
+               boost::hana::is_just(same),
+               same,
+               boost::hana::find_if(candidates, is_convertible))
+        .value();
 }
 
 template <typename Action, typename... Actions>
-- 
2.43.0


From 65e9f3e1790e360f6e6095c0a986e1209e113179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 20/28] fix: extract values from functions that provide them

A function dependency stores a function returning the storage of the value,
which does not convert to a function returning the value itself, so narrowing
dep::fn<T> to T only worked for references.
---
 lager/deps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/deps.hpp b/lager/deps.hpp
index e8d1fd4..a56a72a 100644
--- a/lager/deps.hpp
+++ b/lager/deps.hpp
@@ -106,7 +106,7 @@ struct val : spec
     }
 
     static storage extract(storage st) { return std::move(st); }
-    static storage extract(std::function<T()> st) { return st(); }
+    static storage extract(std::function<storage()> st) { return st(); }
 };
 
 /*!
-- 
2.43.0


From 7083f49d3a0610a0354ee05063d6b908f1ae36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 21/28] fix: let setter cursors keep what their source
 published during the write

---
 lager/setter.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..9a14498 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -18,6 +18,8 @@
 #include <lager/cursor.hpp>
 #include <lager/tags.hpp>
 
+#include <cstddef>
+
 namespace lager {
 
 namespace detail {
@@ -29,7 +31,8 @@ class setter_node : public cursor_node<typename ParentT::value_type>
 
     std::shared_ptr<ParentT> parent_;
     FnT setter_fn_;
-    bool recomputed_ = false;
+    bool recomputed_          = false;
+    std::size_t publications_ = 0;
 
 public:
     using value_type = typename ParentT::value_type;
@@ -44,15 +47,22 @@ public:
     {
         if (recomputed_)
             recomputed_ = false;
-        else
+        else {
+            ++publications_;
             this->push_down(parent_->current());
+        }
     }
 
     void refresh() final {}
 
     void send_up(const value_type& value) override
     {
+        const auto publications = publications_;
         setter_fn_(value);
+        // the source may have been published already, and what it settled on
+        // might not be the written value
+        if (publications != publications_)
+            return;
         this->push_down(value);
         if constexpr (std::is_same_v<TagT, automatic_tag>) {
             recomputed_ = true;
@@ -63,7 +73,10 @@ public:
 
     void send_up(value_type&& value) override
     {
+        const auto publications = publications_;
         setter_fn_(value);
+        if (publications != publications_)
+            return;
         this->push_down(std::move(value));
         if constexpr (std::is_same_v<TagT, automatic_tag>) {
             recomputed_ = true;
-- 
2.43.0


From 5c5e3c3ee2efbaf5a9a085f7b740266262ce4a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:42 +0000
Subject: [PATCH 22/28] fix: keep empty effects empty when converting them to
 more actions or dependencies

---
 lager/effect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 047c870..ada67e6 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
-- 
2.43.0


From 538a848e2dad281b31dcaa5d94b5290e78a177af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:29 +0000
Subject: [PATCH 23/28] fix: match() returns the reference its handler returns

---
 lager/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/util.hpp b/lager/util.hpp
index 7fe9f92..07cd3b9 100644
--- a/lager/util.hpp
+++ b/lager/util.hpp
@@ -58,7 +58,7 @@ struct matcher : TupleT
     constexpr decltype(auto) operator()(Visitors&&... vs) &&
     {
         return std::apply(
-            [&](auto&&... xs) {
+            [&](auto&&... xs) -> decltype(auto) {
                 return std::visit(lager::visitor{LAGER_FWD(vs)...},
                                   LAGER_FWD(xs)...);
             },
-- 
2.43.0


From 5137ec8f16f323df516dea429504d6a33b18daea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:36 +0000
Subject: [PATCH 24/28] fix: let to_json() save types with a serialize()
 function and empty values

---
 lager/extra/cereal/inline.hpp |  9 +++++----
 lager/extra/cereal/json.hpp   | 12 +++++++++++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/lager/extra/cereal/inline.hpp b/lager/extra/cereal/inline.hpp
index 811a857..8d2c676 100644
--- a/lager/extra/cereal/inline.hpp
+++ b/lager/extra/cereal/inline.hpp
@@ -69,15 +69,16 @@ void CEREAL_LOAD_INLINE_FUNCTION_NAME(ArchiveType& archive, T& value)
  * Saves `flat` cereal value (without prologue and epilogue)
  */
 template <class ArchiveType, class T, PROCESS_IF(member_serialize)>
-void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, T& value)
+void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, const T& value)
 {
-    value.CEREAL_SERIALIZE_FUNCTION_NAME(archive);
+    // like cereal does when saving with a serialize() function
+    const_cast<T&>(value).CEREAL_SERIALIZE_FUNCTION_NAME(archive);
 }
 
 template <class ArchiveType, class T, PROCESS_IF(non_member_serialize)>
-void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, T& value)
+void CEREAL_SAVE_INLINE_FUNCTION_NAME(ArchiveType& archive, const T& value)
 {
-    CEREAL_SERIALIZE_FUNCTION_NAME(archive, value);
+    CEREAL_SERIALIZE_FUNCTION_NAME(archive, const_cast<T&>(value));
 }
 
 template <class ArchiveType, class T, PROCESS_IF(member_save)>
diff --git a/lager/extra/cereal/json.hpp b/lager/extra/cereal/json.hpp
index 50b25fa..fceae45 100644
--- a/lager/extra/cereal/json.hpp
+++ b/lager/extra/cereal/json.hpp
@@ -29,7 +29,17 @@ std::string to_json(const T& serializable)
         auto ar = cereal::JSONOutputArchive{os};
         save_inline(ar, serializable);
     }
-    return os.str();
+    auto r = os.str();
+    if (r.empty()) {
+        // cereal writes nothing for an empty root, but it does when nested
+        auto nested = std::ostringstream{};
+        {
+            auto ar = cereal::JSONOutputArchive{nested};
+            ar(cereal::make_nvp("value", serializable));
+        }
+        r = nested.str().find('[') != std::string::npos ? "[]" : "{}";
+    }
+    return r;
 }
 
 template <typename T>
-- 
2.43.0


From 6f8df07ea7a10964ff82cd5236810a6d983fc285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:36 +0000
Subject: [PATCH 25/28] fix: do not leave loaded elements uninitialized when
 their members are missing

---
 lager/extra/cereal/immer_array.hpp       |  2 +-
 lager/extra/cereal/immer_box.hpp         |  2 +-
 lager/extra/cereal/immer_flex_vector.hpp |  2 +-
 lager/extra/cereal/immer_map.hpp         | 10 +++++-----
 lager/extra/cereal/immer_set.hpp         |  4 ++--
 lager/extra/cereal/immer_vector.hpp      |  4 ++--
 lager/extra/cereal/variant_with_name.hpp |  2 +-
 7 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index bdaa461..a675339 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -39,7 +39,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
 
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
-        T x;
+        T x{};
         ar(x);
         t.push_back(std::move(x));
     }
diff --git a/lager/extra/cereal/immer_box.hpp b/lager/extra/cereal/immer_box.hpp
index 66c1369..e84288b 100644
--- a/lager/extra/cereal/immer_box.hpp
+++ b/lager/extra/cereal/immer_box.hpp
@@ -27,7 +27,7 @@ void CEREAL_SAVE_FUNCTION_NAME(Archive& ar, const immer::box<T, MP>& b)
 template <typename Archive, typename T, typename MP>
 void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::box<T, MP>& b)
 {
-    T x;
+    T x{};
     ar(cereal::make_nvp("value", x));
     b = x;
 }
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index cdbad0b..47eaaf3 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -49,7 +49,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
 
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
-        T x;
+        T x{};
         ar(x);
         t.push_back(std::move(x));
     }
diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 2373943..728cf07 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -45,12 +45,12 @@ template <typename Archive,
 std::enable_if_t<has_auto_id<K, T>::value>
 CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
 {
-    size_type size;
+    size_type size{};
     ar(make_size_tag(size));
 
     auto r = immer::map<K, T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
-        T x;
+        T x{};
         ar(x);
         auto id = get_auto_id(x);
         r       = std::move(r).set(std::move(id), std::move(x));
@@ -85,13 +85,13 @@ template <typename Archive,
 std::enable_if_t<!has_auto_id<K, T>::value>
 CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
 {
-    size_type size;
+    size_type size{};
     ar(make_size_tag(size));
 
     auto r = immer::map<K, T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
-        K k;
-        T x;
+        K k{};
+        T x{};
         ar(make_map_item(k, x));
         r = std::move(r).set(std::move(k), std::move(x));
     }
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index 16e0e2c..368270b 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -28,12 +28,12 @@ template <typename Archive,
           std::uint32_t B>
 void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
 {
-    size_type size;
+    size_type size{};
     ar(make_size_tag(size));
 
     auto r = immer::set<T, H, E, MP, B>{};
     for (auto i = size_type{}; i < size; ++i) {
-        T x;
+        T x{};
         ar(x);
         r = std::move(r).insert(std::move(x));
     }
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index 7ee64bd..923abe6 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -49,7 +49,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
 
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
-        T x;
+        T x{};
         ar(x);
         t.push_back(std::move(x));
     }
@@ -84,7 +84,7 @@ void CEREAL_LOAD_FUNCTION_NAME(
 
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
-        T x;
+        T x{};
         ar(x);
         t.push_back(std::move(x));
     }
diff --git a/lager/extra/cereal/variant_with_name.hpp b/lager/extra/cereal/variant_with_name.hpp
index 8b70b1e..076c2fd 100644
--- a/lager/extra/cereal/variant_with_name.hpp
+++ b/lager/extra/cereal/variant_with_name.hpp
@@ -54,7 +54,7 @@ template <int N, class Variant, class H, class... T, class Archive>
     load_variant(Archive& ar, const std::string& target, Variant& variant)
 {
     if (get_type_name<H>() == target) {
-        H value;
+        H value{};
         ar(CEREAL_NVP_("data", value));
         variant = std::move(value);
     } else {
-- 
2.43.0


From 396603623dfecd133b7ef49578c166f3a97bfdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:23 +0000
Subject: [PATCH 26/28] fix: let go of asynchronous work before letting the
 Asio loop end

---
 lager/event_loop/boost_asio.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/event_loop/boost_asio.hpp b/lager/event_loop/boost_asio.hpp
index 176da9a..bd15626 100644
--- a/lager/event_loop/boost_asio.hpp
+++ b/lager/event_loop/boost_asio.hpp
@@ -53,7 +53,8 @@ struct with_boost_asio_event_loop
     {
         using work_t = boost::asio::executor_work_guard<Executor>;
 
-        std::thread([fn = std::move(fn), work = work_t{executor}] {
+        // the function, and whatever it holds, goes before the loop may end
+        std::thread([work = work_t{executor}, fn = std::move(fn)] {
             fn();
         }).detach();
     }
-- 
2.43.0


From bee01ff9957da4069d8839892cd6d6ebb3cc2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:29 +0000
Subject: [PATCH 27/28] fix: wake up the SDL loop when it is finished or
 resumed

---
 lager/event_loop/sdl.hpp | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..396c644 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -128,9 +128,10 @@ struct sdl_event_loop
             auto event = SDL_Event{};
             if (SDL_WaitEvent(&event)) {
                 if (event.type == post_event_type_) {
-                    auto fnp = static_cast<event_fn*>(event.user.data1);
-                    (*fnp)();
-                    delete fnp;
+                    auto fnp = std::unique_ptr<event_fn>{
+                        static_cast<event_fn*>(event.user.data1)};
+                    if (fnp)
+                        (*fnp)();
                 } else {
                     continue_ = handler(event);
                 }
@@ -145,12 +146,14 @@ struct sdl_event_loop
         auto step      = detail::constant_fps_step{fps, min_sim_fps};
         while (continue_ && !done_) {
             auto event = SDL_Event{};
-            while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+            while (continue_ && !done_ &&
+                   ((!paused_ && SDL_PollEvent(&event)) ||
+                    (paused_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-                    (*fnp)();
+                    if (fnp)
+                        (*fnp)();
                 } else {
                     continue_ = continue_ && (paused_ || handler(event));
                 }
@@ -180,13 +183,32 @@ struct sdl_event_loop
 #endif
     }
 
-    void finish() { done_ = true; }
+    void finish()
+    {
+        done_ = true;
+        wake_up_();
+    }
     void pause() { paused_ = true; }
-    void resume() { paused_ = false; }
+    void resume()
+    {
+        paused_ = false;
+        wake_up_();
+    }
 
 private:
     friend with_sdl_event_loop;
 
+    // The loop may be waiting for an event
+    void wake_up_()
+    {
+#if !__EMSCRIPTEN__
+        auto event = SDL_Event{};
+        SDL_zero(event);
+        event.type = post_event_type_;
+        SDL_PushEvent(&event);
+#endif
+    }
+
     std::atomic<bool> done_{false};
     std::atomic<bool> paused_{false};
     std::uint32_t post_event_type_ = SDL_RegisterEvents(1);
-- 
2.43.0


From d8018aec120dbcc4ba20949e831c5da3e6b75538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:29 +0000
Subject: [PATCH 28/28] fix: run what is posted to a QML loop in a window never
 shown

---
 lager/event_loop/qml.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/qml.hpp b/lager/event_loop/qml.hpp
index 3dfd87a..cc795b3 100644
--- a/lager/event_loop/qml.hpp
+++ b/lager/event_loop/qml.hpp
@@ -68,13 +68,13 @@ public:
         auto current_id = std::this_thread::get_id();
         if (this_id_ == current_id) {
             queue_.post(std::forward<Fn>(fn));
-            polish();
+            schedule_();
         } else {
             QMetaObject::invokeMethod(
                 this,
                 [this, fn = std::forward<Fn>(fn)]() mutable {
                     queue_.post(std::move(fn));
-                    polish();
+                    schedule_();
                 },
                 Qt::QueuedConnection);
         }
@@ -88,6 +88,15 @@ public:
     {
         LAGER_THROW(std::logic_error{"not implemented!"});
     }
+
+private:
+    void schedule_()
+    {
+        polish();
+        // There may not be a first polish if the window is not visible
+        if (!timer_.isActive())
+            timer_.start(1000 / 30);
+    }
 };
 
 struct with_qml_event_loop
-- 
2.43.0

