From 66917c075ec784d8699f522355bea088239a457f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 01/15] fix: cursor update() applies the function to the
 pending value, not to a stale one

---
 lager/writer.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..84df291 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,9 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 2f262739bf0a42b79161e00caefd77623af571a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:52 +0000
Subject: [PATCH 02/15] fix: optional and variant lenses keep the whole when an
 rvalue is set with an absent part

---
 lager/lenses/optional.hpp | 5 +++--
 lager/lenses/variant.hpp  | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..284b3d3 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,8 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                // do not move the part out: the whole is still needed by the setter
+                return f(Part{::lager::view(lens, whole.value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
@@ -150,7 +151,7 @@ ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
         auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        return f(opt_t{opt})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
                 return LAGER_FWD(x).value_or(*std::move(opt));
             else
diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..ed6b7ae 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,8 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    // do not move out: the whole is still needed by the setter
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From 6c728962da478f45308958fe6318c7b2f47cc6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:51 +0000
Subject: [PATCH 03/15] fix: an empty effect is recognised as empty instead of
 being invoked

is_empty_effect() on a lager::effect picked the generic overload, which always
says no, so a reducer returning a default constructed effect, or sequence()
over one, ended in std::bad_function_call.  Converting an empty effect to
another effect type also made it look non-empty.
---
 lager/effect.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..8d6a06e 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
@@ -190,6 +190,13 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Action, typename Deps>
+bool is_empty_effect(const effect<Action, Deps>& v)
+{
+    return is_empty_effect(
+        static_cast<const typename effect<Action, Deps>::base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From f0ebf416ed881e4fb4ab09151795527049ee4253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:00 +0000
Subject: [PATCH 04/15] fix: bind() and nudge() on a handle without a source
 throw instead of dereferencing null

---
 lager/watch.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lager/watch.hpp b/lager/watch.hpp
index 114a73d..76c026a 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -12,11 +12,13 @@
 
 #pragma once
 
+#include <lager/config.hpp>
 #include <lager/detail/signal.hpp>
 
 #include <zug/meta/value_type.hpp>
 
 #include <memory>
+#include <stdexcept>
 
 namespace lager {
 
@@ -95,17 +97,25 @@ public:
     template <typename CallbackT>
     auto&& bind(CallbackT&& callback)
     {
-        callback(node()->last());
+        callback(checked_node_().last());
         return watch(std::forward<CallbackT>(callback));
     }
 
-    void nudge() { base_t::operator()(node()->last()); }
+    void nudge() { base_t::operator()(checked_node_().last()); }
 
     void unbind()
     {
         conns_.clear();
         base_t::unlink();
     }
+
+private:
+    NodeT& checked_node_() const
+    {
+        if (!node_)
+            LAGER_THROW(std::runtime_error("Accessing uninitialized reader"));
+        return *node_;
+    }
 };
 
 /*!
-- 
2.43.0


From 138c2a4bc04f31a665298d0f5cf30c282bf63416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:11 +0000
Subject: [PATCH 05/15] fix: deriving from a handle without a source throws
 instead of dereferencing null

---
 lager/setter.hpp |  5 +++++
 lager/with.hpp   | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..837d279 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -15,9 +15,12 @@
 #include <lager/detail/access.hpp>
 #include <lager/detail/nodes.hpp>
 
+#include <lager/config.hpp>
 #include <lager/cursor.hpp>
 #include <lager/tags.hpp>
 
+#include <stdexcept>
+
 namespace lager {
 
 namespace detail {
@@ -77,6 +80,8 @@ template <typename TagT = transactional_tag, typename ParentT, typename FnT>
 auto make_setter_node(std::shared_ptr<ParentT> p, FnT&& fn)
 {
     using node_t = setter_node<ParentT, std::decay_t<FnT>, TagT>;
+    if (!p)
+        LAGER_THROW(std::runtime_error("Deriving from uninitialized reader"));
     auto&& pv    = *p;
     auto n = std::make_shared<node_t>(std::move(p), std::forward<FnT>(fn));
     pv.link(n);
diff --git a/lager/with.hpp b/lager/with.hpp
index c13166d..ccb683d 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -12,6 +12,7 @@
 
 #pragma once
 
+#include <lager/config.hpp>
 #include <lager/detail/lens_nodes.hpp>
 #include <lager/detail/merge_nodes.hpp>
 #include <lager/detail/xform_nodes.hpp>
@@ -21,6 +22,8 @@
 #include <zug/transducer/filter.hpp>
 #include <zug/transducer/map.hpp>
 
+#include <stdexcept>
+
 namespace lager {
 
 template <typename T>
@@ -120,6 +123,13 @@ template <template <typename Node> class Result, typename... Nodes>
 auto make_with_expr(std::tuple<std::shared_ptr<Nodes>...> nodes)
     -> with_expr<Result, Nodes...>
 {
+    std::apply(
+        [](auto&&... ns) {
+            if (!(ns && ...))
+                LAGER_THROW(
+                    std::runtime_error("Deriving from uninitialized reader"));
+        },
+        nodes);
     return {std::move(nodes)};
 }
 
-- 
2.43.0


From 8575b7a83ba51e103d8cf28274f23576579dd366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:13 +0000
Subject: [PATCH 06/15] fix: watchers are not notified when the writes of a
 transaction leave the value unchanged

---
 lager/detail/nodes.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..50df056 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -214,6 +214,9 @@ public:
     {
         this->recompute();
         if (needs_send_down_) {
+            // Several writes can leave the value as it was, in which case
+            // there is nothing to tell to the observers.
+            changed_         = changed_ || has_changed(current_, last_);
             last_            = current_;
             needs_send_down_ = false;
             needs_notify_    = true;
@@ -234,7 +237,10 @@ public:
             notifying_guard_t notifying_guard(notifying_);
             bool garbage = false;
 
-            this->observers()(last_);
+            if (changed_) {
+                changed_ = false;
+                this->observers()(last_);
+            }
             // We cannot use ranged-for here because children might
             // change as a result of notify(). This can invalidate
             // the iterators on children, causing undefined behaviors.
@@ -260,6 +266,7 @@ private:
 
     bool needs_send_down_ = false;
     bool needs_notify_    = false;
+    bool changed_         = false;
     bool notifying_       = false;
 };
 
-- 
2.43.0


From 85b432d41ad489b98a0ab69621f916b2aa90054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:47 +0000
Subject: [PATCH 07/15] fix: tree debugger moves to the new branch when the
 current step already has branches

---
 lager/debug/tree_debugger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..fdab707 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,7 +165,8 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
+                        new_cursor = cursor.push_back(
+                            {history[pos.step]->branches.size(), 0});
                         return history.update(pos.step, [&](auto node_) {
                             auto node = *node_;
                             node.branches =
-- 
2.43.0


From eb334904d97d113f7f7a5c1617d57ff289bba135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:13 +0000
Subject: [PATCH 08/15] fix: loading an immer container replaces the previous
 contents of the target

---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_map.hpp         | 2 ++
 lager/extra/cereal/immer_set.hpp         | 1 +
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 5 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..da02b76 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,6 +48,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
@@ -86,6 +87,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..952bdda 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,6 +31,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From f3b66d220224c242afd77206a8a872728b44e0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:17 +0000
Subject: [PATCH 09/15] fix: structs with camel-cased serialization compile

---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From 2d9e46d223996154ec8c273fa1fd0ea1477d38e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 10/15] fix: the SDL loop returns when it is finished while
 paused

---
 lager/event_loop/sdl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..7c754b4 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -146,7 +146,7 @@ struct sdl_event_loop
         while (continue_ && !done_) {
             auto event = SDL_Event{};
             while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+                                 (paused_ && !done_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-- 
2.43.0


From a8b16b0f4e502fd28826409fb8df12bd1506d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 11/15] fix: the debug server shows the initial model before
 the first change

Until the first change it answered requests with a default constructed
model: an empty history and an initial value that the program never had.
---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..517bca2 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From c955f12c754089f1b1b6c300a4bf8c052bf7bc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:15 +0000
Subject: [PATCH 12/15] fix: the debug server does not serve files outside of
 the resources

A request for a path like /../../../etc/passwd was answered with any
file that the process can read.
---
 lager/debug/http_server.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 517bca2..e4f4006 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -339,6 +339,8 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                if (req_path.find("..") != std::string::npos)
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-- 
2.43.0


From b3b2413311c6ca12fa159e8467218543c9374bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:05 +0000
Subject: [PATCH 13/15] fix: getset() gives the setter the whole as it was,
 also when the getter takes it by value

---
 lager/lenses.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..5f9ca25 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -107,7 +107,9 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            // do not move the whole: it is still needed by the setter
+            using part_t = decltype(getter(std::forward<decltype(p)>(p)));
+            return f(static_cast<part_t>(getter(p)))([&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
             });
-- 
2.43.0


From 07ce7ebab4e6e21c8d67444f89b0cbd2d931a4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:15 +0000
Subject: [PATCH 14/15] fix: boost asio event loop moved from work given to
 async() by name

---
 lager/event_loop/boost_asio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/boost_asio.hpp b/lager/event_loop/boost_asio.hpp
index 176da9a..eaa9796 100644
--- a/lager/event_loop/boost_asio.hpp
+++ b/lager/event_loop/boost_asio.hpp
@@ -53,7 +53,7 @@ struct with_boost_asio_event_loop
     {
         using work_t = boost::asio::executor_work_guard<Executor>;
 
-        std::thread([fn = std::move(fn), work = work_t{executor}] {
+        std::thread([fn = std::forward<Fn>(fn), work = work_t{executor}] {
             fn();
         }).detach();
     }
-- 
2.43.0


From eeab55af4609316a0c3a0c96ea891839c4e20309 Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 05:04:49 +0000
Subject: [PATCH 15/15] fix: watchers are not called for values that a node
 only goes through

A node that is reached through several parents is propagated to more than
once, and goes through intermediate values.  Compare with what the
observers were told the last time instead of with what was there before
each propagation.
---
 lager/detail/nodes.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 50df056..30cbee4 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -196,6 +196,7 @@ public:
         : observable_reader_node<T>(&current_, &last_)
         , current_(std::move(value))
         , last_(current_)
+        , notified_(current_)
     {
     }
 
@@ -214,9 +215,6 @@ public:
     {
         this->recompute();
         if (needs_send_down_) {
-            // Several writes can leave the value as it was, in which case
-            // there is nothing to tell to the observers.
-            changed_         = changed_ || has_changed(current_, last_);
             last_            = current_;
             needs_send_down_ = false;
             needs_notify_    = true;
@@ -237,8 +235,11 @@ public:
             notifying_guard_t notifying_guard(notifying_);
             bool garbage = false;
 
-            if (changed_) {
-                changed_ = false;
+            // Several writes can leave the value as it was, and a node that is
+            // reached through several parents goes through intermediate values,
+            // so compare with what the observers were told the last time.
+            if (has_changed(last_, notified_)) {
+                notified_ = last_;
                 this->observers()(last_);
             }
             // We cannot use ranged-for here because children might
@@ -263,10 +264,10 @@ public:
 private:
     value_type current_;
     value_type last_;
+    value_type notified_;
 
     bool needs_send_down_ = false;
     bool needs_notify_    = false;
-    bool changed_         = false;
     bool notifying_       = false;
 };
 
-- 
2.43.0

