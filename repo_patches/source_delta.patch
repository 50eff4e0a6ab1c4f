From 2d97fb00312ddc52669ba3181368275f374008d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 01/21] fix: update through a derived cursor uses the pending
 value

A cursor derived from a transactional source did not see writes made
since the last commit when computing the argument of an update, so two
updates before a commit, or a set followed by an update, lost the
earlier write.
---
 lager/writer.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..9cc04dd 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,11 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        // there may be pending changes in the sources that have not been
+        // propagated to this node yet
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From 20f25087b65f65e349509679934a3a33172a9470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 02/21] fix: readers made while a change is pending show the
 visible value

A reader or cursor derived from a transactional source was initialized
with the pending value, so uncommitted changes were visible through it,
and its watchers were not notified when the change was committed.
---
 lager/detail/lens_nodes.hpp  |  2 +-
 lager/detail/merge_nodes.hpp |  2 +-
 lager/detail/nodes.hpp       | 12 ++++++++++++
 lager/detail/xform_nodes.hpp |  2 +-
 lager/setter.hpp             |  2 +-
 5 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/lager/detail/lens_nodes.hpp b/lager/detail/lens_nodes.hpp
index 51a791b..d9e919d 100644
--- a/lager/detail/lens_nodes.hpp
+++ b/lager/detail/lens_nodes.hpp
@@ -55,7 +55,7 @@ protected:
 public:
     template <typename Lens2, typename ParentsTuple>
     lens_reader_node(Lens2&& l, ParentsTuple&& parents)
-        : base_t{view(l, current_from(parents)),
+        : base_t{view(l, last_from(parents)),
                  std::forward<ParentsTuple>(parents)}
         , lens_{std::forward<Lens2>(l)}
     {}
diff --git a/lager/detail/merge_nodes.hpp b/lager/detail/merge_nodes.hpp
index 45e2cd4..00ca902 100644
--- a/lager/detail/merge_nodes.hpp
+++ b/lager/detail/merge_nodes.hpp
@@ -46,7 +46,7 @@ public:
 
     template <typename ParentsTuple>
     merge_reader_node(ParentsTuple&& parents)
-        : base_t{current_from(parents), std::forward<ParentsTuple>(parents)}
+        : base_t{last_from(parents), std::forward<ParentsTuple>(parents)}
     {}
 
     void recompute() final { this->push_down(current_from(this->parents())); }
diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..da2e0f6 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -347,6 +347,18 @@ current_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
         parents);
 }
 
+/*!
+ * Like `current_from()` but returning the values that are already visible.
+ * Nodes are initialized with these, otherwise they would show changes that
+ * have not been propagated yet, and fail to notify them when they are.
+ */
+template <typename... Nodes>
+decltype(auto) last_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
+{
+    return std::apply(
+        [&](auto&&... ptrs) { return zug::tuplify(ptrs->last()...); }, parents);
+}
+
 template <typename Node>
 std::shared_ptr<Node> link_to_parents(std::shared_ptr<Node> n)
 {
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 9babe57..93cd915 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -50,7 +50,7 @@ ValueT initial_value(Xform&& xform, const std::tuple<ParentPtrs...>& parents)
     LAGER_TRY {
         return std::apply(
             [&](auto&&... ps) {
-                return xform(zug::last)(detail::no_value{}, ps->current()...);
+                return xform(zug::last)(detail::no_value{}, ps->last()...);
             },
             parents);
     } LAGER_CATCH(const no_value_error&) {
diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..0b07bc7 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -35,7 +35,7 @@ public:
     using value_type = typename ParentT::value_type;
 
     setter_node(std::shared_ptr<ParentT> p, FnT fn)
-        : base_t{p->current()}
+        : base_t{p->last()}
         , parent_{std::move(p)}
         , setter_fn_{std::move(fn)}
     {}
-- 
2.43.0


From 93f800c217b93ce3b75284af6349328b60f26fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:53 +0000
Subject: [PATCH 03/21] fix: an empty effect returned by a reducer is not
 invoked

is_empty_effect() was never selected for lager::effect<>, and lifting an
empty effect of a sub-reducer lost the emptiness, so that the event loop
ran into std::bad_function_call.
---
 lager/effect.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..ada67e6 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
@@ -190,6 +190,13 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Action, typename Deps>
+bool is_empty_effect(const effect<Action, Deps>& v)
+{
+    using base_t = typename effect<Action, Deps>::base_t;
+    return is_empty_effect(static_cast<const base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From 588d5d6d5dfb7605c2ce1468639ac052a3d74727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 04/21] fix: safe_queue_event_loop: adopt() races with post()
 from other threads

---
 lager/event_loop/safe_queue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/event_loop/safe_queue.hpp b/lager/event_loop/safe_queue.hpp
index b522077..73a68ac 100644
--- a/lager/event_loop/safe_queue.hpp
+++ b/lager/event_loop/safe_queue.hpp
@@ -14,6 +14,8 @@
 
 #include <lager/config.hpp>
 
+#include <atomic>
+#include <cassert>
 #include <functional>
 #include <mutex>
 #include <stdexcept>
@@ -87,7 +89,8 @@ private:
         local_queue_.clear();
     }
 
-    std::thread::id thread_id_ = std::this_thread::get_id();
+    // other threads look at it in post() while adopt() may be setting it
+    std::atomic<std::thread::id> thread_id_{std::this_thread::get_id()};
     std::mutex mutex_;
     std::vector<event_fn> shared_queue_;
     std::vector<event_fn> local_queue_;
-- 
2.43.0


From 830eef447c668250a1e5194941a944286812f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 05/21] fix: a change taken back before it is published
 notifies no one

---
 lager/detail/nodes.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index da2e0f6..21ba4e6 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -214,6 +214,8 @@ public:
     {
         this->recompute();
         if (needs_send_down_) {
+            // a change that was taken back before being propagated is not news
+            has_news_        = has_news_ || has_changed(current_, last_);
             last_            = current_;
             needs_send_down_ = false;
             needs_notify_    = true;
@@ -234,7 +236,10 @@ public:
             notifying_guard_t notifying_guard(notifying_);
             bool garbage = false;
 
-            this->observers()(last_);
+            if (has_news_) {
+                has_news_ = false;
+                this->observers()(last_);
+            }
             // We cannot use ranged-for here because children might
             // change as a result of notify(). This can invalidate
             // the iterators on children, causing undefined behaviors.
@@ -260,6 +265,7 @@ private:
 
     bool needs_send_down_ = false;
     bool needs_notify_    = false;
+    bool has_news_        = false;
     bool notifying_       = false;
 };
 
-- 
2.43.0


From f4e0ea5c628abdb478433efe872c88ca39f856a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:57 +0000
Subject: [PATCH 06/21] fix: joined readers are recomputed from published
 values

When one source of a reader joining several was published, the reader took
the uncommitted values of its other sources as well, making them visible
before their commit and in disagreement with the sources themselves.
---
 lager/detail/lens_nodes.hpp  |  5 +++++
 lager/detail/merge_nodes.hpp |  7 ++++++-
 lager/detail/nodes.hpp       | 13 ++++++++++---
 lager/detail/xform_nodes.hpp |  6 ++++++
 4 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/lager/detail/lens_nodes.hpp b/lager/detail/lens_nodes.hpp
index d9e919d..cc27292 100644
--- a/lager/detail/lens_nodes.hpp
+++ b/lager/detail/lens_nodes.hpp
@@ -61,6 +61,11 @@ public:
     {}
 
     void recompute() final
+    {
+        this->push_down(view(lens_, last_from(this->parents())));
+    }
+
+    void recompute_pending() final
     {
         this->push_down(view(lens_, current_from(this->parents())));
     }
diff --git a/lager/detail/merge_nodes.hpp b/lager/detail/merge_nodes.hpp
index 00ca902..5d7fda8 100644
--- a/lager/detail/merge_nodes.hpp
+++ b/lager/detail/merge_nodes.hpp
@@ -49,7 +49,12 @@ public:
         : base_t{last_from(parents), std::forward<ParentsTuple>(parents)}
     {}
 
-    void recompute() final { this->push_down(current_from(this->parents())); }
+    void recompute() final { this->push_down(last_from(this->parents())); }
+
+    void recompute_pending() final
+    {
+        this->push_down(current_from(this->parents()));
+    }
 };
 
 template <typename Parents>
diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index 21ba4e6..f28f11e 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -299,11 +299,17 @@ public:
         , parents_{std::move(parents)}
     {}
 
+    /*!
+     * Like `recompute()`, which only considers the values that the parents
+     * published, but using values of the parents that may be still pending.
+     */
+    virtual void recompute_pending() = 0;
+
     void refresh() final
     {
         std::apply([&](auto&&... ps) { noop((ps->refresh(), 0)...); },
                    parents_);
-        this->recompute();
+        this->recompute_pending();
     }
 
     const std::tuple<std::shared_ptr<Parents>...>& parents() const
@@ -355,8 +361,9 @@ current_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
 
 /*!
  * Like `current_from()` but returning the values that are already visible.
- * Nodes are initialized with these, otherwise they would show changes that
- * have not been propagated yet, and fail to notify them when they are.
+ * Nodes are initialized and recomputed with these, otherwise they would show
+ * changes that have not been propagated yet, and fail to notify them when they
+ * are.
  */
 template <typename... Nodes>
 decltype(auto) last_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 93cd915..70d0f67 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -96,6 +96,12 @@ public:
     {}
 
     void recompute() final
+    {
+        std::apply([&](auto&&... ps) { down_step_(this, ps->last()...); },
+                   this->parents());
+    }
+
+    void recompute_pending() final
     {
         std::apply([&](auto&&... ps) { down_step_(this, ps->current()...); },
                    this->parents());
-- 
2.43.0


From 2e5cf0832a2e93f47bf401a8a94b646006790952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:24 +0000
Subject: [PATCH 07/21] fix: tree_debugger: the cursor follows to the newly
 opened branch

When a step already had a branch and another one was opened there, the
cursor was left pointing into the first one, showing a wrong model and
appending later actions to the wrong branch.
---
 lager/debug/tree_debugger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..fdab707 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,7 +165,8 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
+                        new_cursor = cursor.push_back(
+                            {history[pos.step]->branches.size(), 0});
                         return history.update(pos.step, [&](auto node_) {
                             auto node = *node_;
                             node.branches =
-- 
2.43.0


From 5fd02e147c990ca49adbdd5db51f9f76189aff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:41 +0000
Subject: [PATCH 08/21] hook: in-memory network for the debug server under
 LAGER_SIMULATION

---
 lager/debug/http_server.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..cdbb1c3 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -36,6 +36,10 @@
 #include <thread>
 #include <vector>
 
+#ifdef LAGER_SIMULATION
+#include <lager_simulation/net.hpp>
+#endif
+
 namespace lager {
 
 namespace beast = boost::beast;
@@ -43,6 +47,12 @@ namespace asio  = boost::asio;
 
 namespace detail::http {
 
+#ifdef LAGER_SIMULATION
+// In-memory stand-ins for the sockets, and an io_context that the simulator
+// may drive step by step, take the place of those of Boost.Asio.
+namespace asio = ::lager_simulation::asio;
+#endif
+
 class router
 {
 public:
-- 
2.43.0


From ecc1d074bbb2accfd0f979b055f34b0caea721bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:35 +0000
Subject: [PATCH 09/21] fix: debug server serves no files from outside its
 resource directory

---
 lager/debug/http_server.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cdbb1c3..f5aa57e 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -348,6 +348,9 @@ struct http_debug_server_impl
 
             .route(beast::http::verb::get, "/?.*", [this](auto&& req) {
                 auto req_path = static_cast<std::string>(req.target());
+                // never serve anything from outside of the resources
+                if (req_path.find("..") != std::string::npos)
+                    return create_response_(404, "text/html", "Not found");
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-- 
2.43.0


From 712bd42fbf186ff27c10b789d375084ef0b5ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:07 +0000
Subject: [PATCH 10/21] fix: debug server reports the actual model from the
 start

---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index f5aa57e..74d3631 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -269,6 +269,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From b7e2f2317f398b2d329d2384844dbbd72aeb8648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 11/21] fix: loading an empty immer sequence replaces the
 previous contents

---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 3 files changed, 12 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From e9e6413d6a3c9d6526a1bed4c1667a1cf6f0f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 12/21] fix: loading an immer map or set replaces the previous
 contents

---
 lager/extra/cereal/immer_map.hpp | 2 ++
 lager/extra/cereal/immer_set.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..da02b76 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -48,6 +48,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
@@ -86,6 +87,7 @@ CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..952bdda 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -31,6 +31,7 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
     size_type size;
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
-- 
2.43.0


From a07538859c2a4cce0631aaba7eb6cddd7596ad44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 13/21] fix: loading a tuple from damaged data throws

---
 lager/extra/cereal/tuple.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/extra/cereal/tuple.hpp b/lager/extra/cereal/tuple.hpp
index ccc420b..2831925 100644
--- a/lager/extra/cereal/tuple.hpp
+++ b/lager/extra/cereal/tuple.hpp
@@ -12,6 +12,8 @@
 
 #pragma once
 
+#include <lager/config.hpp>
+
 #include <cereal/cereal.hpp>
 #include <immer/box.hpp>
 #include <type_traits>
@@ -46,7 +48,8 @@ inline void CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar,
 {
     auto ts = static_cast<size_type>(sizeof...(Types));
     ar(make_size_tag(ts));
-    assert(ts == sizeof...(Types));
+    if (ts != sizeof...(Types))
+        LAGER_THROW(::cereal::Exception("Invalid tuple size"));
     detail::serialize<sizeof...(Types)>::template apply(ar, tuple);
 }
 
-- 
2.43.0


From 4a711008b3e6edb06c8a00918a132ace5d9adc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:30 +0000
Subject: [PATCH 14/21] fix: to_json of an empty container is a JSON document

---
 lager/extra/cereal/json.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lager/extra/cereal/json.hpp b/lager/extra/cereal/json.hpp
index 50b25fa..8d7ece5 100644
--- a/lager/extra/cereal/json.hpp
+++ b/lager/extra/cereal/json.hpp
@@ -29,7 +29,9 @@ std::string to_json(const T& serializable)
         auto ar = cereal::JSONOutputArchive{os};
         save_inline(ar, serializable);
     }
-    return os.str();
+    auto r = os.str();
+    // nothing gets written for a sequence without elements
+    return r.empty() ? "[]" : r;
 }
 
 template <typename T>
-- 
2.43.0


From 5cef76b36d399a257bba23cb8f5b825534de048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:09 +0000
Subject: [PATCH 15/21] fix: structs with camel case names can be serialized

---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From 5ab821797b5405597baa6950795a830783cdd37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:43 +0000
Subject: [PATCH 16/21] fix: sdl_event_loop::post reports an event that SDL
 refuses

---
 lager/event_loop/sdl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..e3e9843 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -166,8 +166,11 @@ struct sdl_event_loop
         auto event = SDL_Event{};
         SDL_zero(event);
         event.type       = post_event_type_;
-        event.user.data1 = new event_fn{std::move(ev)};
-        SDL_PushEvent(&event);
+        auto fnp         = std::make_unique<event_fn>(std::move(ev));
+        event.user.data1 = fnp.get();
+        if (SDL_PushEvent(&event) <= 0)
+            LAGER_THROW(std::runtime_error{"could not post event"});
+        fnp.release();
 #else
         ::emscripten_set_timeout(
             [](void* data) {
-- 
2.43.0


From be2da572b00372b3daf8b20f4f3554f2f8573428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:39 +0000
Subject: [PATCH 17/21] fix: the SDL frame limiter keeps working as the clock
 grows and wraps

---
 lager/event_loop/sdl.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index e3e9843..8ba1c89 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -44,9 +44,9 @@ struct constant_fps_step
     float ticks_per_frame_;
     float max_ticks_per_frame_;
 
-    int ticks_       = SDL_GetTicks();
-    int frame_count_ = 0;
-    int last_ticks_  = 0;
+    std::uint32_t ticks_      = SDL_GetTicks();
+    int frame_count_          = 0;
+    std::uint32_t last_ticks_ = 0;
 
     constant_fps_step(int rate = 60, int min_sim_rate = 15)
         : frame_rate_{rate}
@@ -56,11 +56,14 @@ struct constant_fps_step
 
     float operator()()
     {
-        auto current_ticks = SDL_GetTicks();
-        auto delta_ticks   = current_ticks - ticks_;
-        auto target_ticks  = last_ticks_ + ticks_per_frame_ * frame_count_;
-        if (current_ticks <= target_ticks) {
-            SDL_Delay(target_ticks - current_ticks);
+        // only differences, which stay small, so that the clock may wrap around
+        // and floats are precise
+        std::uint32_t current_ticks = SDL_GetTicks();
+        std::uint32_t delta_ticks   = current_ticks - ticks_;
+        std::uint32_t elapsed_ticks = current_ticks - last_ticks_;
+        auto target_ticks           = ticks_per_frame_ * frame_count_;
+        if (elapsed_ticks <= target_ticks) {
+            SDL_Delay(target_ticks - elapsed_ticks);
         } else {
             frame_count_ = 0;
             last_ticks_  = SDL_GetTicks();
-- 
2.43.0


From 1b7de74f7ca8f339255517e13982cdec2ec0445b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 18/21] fix: sdl_event_loop::finish() ends a paused loop

---
 lager/event_loop/sdl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 8ba1c89..27eb118 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -148,8 +148,9 @@ struct sdl_event_loop
         auto step      = detail::constant_fps_step{fps, min_sim_fps};
         while (continue_ && !done_) {
             auto event = SDL_Event{};
-            while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+            while (continue_ && !done_ &&
+                   ((!paused_ && SDL_PollEvent(&event)) ||
+                    (paused_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-- 
2.43.0


From ab222e498f89ad9093b5f9298e14a1ba55f93632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 19/21] fix: lenses do not move parts out of a whole that is
 kept

When the whole is a temporary, as below at(), zip() or a join, viewing its
part moved it out.  Setting nothing through an optional, an alternative or a
forced part then kept the spoiled value, and so did lenses made with getset()
whose getter takes its argument by value.
---
 lager/lenses.hpp          | 25 +++++++++++++++++++++----
 lager/lenses/optional.hpp |  4 +++-
 lager/lenses/tuple.hpp    |  2 +-
 lager/lenses/variant.hpp  |  4 +++-
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..b8f9e56 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -99,6 +99,22 @@ decltype(auto) over(LensT&& lens, T&& x, Fn&& fn)
 
 namespace lenses {
 
+namespace detail {
+
+// Gets the part of a whole that is going to be needed by the setter: a getter
+// that makes a new value must not consume a temporary whole.
+template <typename Getter, typename Whole>
+decltype(auto) get_part(Getter&& getter, Whole&& p)
+{
+    using part_t = decltype(getter(std::forward<Whole>(p)));
+    if constexpr (std::is_reference_v<part_t>)
+        return getter(std::forward<Whole>(p));
+    else
+        return getter(p);
+}
+
+} // namespace detail
+
 //! @defgroup lenses
 //! @{
 
@@ -107,10 +123,11 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
-                return setter(std::forward<decltype(p)>(p),
-                              std::forward<decltype(x)>(x));
-            });
+            return f(detail::get_part(getter, std::forward<decltype(p)>(p)))(
+                [&](auto&& x) {
+                    return setter(std::forward<decltype(p)>(p),
+                                  std::forward<decltype(x)>(x));
+                });
         };
     });
 }
diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..2fba51c 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,9 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                // do not move the part out, the whole may be needed as it was
+                const auto& value = whole.value();
+                return f(Part{::lager::view(lens, value)})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
diff --git a/lager/lenses/tuple.hpp b/lager/lenses/tuple.hpp
index 8a19c6f..f320ec2 100644
--- a/lager/lenses/tuple.hpp
+++ b/lager/lenses/tuple.hpp
@@ -147,7 +147,7 @@ auto zip(Lenses&&... lenses)
             return [&, f = LAGER_FWD(f)](auto&& whole_tuple) {
                 using Whole = std::decay_t<decltype(whole_tuple)>;
                 return f(detail::apply_zip<Whole>(
-                    detail::fobj_view, lens_tuple, LAGER_FWD(whole_tuple)))(
+                    detail::fobj_view, lens_tuple, whole_tuple))(
                     [&](auto&& part_tuple) {
                         return detail::apply_zip<Whole>(detail::fobj_set,
                                                         lens_tuple,
diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..862c434 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,9 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    // do not move it out, the whole may be needed as it was
+                    const Whole& whole = p;
+                    return std::get<T>(whole);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From ad0d1facc7a31ff82201eab81618e08aed75400c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:11 +0000
Subject: [PATCH 20/21] fix: watchers are told what was committed although more
 is written meanwhile

A reader with a pending value was skipped when a commit notified.  When a
watcher writes to a transactional state that is being committed, the watchers
of its published value must not have to wait for the next commit.
---
 lager/detail/nodes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f28f11e..e10ab0e 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -230,7 +230,7 @@ public:
     void notify() final
     {
         using namespace std;
-        if (needs_notify_ && !needs_send_down_) {
+        if (needs_notify_) {
             needs_notify_ = false;
 
             notifying_guard_t notifying_guard(notifying_);
-- 
2.43.0


From e645ba155c474b3685ec4be020efd9d0607bba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:13 +0000
Subject: [PATCH 21/21] fix: a watch() that throws does not leave the reader
 linked but empty

The next watch() linked it a second time, which corrupts the list of observers
(or fails Boost's assertion).
---
 lager/watch.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lager/watch.hpp b/lager/watch.hpp
index 114a73d..bbb4a1e 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -86,9 +86,11 @@ public:
     template <typename CallbackT>
     auto&& watch(CallbackT&& callback)
     {
-        if (base_t::empty() && node_)
-            node_->observers().add(*this);
+        // connecting may throw, it must not leave us linked but empty
+        const auto first = base_t::empty();
         conns_.push_back(base_t::connect(std::forward<CallbackT>(callback)));
+        if (first && node_)
+            node_->observers().add(*this);
         return *this;
     }
 
-- 
2.43.0

