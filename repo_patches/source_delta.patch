From ee05e8f252b8acd52db8437496db34f597245495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:12 +0000
Subject: [PATCH 01/22] fix: recognise empty effects given as lager::effect

is_empty_effect(const Eff&) was a better match for lager::effect than the
overload taking its std::function base, so that an empty effect was invoked
and std::bad_function_call escaped from the event loop.
---
 lager/effect.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 9a6d35d..85e2be6 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -190,6 +190,13 @@ bool is_empty_effect(const std::function<future(Ctx)>& v)
     return !v || v.template target<decltype(noop)>() == &noop;
 }
 
+template <typename Actions, typename Deps>
+bool is_empty_effect(const effect<Actions, Deps>& v)
+{
+    return is_empty_effect(
+        static_cast<const typename effect<Actions, Deps>::base_t&>(v));
+}
+
 template <typename Eff>
 bool is_empty_effect(const Eff& v)
 {
-- 
2.43.0


From 84acc58b1a4ef084189a075723ba76b7781e0784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 02/22] fix: update cursors from the latest written value

update() on a derived cursor started from what the node last saw, so it
lost writes made via other cursors that were not committed yet.
---
 lager/writer.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/writer.hpp b/lager/writer.hpp
index 93dd54e..55fd4a3 100644
--- a/lager/writer.hpp
+++ b/lager/writer.hpp
@@ -37,7 +37,10 @@ struct writer_mixin
     template <typename Fn>
     void update(Fn&& fn)
     {
-        return node_()->send_up(std::forward<Fn>(fn)(node_()->current()));
+        auto node = node_();
+        // the node might not reflect yet what was written via other cursors
+        node->refresh();
+        return node->send_up(std::forward<Fn>(fn)(node->current()));
     }
 
     template <typename T>
-- 
2.43.0


From a24c2dee12d1a19dea595c66086d00be58726ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:14 +0000
Subject: [PATCH 03/22] fix: create readers from the committed values of their
 sources

Readers and cursors that were derived while the sources had uncommitted
writes showed these before the commit.
---
 lager/detail/lens_nodes.hpp  | 2 +-
 lager/detail/merge_nodes.hpp | 2 +-
 lager/detail/nodes.hpp       | 9 +++++++++
 lager/detail/xform_nodes.hpp | 2 +-
 lager/setter.hpp             | 2 +-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lager/detail/lens_nodes.hpp b/lager/detail/lens_nodes.hpp
index 51a791b..d9e919d 100644
--- a/lager/detail/lens_nodes.hpp
+++ b/lager/detail/lens_nodes.hpp
@@ -55,7 +55,7 @@ protected:
 public:
     template <typename Lens2, typename ParentsTuple>
     lens_reader_node(Lens2&& l, ParentsTuple&& parents)
-        : base_t{view(l, current_from(parents)),
+        : base_t{view(l, last_from(parents)),
                  std::forward<ParentsTuple>(parents)}
         , lens_{std::forward<Lens2>(l)}
     {}
diff --git a/lager/detail/merge_nodes.hpp b/lager/detail/merge_nodes.hpp
index 45e2cd4..00ca902 100644
--- a/lager/detail/merge_nodes.hpp
+++ b/lager/detail/merge_nodes.hpp
@@ -46,7 +46,7 @@ public:
 
     template <typename ParentsTuple>
     merge_reader_node(ParentsTuple&& parents)
-        : base_t{current_from(parents), std::forward<ParentsTuple>(parents)}
+        : base_t{last_from(parents), std::forward<ParentsTuple>(parents)}
     {}
 
     void recompute() final { this->push_down(current_from(this->parents())); }
diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index f7dabb9..a48a47d 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -347,6 +347,15 @@ current_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
         parents);
 }
 
+// New nodes start from what is visible in their parents, not from what was
+// written to these but not yet committed.
+template <typename... Nodes>
+decltype(auto) last_from(const std::tuple<std::shared_ptr<Nodes>...>& parents)
+{
+    return std::apply(
+        [&](auto&&... ptrs) { return zug::tuplify(ptrs->last()...); }, parents);
+}
+
 template <typename Node>
 std::shared_ptr<Node> link_to_parents(std::shared_ptr<Node> n)
 {
diff --git a/lager/detail/xform_nodes.hpp b/lager/detail/xform_nodes.hpp
index 9babe57..93cd915 100644
--- a/lager/detail/xform_nodes.hpp
+++ b/lager/detail/xform_nodes.hpp
@@ -50,7 +50,7 @@ ValueT initial_value(Xform&& xform, const std::tuple<ParentPtrs...>& parents)
     LAGER_TRY {
         return std::apply(
             [&](auto&&... ps) {
-                return xform(zug::last)(detail::no_value{}, ps->current()...);
+                return xform(zug::last)(detail::no_value{}, ps->last()...);
             },
             parents);
     } LAGER_CATCH(const no_value_error&) {
diff --git a/lager/setter.hpp b/lager/setter.hpp
index eec8ec2..0b07bc7 100644
--- a/lager/setter.hpp
+++ b/lager/setter.hpp
@@ -35,7 +35,7 @@ public:
     using value_type = typename ParentT::value_type;
 
     setter_node(std::shared_ptr<ParentT> p, FnT fn)
-        : base_t{p->current()}
+        : base_t{p->last()}
         , parent_{std::move(p)}
         , setter_fn_{std::move(fn)}
     {}
-- 
2.43.0


From 7c16e0ace611cb0167be88d19fbdd5f6fe58db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 04/22] fix: narrow contexts to the same action before
 convertible ones

A context<actions<int, double>> narrowed to context<double> dispatched
its doubles as ints, because int is listed first and convertible.
---
 lager/context.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lager/context.hpp b/lager/context.hpp
index b85613f..20e3bda 100644
--- a/lager/context.hpp
+++ b/lager/context.hpp
@@ -72,11 +72,20 @@ namespace detail {
 template <typename Action, typename Candidates>
 auto find_convertible_action_aux(Action act, Candidates candidates)
 {
+    auto is_same = [](auto t) {
+        return std::is_same<std::decay_t<typename Action::type>,
+                            typename decltype(t)::type>{};
+    };
     auto is_convertible = [](auto t) {
         return std::is_convertible<typename Action::type,
                                    typename decltype(t)::type>{};
     };
-    return boost::hana::find_if(candidates, is_convertible).value();
+    // do not convert the action if it is one of the candidates
+    auto same = boost::hana::find_if(candidates, is_same);
+    if constexpr (decltype(boost::hana::is_just(same))::value)
+        return same.value();
+    else
+        return boost::hana::find_if(candidates, is_convertible).value();
 }
 
 template <typename Action, typename... Actions>
-- 
2.43.0


From 1c6f01e7228b086e8ba230f3e9441e6e3af5de2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 05/22] fix: notify what a commit changed even if its watchers
 write more

A node with values written after it was sent down was skipped in the
notification, so its watchers missed the change until the next one.
---
 lager/detail/nodes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/detail/nodes.hpp b/lager/detail/nodes.hpp
index a48a47d..f80690c 100644
--- a/lager/detail/nodes.hpp
+++ b/lager/detail/nodes.hpp
@@ -228,7 +228,7 @@ public:
     void notify() final
     {
         using namespace std;
-        if (needs_notify_ && !needs_send_down_) {
+        if (needs_notify_) {
             needs_notify_ = false;
 
             notifying_guard_t notifying_guard(notifying_);
-- 
2.43.0


From 28d10f51a6aae06fa90b0ac2191036d65722ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 06/22] fix: alternative lens does not move the value out when
 viewing

Setting an empty optional through it into an rvalue variant left the
moved-from value behind.
---
 lager/lenses/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/lenses/variant.hpp b/lager/lenses/variant.hpp
index bb1ea57..ff14780 100644
--- a/lager/lenses/variant.hpp
+++ b/lager/lenses/variant.hpp
@@ -24,7 +24,7 @@ struct alternative_t : zug::detail::pipeable
             using Whole = std::decay_t<decltype(p)>;
             return f([&]() -> Part {
                 if (std::holds_alternative<T>(p)) {
-                    return std::get<T>(LAGER_FWD(p));
+                    return std::get<T>(p);
                 } else {
                     return std::nullopt;
                 }
-- 
2.43.0


From 2e283bc5bb12518dfebd69625a9090d70653af4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 07/22] fix: optional lenses keep the value when absence is set

The value had been moved out for viewing when the whole is an rvalue, or
when using over(), and was put back moved-from.
---
 lager/lenses/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lager/lenses/optional.hpp b/lager/lenses/optional.hpp
index fda878f..83d656b 100644
--- a/lager/lenses/optional.hpp
+++ b/lager/lenses/optional.hpp
@@ -26,7 +26,7 @@ auto opt_impl(Lens&& lens)
                 std::declval<std::decay_t<decltype(whole.value())>>()))>>::type;
 
             if (whole.has_value()) {
-                return f(Part{::lager::view(lens, LAGER_FWD(whole).value())})(
+                return f(Part{::lager::view(lens, whole.value())})(
                     [&](Part part) {
                         if (part.has_value()) {
                             return std::decay_t<decltype(whole)>{
@@ -150,7 +150,7 @@ ZUG_INLINE_CONSTEXPR auto force_opt = zug::comp([](auto&& f) {
     return [f = LAGER_FWD(f)](auto&& p) {
         using opt_t = std::optional<std::decay_t<decltype(p)>>;
         auto opt    = opt_t{LAGER_FWD(p)};
-        return f(std::move(opt))([&](auto&& x) -> decltype(auto) {
+        return f(opt_t{opt})([&](auto&& x) -> decltype(auto) {
             if constexpr (detail::is_optional<std::decay_t<decltype(x)>>::value)
                 return LAGER_FWD(x).value_or(*std::move(opt));
             else
-- 
2.43.0


From 86bd284ae848c7bd718a3f3b8e2c87809d9db0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:43 +0000
Subject: [PATCH 08/22] fix: at lens does not insert missing elements into
 tables

---
 lager/lenses/at.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lager/lenses/at.hpp b/lager/lenses/at.hpp
index 9e4bbdf..8d63315 100644
--- a/lager/lenses/at.hpp
+++ b/lager/lenses/at.hpp
@@ -101,9 +101,10 @@ template <
                      int> = 0>
 std::decay_t<Whole> at_setter_impl(Whole&& whole, Part&& part, Key&& key)
 {
-    if (part.has_value()) {
+    if (maybe_has_key(whole, key) && part.has_value()) {
         LAGER_TRY
         {
+            (void) whole.at(key);
             return std::forward<Whole>(whole).insert(
                 std::forward<Part>(part).value());
         }
-- 
2.43.0


From b56ca6dc2447ab3d9d48dd4f9db3fd0dd5a401b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:28 +0000
Subject: [PATCH 09/22] fix: watchers may be unbound or destroyed from their
 own callbacks

The signal kept iterating from the slot that had just been destroyed.
---
 lager/detail/signal.hpp | 21 +++++++++++++++++++--
 lager/watch.hpp         |  2 +-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/lager/detail/signal.hpp b/lager/detail/signal.hpp
index 241dc54..96300f8 100644
--- a/lager/detail/signal.hpp
+++ b/lager/detail/signal.hpp
@@ -49,6 +49,11 @@ public:
         void operator()(Args... args) final { fn_(args...); }
     };
 
+    struct marker : slot_base
+    {
+        void operator()(Args...) final {}
+    };
+
     struct connection
     {
         std::unique_ptr<slot_base> slot_;
@@ -73,8 +78,20 @@ public:
     template <typename... Args2>
     void operator()(Args2&&... args)
     {
-        for (auto&& s : slots_)
-            s(std::forward<Args2>(args)...);
+        // The slots may be disconnected, or the signal itself destroyed, by
+        // the functions called. Only the marker, which is left right after
+        // the slot being called, may be accessed afterwards.
+        marker next;
+        slots_.push_front(next);
+        while (next.is_linked()) {
+            auto it = ++slots_.iterator_to(next);
+            if (it == slots_.end())
+                break;
+            auto& s = *it;
+            next.unlink();
+            slots_.insert(++it, next);
+            s(args...);
+        }
     }
 
     bool empty() const { return slots_.empty(); }
diff --git a/lager/watch.hpp b/lager/watch.hpp
index 114a73d..279069e 100644
--- a/lager/watch.hpp
+++ b/lager/watch.hpp
@@ -86,7 +86,7 @@ public:
     template <typename CallbackT>
     auto&& watch(CallbackT&& callback)
     {
-        if (base_t::empty() && node_)
+        if (!base_t::is_linked() && node_)
             node_->observers().add(*this);
         conns_.push_back(base_t::connect(std::forward<CallbackT>(callback)));
         return *this;
-- 
2.43.0


From 756de00ece02714f595998fb4ebc787ed316a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 10/22] fix: tree_debugger: the cursor follows a new branch

After an action taken on a step that already has branches, the cursor pointed at
the first branch and not at the new one, so the model shown was not the result
of the action.
---
 lager/debug/tree_debugger.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lager/debug/tree_debugger.hpp b/lager/debug/tree_debugger.hpp
index 4e7f773..a1d4675 100644
--- a/lager/debug/tree_debugger.hpp
+++ b/lager/debug/tree_debugger.hpp
@@ -165,9 +165,10 @@ struct tree_debugger
                                                 {pos.branch, pos.step + 1});
                         return history.push_back(step{act, m, {}});
                     } else {
-                        new_cursor = cursor.push_back({0, 0});
                         return history.update(pos.step, [&](auto node_) {
-                            auto node = *node_;
+                            auto node  = *node_;
+                            new_cursor =
+                                cursor.push_back({node.branches.size(), 0});
                             node.branches =
                                 node.branches.push_back({step{act, m, {}}});
                             return node;
-- 
2.43.0


From 432be080514117c5d5aba994fc91aabb19e79913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:52 +0000
Subject: [PATCH 11/22] fix: http_server: report the initial model before the
 first action

---
 lager/debug/http_server.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index cbc4726..517bca2 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -259,6 +259,7 @@ struct http_debug_server_impl
         assert(!server_);
         context_ = std::move(ctx);
         data_    = std::move(data);
+        model_   = data_.get();
 
         auto router = detail::http::router{};
         router
-- 
2.43.0


From c35701d1ce5f8298b0c8049ab18ae8952e25158d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:57 +0000
Subject: [PATCH 12/22] fix: http_server: do not serve files outside of the
 resources directory

A target with .. segments gave any file that the process can read.
---
 lager/debug/http_server.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lager/debug/http_server.hpp b/lager/debug/http_server.hpp
index 517bca2..f034394 100644
--- a/lager/debug/http_server.hpp
+++ b/lager/debug/http_server.hpp
@@ -342,7 +342,9 @@ struct http_debug_server_impl
                 auto rel_path =
                     req_path == "/" ? "/gui/index.html" : "/gui/" + req_path;
                 auto full_path = resources_path() + rel_path;
-                auto ifs       = std::ifstream{full_path};
+                if (has_parent_segment_(rel_path))
+                    return create_response_(404, "text/html", "Not found");
+                auto ifs = std::ifstream{full_path};
                 if (!ifs.is_open())
                     return create_response_(404, "text/html", "Not found");
                 // The whole file content is read synchronously into string,
@@ -381,6 +383,18 @@ private:
     using req_t = detail::http::router::req_t;
     using res_t = detail::http::router::res_t;
 
+    // Whether the path has a `..` segment, which may lead out of the directory
+    // it is relative to.
+    static bool has_parent_segment_(const std::string& path)
+    {
+        auto is      = std::istringstream{path};
+        auto segment = std::string{};
+        while (std::getline(is, segment, '/'))
+            if (segment == "..")
+                return true;
+        return false;
+    }
+
     static beast::string_view mime_type_(beast::string_view path)
     {
         using beast::iequals;
-- 
2.43.0


From d1c0b40a8adcb3093c92ea694e86e04f0f1d1a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:37 +0000
Subject: [PATCH 13/22] fix: cereal: loading replaces what the container had

Vectors, flex vectors and arrays kept their old content when an empty one was
loaded, and maps and sets merged what was loaded into it (and then complained
about duplicate ids).
---
 lager/extra/cereal/immer_array.hpp       | 3 ---
 lager/extra/cereal/immer_flex_vector.hpp | 3 ---
 lager/extra/cereal/immer_map.hpp         | 6 ++++--
 lager/extra/cereal/immer_set.hpp         | 3 ++-
 lager/extra/cereal/immer_vector.hpp      | 6 ------
 5 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/lager/extra/cereal/immer_array.hpp b/lager/extra/cereal/immer_array.hpp
index 73bc3ae..bdaa461 100644
--- a/lager/extra/cereal/immer_array.hpp
+++ b/lager/extra/cereal/immer_array.hpp
@@ -37,9 +37,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::array<T, MP>& array)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::array<T, MP>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_flex_vector.hpp b/lager/extra/cereal/immer_flex_vector.hpp
index 988a90f..cdbad0b 100644
--- a/lager/extra/cereal/immer_flex_vector.hpp
+++ b/lager/extra/cereal/immer_flex_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar,
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::flex_vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
diff --git a/lager/extra/cereal/immer_map.hpp b/lager/extra/cereal/immer_map.hpp
index 6a59e5c..a59c9de 100644
--- a/lager/extra/cereal/immer_map.hpp
+++ b/lager/extra/cereal/immer_map.hpp
@@ -45,9 +45,10 @@ template <typename Archive,
 std::enable_if_t<has_auto_id<K, T>::value>
 CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
 {
-    size_type size;
+    size_type size{};
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
@@ -83,9 +84,10 @@ template <typename Archive,
 std::enable_if_t<!has_auto_id<K, T>::value>
 CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::map<K, T, H, E, MP, B>& m)
 {
-    size_type size;
+    size_type size{};
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         K k;
         T x;
diff --git a/lager/extra/cereal/immer_set.hpp b/lager/extra/cereal/immer_set.hpp
index e862839..1f8198c 100644
--- a/lager/extra/cereal/immer_set.hpp
+++ b/lager/extra/cereal/immer_set.hpp
@@ -28,9 +28,10 @@ template <typename Archive,
           std::uint32_t B>
 void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::set<T, H, E, MP, B>& m)
 {
-    size_type size;
+    size_type size{};
     ar(make_size_tag(size));
 
+    m = {};
     for (auto i = size_type{}; i < size; ++i) {
         T x;
         ar(x);
diff --git a/lager/extra/cereal/immer_vector.hpp b/lager/extra/cereal/immer_vector.hpp
index ee49075..7ee64bd 100644
--- a/lager/extra/cereal/immer_vector.hpp
+++ b/lager/extra/cereal/immer_vector.hpp
@@ -47,9 +47,6 @@ void CEREAL_LOAD_FUNCTION_NAME(Archive& ar, immer::vector<T, MP, B, BL>& vector)
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<T, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
@@ -85,9 +82,6 @@ void CEREAL_LOAD_FUNCTION_NAME(
     size_type size{};
     ar(make_size_tag(size));
 
-    if (!size)
-        return;
-
     auto t = immer::vector<immer::box<T, MP>, MP, B, BL>{}.transient();
     for (auto i = size_type{}; i < size; ++i) {
         T x;
-- 
2.43.0


From 09d94b8777ddf8369c3241e53ba7af258b913cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:25 +0000
Subject: [PATCH 14/22] fix: cereal: make serialize_camel_case usable

It gave a std::string where a const char* is needed, so no type that asks for
it could be serialized at all.
---
 lager/extra/cereal/struct.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/cereal/struct.hpp b/lager/extra/cereal/struct.hpp
index f92631f..4c7239b 100644
--- a/lager/extra/cereal/struct.hpp
+++ b/lager/extra/cereal/struct.hpp
@@ -79,7 +79,7 @@ CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar, T& v)
 {
     boost::hana::for_each(boost::hana::keys(v), [&](auto&& k) {
         serialize_optional_nvp(ar,
-                               lager::detail::to_camel_case(k.c_str()),
+                               lager::detail::to_camel_case(k.c_str()).c_str(),
                                boost::hana::at_key(v, k));
     });
 }
-- 
2.43.0


From f96d4134b7d86704fd9d41b00cf196bddc073b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:26 +0000
Subject: [PATCH 15/22] fix: cereal: throw on a tuple of another size instead
 of asserting

The size comes from the input, which may be anything.
---
 lager/extra/cereal/tuple.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lager/extra/cereal/tuple.hpp b/lager/extra/cereal/tuple.hpp
index ccc420b..cc0c7bb 100644
--- a/lager/extra/cereal/tuple.hpp
+++ b/lager/extra/cereal/tuple.hpp
@@ -12,6 +12,8 @@
 
 #pragma once
 
+#include <lager/config.hpp>
+
 #include <cereal/cereal.hpp>
 #include <immer/box.hpp>
 #include <type_traits>
@@ -46,7 +48,8 @@ inline void CEREAL_SERIALIZE_FUNCTION_NAME(Archive& ar,
 {
     auto ts = static_cast<size_type>(sizeof...(Types));
     ar(make_size_tag(ts));
-    assert(ts == sizeof...(Types));
+    if (ts != sizeof...(Types))
+        LAGER_THROW(::cereal::Exception{"Invalid tuple size"});
     detail::serialize<sizeof...(Types)>::template apply(ar, tuple);
 }
 
-- 
2.43.0


From 717c01e32a0d4c0fee2c037d5ce988081a5b26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:46 +0000
Subject: [PATCH 16/22] fix: finishing a paused SDL loop stops it

---
 lager/event_loop/sdl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 4950468..658ec2b 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -145,8 +145,9 @@ struct sdl_event_loop
         auto step      = detail::constant_fps_step{fps, min_sim_fps};
         while (continue_ && !done_) {
             auto event = SDL_Event{};
-            while (continue_ && ((!paused_ && SDL_PollEvent(&event)) ||
-                                 (paused_ && SDL_WaitEvent(&event)))) {
+            while (continue_ &&
+                   ((!paused_ && SDL_PollEvent(&event)) ||
+                    (paused_ && !done_ && SDL_WaitEvent(&event)))) {
                 if (event.type == post_event_type_) {
                     auto fnp = std::unique_ptr<event_fn>{
                         static_cast<event_fn*>(event.user.data1)};
-- 
2.43.0


From 3cc8614d93622077e0e6aeaa607357b40a2b2980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:46 +0000
Subject: [PATCH 17/22] fix: a task that throws out of the SDL loop is not
 leaked

---
 lager/event_loop/sdl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lager/event_loop/sdl.hpp b/lager/event_loop/sdl.hpp
index 658ec2b..3731ee2 100644
--- a/lager/event_loop/sdl.hpp
+++ b/lager/event_loop/sdl.hpp
@@ -128,9 +128,9 @@ struct sdl_event_loop
             auto event = SDL_Event{};
             if (SDL_WaitEvent(&event)) {
                 if (event.type == post_event_type_) {
-                    auto fnp = static_cast<event_fn*>(event.user.data1);
+                    auto fnp = std::unique_ptr<event_fn>{
+                        static_cast<event_fn*>(event.user.data1)};
                     (*fnp)();
-                    delete fnp;
                 } else {
                     continue_ = handler(event);
                 }
-- 
2.43.0


From 0987357fde46f190e4ff79bf6892fd453cb15740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 18/22] fix: converting an empty effect gives an empty effect

---
 lager/effect.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/effect.hpp b/lager/effect.hpp
index 85e2be6..be7dd3d 100644
--- a/lager/effect.hpp
+++ b/lager/effect.hpp
@@ -53,7 +53,7 @@ lager::effect<lager::actions<...>, ...> " //
                                    std::is_convertible_v<Deps, D2>,
                                int> = 0>
     effect(effect<A2, D2> e)
-        : base_t{std::move(e)}
+        : base_t{e ? base_t{std::move(e)} : base_t{}}
     {}
 
     template <
-- 
2.43.0


From dd7040188a3bed6226642a44c27eb03b80790d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:04 +0000
Subject: [PATCH 19/22] fix: with_thunk can be included in several translation
 units

---
 lager/extra/thunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/extra/thunk.hpp b/lager/extra/thunk.hpp
index 8939db7..c3488af 100644
--- a/lager/extra/thunk.hpp
+++ b/lager/extra/thunk.hpp
@@ -30,7 +30,7 @@ namespace lager {
  * Thunks are handled as effects and invoked by the loop with the given
  * context.
  */
-auto with_thunk()
+inline auto with_thunk()
 {
     return [](auto next) {
         return [next](auto action,
-- 
2.43.0


From a5be0c7d299331446abd4514a89a5b031eb036ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:52 +0000
Subject: [PATCH 20/22] fix: getset does not let a getter by value consume an
 rvalue whole

The getter was given the rvalue whole itself, so that one taking it by value
(or a lens composed further in, whose whole is always an rvalue) left a
moved-from whole for the setter, and all that is out of focus was lost.
---
 lager/lenses.hpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/lager/lenses.hpp b/lager/lenses.hpp
index 1f8db7c..6301c08 100644
--- a/lager/lenses.hpp
+++ b/lager/lenses.hpp
@@ -97,6 +97,23 @@ decltype(auto) over(LensT&& lens, T&& x, Fn&& fn)
 
 //! @}
 
+namespace detail {
+
+// The whole is still needed after looking at it, in order to set it.  It can
+// only be handed over to a getter that gives a reference into it.
+template <typename Getter, typename Whole>
+decltype(auto) getset_view(const Getter& getter, Whole&& whole)
+{
+    using result_t = std::invoke_result_t<const Getter&, Whole&&>;
+    if constexpr (!std::is_reference_v<result_t> &&
+                  std::is_invocable_v<const Getter&, Whole&>)
+        return getter(whole);
+    else
+        return getter(std::forward<Whole>(whole));
+}
+
+} // namespace detail
+
 namespace lenses {
 
 //! @defgroup lenses
@@ -107,7 +124,8 @@ auto getset(Getter&& getter, Setter&& setter)
 {
     return zug::comp([=](auto&& f) {
         return [&, f = LAGER_FWD(f)](auto&& p) {
-            return f(getter(std::forward<decltype(p)>(p)))([&](auto&& x) {
+            return f(detail::getset_view(
+                getter, std::forward<decltype(p)>(p)))([&](auto&& x) {
                 return setter(std::forward<decltype(p)>(p),
                               std::forward<decltype(x)>(x));
             });
-- 
2.43.0


From d922c7ac31ebecc434f027ebdf1a62110489ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:27 +0000
Subject: [PATCH 21/22] fix: expressions can be made over writers that are not
 temporaries

---
 lager/with.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/with.hpp b/lager/with.hpp
index c13166d..ec1b819 100644
--- a/lager/with.hpp
+++ b/lager/with.hpp
@@ -451,7 +451,7 @@ template <typename... WriterTs>
 auto with_aux(const writer_mixin<WriterTs>&... ins)
 {
     return detail::make_with_expr<writer_base>(
-        std::make_tuple(access::node(std::move(ins))...));
+        std::make_tuple(access::node(ins.make())...));
 }
 
 template <typename... CursorTs>
-- 
2.43.0


From dfe885fc129c4a98f1cab070feef5ca1bd04a366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:59 +0000
Subject: [PATCH 22/22] fix: async() of the Boost.Asio loop does not take
 function objects that are not temporaries

---
 lager/event_loop/boost_asio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lager/event_loop/boost_asio.hpp b/lager/event_loop/boost_asio.hpp
index 176da9a..eaa9796 100644
--- a/lager/event_loop/boost_asio.hpp
+++ b/lager/event_loop/boost_asio.hpp
@@ -53,7 +53,7 @@ struct with_boost_asio_event_loop
     {
         using work_t = boost::asio::executor_work_guard<Executor>;
 
-        std::thread([fn = std::move(fn), work = work_t{executor}] {
+        std::thread([fn = std::forward<Fn>(fn), work = work_t{executor}] {
             fn();
         }).detach();
     }
-- 
2.43.0

