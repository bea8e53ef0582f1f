From 5fc8d1413501433cdecbcb9fe68595ce3bbbf8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 01/22] fix: do not emit empty or reversed ranges from
 CharClass::operator~

Touching ranges, and ranges starting at 0, made the complement contain
ranges whose end is not after their start.
---
 src/core/CharClass.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index b7bccd8..4ffe0e3 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -180,7 +180,8 @@ public:
 
 		for (; i != m_ranges.cend(); i++)
 		{
-			cc.m_ranges.emplace_back(last_end, i->start());
+			if (last_end < i->start())
+				cc.m_ranges.emplace_back(last_end, i->start());
 			last_end = i->end();
 		}
 
-- 
2.43.0


From ce83cefa003ce84339216769e64acefa3132e067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 02/22] fix: keep CharClass ranges sorted when adding a single
 range

operator|(Range) appended a range that lies before the existing ones at
the end, and then missed later ranges that it should have merged with.
---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index 4ffe0e3..d98d138 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -196,7 +196,7 @@ public:
 
         auto i = m_ranges.cbegin();
 
-        for (; i != m_ranges.cend() && !i->overlaps(r); i++)
+        for (; i != m_ranges.cend() && *i < r && !i->overlaps(r); i++)
             ;
         
         cc.m_ranges.insert(cc.m_ranges.end(), m_ranges.cbegin(), i);
-- 
2.43.0


From dc28d9f74788f56a3be4b9111f00f68a44d71c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 03/22] fix: keep the merged range at the end of
 CharClass::operator|

When the loop ended with a partly merged range pending, the unmerged
original was copied instead, so [a-c] | [b-z] lost 'a'.
---
 src/core/CharClass.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index d42fa14..2b55f78 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -164,8 +164,17 @@ CharClass<TCHAR> CharClass<TCHAR>::operator|(const CharClass<TCHAR>& cc) const
         }
     }
 
-    new_class.m_ranges.insert(new_class.m_ranges.end(), i, m_ranges.cend());
-    new_class.m_ranges.insert(new_class.m_ranges.end(), j, cc.m_ranges.cend());
+    //ri and rj may have been widened by merge(), so they take the place of *i and *j
+    if (i != m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(ri);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), i + 1, m_ranges.cend());
+    }
+    if (j != cc.m_ranges.cend())
+    {
+        new_class.m_ranges.push_back(rj);
+        new_class.m_ranges.insert(new_class.m_ranges.end(), j + 1, cc.m_ranges.cend());
+    }
 
     return new_class;
 }
-- 
2.43.0


From 128f822c454ef8cfbc567f12555483966862cd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 04/22] fix: reject reversed ranges such as [z-a] in character
 classes

They produced a range whose end lies before its start.
---
 src/core/CharClass.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/CharClass.cpp b/src/core/CharClass.cpp
index 2b55f78..4eab5b6 100644
--- a/src/core/CharClass.cpp
+++ b/src/core/CharClass.cpp
@@ -97,6 +97,8 @@ void CharClass<TCHAR>::parse(Stream& stream)
             }
             else
             {
+                if (ch < start)
+                    throw stream.unexpected(ch);
                 *this |= Range<TCHAR>(start, ch + 1);
                 state = CC_STATE_START;
             }
-- 
2.43.0


From ae27a88fb81ee91a5009e6aa876a7921ec15b4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 05/22] fix: return one line end for CR LF so that line
 comments end there

---
 src/core/Stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 36450ad..9d3f913 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -97,6 +97,7 @@ public:
                     m_newline_flag = true;
                     m_pos++;
                     m_cur++;
+                    return L'\n';
                 }
             }
             else if (ch == L'\n' || ch == L'\u0085' || ch == L'\u2028' || ch == L'\u2029')
-- 
2.43.0


From bb8d4b373c5f949c265edc1992ccdf1a8b1995a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 06/22] fix: do not dereference the end of the text in
 Stream::peek(n)

---
 src/core/Stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Stream.hpp b/src/core/Stream.hpp
index 9d3f913..cf57b74 100644
--- a/src/core/Stream.hpp
+++ b/src/core/Stream.hpp
@@ -115,7 +115,7 @@ public:
     }
     wchar_t peek(int n)
     {
-        for (int i = 0; i < n - 1; i++)
+        for (int i = 0; i < n; i++)
         {
             if (m_cur + i == m_str.end())
                 return L'\0';
-- 
2.43.0


From 092d99ae28dccd75f716a9409a12c578453778d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 07/22] fix: do not look at the last tag of an empty stack when
 pushing values

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 src/core/Stage3RunnerNonRecursive.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index c40bcf5..8760d3e 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -55,7 +55,7 @@ protected:
   static void push_value(const semantic_value_type val, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
     if (val == 0) return;
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + 1);
     } else {
       tags.emplace_back(detail::StackEntryTag::VALUE);
diff --git a/src/core/Stage3RunnerNonRecursive.hpp b/src/core/Stage3RunnerNonRecursive.hpp
index dbfb854..956fe0f 100644
--- a/src/core/Stage3RunnerNonRecursive.hpp
+++ b/src/core/Stage3RunnerNonRecursive.hpp
@@ -118,7 +118,7 @@ private:
   template <typename Iterator>
   static void append_value(Iterator& values_next_it, int n, std::vector<semantic_value_type>& values, std::vector<detail::StackEntryTag>& tags)
   {
-    if (detail::isValueTag(tags.back())) {
+    if (!tags.empty() && detail::isValueTag(tags.back())) {
       tags.back() = static_cast<detail::StackEntryTag>(static_cast<int>(tags.back()) + n);
     } else {
       tags.emplace_back(static_cast<detail::StackEntryTag>(n));
-- 
2.43.0


From fc86c4e8dab79304baddf0552fdbe13dfe8a43b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 08/22] fix: do not index past the end of the value stack for a
 reduction without values

---
 src/core/Stage2RunnerNonRecursive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Stage2RunnerNonRecursive.hpp b/src/core/Stage2RunnerNonRecursive.hpp
index 8760d3e..abd68c1 100644
--- a/src/core/Stage2RunnerNonRecursive.hpp
+++ b/src/core/Stage2RunnerNonRecursive.hpp
@@ -80,7 +80,7 @@ protected:
 #if PYCENTAURUS
     auto new_val = m_listener(&sym, values.data(), value_count, m_listener_context);
 #else
-    auto new_val = m_listener(&sym, &values[values.size() - value_count], value_count, m_listener_context);
+    auto new_val = m_listener(&sym, values.data() + (values.size() - value_count), value_count, m_listener_context);
     values.resize(values.size() - value_count);
 #endif
     if (reduction_counter != nullptr) {
-- 
2.43.0


From 8ab8abfa4ae126718dade9ac3b062fba5308a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 09/22] fix: an optional regex unit ending in a repetition
 could enter that repetition without its beginning

---
 src/core/NFA.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 3f801bb..8d6f7d8 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -567,15 +567,21 @@ public:
             {
             case L'?':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             case L'*':
                 stream.discard();
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
             default:
+                //Add a confluence
+                add_state(CharClass<TCHAR>());
                 //Add a skipping transition
                 add_transition_from(CharClass<TCHAR>(), 1);
                 break;
-- 
2.43.0


From 0b0ff7f8080ad9e8f227ad7c6050f63b393a61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 10/22] fix: computing an epsilon closure did not terminate on
 a cycle of empty moves

---
 src/core/NFA.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 8d6f7d8..5f1b0af 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -634,8 +634,9 @@ public:
     }
     bool epsilon_closure_sub(std::set<int>& closure, int index) const
     {
-        //Always include myself
-        closure.insert(index);
+        //Always include myself, and stop if the state has already been visited
+        if (!closure.insert(index).second)
+            return false;
 
         bool long_flag = false;
         IndexVector et = m_states[index].epsilon_transitions(long_flag);
-- 
2.43.0


From 940790c015bbaa8d6335434cf6aff595ceda8bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 11/22] fix: minimising a DFA merged accepting with
 non-accepting states

---
 src/core/DFA.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/DFA.hpp b/src/core/DFA.hpp
index 1124e3b..6eb360c 100644
--- a/src/core/DFA.hpp
+++ b/src/core/DFA.hpp
@@ -18,7 +18,6 @@ public:
 	using NFABaseState<TCHAR, IndexVector>::get_transitions;
 	using NFABaseState<TCHAR, IndexVector>::m_transitions;
     using NFABaseState<TCHAR, IndexVector>::hash;
-    using NFABaseState<TCHAR, IndexVector>::operator==;
     using NFABaseState<TCHAR, IndexVector>::sort;
 	DFAState(const IndexVector& label, bool long_flag = false)
 		: NFABaseState<TCHAR, IndexVector>(label), m_long(long_flag), m_accept(false) {}
@@ -37,6 +36,10 @@ public:
 			os << L"\" ];" << std::endl;
 		}
 	}
+    bool operator==(const DFAState<TCHAR>& s) const
+    {
+        return m_accept == s.m_accept && NFABaseState<TCHAR, IndexVector>::operator==(s);
+    }
     void set_long(bool long_flag = true)
     {
         m_long |= long_flag;
-- 
2.43.0


From abbfb3e6e22f564d69f9ac11b7253a24092c8b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 12/22] fix: running an NFA read past the end of the input and
 did not terminate on a cycle of empty moves

---
 src/core/NFA.hpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/core/NFA.hpp b/src/core/NFA.hpp
index 5f1b0af..5f6d416 100644
--- a/src/core/NFA.hpp
+++ b/src/core/NFA.hpp
@@ -674,27 +674,27 @@ public:
      */
     bool run(const std::basic_string<TCHAR>& seq, int index = 0, int input_pos = 0) const
     {
-        if (index == m_states.size() - 1 && seq.size() == input_pos)
-        {
-            return true;
-        }
-        else
+        //Simulate all the reachable states at once, as the NFA may contain cycles of empty moves
+        bool long_flag = false;
+        std::set<int> states = epsilon_closure(index, long_flag);
+
+        for (; input_pos < seq.size(); input_pos++)
         {
-            for (const auto& tr : get_transitions(index))
+            std::set<int> next;
+
+            for (int state : states)
             {
-                if (tr.is_epsilon())
+                for (const auto& tr : get_transitions(state))
                 {
-                    if (run(seq, tr.dest(), input_pos))
-                        return true;
-                }
-                else if (tr.label().includes(seq[input_pos]))
-                {
-                    if (run(seq, tr.dest(), input_pos + 1))
-                        return true;
+                    if (!tr.is_epsilon() && tr.label().includes(seq[input_pos]))
+                        next.insert(tr.dest());
                 }
             }
-            return false;
+
+            states = epsilon_closure(next, long_flag);
         }
+
+        return states.count(m_states.size() - 1) > 0;
     }
     /*!
     * @brief Add a transition to a new state from the final state.
-- 
2.43.0


From 020ffa6ea54c09023667f59e1609f8cb92b8c2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 13/22] fix: build a character class from a list in canonical
 order

The initializer_list constructor appended one range per character in list
order, so a list that is not sorted (or repeats a character) produced a class
whose ranges are not sorted, on which union, intersection and complement go
wrong.
---
 src/core/CharClass.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/CharClass.hpp b/src/core/CharClass.hpp
index d98d138..7da5964 100644
--- a/src/core/CharClass.hpp
+++ b/src/core/CharClass.hpp
@@ -126,7 +126,7 @@ public:
     {
         for (wchar_t ch : ch_list)
         {
-            m_ranges.push_back(Range<TCHAR>(ch, ch + 1));
+            *this |= Range<TCHAR>::make_from_wide(ch, ch + 1);
         }
     }
     CharClass(wchar_t start, wchar_t end)
-- 
2.43.0


From a3b6ec5d8fdeac23eb39b6747ce0a25528831680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 14/22] fix: give an empty literal a node of its own in the
 composite machine

Importing '' returned the node before the literal without adding anything, so
the literal's end was not represented under an index of its own.
---
 src/core/CompositeATN.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index dbf6194..3b25230 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -112,6 +112,9 @@ private:
     }
     int import_literal_terminal(const std::basic_string<TCHAR>& literal, int origin, int tag)
     {
+        if (literal.empty())
+            return add_node(CharClass<TCHAR>(), origin, tag);
+
         for (TCHAR ch : literal)
         {
             origin = add_node(CharClass<TCHAR>(ch, ch + 1), origin, tag);
-- 
2.43.0


From c4b8472bcfd1b2e8cd3211f555b8473afd3b5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 15/22] fix: move the rule names, grammar name and options with
 a grammar

The move constructor left them behind, so ids of a moved grammar could not be
looked up.
---
 src/core/Grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Grammar.hpp b/src/core/Grammar.hpp
index a339855..0fa0aa9 100644
--- a/src/core/Grammar.hpp
+++ b/src/core/Grammar.hpp
@@ -71,7 +71,7 @@ public:
         optimize();
     }
     Grammar(Grammar&& old)
-        : m_networks(std::move(old.m_networks)), m_root_id(old.m_root_id)
+        : m_networks(std::move(old.m_networks)), m_identifiers(std::move(old.m_identifiers)), m_root_id(old.m_root_id), m_grammar_name(old.m_grammar_name), m_options(std::move(old.m_options))
     {
     }
     virtual ~Grammar()
-- 
2.43.0


From eb85679403bcfab92db861cd55dd31bb1e045feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 16/22] fix: refuse more rules than machine numbers

A machine number has 15 bits in the parse tree; 65535 rules were accepted.
---
 src/core/Grammar.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 844c782..40f6fdc 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -56,8 +56,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
         if (ch == L'\0')
             break;
 
-        if (machine_id >= 65536)
-            throw stream.toomany(65535);
+        if (machine_id >= 32768)
+            throw stream.toomany(32767);
 
         Identifier id(stream);
 
-- 
2.43.0


From 144c0af6d001a62e033bbab4cbded660be824299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 17/22] fix: reject an include whose path is not closed

An unterminated include path was read past the end of the grammar without end.
---
 src/core/Grammar.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 40f6fdc..0ca4fa8 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -97,6 +97,9 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
 
             for (ch = stream.get(); ch != L'"'; ch = stream.get())
             {
+                if (ch == L'\0')
+                    throw stream.unexpected(EOF);
+
                 wide_path.push_back(ch);
             }
 
-- 
2.43.0


From 2c29f0062e0f461f7ec8d84a36afd65ec6a6d03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:25 +0000
Subject: [PATCH 18/22] fix: reject a second definition of a rule

The second definition was dropped from the rules but kept among the names, so
the numbers of all later rules were shifted against their names.
---
 src/core/Grammar.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Grammar.cpp b/src/core/Grammar.cpp
index 0ca4fa8..9a6e6fd 100644
--- a/src/core/Grammar.cpp
+++ b/src/core/Grammar.cpp
@@ -119,7 +119,8 @@ int Grammar<TCHAR>::parse(const char *filename, int machine_id)
             if (m_root_id.str().empty())
                 m_root_id = id;
 
-            m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn)));
+            if (!m_networks.insert(std::pair<Identifier, ATNMachine<TCHAR> >(id, std::move(atn))).second)
+                throw SimpleException("A rule is defined more than once.");
 
             m_identifiers.push_back(id);
         }
-- 
2.43.0


From a6c485691891d04134424b98da0a666ce24fb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:51 +0000
Subject: [PATCH 19/22] fix: end the closure of a repetition whose body can be
 empty

---
 src/core/CompositeATN.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/core/CompositeATN.cpp b/src/core/CompositeATN.cpp
index 0f0564a..0f646be 100644
--- a/src/core/CompositeATN.cpp
+++ b/src/core/CompositeATN.cpp
@@ -67,9 +67,9 @@ void CompositeATN<TCHAR>::build_closure_exclusive(CATNClosure& closure, const AT
 
                 if (dest_node.is_terminal())
                 {
-                    closure.emplace(dest_path, color, new_priority);
-
-                    build_closure_exclusive(closure, dest_path, color, stack, new_priority);
+                    //A continuation already found has been followed before
+                    if (closure.emplace(dest_path, color, new_priority).second)
+                        build_closure_exclusive(closure, dest_path, color, stack, new_priority);
                 }
                 else
                 {
@@ -91,9 +91,8 @@ void CompositeATN<TCHAR>::build_closure_inclusive(CATNClosure& closure, const AT
 
     if (node.is_terminal())
     {
-        closure.emplace(path, color, priority);
-
-        build_closure_exclusive(closure, path, color, stack, priority);
+        if (closure.emplace(path, color, priority).second)
+            build_closure_exclusive(closure, path, color, stack, priority);
     }
     else
     {
-- 
2.43.0


From f3ea293f8cb0a0619493b0485b579f711c8403d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:51 +0000
Subject: [PATCH 20/22] fix: give a node without an explicit id the id -1

---
 src/core/ATN.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index b614473..e4de77c 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -101,6 +101,7 @@ public:
     {
     }
     ATNNode(Stream& stream)
+        : m_type(ATNNodeType::Blank), m_localid(-1)
     {
         parse(stream);
     }
-- 
2.43.0


From e50a4e12cebb9f185c31107b984f288459e76bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:51 +0000
Subject: [PATCH 21/22] fix: keep the order of preference when dropping
 pass-through nodes

---
 src/core/ATN.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/core/ATN.hpp b/src/core/ATN.hpp
index e4de77c..d06a71b 100644
--- a/src/core/ATN.hpp
+++ b/src/core/ATN.hpp
@@ -373,13 +373,30 @@ public:
                 int where = -1;
                 int count = count_incoming_edges(i, where);
 
-                if (count == 1)
+                if (count == 1 && where != i)
                 {
                     assert(where >= 0);
                     ATNNode<TCHAR>& origin = m_nodes.at(where);
+                    int priority = 0;
+                    bool sole = true, uniform = true;
+                    for (const auto& t : origin.get_transitions())
+                    {
+                        if (t.dest() == i)
+                            priority = t.tag();
+                        else if (mask[t.dest()])
+                            sole = false;
+                    }
+                    for (const auto& t : node.get_transitions())
+                    {
+                        if (t.tag() != node.get_transition(0).tag())
+                            uniform = false;
+                    }
+                    //Two levels of ordered alternatives do not fit in one.
+                    if (!sole && !uniform)
+                        continue;
                     for (const auto& t : node.get_transitions())
                     {
-                        origin.add_transition(t);
+                        origin.add_transition(t.dest(), sole ? t.tag() : priority);
                     }
                     mask[i] = false;
                 }
-- 
2.43.0


From b714da0fa08ee93e99fabf00df356046ff5cb998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:32 +0000
Subject: [PATCH 22/22] fix: number the alternatives of a decision from the
 edges that leave the node

A decision that follows a regular terminal (as in a simplified network) is
made at the last state of the terminal, which may have transitions of its
own.  Those were counted as alternatives, so that every alternative got the
number of a later one.
---
 src/core/CompositeATN.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core/CompositeATN.hpp b/src/core/CompositeATN.hpp
index 3b25230..5ce86af 100644
--- a/src/core/CompositeATN.hpp
+++ b/src/core/CompositeATN.hpp
@@ -16,13 +16,14 @@ class CATNNode
     std::vector<CATNTransition<TCHAR> > m_transitions;
     Identifier m_submachine;
     int m_source;
+    int m_exit;
 public:
     CATNNode()
-        : m_source(-1)
+        : m_source(-1), m_exit(0)
     {
     }
     CATNNode(const Identifier& id)
-        : m_submachine(id), m_source(-1)
+        : m_submachine(id), m_source(-1), m_exit(0)
     {
     }
     virtual ~CATNNode()
@@ -60,6 +61,12 @@ public:
     void set_source(int source)
     {
         m_source = source;
+        //The transitions added from here on leave the source node
+        m_exit = m_transitions.size();
+    }
+    int get_exit() const
+    {
+        return m_exit;
     }
     int get_source() const
     {
@@ -546,12 +553,14 @@ public:
 
         const std::vector<CATNTransition<TCHAR> >& transitions = root_node.get_transitions();
 
-        for (unsigned int i = 0; i < transitions.size(); i++)
+        int exit = root_node.get_exit();
+
+        for (int i = exit; i < transitions.size(); i++)
         {
-            //All transitions originating from the root node must be epsilon transitions
+            //All transitions leaving the root node must be epsilon transitions
             assert(transitions[i].is_epsilon());
 
-            build_closure_inclusive(closure, path.replace_index(transitions[i].dest()), i + 1, stack, PriorityChain(path.leaf_id(), path.leaf_index(), transitions[i].tag()));
+            build_closure_inclusive(closure, path.replace_index(transitions[i].dest()), i - exit + 1, stack, PriorityChain(path.leaf_id(), path.leaf_index(), transitions[i].tag()));
         }
 
         return closure;
-- 
2.43.0

