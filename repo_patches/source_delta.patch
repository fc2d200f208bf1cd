From d7b4fd2a727e0cdb05499846825c61831f47429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 01/75] fix: Repeat counting repetitions twice after its
 matcher is rebuilt

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e9e3469..4ccce00 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1571,8 +1571,10 @@ class Repeat(SingleChildExpansion):
                 self.child.reset_for_new_match()
             return tokens
 
-        # Get the child's matcher element and add the extra parse action.
-        child_element = self.child.matcher_element.addParseAction(f)
+        # Wrap the child's matcher element and add the extra parse action. The child's
+        # own element may outlive this one, so it should not be modified.
+        child_element = pyparsing.And([self.child.matcher_element])
+        child_element.addParseAction(f)
 
         # Determine the parser element type to use.
         type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
-- 
2.43.0


From acdc0eaf3f25e604154eac7ebbcf27245d15d317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 02/75] fix: setting Literal.text leaves the old text matching

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4ccce00..4ce5385 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1329,11 +1329,12 @@ class Literal(Expansion):
     Expansion class for literals.
     """
     def __init__(self, text, case_sensitive=False):
+        super(Literal, self).__init__([])
+        self._case_sensitive = bool(case_sensitive)
+
         # Set _text and use the text setter to validate the input.
         self._text = ""
         self.text = text
-        self._case_sensitive = bool(case_sensitive)
-        super(Literal, self).__init__([])
 
     def __str__(self):
         return "%s('%s')" % (self.__class__.__name__, self.text)
@@ -1383,6 +1384,7 @@ class Literal(Expansion):
             raise TypeError("expected string, got %s instead" % value)
 
         self._text = value
+        self.invalidate_matcher()
 
     def generate(self):
         """
-- 
2.43.0


From 0f5aa3f479f80de66d963d17facf415bb4687b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 03/75] fix: copies of case sensitive Literals lose case
 sensitivity

---
 jsgf/expansions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4ce5385..67cfec6 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1397,7 +1397,7 @@ class Literal(Expansion):
         return self.text
 
     def __copy__(self):
-        e = type(self)(self.text)
+        e = type(self)(self._text, self.case_sensitive)
         e.tag = self.tag
         return e
 
-- 
2.43.0


From ec54435d3b9d1d7afef3d6ad40e780c8a9af3349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 04/75] fix: replacing a rule's expansion leaves references
 matching the old one

A rejected value no longer unlinks the current expansion from the rule either.
---
 jsgf/rules.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index a49bd8c..f463c93 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -40,10 +40,10 @@ class Rule(references.BaseRef):
         """
         super(Rule, self).__init__(name)
         self.visible = visible
+        self.grammar = None
         self._expansion = None
         self.expansion = expansion
         self._active = True
-        self.grammar = None
 
         # Set case sensitivity (backing attribute and property).
         self._case_sensitive = case_sensitive
@@ -93,12 +93,14 @@ class Rule(references.BaseRef):
             return self._name
 
     def _set_expansion(self, value):
+        # Handle the object passed in as an expansion
+        value = Expansion.make_expansion(value)
+
         # Reset expansion.rule if there was a previous expansion
         if self._expansion:
             self._expansion.rule = None
 
-        # Handle the object passed in as an expansion
-        self._expansion = Expansion.make_expansion(value)
+        self._expansion = value
 
         # Set the rule attribute for the rule's expansions
         def set_rule(x):
@@ -106,6 +108,23 @@ class Rule(references.BaseRef):
 
         map_expansion(self._expansion, set_rule, shallow=True)
 
+        # References to this rule should match the new expansion.
+        self._invalidate_references()
+
+    def _invalidate_references(self):
+        """
+        Invalidate the matcher of each reference to this rule's name in its grammar.
+        """
+        if not self.grammar:
+            return
+
+        def process(x):
+            if isinstance(x, NamedRuleRef) and x.name == self.name:
+                x.invalidate_matcher()
+
+        for r in self.grammar.rules:
+            map_expansion(r.expansion, process, shallow=True)
+
     def compile(self, ignore_tags=False):
         """
         Compile this rule's expansion tree and return the result.
-- 
2.43.0


From a8688e801f5f13c3ff9c67ef12fa13495b817865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:19 +0000
Subject: [PATCH 05/75] fix: references keep matching a removed rule after it
 is re-defined

---
 jsgf/grammars.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index b378222..486fae6 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -688,7 +688,11 @@ class Grammar(references.BaseRef):
             raise GrammarError("Cannot remove rule '%s' as it is referenced by "
                                "another rule." % rule)
 
-        self._rules.remove(rule)
+        # Use the grammar's own object, which is only equal to the one passed in.
+        rule = self._rules.pop(self._rules.index(rule))
+
+        # References to the rule's name should no longer match this rule.
+        rule._invalidate_references()
         rule.grammar = None
 
     def enable_rule(self, rule):
-- 
2.43.0


From e565dbef8866fcadf1c435a85cb8ded892531df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:37 +0000
Subject: [PATCH 06/75] fix: failed root grammar compilation leaves the
 grammar's rules private

---
 jsgf/grammars.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 486fae6..f06644a 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -341,16 +341,15 @@ class Grammar(references.BaseRef):
         if not visible_rules:
             return result
 
-        # Temporarily set each visible rule to not visible
-        for rule in visible_rules:
-            rule.visible = False
-
-        # Compile each rule and add its name to the names list if it compiled to
-        # something. Rules can compile to the empty string if they are disabled.
+        # Compile each rule as a private rule and add its name to the names list if
+        # it compiled to something. Rules can compile to the empty string if they are
+        # disabled.
         names = []
         compiled_rules = ""
         for rule in self.rules:
             compiled = rule.compile()
+            if compiled.startswith("public "):
+                compiled = compiled[len("public "):]
             if compiled:
                 compiled_rules += "%s\n" % compiled
             if rule in visible_rules and compiled:
@@ -365,10 +364,6 @@ class Grammar(references.BaseRef):
             result += root_rule
             result += compiled_rules
 
-        # Set rule visibility back to normal
-        for rule in visible_rules:
-            rule.visible = True
-
         return result
 
     @property
-- 
2.43.0


From b38dd7f5ced11abdb0511dc054fbab6c9ac8574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:03 +0000
Subject: [PATCH 07/75] fix: removed weighted alternatives are still matched
 and generated

---
 jsgf/expansions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 67cfec6..7e9b9a0 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1823,11 +1823,12 @@ class AlternativeSet(VariableChildExpansion):
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            w_sum = sum(self._weights.values())
+            weights = [(e, self._weights[e]) for e in self.children]
+            w_sum = sum([weight for _, weight in weights])
             rand = random.random()
             # print("rand = %s" % rand)
             help_sum = 0
-            for child, weight in self._weights.items():
+            for child, weight in weights:
                 help_sum += (weight / w_sum)
                 # print(help_sum)
                 if rand < help_sum:
@@ -1841,7 +1842,8 @@ class AlternativeSet(VariableChildExpansion):
 
             # Exclude alternatives that have a weight value of 0.
             children = []
-            for e, w in self._weights.items():
+            for e in self.children:
+                w = self._weights[e]
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From 778748a986d1d7155d7c8e1975b668583fbd48bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:04 +0000
Subject: [PATCH 08/75] fix: alternatives with zero weight can be generated
 because of rounding

---
 jsgf/expansions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7e9b9a0..c76d6c4 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1833,6 +1833,10 @@ class AlternativeSet(VariableChildExpansion):
                 # print(help_sum)
                 if rand < help_sum:
                     return child.generate()
+
+            # The sum can be slightly less than 1 because of rounding. Use the last
+            # possible alternative if so.
+            return [e for e, w in weights if w > 0][-1].generate()
         return random.choice(self.children).generate()
 
     def _make_matcher_element(self):
-- 
2.43.0


From 5898b3b3f1819d015b19be55626fc06cda12197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 09/75] fix: generated repetitions contain superfluous spaces

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c76d6c4..9fc3033 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1513,7 +1513,8 @@ class Repeat(SingleChildExpansion):
         :rtype: str
         """
         c = int(math.log(random.random() / 2, 0.5))
-        return " ".join([self.child.generate() for _ in range(c)])
+        results = [self.child.generate() for _ in range(c)]
+        return " ".join([s for s in results if s])
 
     def __hash__(self):
         return super(Repeat, self).__hash__()
@@ -1633,7 +1634,8 @@ class KleeneStar(Repeat):
         :rtype: str
         """
         c = int(math.log(random.random() / 2, 0.5)) - 1
-        return " ".join([self.child.generate() for _ in range(c)])
+        results = [self.child.generate() for _ in range(c)]
+        return " ".join([s for s in results if s])
 
     @property
     def is_optional(self):
-- 
2.43.0


From d5da06569c53bd363665e4d54cf43f645d47fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:25 +0000
Subject: [PATCH 10/75] fix: math domain error generating repetitions if
 random() returns 0.0

---
 jsgf/expansions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9fc3033..a9713fe 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1512,7 +1512,8 @@ class Repeat(SingleChildExpansion):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5))
+        # Use the smallest non-zero value if random() returns 0.0.
+        c = int(math.log((random.random() or 2.0 ** -53) / 2, 0.5))
         results = [self.child.generate() for _ in range(c)]
         return " ".join([s for s in results if s])
 
@@ -1633,7 +1634,8 @@ class KleeneStar(Repeat):
 
         :rtype: str
         """
-        c = int(math.log(random.random() / 2, 0.5)) - 1
+        # Use the smallest non-zero value if random() returns 0.0.
+        c = int(math.log((random.random() or 2.0 ** -53) / 2, 0.5)) - 1
         results = [self.child.generate() for _ in range(c)]
         return " ".join([s for s in results if s])
 
-- 
2.43.0


From 113d7b900b1d7bd61a9519bc78f97c63dec91f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:27 +0000
Subject: [PATCH 11/75] fix: assigning invalid children orphans the current
 children

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a9713fe..8e6cadc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -476,6 +476,9 @@ class Expansion(object):
         if not isinstance(value, (tuple, list, ChildList)):
             raise TypeError("'children' must be a list or tuple")
 
+        # Make each child into an Expansion before changing anything.
+        value = [self.make_expansion(e) for e in value]
+
         # Orphan current children if applicable.
         if self._children:
             self._children.orphan_children()
-- 
2.43.0


From ef374c8122b421b8a22531ea16168b2077fdf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:29 +0000
Subject: [PATCH 12/75] fix: enable_rule and disable_rule change rules that are
 not in the grammar

---
 jsgf/grammars.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index f06644a..9f1c3bf 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -705,11 +705,14 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.enable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # The object passed in may not be the grammar's own rule object.
+        if not isinstance(rule, string_types):
+            rule.enable()
+
         # Enable the rule
         self.get_rule_from_name(rule_name).enable()
 
@@ -726,11 +729,14 @@ class Grammar(references.BaseRef):
             rule_name = rule
         else:
             rule_name = rule.name
-            rule.disable()
 
         if rule_name not in self.rule_names:
             raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
 
+        # The object passed in may not be the grammar's own rule object.
+        if not isinstance(rule, string_types):
+            rule.disable()
+
         # Disable the rule
         self.get_rule_from_name(rule_name).disable()
 
-- 
2.43.0


From 36606316f667291269d099fb97b634d5e4db3772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:30 +0000
Subject: [PATCH 13/75] fix: order of a DictationGrammar's rules depends on
 string hashes

---
 jsgf/ext/grammars.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b471d07..89a56e4 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -48,10 +48,15 @@ class DictationGrammar(Grammar):
 
         :returns: list
         """
-        return list(set(
-                self._dictation_rules + self._jsgf_only_grammar.match_rules +
-                list(self._original_rule_map.values())
-        ))
+        # Remove duplicates without changing the order.
+        result = []
+        seen = set()
+        for rule in (self._dictation_rules + self._jsgf_only_grammar.match_rules +
+                     list(self._original_rule_map.values())):
+            if rule not in seen:
+                seen.add(rule)
+                result.append(rule)
+        return result
 
     @property
     def match_rules(self):
-- 
2.43.0


From 343a634e729f7a160f508fb585b791544c03df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:39 +0000
Subject: [PATCH 14/75] fix: JointTreeContext leaves trees joined if a
 reference is not found

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 8e6cadc..7c2ae99 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -235,6 +235,9 @@ class JointTreeContext(object):
             x.referenced_rule.expansion.parent = None
 
     def __enter__(self):
+        # Find every referenced rule first, so that no tree is left joined if one of
+        # them cannot be found.
+        map_expansion(self._root)
         map_expansion(self._root, self.join_tree, TraversalOrder.PostOrder)
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-- 
2.43.0


From f86ed371184484d3a4ef2213a81a9f46585e20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 15/75] fix: matched repetitions of Dictation expansions cannot
 be unpickled

---
 jsgf/expansions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7c2ae99..69bd25c 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1526,6 +1526,15 @@ class Repeat(SingleChildExpansion):
     def __hash__(self):
         return super(Repeat, self).__hash__()
 
+    def __getstate__(self):
+        # Dictionaries with expansions as keys cannot always be unpickled because the
+        # hashes of some expansions depend on ancestors that aren't restored yet, so
+        # use lists of items instead.
+        state = super(Repeat, self).__getstate__()
+        state['_repetitions_matched'] = [list(dict(values).items()) for values in
+                                         self._repetitions_matched]
+        return state
+
     @property
     def repetitions_matched(self):
         """
@@ -1542,7 +1551,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["current_match"] for values in
+            return [dict(values)[e]["current_match"] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1554,7 +1563,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [values[e]["matching_slice"] for values in
+            return [dict(values)[e]["matching_slice"] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1567,7 +1576,7 @@ class Repeat(SingleChildExpansion):
         if self._repetitions_matched:
             # Restore the last repetition's match values.
             last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, last, False)
+            restore_current_matches(self.child, dict(last), False)
         return tokens
 
     def _make_matcher_element(self):
-- 
2.43.0


From de101777ff2ca35effcf6d08de7df5d7b28741c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:42 +0000
Subject: [PATCH 16/75] fix: invalidate_calculations does not invalidate
 anything

---
 jsgf/expansions.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 69bd25c..c843be2 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -886,14 +886,11 @@ class Expansion(object):
         if not root._lookup_dict:
             return  # nothing to invalidate
 
+        self_id = id(self)
         for d in root._lookup_dict.values():
-            for k, v in d.items():
-                # Assume k is either an expansion or an iterable of expansions
-                if self is k or isinstance(k, (tuple, list)) and self in k:
-                    assert isinstance(d, dict)
-                    d.pop(k)
-                # Do something similar for values
-                elif self is v or isinstance(v, (tuple, list)) and self in k:
+            for k in list(d):
+                # Keys are either the ID of an expansion or a tuple of IDs.
+                if self_id == k or isinstance(k, tuple) and self_id in k:
                     d.pop(k)
 
     def __str__(self):
-- 
2.43.0


From 4b03eb79adab5a551af6667841a22254e4504568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 17/75] fix: failing to get a rule by its full name changes the
 import environment

---
 jsgf/grammars.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 9f1c3bf..67be962 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -640,7 +640,12 @@ class Grammar(references.BaseRef):
         # If the name is a fully-qualified rule name, then try to resolve it.
         if name.count(".") > 0:
             import_ = Import(name)
-            return import_.resolve(self._import_env)
+
+            # Update the import environment only if this succeeds.
+            memo = self._import_env.copy()
+            result = import_.resolve(memo)
+            self._import_env.update(memo)
+            return result
 
         # No local or imported rule matched. This is an error.
         raise GrammarError("%r is not a local or imported rule in Grammar %r"
-- 
2.43.0


From 2ba759dcae8668dca4ff2725ea288a38029b2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 18/75] fix: references added to a rule's expansion tree cannot
 be resolved

---
 jsgf/expansions.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c843be2..11b8865 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1154,8 +1154,16 @@ class NamedRuleRef(BaseExpansionRef):
         :raises: GrammarError
         :returns: Rule
         """
-        if self.rule and self.rule.grammar:
-            return self.rule.grammar.get_rule_from_name(self.name)
+        # Use the rule of the root expansion if possible, as this expansion could have
+        # been added to the rule's tree later on. Do not go past the root expansion
+        # of a referenced rule, see JointTreeContext.
+        e = self
+        while e.parent and not isinstance(e.parent, NamedRuleRef):
+            e = e.parent
+
+        rule = e.rule or self.rule
+        if rule and rule.grammar:
+            return rule.grammar.get_rule_from_name(self.name)
         else:
             raise GrammarError("cannot get referenced Rule object from Grammar")
     
-- 
2.43.0


From d5a2b176b53c7e1bf2e93bfeb0aa82c0bca999ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 19/75] fix: changing a reference's name leaves the old rule
 matching

---
 jsgf/expansions.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 11b8865..c8e46dc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1106,8 +1106,22 @@ class BaseExpansionRef(references.BaseRef, Expansion):
     """
     def __init__(self, name):
         # Call both super constructors
-        references.BaseRef.__init__(self, name)
         Expansion.__init__(self, [])
+        references.BaseRef.__init__(self, name)
+
+    @property
+    def name(self):
+        """
+        The referenced name.
+
+        :returns: str
+        """
+        return self._name
+
+    @name.setter
+    def name(self, value):
+        references.BaseRef.name.fset(self, value)
+        self.invalidate_matcher()
 
     @staticmethod
     def valid(name):
-- 
2.43.0


From c615efd28fdf018a8a993ab174c98618d991a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:48 +0000
Subject: [PATCH 20/75] fix: assigning invalid weights changes some of the
 current weights

---
 jsgf/expansions.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c8e46dc..7911726 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1749,10 +1749,22 @@ class AlternativeSet(VariableChildExpansion):
     def weights(self, value):
         value = dict(value)
 
+        # Check each weight before changing anything.
+        for v in value.values():
+            self._validate_weight(v)
+
         # Set weights for each child using set_weight().
         for k, v in value.items():
             self.set_weight(k, v)
 
+    @staticmethod
+    def _validate_weight(weight):
+        # Check that weight is a non-negative number.
+        weight = float(weight)
+        if weight < 0:
+            raise TypeError("weight value '%s' is a negative number" % weight)
+        return weight
+
     def set_weight(self, child, weight):
         """
         Set the weight of a child.
@@ -1771,10 +1783,7 @@ class AlternativeSet(VariableChildExpansion):
         :param weight: weight value - must be >= 0
         :type weight: float|int
         """
-        # Check that weight is a non-negative number.
-        weight = float(weight)
-        if weight < 0:
-            raise TypeError("weight value '%s' is a negative number" % weight)
+        weight = self._validate_weight(weight)
 
         # Use the alternative as the key for _weights.
         if isinstance(child, integer_types):
-- 
2.43.0


From c544917b068faa5f06191a7410d3269e0a170839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:02 +0000
Subject: [PATCH 21/75] fix: weights are lost if weighted alternatives are
 changed

Setting case sensitivity, text, children, etc. of an alternative (or of expansions
below it) changed its hash, so its weight could not be found any more.
---
 jsgf/expansions.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7911726..6bf76ea 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1743,7 +1743,16 @@ class AlternativeSet(VariableChildExpansion):
 
         :rtype: dict
         """
-        return self._weights
+        # The hash of an alternative changes if it, or an expansion below it, is
+        # changed. Rebuild the dictionary in that case, preferring the weights of
+        # current alternatives over those of removed ones.
+        weights, children = self._weights, list(self.children)
+        if weights and (len(weights) != len(children) or
+                        any(e not in weights for e in children)):
+            items = sorted(weights.items(),
+                           key=lambda x: any(x[0] is e for e in children))
+            weights = self._weights = dict(items)
+        return weights
 
     @weights.setter
     def weights(self, value):
@@ -1794,7 +1803,14 @@ class AlternativeSet(VariableChildExpansion):
                 if c.compile() == compiled_child:
                     child = c
 
-        self._weights[child] = weight
+        # Use this expansion's own alternative instead of an equal one so that the
+        # weight is kept if the alternative is changed later.
+        if not any(child is c for c in self.children):
+            child = ([c for c in self.children if c == child] or [child])[0]
+
+        weights = self.weights
+        weights.pop(child, None)
+        weights[child] = weight
 
         # Invalidate this expansion. This is a quick procedure if the matcher
         # element hasn't been initialised.
@@ -1826,8 +1842,9 @@ class AlternativeSet(VariableChildExpansion):
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
+        weights = self.weights
         for e in self.children:
-            if e not in self._weights:
+            if e not in weights:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
-- 
2.43.0


From f7b2c144a0065540bc3289e6fca92c8fcd65b6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:46 +0000
Subject: [PATCH 22/75] fix: weighted alternatives cannot be unpickled through
 their descendants

---
 jsgf/expansions.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6bf76ea..a25bae9 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1747,11 +1747,13 @@ class AlternativeSet(VariableChildExpansion):
         # changed. Rebuild the dictionary in that case, preferring the weights of
         # current alternatives over those of removed ones.
         weights, children = self._weights, list(self.children)
-        if weights and (len(weights) != len(children) or
+        if weights and (isinstance(weights, list) or
+                        len(weights) != len(children) or
                         any(e not in weights for e in children)):
-            items = sorted(weights.items(),
-                           key=lambda x: any(x[0] is e for e in children))
-            weights = self._weights = dict(items)
+            items = weights if isinstance(weights, list) else weights.items()
+            weights = self._weights = dict(sorted(
+                items, key=lambda x: any(x[0] is e for e in children)
+            ))
         return weights
 
     @weights.setter
@@ -1839,6 +1841,13 @@ class AlternativeSet(VariableChildExpansion):
         result.weights = dict(self.weights)
         return result
 
+    def __getstate__(self):
+        # Use a list of items for the weights because the keys of a dictionary cannot
+        # always be hashed when unpickling: they may not be restored yet.
+        state = super(AlternativeSet, self).__getstate__()
+        state['_weights'] = list(dict(self._weights).items())
+        return state
+
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
@@ -1850,14 +1859,15 @@ class AlternativeSet(VariableChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        if self._weights:
+        weights = self.weights
+        if weights:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
             # such that:
             # /<w 0>/ <e 0> | ... | /<w n-1>/ <e n-1>
             alt_set = "|".join([
-                "/%.4f/ %s" % (float(self._weights[e]), e.compile(ignore_tags))
+                "/%.4f/ %s" % (float(weights[e]), e.compile(ignore_tags))
                 for e in self.children
             ])
         else:
@@ -1883,11 +1893,12 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
-        if self._weights:
+        weights = self.weights
+        if weights:
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            weights = [(e, self._weights[e]) for e in self.children]
+            weights = [(e, weights[e]) for e in self.children]
             w_sum = sum([weight for _, weight in weights])
             rand = random.random()
             # print("rand = %s" % rand)
@@ -1905,13 +1916,14 @@ class AlternativeSet(VariableChildExpansion):
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
-        if self._weights:
+        weights = self.weights
+        if weights:
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0.
             children = []
             for e in self.children:
-                w = self._weights[e]
+                w = weights[e]
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From f21b6b3315459c907b41ee207f0954d9097d8e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 23/75] fix: references match old definitions after
 JointTreeContext is used

Joining a tree invalidated the matcher of the referenced rule's expansion, but only
one of the references to it.
---
 jsgf/expansions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index a25bae9..10f9fa3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -720,8 +720,11 @@ class Expansion(object):
 
         # If at the root expansion, call invalidate_matcher for any RuleRefs or
         # NamedRuleRefs that reference this rule. To make things simple, this is
-        # is only done if this expansion belongs to a rule in a grammar.
-        elif self.rule and self.rule.grammar:
+        # is only done if this expansion belongs to a rule in a grammar. Note that
+        # the parent of the root expansion is a reference if it is joined to another
+        # tree; that is not necessarily the only reference to this rule.
+        if ((self.parent is None or isinstance(self.parent, NamedRuleRef)) and
+                self.rule and self.rule.grammar):
             def process(x):
                 if isinstance(x, NamedRuleRef) and x.name == self.rule.name:
                     x.invalidate_matcher()
-- 
2.43.0


From 51f019285517edf7c80b6bd65392bb6b7e33108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 24/75] fix: disabled rules keep the data of their last match

---
 jsgf/rules.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index f463c93..f585c15 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -260,6 +260,9 @@ class Rule(references.BaseRef):
         :returns: bool
         """
         if not self._active:
+            # Do not keep data from the last match.
+            map_expansion(self.expansion, lambda x: x.reset_match_data(),
+                          shallow=True)
             return False
 
         # Strip whitespace at the start of 'speech' and lower it to match regex
@@ -366,6 +369,11 @@ class Rule(references.BaseRef):
         :returns: list
         """
         self.matches(speech)
+
+        # Rules referenced by a disabled rule were not matched by it.
+        if not self._active:
+            return []
+
         return self.matched_tags
 
     @property
-- 
2.43.0


From b5ddba236d8d3ac4a6838a5f7b09bfdac7d1a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:53 +0000
Subject: [PATCH 25/75] fix: repetitions inside optional expansions match zero
 times

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 10f9fa3..5386a39 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1618,7 +1618,8 @@ class Repeat(SingleChildExpansion):
         child_element.addParseAction(f)
 
         # Determine the parser element type to use.
-        type_ = pyparsing.ZeroOrMore if self.is_optional else pyparsing.OneOrMore
+        type_ = (pyparsing.ZeroOrMore if isinstance(self, KleeneStar)
+                 else pyparsing.OneOrMore)
 
         # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
         rep = self.repetition_ancestor
-- 
2.43.0


From 985a1727b44f236e1c1d41bead9c9627410a40e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 26/75] fix: IndexError matching repetitions in joined trees

---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5386a39..9c666b6 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1631,8 +1631,11 @@ class Repeat(SingleChildExpansion):
                 if len(c.children) > 1:
                     only_branch = False
                     break
-                else:
+                elif c.children:
                     c = c.children[0]
+                else:
+                    # c is a reference to a joined tree, see JointTreeContext.
+                    c = c.referenced_rule.expansion
 
             # Use an And element instead if self is the only branch because
             # it makes no sense to repeat a repeat like this!
-- 
2.43.0


From b47719e0ce2425adb58b6452f8edda63aeee7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 27/75] fix: expansions added to or removed from trees match as
 before

---
 jsgf/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9c666b6..70b4ebc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -519,9 +519,10 @@ class Expansion(object):
             if self._parent:
                 self._parent.invalidate_matcher()
 
-            # Set the parent and invalidate the matcher element for this expansion.
+            # Set the parent and invalidate the matcher element for this expansion and
+            # its descendants, as the elements of some expansions depend on ancestors.
             self._parent = value
-            self.invalidate_matcher()
+            map_expansion(self, lambda x: x.invalidate_matcher(), shallow=True)
 
             # Also invalidate the new parent as necessary. This is a quick operation
             # if nothing has been matched yet.
-- 
2.43.0


From 88717ec6a6cb46b4a17b4a8bf677e333bcea779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 28/75] fix: unpickled expansions use calculations made for
 other expansions

---
 jsgf/expansions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 70b4ebc..05d9167 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -922,6 +922,9 @@ class Expansion(object):
     def __getstate__(self):
         state = self.__dict__.copy()
         state['_matcher_element'] = None
+
+        # Stored calculations use the IDs of expansions, which will be different.
+        state['_lookup_dict'] = None
         return state
 
     @property
-- 
2.43.0


From 07900d11ae6d093e61f1c63978ca40ce806b45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 29/75] fix: weights of unpickled alternatives can be a list

---
 jsgf/expansions.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 05d9167..000ef1e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1758,13 +1758,17 @@ class AlternativeSet(VariableChildExpansion):
         # changed. Rebuild the dictionary in that case, preferring the weights of
         # current alternatives over those of removed ones.
         weights, children = self._weights, list(self.children)
-        if weights and (isinstance(weights, list) or
-                        len(weights) != len(children) or
-                        any(e not in weights for e in children)):
-            items = weights if isinstance(weights, list) else weights.items()
-            weights = self._weights = dict(sorted(
-                items, key=lambda x: any(x[0] is e for e in children)
-            ))
+        if isinstance(weights, list):  # see __getstate__
+            items = weights
+        elif weights and (len(weights) != len(children) or
+                          any(e not in weights for e in children)):
+            items = weights.items()
+        else:
+            return weights
+
+        weights = self._weights = dict(sorted(
+            items, key=lambda x: any(x[0] is e for e in children)
+        ))
         return weights
 
     @weights.setter
-- 
2.43.0


From f9190614fc154e51345feca4918b7ce273dcca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 30/75] fix: KeyError reading repetitions of expansions added
 after matching

---
 jsgf/expansions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 000ef1e..dea35a8 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1577,7 +1577,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [dict(values)[e]["current_match"] for values in
+            return [dict(values).get(e, {}).get("current_match") for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1589,7 +1589,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [dict(values)[e]["matching_slice"] for values in
+            return [dict(values).get(e, {}).get("matching_slice") for values in
                     self._repetitions_matched]
         else:
             return []
-- 
2.43.0


From 2d164cd5dff531595016615784295ad5fcd8a665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:08 +0000
Subject: [PATCH 31/75] fix: nested repetitions are matched wrongly after a
 sibling is added

---
 jsgf/expansions.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index dea35a8..50b121e 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -517,7 +517,7 @@ class Expansion(object):
         if isinstance(value, Expansion) or value is None:
             # Invalidate the old parent if necessary.
             if self._parent:
-                self._parent.invalidate_matcher()
+                self._parent._invalidate_for_children()
 
             # Set the parent and invalidate the matcher element for this expansion and
             # its descendants, as the elements of some expansions depend on ancestors.
@@ -527,7 +527,7 @@ class Expansion(object):
             # Also invalidate the new parent as necessary. This is a quick operation
             # if nothing has been matched yet.
             if self._parent:
-                self._parent.invalidate_matcher()
+                self._parent._invalidate_for_children()
         else:
             raise TypeError("'parent' must be an Expansion or None")
 
@@ -735,6 +735,16 @@ class Expansion(object):
             for r in self.rule.grammar.rules:
                 map_expansion(r.expansion, process, shallow=True)
 
+    def _invalidate_for_children(self):
+        # Internal method to invalidate the matcher when a child is added or removed.
+        self.invalidate_matcher()
+
+        # A repetition inside another one matches differently if it is the only branch
+        # (see Repeat._make_matcher_element), so invalidate the descendants too.
+        if self.children and (self.repetition_ancestor or
+                              hasattr(self, "repetitions_matched")):
+            map_expansion(self, lambda x: x.invalidate_matcher(), shallow=True)
+
     @property
     def matcher_element(self):
         """
-- 
2.43.0


From e32c1e710a27c045b286f688e4bb303f06d6a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 32/75] fix: setting case sensitivity fails part way if an
 import cannot be resolved

---
 jsgf/rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index f585c15..518817b 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -5,7 +5,7 @@ This module contains classes for compiling and matching JSpeech Grammar Format
 rules.
 """
 
-from .errors import GrammarError
+from .errors import GrammarError, JSGFImportError
 from . import references
 from .expansions import Expansion, Literal, NamedRuleRef, filter_expansion, \
     map_expansion, TraversalOrder
@@ -206,7 +206,7 @@ class Rule(references.BaseRef):
                 # don't resolve to actual Rule objects.
                 try:
                     e.referenced_rule.case_sensitive = value
-                except GrammarError:
+                except (GrammarError, JSGFImportError):
                     pass
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
-- 
2.43.0


From cfb460b6a965db7ef73a8ca90d2a1e0b72a2313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 33/75] fix: stale entries in the weights of changed
 alternatives can go unnoticed

---
 jsgf/expansions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 50b121e..7b87128 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1755,6 +1755,7 @@ class AlternativeSet(VariableChildExpansion):
     """
     def __init__(self, *expansions):
         self._weights = {}
+        self._weight_hashes = []
         super(AlternativeSet, self).__init__(*expansions)
 
     @property
@@ -1771,14 +1772,17 @@ class AlternativeSet(VariableChildExpansion):
         if isinstance(weights, list):  # see __getstate__
             items = weights
         elif weights and (len(weights) != len(children) or
+                          [hash(e) for e in weights] != self._weight_hashes or
                           any(e not in weights for e in children)):
-            items = weights.items()
+            items = list(weights.items())
         else:
             return weights
 
-        weights = self._weights = dict(sorted(
+        weights = dict(sorted(
             items, key=lambda x: any(x[0] is e for e in children)
         ))
+        self._weights = weights
+        self._weight_hashes = [hash(e) for e in weights]
         return weights
 
     @weights.setter
-- 
2.43.0


From c2276e42cea593a58c5f9b8f4883d83c7d6a2c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:03 +0000
Subject: [PATCH 34/75] fix: sequence rules added to a DictationGrammar only
 match their first dictation again

---
 jsgf/ext/grammars.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 89a56e4..389f3fc 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -260,7 +260,10 @@ class DictationGrammar(Grammar):
         for rule in result:
             original = self.get_original_rule(rule)
             if isinstance(rule, SequenceRule):
-                SequenceRule.graft_sequence_matches(rule, original.expansion)
+                # Rules that were added as sequence rules already have matches set
+                # for their original expansions.
+                if original is not rule:
+                    SequenceRule.graft_sequence_matches(rule, original.expansion)
 
                 # Progress to the next expansion if required
                 if rule.has_next_expansion and advance_sequence_rules:
-- 
2.43.0


From e1dbf42c39d8c7053166e6aafbf6c9ba4687832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:49 +0000
Subject: [PATCH 35/75] fix: matches of equal expansions in a repetition are
 mixed up

---
 jsgf/expansions.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 7b87128..e6510ea 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1562,15 +1562,6 @@ class Repeat(SingleChildExpansion):
     def __hash__(self):
         return super(Repeat, self).__hash__()
 
-    def __getstate__(self):
-        # Dictionaries with expansions as keys cannot always be unpickled because the
-        # hashes of some expansions depend on ancestors that aren't restored yet, so
-        # use lists of items instead.
-        state = super(Repeat, self).__getstate__()
-        state['_repetitions_matched'] = [list(dict(values).items()) for values in
-                                         self._repetitions_matched]
-        return state
-
     @property
     def repetitions_matched(self):
         """
@@ -1587,7 +1578,7 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [dict(values).get(e, {}).get("current_match") for values in
+            return [self._find_match_data(e, values)[0] for values in
                     self._repetitions_matched]
         else:
             return []
@@ -1599,11 +1590,19 @@ class Repeat(SingleChildExpansion):
         :returns: list
         """
         if e.is_descendant_of(self):
-            return [dict(values).get(e, {}).get("matching_slice") for values in
+            return [self._find_match_data(e, values)[1] for values in
                     self._repetitions_matched]
         else:
             return []
 
+    @staticmethod
+    def _find_match_data(e, values):
+        # Find the match data of exactly 'e' in one repetition's values.
+        for x, current_match, matching_slice in values:
+            if x is e:
+                return current_match, matching_slice
+        return None, None
+
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(tokens)
@@ -1611,16 +1610,24 @@ class Repeat(SingleChildExpansion):
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
             # Restore the last repetition's match values.
-            last = self._repetitions_matched[len(self._repetitions_matched) - 1]
-            restore_current_matches(self.child, dict(last), False)
+            for x, current_match, matching_slice in self._repetitions_matched[-1]:
+                if current_match is not None:
+                    x.current_match = current_match
+                if matching_slice is not None:
+                    x.matching_slice = matching_slice
         return tokens
 
     def _make_matcher_element(self):
         # Define an extra parse action for the child's matcher element.
         def f(tokens):
             if tokens.asList():
-                # Add current match values to the _repetitions_matched list.
-                self._repetitions_matched.append(save_current_matches(self.child))
+                # Add current match values to the _repetitions_matched list. Do not
+                # use the expansions as keys; some of them may be comparable.
+                values = []
+                map_expansion(self.child, lambda x: values.append(
+                    (x, x.current_match, x.matching_slice)
+                ))
+                self._repetitions_matched.append(values)
 
                 # Wipe current match values for the next repetition (if any).
                 self.child.reset_for_new_match()
-- 
2.43.0


From 1fe3dc8296820755c015919adab7572aab170105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:50 +0000
Subject: [PATCH 36/75] fix: hidden rules stay in dictation grammars after
 removal

---
 jsgf/ext/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 389f3fc..3c837e6 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -170,7 +170,7 @@ class DictationGrammar(Grammar):
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.match_rules:
+                elif k in self._jsgf_only_grammar.rules:
                     self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
 
     def _compile(self, compile_as_root_grammar):
-- 
2.43.0


From aa51663e5c88ab7d5f66568a9b45b8ceeed145cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:15 +0000
Subject: [PATCH 37/75] fix: expanding equal alternatives with dictation raises
 AttributeError

---
 jsgf/ext/expansions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 3c3ff15..46843e1 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -443,8 +443,9 @@ def expand_dictation_expansion(expansion):
 
         for copy in copies:
             next_unprocessed = first_unprocessed_expansion(copy)
-            if not next_unprocessed and copy not in result:
-                result.append(copy)
+            if not next_unprocessed:
+                if copy not in result:
+                    result.append(copy)
             else:
                 # Process the next unprocessed expansion and add the results.
                 # There are duplicates sometimes, so don't add them.
-- 
2.43.0


From 44d3cc6b82acaaa8a35726b2031727908ace7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:25 +0000
Subject: [PATCH 38/75] fix: compiled grammars gain parentheses each time they
 are parsed and compiled

---
 jsgf/expansions.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index e6510ea..5c4d18a 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1282,6 +1282,15 @@ class ExpansionWithChildren(Expansion):
         if not self.children:
             self.children.append(NullRef())
 
+    def _group(self, compiled):
+        # Add parenthesises unless the only child has some of its own already.
+        # Otherwise there would be more each time the result is parsed and compiled.
+        if len(self.children) == 1:
+            child = self.children[0]
+            if isinstance(child, (AlternativeSet, RequiredGrouping)) and not child.tag:
+                return compiled
+        return "(%s)" % compiled
+
 
 class SingleChildExpansion(ExpansionWithChildren):
     def __init__(self, expansion):
@@ -1542,9 +1551,9 @@ class Repeat(SingleChildExpansion):
         super(Repeat, self).compile()
         compiled = self.child.compile(ignore_tags)
         if self.tag and not ignore_tags:
-            return "(%s)+%s" % (compiled, self.compiled_tag)
+            return "%s+%s" % (self._group(compiled), self.compiled_tag)
         else:
-            return "(%s)+" % compiled
+            return "%s+" % self._group(compiled)
         
     def generate(self):
         """
@@ -1683,9 +1692,9 @@ class KleeneStar(Repeat):
         super(KleeneStar, self).compile()
         compiled = self.child.compile(ignore_tags)
         if self.tag and not ignore_tags:
-            return "(%s)*%s" % (compiled, self.compiled_tag)
+            return "%s*%s" % (self._group(compiled), self.compiled_tag)
         else:
-            return "(%s)*" % compiled
+            return "%s*" % self._group(compiled)
         
     def generate(self):
         """
@@ -1748,9 +1757,9 @@ class RequiredGrouping(Sequence):
         ])
 
         if self.tag and not ignore_tags:
-            return "(%s)%s" % (grouping, self.compiled_tag)
+            return "%s%s" % (self._group(grouping), self.compiled_tag)
         else:
-            return "(%s)" % grouping
+            return self._group(grouping)
 
     def __hash__(self):
         return super(RequiredGrouping, self).__hash__()
-- 
2.43.0


From c84021e6016dfbbb1abf044b8e226ec99981e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:43 +0000
Subject: [PATCH 39/75] fix: tags with braces or backslashes are not parsed as
 they were compiled

---
 jsgf/expansions.py | 7 ++++---
 jsgf/parser.py     | 9 +++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5c4d18a..fc2ae29 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -568,9 +568,10 @@ class Expansion(object):
             # Escape '{', '}' and '\' so that tags will be processed
             # properly if they have those characters.
             # This is suggested in the JSGF specification.
-            escaped = self.tag.replace("{", "\\{") \
-                .replace("}", "\\}") \
-                .replace("\\", "\\\\")
+            # Escape '\' first because it is added by the others.
+            escaped = self.tag.replace("\\", "\\\\") \
+                .replace("{", "\\{") \
+                .replace("}", "\\}")
             return " { %s }" % escaped
 
     @staticmethod
diff --git a/jsgf/parser.py b/jsgf/parser.py
index a0ba706..27e3929 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -334,6 +334,11 @@ def _atom_action(tokens):
         return tokens[0]
 
 
+def _tag_text_action(tokens):
+    # Remove the escape characters added when compiling tags.
+    return [re.sub(r"\\([\\{}])", r"\1", token) for token in tokens]
+
+
 def get_exp_parser():
     """
     Get a pyparsing ParserElement for parsing JSGF rule expansions.
@@ -384,8 +389,8 @@ def get_exp_parser():
     # Define tag text to one or more words defined by a regular expression.
     # Escaped brace characters ('\{' or '\}') are allowed in tag text.
     tag_text = OneOrMore(
-        Regex(r"([\w\-\\']|\\{|\\})+", re.UNICODE).setName("tag text")
-    )
+        Regex(r"(\\\\|\\{|\\}|[\w\-\\'])+", re.UNICODE).setName("tag text")
+    ).setParseAction(_tag_text_action)
     tag = lcurl + tag_text + rcurl
 
     # Define the root expansion as an atom plus additional alternatives, repeat or
-- 
2.43.0


From a848870f9da19c9ca3878225b3dddc8616377d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:06 +0000
Subject: [PATCH 40/75] fix: tags of more than one word are parsed wrongly

---
 jsgf/parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 27e3929..44128f8 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -335,8 +335,8 @@ def _atom_action(tokens):
 
 
 def _tag_text_action(tokens):
-    # Remove the escape characters added when compiling tags.
-    return [re.sub(r"\\([\\{}])", r"\1", token) for token in tokens]
+    # Return one string without the escape characters added when compiling tags.
+    return re.sub(r"\\([\\{}])", r"\1", " ".join([t.strip() for t in tokens]))
 
 
 def get_exp_parser():
@@ -389,7 +389,8 @@ def get_exp_parser():
     # Define tag text to one or more words defined by a regular expression.
     # Escaped brace characters ('\{' or '\}') are allowed in tag text.
     tag_text = OneOrMore(
-        Regex(r"(\\\\|\\{|\\}|[\w\-\\'])+", re.UNICODE).setName("tag text")
+        Regex(r"(\\\\|\\{|\\}|[\w\-\\']|\s+(?![\s}]))+", re.UNICODE)
+        .setName("tag text")
     ).setParseAction(_tag_text_action)
     tag = lcurl + tag_text + rcurl
 
-- 
2.43.0


From 22d74d17fc4a8c361ba828a05cdff01b118ac56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:49 +0000
Subject: [PATCH 41/75] fix: sequences starting with a grouping are parsed
 wrongly in alternatives

---
 jsgf/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 44128f8..09f03ac 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -299,11 +299,11 @@ def _transform_tokens(tokens):
     # Handle sequences.
     elif len(lst) == 2:
         # If the second expansion is an alternative set, place the first expansion
-        # inside a sequence with the first child of the alternative set.
-        # Do not do this if the first expansion is a required grouping.
+        # inside a sequence with the first child of the alternative set. Alternative
+        # sets in parenthesises are inside required groupings, so it is not one of
+        # those.
         # This handles rule expansions like "up <n> | left <n>".
-        RG, AS = RequiredGrouping, AlternativeSet
-        if not isinstance(lst[0], RG) and isinstance(lst[1], AS):
+        if isinstance(lst[1], AlternativeSet):
             child1 = lst[1].children.pop(0)
             seq = Sequence(lst[0], child1)
             lst[1].children.insert(0, seq)
-- 
2.43.0


From 13ba981bead347630fc91aaf8a68647b04a2c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:49 +0000
Subject: [PATCH 42/75] fix: weighted sequences cannot be parsed as the first
 alternative

---
 jsgf/parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 09f03ac..32a2992 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -298,6 +298,11 @@ def _transform_tokens(tokens):
 
     # Handle sequences.
     elif len(lst) == 2:
+        # Handle weighted expansions by weighting the sequence.
+        first, weight = lst[0], None
+        if isinstance(first, WeightedExpansion):
+            first, weight = first.children.pop(), first.weight
+
         # If the second expansion is an alternative set, place the first expansion
         # inside a sequence with the first child of the alternative set. Alternative
         # sets in parenthesises are inside required groupings, so it is not one of
@@ -305,13 +310,16 @@ def _transform_tokens(tokens):
         # This handles rule expansions like "up <n> | left <n>".
         if isinstance(lst[1], AlternativeSet):
             child1 = lst[1].children.pop(0)
-            seq = Sequence(lst[0], child1)
+            seq = Sequence(first, child1)
             lst[1].children.insert(0, seq)
+            if weight is not None:
+                lst[1].set_weight(seq, weight)
             return lst[1]
 
         # Otherwise return a sequence.
         else:
-            return Sequence(*lst)
+            seq = Sequence(first, lst[1])
+            return seq if weight is None else WeightedExpansion(seq, weight)
 
     raise TypeError("unhandled tokens %s" % lst)
 
-- 
2.43.0


From e431eb6b9a5854ec07cbf7841f5fab81402c5ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 43/75] fix: references match a renamed rule by its old name

---
 jsgf/rules.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 518817b..c591e8d 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -38,9 +38,9 @@ class Rule(references.BaseRef):
         :param case_sensitive: whether rule literals should be case sensitive
             (default False).
         """
+        self.grammar = None
         super(Rule, self).__init__(name)
         self.visible = visible
-        self.grammar = None
         self._expansion = None
         self.expansion = expansion
         self._active = True
@@ -49,6 +49,23 @@ class Rule(references.BaseRef):
         self._case_sensitive = case_sensitive
         self.case_sensitive = case_sensitive
 
+    @property
+    def name(self):
+        """
+        This rule's name.
+
+        :returns: str
+        """
+        return self._name
+
+    @name.setter
+    def name(self, value):
+        # References to the old name should no longer match this rule and references
+        # to the new name should.
+        self._invalidate_references()
+        references.BaseRef.name.fset(self, value)
+        self._invalidate_references()
+
     @property
     def expansion(self):
         """
-- 
2.43.0


From 68b13c23001d8c6c42cf05833684fda19720594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 44/75] fix: names that are not strings are accepted

---
 jsgf/references.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/references.py b/jsgf/references.py
index a296f07..f880821 100644
--- a/jsgf/references.py
+++ b/jsgf/references.py
@@ -6,6 +6,7 @@ import re
 
 from pyparsing import Regex, Optional, OneOrMore, Combine
 from pyparsing import Literal as PPLiteral  # to differentiate from jsgf.Literal
+from six import string_types
 
 from .errors import GrammarError
 
@@ -81,7 +82,7 @@ class BaseRef(object):
     @name.setter
     def name(self, value):
         # Validate the format of name
-        if not self.valid(value):
+        if not isinstance(value, string_types) or not self.valid(value):
             raise GrammarError("'%s' is not a valid %s name"
                                % (value, self.__class__.__name__))
         self._name = value
-- 
2.43.0


From ddfe30db1b1bede255b0c7a1643d47230ba74047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 45/75] fix: references match what they referenced before
 imports changed

---
 jsgf/expansions.py | 36 +++++++++++++++++++++++++++++++++---
 jsgf/rules.py      |  3 +++
 2 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index fc2ae29..9a4ba09 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -678,6 +678,7 @@ class Expansion(object):
         :returns: str
         """
         # Match the string using this expansion's parser element.
+        self._update_references()
         speech = speech.strip()
         try:
             result = " ".join(
@@ -746,6 +747,32 @@ class Expansion(object):
                               hasattr(self, "repetitions_matched")):
             map_expansion(self, lambda x: x.invalidate_matcher(), shallow=True)
 
+    def _update_references(self):
+        # Internal method to invalidate the matchers of references that do not use the
+        # current matcher of the rule they reference, e.g. because import statements or
+        # an imported rule changed, and the matchers of all expansions using those.
+        stale = []
+
+        def process(x):
+            if isinstance(x, NamedRuleRef):
+                expansion = x.referenced_rule.expansion
+                result = process(expansion) or (
+                    x._matcher_element and x._matcher_element.referenced_element is
+                    not expansion._matcher_element)
+            else:
+                result = any([process(child) for child in x.children])
+            if result:
+                stale.append(x)
+            return result
+
+        # Invalidate ancestors first; they use the matchers of their descendants.
+        ancestor = self.parent if process(self) else None
+        while ancestor:
+            stale.append(ancestor)
+            ancestor = ancestor.parent
+        for x in reversed(stale):
+            x._matcher_element = None
+
     @property
     def matcher_element(self):
         """
@@ -1210,9 +1237,12 @@ class NamedRuleRef(BaseExpansionRef):
     def _make_matcher_element(self):
         # Wrap the parser element for the referenced rule's root expansion so that
         # the current match value for the NamedRuleRef is also set.
-        return self._set_matcher_element_attributes(pyparsing.And([
-            self.referenced_rule.expansion.matcher_element
-        ]))
+        referenced_element = self.referenced_rule.expansion.matcher_element
+        element = self._set_matcher_element_attributes(
+            pyparsing.And([referenced_element])
+        )
+        element.referenced_element = referenced_element
+        return element
 
     def __hash__(self):
         return super(NamedRuleRef, self).__hash__()
diff --git a/jsgf/rules.py b/jsgf/rules.py
index c591e8d..1b47e5d 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -316,6 +316,9 @@ class Rule(references.BaseRef):
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
 
+        # Invalidate matchers that use something other than the referenced rules.
+        self.expansion._update_references()
+
         # Use the first match (if any) and break. The loop is required because
         # scanString returns a generator.
         result = None
-- 
2.43.0


From 44b80f5ecf314d51d2e30f016b3c5d068d147d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:03 +0000
Subject: [PATCH 46/75] fix: references to rule objects compile with the old
 name of a renamed rule

---
 jsgf/expansions.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 9a4ba09..5fdf5dc 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1545,6 +1545,24 @@ class RuleRef(NamedRuleRef):
         super(RuleRef, self).__init__(referenced_rule.name)
         self._referenced_rule = referenced_rule
 
+        # Use the rule's name, which may change, unless another one is set.
+        self._name = None
+
+    @property
+    def name(self):
+        """
+        The referenced name.
+
+        This is the current name of the referenced rule by default.
+
+        :returns: str
+        """
+        return self._name or self.referenced_rule.name
+
+    @name.setter
+    def name(self, value):
+        NamedRuleRef.name.fset(self, value)
+
     @property
     def referenced_rule(self):
         return self._referenced_rule
-- 
2.43.0


From ddae11cae48d538c22294e4ed64f47737d6e240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 47/75] fix: a rule imported by two import statements is
 ambiguous

---
 jsgf/grammars.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 67be962..0e832dc 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -623,6 +623,9 @@ class Grammar(references.BaseRef):
         matching_rules = []
         qualified_name = ".".join(name.split(".")[-2:])  # get only the last part
         for rule in imported_rules:
+            # The same rule may be imported more than once.
+            if any(rule is r for r in matching_rules):
+                continue
             if name == rule.name or qualified_name == rule.qualified_name:
                 matching_rules.append(rule)
 
-- 
2.43.0


From 233af5939a8ad83069757a149477de52a1b8f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:37 +0000
Subject: [PATCH 48/75] fix: resolving imports leaves other grammars' different
 bindings alone

---
 jsgf/grammars.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/jsgf/grammars.py b/jsgf/grammars.py
index 0e832dc..ca53f7d 100644
--- a/jsgf/grammars.py
+++ b/jsgf/grammars.py
@@ -576,8 +576,13 @@ class Grammar(references.BaseRef):
         # Update the import environments of this and other grammars in the memo
         # dictionary.
         for value in memo.values():
-            if isinstance(value, Grammar):
-                value.import_environment.update(memo)
+            if not isinstance(value, Grammar):
+                continue
+            env = value.import_environment
+
+            # Leave other grammars which have already imported something else alone.
+            if value is self or all(env.get(k, v) is v for k, v in memo.items()):
+                env.update(memo)
 
         return memo
 
-- 
2.43.0


From c5db94c8d88b699af9adba8a3758573e1fdb5d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:53 +0000
Subject: [PATCH 49/75] fix: += on a child list keeps its elements expansions
 of the parent

---
 jsgf/expansions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5fdf5dc..5e1fd69 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -289,7 +289,8 @@ class ChildList(object):
         return self._list + other
 
     def __iadd__(self, other):
-        self._list += other
+        self.extend(other)
+        return self
 
     def append(self, e):
         e = Expansion.make_expansion(e)
-- 
2.43.0


From c498f5d030dbaf7ef5f3b9990365db8d5272ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 50/75] fix: assigning to an extended slice of a child list
 obeys its step

---
 jsgf/expansions.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 5e1fd69..d1e2a4b 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -350,25 +350,32 @@ class ChildList(object):
         self._list[self._list.index(value)].parent = None
         self._list.remove(value)
 
-    def __setslice__(self, i, j, sequence):
+    def __setslice__(self, i, j, sequence, step=None):
         """
         Method for setting a list slice compatible with Python 2 and 3.
 
         :param i: int
         :param j: int
         :param sequence: iterable
+        :param step: int
         """
+        key = slice(i, j, step)
+
         # Convert the sequence to a sequence of Expansions if it isn't one.
         sequence = [Expansion.make_expansion(e) for e in sequence]
 
+        # Set the slice of a new list first, as it may be the wrong size.
+        new_list = list(self._list)
+        new_list[key] = sequence
+
         # Orphan the old children :-(
         def orphan(x):
             x.parent = None
 
-        [orphan(c) for c in self._list[i:j]]
+        [orphan(c) for c in self._list[key]]
 
         # Set the slice.
-        self._list[slice(i, j)] = sequence
+        self._list = new_list
 
         # Adopt the new children :-)
         def adopt(x):
@@ -382,7 +389,7 @@ class ChildList(object):
     def __setitem__(self, i, value):
         # Handle setting slices separately for my sanity.
         if isinstance(i, slice):
-            self.__setslice__(i.start, i.stop, value)
+            self.__setslice__(i.start, i.stop, value, i.step)
             return
 
         # Convert value to Expansion appropriately.
-- 
2.43.0


From 3be37d10eb28dae3e42749622837339070feee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 51/75] fix: expansions left without children match and
 generate as they compile, and compiling does not add to them

---
 jsgf/expansions.py | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index d1e2a4b..f1fc0f0 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1315,11 +1315,11 @@ class VoidRef(BaseExpansionRef):
 
 
 class ExpansionWithChildren(Expansion):
-    def compile(self, ignore_tags=False):
-        # Add a reference to the built-in NULL rule to produce a valid JSGF rule
-        # expansion: "<NULL>" instead of "()";
-        if not self.children:
-            self.children.append(NullRef())
+    @property
+    def _children_or_null(self):
+        # Use a reference to the built-in NULL rule if there are no children, to produce
+        # a valid JSGF rule expansion: "<NULL>" instead of "()";
+        return list(self.children) or [NullRef()]
 
     def _group(self, compiled):
         # Add parenthesises unless the only child has some of its own already.
@@ -1342,8 +1342,12 @@ class SingleChildExpansion(ExpansionWithChildren):
         else:
             return self.children[0]
         
+    @property
+    def _child_or_null(self):
+        return self._children_or_null[0]
+
     def generate(self):
-        return self.child.generate()
+        return self._child_or_null.generate()
 
     def __hash__(self):
         return super(SingleChildExpansion, self).__hash__()
@@ -1395,7 +1399,7 @@ class Sequence(VariableChildExpansion):
     def compile(self, ignore_tags=False):
         super(Sequence, self).compile()
         seq = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._children_or_null
         ])
 
         # Return the sequence and the tag if there is one
@@ -1407,7 +1411,7 @@ class Sequence(VariableChildExpansion):
     def _make_matcher_element(self):
         # Return an And element using each child's matcher element.
         return self._set_matcher_element_attributes(pyparsing.And([
-            child.matcher_element for child in self.children
+            child.matcher_element for child in self._children_or_null
         ]))
 
     def __hash__(self):
@@ -1606,7 +1610,7 @@ class Repeat(SingleChildExpansion):
 
     def compile(self, ignore_tags=False):
         super(Repeat, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._child_or_null.compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "%s+%s" % (self._group(compiled), self.compiled_tag)
         else:
@@ -1622,7 +1626,7 @@ class Repeat(SingleChildExpansion):
         """
         # Use the smallest non-zero value if random() returns 0.0.
         c = int(math.log((random.random() or 2.0 ** -53) / 2, 0.5))
-        results = [self.child.generate() for _ in range(c)]
+        results = [self._child_or_null.generate() for _ in range(c)]
         return " ".join([s for s in results if s])
 
     def __hash__(self):
@@ -1701,7 +1705,7 @@ class Repeat(SingleChildExpansion):
 
         # Wrap the child's matcher element and add the extra parse action. The child's
         # own element may outlive this one, so it should not be modified.
-        child_element = pyparsing.And([self.child.matcher_element])
+        child_element = pyparsing.And([self._child_or_null.matcher_element])
         child_element.addParseAction(f)
 
         # Determine the parser element type to use.
@@ -1747,7 +1751,7 @@ class KleeneStar(Repeat):
     """
     def compile(self, ignore_tags=False):
         super(KleeneStar, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._child_or_null.compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "%s*%s" % (self._group(compiled), self.compiled_tag)
         else:
@@ -1764,7 +1768,7 @@ class KleeneStar(Repeat):
         """
         # Use the smallest non-zero value if random() returns 0.0.
         c = int(math.log((random.random() or 2.0 ** -53) / 2, 0.5)) - 1
-        results = [self.child.generate() for _ in range(c)]
+        results = [self._child_or_null.generate() for _ in range(c)]
         return " ".join([s for s in results if s])
 
     @property
@@ -1781,18 +1785,18 @@ class OptionalGrouping(SingleChildExpansion):
     """
     def compile(self, ignore_tags=False):
         super(OptionalGrouping, self).compile()
-        compiled = self.child.compile(ignore_tags)
+        compiled = self._child_or_null.compile(ignore_tags)
         if self.tag and not ignore_tags:
             return "[%s]%s" % (compiled, self.compiled_tag)
         else:
             return "[%s]" % compiled
         
     def generate(self):
-        return random.choice([self.child.generate(), ""])
+        return random.choice([self._child_or_null.generate(), ""])
 
     def _make_matcher_element(self):
         return self._set_matcher_element_attributes(
-            pyparsing.Optional(self.child.matcher_element)
+            pyparsing.Optional(self._child_or_null.matcher_element)
         )
 
     @property
@@ -1810,7 +1814,7 @@ class RequiredGrouping(Sequence):
     def compile(self, ignore_tags=False):
         super(RequiredGrouping, self).compile()
         grouping = " ".join([
-            e.compile(ignore_tags) for e in self.children
+            e.compile(ignore_tags) for e in self._children_or_null
         ])
 
         if self.tag and not ignore_tags:
@@ -1975,7 +1979,7 @@ class AlternativeSet(VariableChildExpansion):
         else:
             # Or do the same thing without the weights
             alt_set = "|".join([
-                e.compile(ignore_tags) for e in self.children
+                e.compile(ignore_tags) for e in self._children_or_null
             ])
 
         if self.tag and not ignore_tags:
@@ -2014,7 +2018,7 @@ class AlternativeSet(VariableChildExpansion):
             # The sum can be slightly less than 1 because of rounding. Use the last
             # possible alternative if so.
             return [e for e, w in weights if w > 0][-1].generate()
-        return random.choice(self.children).generate()
+        return random.choice(self._children_or_null).generate()
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
@@ -2033,7 +2037,7 @@ class AlternativeSet(VariableChildExpansion):
             children = [e for e, _ in sorted(children, key=lambda x: x[1])]
             children.reverse()
         else:
-            children = self.children
+            children = self._children_or_null
 
         return self._set_matcher_element_attributes(pyparsing.Or([
             e.matcher_element for e in children
-- 
2.43.0


From 60315994d089c298a3ed485c21d996fd1ec4557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 52/75] fix: repetitions of expansions that can match nothing
 end

---
 jsgf/expansions.py | 41 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index f1fc0f0..4a541a7 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1596,6 +1596,40 @@ class RuleRef(NamedRuleRef):
         return super(RuleRef, self).__hash__()
 
 
+class _OneOrMore(pyparsing.OneOrMore):
+    """
+    Parser element for one or more repetitions of an element that may match nothing.
+    """
+    def parseImpl(self, instring, loc, doActions=True):
+        parse = self.expr._parse
+        loc, tokens = parse(instring, loc, doActions, callPreParse=False)
+        try:
+            # Stop at a repetition which matched nothing, any others would do the same.
+            more = tokens
+            while more:
+                next_loc, more = parse(instring, loc, doActions)
+                if more:
+                    loc, tokens = next_loc, tokens + more
+        except (pyparsing.ParseException, IndexError):
+            pass
+        return loc, tokens
+
+
+class _ZeroOrMore(_OneOrMore):
+    """
+    Parser element for zero or more repetitions of an element that may match nothing.
+    """
+    def __init__(self, expr):
+        super(_ZeroOrMore, self).__init__(expr)
+        self.mayReturnEmpty = True
+
+    def parseImpl(self, instring, loc, doActions=True):
+        try:
+            return super(_ZeroOrMore, self).parseImpl(instring, loc, doActions)
+        except (pyparsing.ParseException, IndexError):
+            return loc, []
+
+
 class Repeat(SingleChildExpansion):
     """
     JSGF plus operator for allowing one or more repeats of an expansion.
@@ -1709,8 +1743,7 @@ class Repeat(SingleChildExpansion):
         child_element.addParseAction(f)
 
         # Determine the parser element type to use.
-        type_ = (pyparsing.ZeroOrMore if isinstance(self, KleeneStar)
-                 else pyparsing.OneOrMore)
+        type_ = _ZeroOrMore if isinstance(self, KleeneStar) else _OneOrMore
 
         # Handle the special case of a repetition ancestor, e.g. ((a b)+)+
         rep = self.repetition_ancestor
@@ -1730,7 +1763,9 @@ class Repeat(SingleChildExpansion):
 
             # Use an And element instead if self is the only branch because
             # it makes no sense to repeat a repeat like this!
-            if only_branch:
+            if only_branch and isinstance(self, KleeneStar):
+                type_ = pyparsing.Optional
+            elif only_branch:
                 type_ = pyparsing.And
                 child_element = [child_element]
 
-- 
2.43.0


From 58a8b5995c0efa9c24ec67674f093761a08b77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 53/75] fix: refuse children that are ancestors of their new
 parent

---
 jsgf/expansions.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 4a541a7..938f79f 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -261,7 +261,7 @@ class ChildList(object):
         # (if possible) and set each expanion's parent to self._expansion.
         if seq:
             def f(x):
-                x = Expansion.make_expansion(x)
+                x = self._make_child(x)
                 x.parent = self._expansion
                 return x
 
@@ -292,8 +292,14 @@ class ChildList(object):
         self.extend(other)
         return self
 
-    def append(self, e):
+    def _make_child(self, e):
+        # Make e an Expansion and check that the tree would stay a tree.
         e = Expansion.make_expansion(e)
+        self._expansion._check_descendant(e)
+        return e
+
+    def append(self, e):
+        e = self._make_child(e)
         self._list.append(e)
         e.parent = self._expansion
 
@@ -317,7 +323,7 @@ class ChildList(object):
 
     def extend(self, iterable):
         # Make each item in the iterable into an Expansion.
-        iterable = [Expansion.make_expansion(e) for e in iterable]
+        iterable = [self._make_child(e) for e in iterable]
 
         # Set the parent of each to self._expansion.
         for e in iterable:
@@ -333,7 +339,7 @@ class ChildList(object):
 
     def insert(self, index, e):
         # Make e an Expansion, call the super method and set e's parent.
-        e = Expansion.make_expansion(e)
+        e = self._make_child(e)
         self._list.insert(index, e)
         e.parent = self._expansion
 
@@ -362,7 +368,7 @@ class ChildList(object):
         key = slice(i, j, step)
 
         # Convert the sequence to a sequence of Expansions if it isn't one.
-        sequence = [Expansion.make_expansion(e) for e in sequence]
+        sequence = [self._make_child(e) for e in sequence]
 
         # Set the slice of a new list first, as it may be the wrong size.
         new_list = list(self._list)
@@ -393,7 +399,7 @@ class ChildList(object):
             return
 
         # Convert value to Expansion appropriately.
-        value = Expansion.make_expansion(value)
+        value = self._make_child(value)
 
         # Orphan the old child :-(
         self._list[i].parent = None
@@ -489,6 +495,8 @@ class Expansion(object):
 
         # Make each child into an Expansion before changing anything.
         value = [self.make_expansion(e) for e in value]
+        for e in value:
+            self._check_descendant(e)
 
         # Orphan current children if applicable.
         if self._children:
@@ -523,6 +531,9 @@ class Expansion(object):
     @parent.setter
     def parent(self, value):
         if isinstance(value, Expansion) or value is None:
+            if value is not None:
+                value._check_descendant(self)
+
             # Invalidate the old parent if necessary.
             if self._parent:
                 self._parent._invalidate_for_children()
@@ -745,6 +756,15 @@ class Expansion(object):
             for r in self.rule.grammar.rules:
                 map_expansion(r.expansion, process, shallow=True)
 
+    def _check_descendant(self, e):
+        # Internal method to raise an error if an expansion cannot be below this one
+        # because it is this expansion or one of its ancestors.
+        ancestor = self
+        while ancestor is not None:
+            if ancestor is e:
+                raise ValueError("expansion %s cannot be its own descendant" % e)
+            ancestor = ancestor.parent
+
     def _invalidate_for_children(self):
         # Internal method to invalidate the matcher when a child is added or removed.
         self.invalidate_matcher()
-- 
2.43.0


From a485774289b73108ba29eb201e8c4a38fa759660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 54/75] fix: rules of a DictationGrammar may be changed after
 they were added

---
 jsgf/ext/grammars.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 3c837e6..f25b16b 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -23,7 +23,7 @@ class DictationGrammar(Grammar):
         """
         super(DictationGrammar, self).__init__(name, case_sensitive=case_sensitive)
         self._dictation_rules = []
-        self._original_rule_map = {}
+        self._original_rules = []  # pairs of generated and original rules
         self._init_jsgf_only_grammar()
 
         if rules:
@@ -52,7 +52,7 @@ class DictationGrammar(Grammar):
         result = []
         seen = set()
         for rule in (self._dictation_rules + self._jsgf_only_grammar.match_rules +
-                     list(self._original_rule_map.values())):
+                     [original for _, original in self._original_rules]):
             if rule not in seen:
                 seen.add(rule)
                 result.append(rule)
@@ -90,7 +90,7 @@ class DictationGrammar(Grammar):
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
             self._jsgf_only_grammar.add_rule(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Check if the rule is a SequenceRule already and do a few things with it.
@@ -101,7 +101,7 @@ class DictationGrammar(Grammar):
                 self._jsgf_only_grammar.add_rule(rule)
             else:
                 self._dictation_rules.append(rule)
-            self._original_rule_map[rule] = rule
+            self._original_rules.append((rule, rule))
             return
 
         # Expand the rule's expansion into a list of 1 or more expansions.
@@ -123,10 +123,10 @@ class DictationGrammar(Grammar):
 
                 # Keep track of the relationship between the original rule and its
                 # expanded rules
-                self._original_rule_map[r] = rule
+                self._original_rules.append((r, rule))
             else:
                 seq_rule = SequenceRule(new_name, rule.visible, x)
-                self._original_rule_map[seq_rule] = rule
+                self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
                     # The sequence starts with a JSGF only rule and can be
@@ -142,7 +142,15 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: Rule
         """
-        return self._original_rule_map[rule]
+        # The rules may have changed since they were added, so look for the same
+        # object before looking for an equal one.
+        for generated, original in self._original_rules:
+            if generated is rule:
+                return original
+        for generated, original in self._original_rules:
+            if generated == rule:
+                return original
+        raise KeyError(rule)
 
     def get_generated_rules(self, rule):
         """
@@ -151,7 +159,7 @@ class DictationGrammar(Grammar):
         :param rule: Rule
         :returns: generator
         """
-        for k, v in list(self._original_rule_map.items()):
+        for k, v in list(self._original_rules):
             if v is rule:
                 yield k
 
@@ -163,9 +171,9 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rule_map.items()):
+        for k, v in list(self._original_rules):
             if v.name == rule_name:
-                self._original_rule_map.pop(k)
+                self._original_rules.remove((k, v))
 
                 if k in self._dictation_rules:
                     self._dictation_rules.remove(k)
-- 
2.43.0


From 6e52cdf17eab77135cb5488e30410d66b7c89038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 55/75] fix: a refused removal of a dictation grammar's rule
 removes nothing

---
 jsgf/ext/grammars.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index f25b16b..007e3fb 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -171,15 +171,25 @@ class DictationGrammar(Grammar):
         else:
             rule_name = rule.name
 
-        for k, v in list(self._original_rules):
-            if v.name == rule_name:
-                self._original_rules.remove((k, v))
+        if rule_name not in self.rule_names:
+            raise GrammarError("'%s' is not a rule in Grammar '%s'" % (rule, self))
+
+        generated = [k for k, v in self._original_rules if v.name == rule_name]
+
+        # Check for dependent rules before removing anything.
+        jsgf_only_rules = [k for k in generated if k not in self._dictation_rules]
+        if not ignore_dependent and any(k.dependent_rules for k in jsgf_only_rules):
+            raise GrammarError("Cannot remove rule '%s' as it is referenced by "
+                               "another rule." % rule)
 
-                if k in self._dictation_rules:
-                    self._dictation_rules.remove(k)
+        self._original_rules = [(k, v) for k, v in self._original_rules
+                                if v.name != rule_name]
+        for k in generated:
+            if k in self._dictation_rules:
+                self._dictation_rules.remove(k)
 
-                elif k in self._jsgf_only_grammar.rules:
-                    self._jsgf_only_grammar.remove_rule(k, ignore_dependent)
+            elif k in self._jsgf_only_grammar.rules:
+                self._jsgf_only_grammar.remove_rule(k, True)
 
     def _compile(self, compile_as_root_grammar):
         """
-- 
2.43.0


From 8b8396bdc82d32630c3c769e95ba37ad1d66637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:26 +0000
Subject: [PATCH 56/75] fix: check the names of generated rules before adding
 any

---
 jsgf/ext/grammars.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 007e3fb..ab71b0a 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -108,13 +108,18 @@ class DictationGrammar(Grammar):
         expanded = expand_dictation_expansion(rule.expansion)
 
         # Otherwise create new rules from the resulting expansions and add each to
-        # either dictation_rules or _jsgf_only_grammar
-        for i, x in enumerate(expanded):
-            if len(expanded) == 1:
-                # No need to use different names in this case
-                new_name = rule.name
-            else:
-                new_name = "%s_%d" % (rule.name, i)
+        # either dictation_rules or _jsgf_only_grammar. Check their names before
+        # adding any.
+        if len(expanded) == 1:
+            # No need to use different names in this case
+            new_names = [rule.name]
+        else:
+            new_names = ["%s_%d" % (rule.name, i) for i in range(len(expanded))]
+            if any(name in self.rule_names for name in new_names):
+                raise GrammarError("JSGF grammars cannot have multiple rules with "
+                                   "the same name")
+
+        for new_name, x in zip(new_names, expanded):
             if not dictation_in_expansion(x):
                 r = Rule(new_name, rule.visible, x)
 
-- 
2.43.0


From 162566c8a8a83f9ff160efbbea5827077cf2f261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:28 +0000
Subject: [PATCH 57/75] fix: enable and disable the rules generated by a
 DictationGrammar

---
 jsgf/ext/grammars.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index ab71b0a..686bcaa 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -125,12 +125,16 @@ class DictationGrammar(Grammar):
 
                 # Add this rule to the JSGF only grammar
                 self._jsgf_only_grammar.add_rule(r)
+                if not rule.active:
+                    r.disable()
 
                 # Keep track of the relationship between the original rule and its
                 # expanded rules
                 self._original_rules.append((r, rule))
             else:
                 seq_rule = SequenceRule(new_name, rule.visible, x)
+                if not rule.active:
+                    seq_rule.disable()
                 self._original_rules.append((seq_rule, rule))
 
                 if not seq_rule.current_is_dictation_only:
@@ -168,6 +172,25 @@ class DictationGrammar(Grammar):
             if v is rule:
                 yield k
 
+    def enable_rule(self, rule):
+        super(DictationGrammar, self).enable_rule(rule)
+        for r in self._get_rules_for(rule):
+            r.enable()
+
+    def disable_rule(self, rule):
+        super(DictationGrammar, self).disable_rule(rule)
+        for r in self._get_rules_for(rule):
+            r.disable()
+
+    def _get_rules_for(self, rule):
+        # Internal method to get an original rule and the rules generated from it.
+        rule_name = rule if isinstance(rule, string_types) else rule.name
+        result = []
+        for generated, original in self._original_rules:
+            if original.name == rule_name:
+                result.extend([generated, original])
+        return result
+
     def remove_rule(self, rule, ignore_dependent=False):
         # Find the rules generated from this rule and remove them wherever they are
         # as well as the original rule
-- 
2.43.0


From af8d41d168b10d0e81a0f92a214cccd6cc5c0010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 58/75] fix: copies of Dictation expansions keep their case
 sensitivity

---
 jsgf/ext/expansions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsgf/ext/expansions.py b/jsgf/ext/expansions.py
index 46843e1..a8ac6c4 100644
--- a/jsgf/ext/expansions.py
+++ b/jsgf/ext/expansions.py
@@ -146,6 +146,7 @@ class Dictation(Literal):
     def __copy__(self):
         e = type(self)()
         e.tag = self.tag
+        e.case_sensitive = self.case_sensitive
         return e
 
     def __deepcopy__(self, memo=None):
-- 
2.43.0


From 3185da33c39f5362577bdd28e12a956599b3fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 59/75] fix: case sensitivity of a DictationGrammar applies to
 all of its rules

---
 jsgf/ext/grammars.py | 17 +++++++++++++++--
 jsgf/ext/rules.py    |  5 +++++
 jsgf/rules.py        |  7 ++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 686bcaa..3d2cf1f 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -39,6 +39,15 @@ class DictationGrammar(Grammar):
         self._jsgf_only_grammar = Grammar(name=self.name,
                                           case_sensitive=self.case_sensitive)
 
+    @property
+    def case_sensitive(self):
+        return self._case_sensitive
+
+    @case_sensitive.setter
+    def case_sensitive(self, value):
+        Grammar.case_sensitive.fset(self, value)
+        self._jsgf_only_grammar.case_sensitive = value
+
     @property
     def rules(self):
         """
@@ -86,6 +95,9 @@ class DictationGrammar(Grammar):
                 raise GrammarError("JSGF grammars cannot have multiple rules with "
                                    "the same name")
 
+        # Set case sensitivity, also for the rules generated from this one.
+        rule.case_sensitive = self.case_sensitive
+
         # If the rule is not a dictation rule, add it to the JSGF only grammar and
         # the original rule map.
         if not dictation_in_expansion(rule.expansion):
@@ -121,7 +133,7 @@ class DictationGrammar(Grammar):
 
         for new_name, x in zip(new_names, expanded):
             if not dictation_in_expansion(x):
-                r = Rule(new_name, rule.visible, x)
+                r = Rule(new_name, rule.visible, x, self.case_sensitive)
 
                 # Add this rule to the JSGF only grammar
                 self._jsgf_only_grammar.add_rule(r)
@@ -132,7 +144,8 @@ class DictationGrammar(Grammar):
                 # expanded rules
                 self._original_rules.append((r, rule))
             else:
-                seq_rule = SequenceRule(new_name, rule.visible, x)
+                seq_rule = SequenceRule(new_name, rule.visible, x,
+                                        self.case_sensitive)
                 if not rule.active:
                     seq_rule.disable()
                 self._original_rules.append((seq_rule, rule))
diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index d768af3..a7d343a 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -110,6 +110,11 @@ class SequenceRule(Rule):
             if result:
                 return result
 
+    def _get_expansions(self):
+        # The original and each expansion in the sequence once it has been set.
+        return ([self.expansion] + list(getattr(self, "_sequence", ())) +
+                [getattr(self, "_original_expansion", self.expansion)])
+
     def compile(self, ignore_tags=False):
         result = ""
         if not self.refuse_matches and not self.current_is_dictation_only:
diff --git a/jsgf/rules.py b/jsgf/rules.py
index 1b47e5d..4336f90 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -228,7 +228,12 @@ class Rule(references.BaseRef):
 
         # Recursively operate on the rule expansion tree. Do *not* operate on
         # referenced rules directly.
-        map_expansion(self.expansion, func, shallow=True)
+        for e in self._get_expansions():
+            map_expansion(e, func, shallow=True)
+
+    def _get_expansions(self):
+        # Internal method to get the root expansions used by this rule.
+        return [self.expansion]
 
     def enable(self):
         """
-- 
2.43.0


From 719aedeb07c26ce75b470fd6875f4567b3c962d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:31 +0000
Subject: [PATCH 60/75] fix: compile the current name, header and imports of a
 DictationGrammar

---
 jsgf/ext/grammars.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 3d2cf1f..e6bf4da 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -79,6 +79,14 @@ class DictationGrammar(Grammar):
         result.extend(self._jsgf_only_grammar.match_rules)
         return result
 
+    def add_import(self, _import):
+        super(DictationGrammar, self).add_import(_import)
+        self._jsgf_only_grammar.add_import(_import)
+
+    def remove_import(self, _import):
+        super(DictationGrammar, self).remove_import(_import)
+        self._jsgf_only_grammar.remove_import(_import)
+
     def add_rule(self, rule):
         if not isinstance(rule, Rule):
             raise TypeError("object '%s' was not a JSGF Rule object" % rule)
@@ -241,6 +249,13 @@ class DictationGrammar(Grammar):
         """
         self.rearrange_rules()
 
+        # Use this grammar's name and header values.
+        grammar = self._jsgf_only_grammar
+        grammar.name = self.name
+        grammar.jsgf_version = self.jsgf_version
+        grammar.charset_name = self.charset_name
+        grammar.language_name = self.language_name
+
         try:
             # Compile the grammar
             if compile_as_root_grammar:
-- 
2.43.0


From 3663fa2d1d82c144777ca153cf3194035c0d1607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 61/75] fix: reset and rearrange hidden sequence rules too

---
 jsgf/ext/grammars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index e6bf4da..c71995c 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -290,7 +290,7 @@ class DictationGrammar(Grammar):
         and the internal grammar used for JSGF only rules depending on whether a
         ``SequenceRule``'s current expansion is dictation-only or not.
         """
-        for rule in tuple(self._jsgf_only_grammar.match_rules):
+        for rule in tuple(self._jsgf_only_grammar.rules):
             if not isinstance(rule, SequenceRule):
                 continue
             if rule.current_is_dictation_only:
@@ -307,7 +307,7 @@ class DictationGrammar(Grammar):
         Reset each ``SequenceRule`` in this grammar so that they can accept matches
         again.
         """
-        for r in self._jsgf_only_grammar.match_rules + self._dictation_rules:
+        for r in self._jsgf_only_grammar.rules + self._dictation_rules:
             if isinstance(r, SequenceRule):
                 r.restart_sequence()
 
-- 
2.43.0


From 3f1bc08f57b2ba23c7b82e4f4aa6c7b90d2b74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 62/75] fix: match the original rule with the speech that was
 matched

---
 jsgf/ext/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index c71995c..b3566d7 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -344,7 +344,7 @@ class DictationGrammar(Grammar):
                     rule.set_next()
 
             else:
-                original.matches(rule.expansion.current_match)
+                original.matches(speech)
 
         # Move SequenceRules between _dictation_rules and _jsgf_only_grammar as
         # required
-- 
2.43.0


From 876f0df0b926f3671b52b9614d39b7b4ae2e4151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 63/75] fix: refuse to remove rules that sequence rules use in
 any step

---
 jsgf/ext/grammars.py | 15 ++++++++++-----
 jsgf/ext/rules.py    | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index b3566d7..707f7d5 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -225,11 +225,16 @@ class DictationGrammar(Grammar):
 
         generated = [k for k, v in self._original_rules if v.name == rule_name]
 
-        # Check for dependent rules before removing anything.
-        jsgf_only_rules = [k for k in generated if k not in self._dictation_rules]
-        if not ignore_dependent and any(k.dependent_rules for k in jsgf_only_rules):
-            raise GrammarError("Cannot remove rule '%s' as it is referenced by "
-                               "another rule." % rule)
+        # Check for dependent rules before removing anything. These may not be in the
+        # same internal grammar at the moment.
+        if not ignore_dependent:
+            removed = generated + [v for _, v in self._original_rules
+                                   if v.name == rule_name]
+            dependencies = [x for r in self.rules if r not in removed
+                            for x in r.dependencies]
+            if any(x in removed for x in dependencies):
+                raise GrammarError("Cannot remove rule '%s' as it is referenced by "
+                                   "another rule." % rule)
 
         self._original_rules = [(k, v) for k, v in self._original_rules
                                 if v.name != rule_name]
diff --git a/jsgf/ext/rules.py b/jsgf/ext/rules.py
index a7d343a..01195b8 100644
--- a/jsgf/ext/rules.py
+++ b/jsgf/ext/rules.py
@@ -3,7 +3,7 @@ This module contains extension rule classes.
 """
 
 from ..errors import GrammarError
-from ..expansions import Repeat, TraversalOrder, filter_expansion
+from ..expansions import NamedRuleRef, Repeat, TraversalOrder, filter_expansion
 from ..rules import Rule
 
 from .expansions import (expand_dictation_expansion, calculate_expansion_sequence,
@@ -241,6 +241,17 @@ class SequenceRule(Rule):
         # Return a set containing the tags of each tagged expansion.
         return set(map(lambda e: e.tag, tagged_expansions))
 
+    @property
+    def dependencies(self):
+        """
+        The set of rules which this rule directly and indirectly references in any
+        part of the sequence.
+
+        :returns: set
+        """
+        return {x.referenced_rule for x in filter_expansion(
+            self.original_expansion, lambda x: isinstance(x, NamedRuleRef))}
+
     @property
     def original_expansion(self):
         return self._original_expansion
-- 
2.43.0


From 522485a3bb13228b7801d21806cd6edd1535c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:37 +0000
Subject: [PATCH 64/75] fix: list hidden generated rules in
 DictationGrammar.rules

---
 jsgf/ext/grammars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsgf/ext/grammars.py b/jsgf/ext/grammars.py
index 707f7d5..dca28b2 100644
--- a/jsgf/ext/grammars.py
+++ b/jsgf/ext/grammars.py
@@ -60,7 +60,7 @@ class DictationGrammar(Grammar):
         # Remove duplicates without changing the order.
         result = []
         seen = set()
-        for rule in (self._dictation_rules + self._jsgf_only_grammar.match_rules +
+        for rule in (self._dictation_rules + self._jsgf_only_grammar.rules +
                      [original for _, original in self._original_rules]):
             if rule not in seen:
                 seen.add(rule)
-- 
2.43.0


From 2f71209c57ac45e7256fc3a4fbe1e69bdc6410e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:41 +0000
Subject: [PATCH 65/75] fix: keep tab characters in tags when parsing

pyparsing expands tabs in the text it parses unless told not to, so a tag
with a tab in it was loaded with spaces instead.
---
 jsgf/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/parser.py b/jsgf/parser.py
index 32a2992..a1697a7 100644
--- a/jsgf/parser.py
+++ b/jsgf/parser.py
@@ -500,10 +500,10 @@ def get_grammar_parser():
     return parser
 
 
-# Initialise each of the main parsers.
-expansion_parser = get_exp_parser()
-rule_parser = get_rule_parser()
-grammar_parser = get_grammar_parser()
+# Initialise each of the main parsers. Keep tab characters, as they may be in tags.
+expansion_parser = get_exp_parser().parseWithTabs()
+rule_parser = get_rule_parser().parseWithTabs()
+grammar_parser = get_grammar_parser().parseWithTabs()
 
 
 def parse_expansion_string(s):
-- 
2.43.0


From 89718a7c8c7395b3abb39184dbd1414a35cbe35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 66/75] fix: make restore_current_matches() restore what was
 saved

By default it restored nothing at all, and expansions that are equal got
each other's matches because they share a key.
---
 jsgf/expansions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 938f79f..45819d1 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -149,10 +149,12 @@ def save_current_matches(e):
     values = {}
 
     def save(x):
-        values[x] = {
+        data = {
             "current_match": x.current_match,
             "matching_slice": x.matching_slice,
         }
+        # Expansions that are equal share a key, so keep the data of each of them.
+        values.setdefault(x, dict(data, equal=[]))["equal"].append((x, data))
     map_expansion(e, save)
     return values
 
@@ -168,9 +170,12 @@ def restore_current_matches(e, values, override_none=True):
     def restore(x):
         match_data = values.get(x, None)
         if match_data:
-            if not override_none and match_data["current_match"] is not None:
+            for saved, data in match_data.get("equal", []):
+                if saved is x:
+                    match_data = data
+            if override_none or match_data["current_match"] is not None:
                 x.current_match = match_data["current_match"]
-            if not override_none and match_data["matching_slice"] is not None:
+            if override_none or match_data["matching_slice"] is not None:
                 x.matching_slice = match_data["matching_slice"]
 
     map_expansion(e, restore)
-- 
2.43.0


From 2c92e30ff0514639b89379ae1b5370bcec62e649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 67/75] fix: Look up weights without hashing nested alternative
 sets repeatedly

---
 jsgf/expansions.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 45819d1..1b6efce 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1990,7 +1990,7 @@ class AlternativeSet(VariableChildExpansion):
         # Hashes of children are sorted so that the same value is returned
         # regardless of child order. Weights are also included.
         child_hashes = sorted([
-            (e.compile(), float(self.weights.get(e, 1)))
+            (e.compile(), float(self._get_weight(e, 1)))
             for e in self.children
         ])
         return hash(
@@ -2014,26 +2014,35 @@ class AlternativeSet(VariableChildExpansion):
         state['_weights'] = list(dict(self._weights).items())
         return state
 
+    def _get_weight(self, child, default=None):
+        # Look for the alternative itself first. Hashing it is slow if there are many
+        # nested alternative sets with weights.
+        items = self._weights
+        if not isinstance(items, list):  # see __getstate__
+            items = items.items()
+        for e, weight in items:
+            if e is child:
+                return weight
+        return self.weights.get(child, default) if self._weights else default
+
     def _validate_weights(self):
         # Check that all alternatives have a weight. The rule for weights is
         # all or nothing.
-        weights = self.weights
         for e in self.children:
-            if e not in weights:
+            if self._get_weight(e) is None:
                 raise GrammarError("alternative %s does not have a weight "
                                    "value" % e)
 
     def compile(self, ignore_tags=False):
         super(AlternativeSet, self).compile()
-        weights = self.weights
-        if weights:
+        if self._weights:
             self._validate_weights()
 
             # Create a string with w=weight and e=compiled expansion
             # such that:
             # /<w 0>/ <e 0> | ... | /<w n-1>/ <e n-1>
             alt_set = "|".join([
-                "/%.4f/ %s" % (float(weights[e]), e.compile(ignore_tags))
+                "/%.4f/ %s" % (float(self._get_weight(e)), e.compile(ignore_tags))
                 for e in self.children
             ])
         else:
@@ -2059,12 +2068,11 @@ class AlternativeSet(VariableChildExpansion):
             p = w / sum(weights)
 
         """
-        weights = self.weights
-        if weights:
+        if self._weights:
             self._validate_weights()
             # use weights if they are set
             # each alternative gets the probability weight / sum_of_all_weights
-            weights = [(e, weights[e]) for e in self.children]
+            weights = [(e, self._get_weight(e)) for e in self.children]
             w_sum = sum([weight for _, weight in weights])
             rand = random.random()
             # print("rand = %s" % rand)
@@ -2082,14 +2090,13 @@ class AlternativeSet(VariableChildExpansion):
 
     def _make_matcher_element(self):
         # Return an element that can match the alternatives.
-        weights = self.weights
-        if weights:
+        if self._weights:
             self._validate_weights()
 
             # Exclude alternatives that have a weight value of 0.
             children = []
             for e in self.children:
-                w = weights[e]
+                w = self._get_weight(e)
                 if w > 0:
                     children.append((e, w))
 
-- 
2.43.0


From a782bb3384b642818312d50854088e40a6d347a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 68/75] fix: Do not count whitespace skipped after a match in
 matching_slice

---
 jsgf/expansions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 1b6efce..6504bde 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -851,7 +851,10 @@ class Expansion(object):
             else:
                 raise TypeError("postParse received invalid tokenlist %s"
                                 % tokenlist)
-            self.matching_slice = slice(loc - len(s), loc)
+            end = loc
+            while s and end > 0 and instring[end - 1].isspace():
+                end -= 1  # whitespace skipped by an element that matched nothing
+            self.matching_slice = slice(end - len(s), end)
             return closure(instring, loc, tokenlist)
 
         element.postParse = postParse
-- 
2.43.0


From e9351b6f5bca41c3b7713211f52b666b168da2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 69/75] fix: Do not match anything with rules whose expansions
 are optional

---
 jsgf/rules.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index 4336f90..f780862 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -265,7 +265,9 @@ class Rule(references.BaseRef):
 
         :returns: bool
         """
-        return self.expansion.current_match is not None
+        # The match value of an optional expansion is '' if it wasn't matched too.
+        return (bool(self.expansion.current_match) or
+                self.expansion.matching_slice is not None)
 
     def matches(self, speech):
         """
@@ -297,10 +299,11 @@ class Rule(references.BaseRef):
         # Match the expansion and use the remainder substring to check if the rule
         # matched completely.
         remainder = self.expansion.matches(speech)
-        if remainder != "":
-            self.expansion.current_match = None
+        if remainder != "" or not self.was_matched:
+            # Do not keep data from a partial match.
+            self.expansion.reset_for_new_match()
 
-        return self.expansion.current_match is not None
+        return self.was_matched
 
     def find_matching_part(self, speech):
         """
-- 
2.43.0


From bb62ea8d849ec67f0343e40be90281ac3bc9d9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:27 +0000
Subject: [PATCH 70/75] fix: Remove repetition records of partial matches

---
 jsgf/expansions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6504bde..6d8f85d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -720,8 +720,7 @@ class Expansion(object):
             # Remove partial matches.
             if (x.parent and not isinstance(x, NamedRuleRef) and not
                     x.parent.current_match):
-                x.current_match = None
-                x.matching_slice = None
+                x.reset_match_data()
 
         map_expansion(self, process)
         return remaining
-- 
2.43.0


From d57e61e4196ac1d71ec3cd47a5345c8a5d7e9b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:55 +0000
Subject: [PATCH 71/75] fix: Remove matches of a failed repetition after the
 last one

---
 jsgf/expansions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 6d8f85d..c0bdbaa 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -1742,10 +1742,8 @@ class Repeat(SingleChildExpansion):
         if self._repetitions_matched:
             # Restore the last repetition's match values.
             for x, current_match, matching_slice in self._repetitions_matched[-1]:
-                if current_match is not None:
-                    x.current_match = current_match
-                if matching_slice is not None:
-                    x.matching_slice = matching_slice
+                x.current_match = current_match
+                x.matching_slice = matching_slice
         return tokens
 
     def _make_matcher_element(self):
-- 
2.43.0


From e2eaff65a6321a32b439679b7c844083c92f174c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:39 +0000
Subject: [PATCH 72/75] fix: Remove partial matches of references and the rules
 they refer to

---
 jsgf/expansions.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index c0bdbaa..51f2e63 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -715,13 +715,25 @@ class Expansion(object):
         # shorter than speech, which means the match wasn't complete.
         remaining = speech[len(result):].strip()
 
-        # Do a second pass of the expansion tree for post-processing.
+        # Do a second pass of the expansion tree for post-processing. First find this
+        # expansion and what is below expansions and references that matched.
+        kept = set()
+
+        def keep(x):
+            if id(x) not in kept:
+                kept.add(id(x))
+                if x.current_match and isinstance(x, NamedRuleRef):
+                    keep(x.referenced_rule.expansion)
+                elif x.current_match:
+                    for child in x.children:
+                        keep(child)
+
         def process(x):
             # Remove partial matches.
-            if (x.parent and not isinstance(x, NamedRuleRef) and not
-                    x.parent.current_match):
+            if id(x) not in kept:
                 x.reset_match_data()
 
+        keep(self)
         map_expansion(self, process)
         return remaining
 
-- 
2.43.0


From 39a97fff850b28d8bebcac9ffe4fe144f63e6011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:48 +0000
Subject: [PATCH 73/75] fix: Remove partial matches from each repetition's
 records

---
 jsgf/expansions.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 51f2e63..379b73d 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -715,8 +715,13 @@ class Expansion(object):
         # shorter than speech, which means the match wasn't complete.
         remaining = speech[len(result):].strip()
 
-        # Do a second pass of the expansion tree for post-processing. First find this
-        # expansion and what is below expansions and references that matched.
+        # Do a second pass of the expansion tree for post-processing.
+        self._remove_partial_matches()
+        return remaining
+
+    def _remove_partial_matches(self):
+        # Find this expansion and what is below expansions and references that
+        # matched.
         kept = set()
 
         def keep(x):
@@ -729,13 +734,11 @@ class Expansion(object):
                         keep(child)
 
         def process(x):
-            # Remove partial matches.
             if id(x) not in kept:
                 x.reset_match_data()
 
         keep(self)
         map_expansion(self, process)
-        return remaining
 
     def invalidate_matcher(self):
         """
@@ -1762,6 +1765,8 @@ class Repeat(SingleChildExpansion):
         # Define an extra parse action for the child's matcher element.
         def f(tokens):
             if tokens.asList():
+                self.child._remove_partial_matches()
+
                 # Add current match values to the _repetitions_matched list. Do not
                 # use the expansions as keys; some of them may be comparable.
                 values = []
-- 
2.43.0


From d82475ba205b3381c3a1adb44931b5729adc03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:57 +0000
Subject: [PATCH 74/75] fix: Do not lose the matches of repetitions in other
 repetitions

---
 jsgf/expansions.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/jsgf/expansions.py b/jsgf/expansions.py
index 379b73d..9180cc3 100644
--- a/jsgf/expansions.py
+++ b/jsgf/expansions.py
@@ -885,14 +885,19 @@ class Expansion(object):
 
         :returns: bool
         """
+        return self._had_match()
+
+    def _had_match(self, end=None):
+        # Check the repetition ancestors below 'end' as well, nearest first.
         if self.current_match:
             return True
 
         rep = self.repetition_ancestor
-        if rep and any(rep.get_expansion_matches(self)):
-            return True
-        else:
-            return False
+        while rep is not None and rep is not end:
+            if rep._any_repetition_matched(self):
+                return True
+            rep = rep.repetition_ancestor
+        return False
 
     def _init_lookup(self):
         # Initialises the lookup dictionary for the root expansion.
@@ -1744,11 +1749,18 @@ class Repeat(SingleChildExpansion):
     @staticmethod
     def _find_match_data(e, values):
         # Find the match data of exactly 'e' in one repetition's values.
-        for x, current_match, matching_slice in values:
+        for x, current_match, matching_slice, _, _ in values:
             if x is e:
                 return current_match, matching_slice
         return None, None
 
+    def _any_repetition_matched(self, e):
+        # Whether 'e' matched in any repetition, including those of nested Repeats.
+        return e.is_descendant_of(self) and any(
+            x is e and had_match for values in self._repetitions_matched
+            for x, _, _, had_match, _ in values
+        )
+
     def _parse_action(self, tokens):
         # Call the super method to set current_match.
         super(Repeat, self)._parse_action(tokens)
@@ -1756,9 +1768,10 @@ class Repeat(SingleChildExpansion):
         # Note: this method is called after the child's parse actions.
         if self._repetitions_matched:
             # Restore the last repetition's match values.
-            for x, current_match, matching_slice in self._repetitions_matched[-1]:
-                x.current_match = current_match
-                x.matching_slice = matching_slice
+            for values in self._repetitions_matched[-1]:
+                x, x.current_match, x.matching_slice, _, repetitions = values
+                if isinstance(x, Repeat):
+                    x._repetitions_matched = repetitions
         return tokens
 
     def _make_matcher_element(self):
@@ -1771,7 +1784,8 @@ class Repeat(SingleChildExpansion):
                 # use the expansions as keys; some of them may be comparable.
                 values = []
                 map_expansion(self.child, lambda x: values.append(
-                    (x, x.current_match, x.matching_slice)
+                    (x, x.current_match, x.matching_slice, x._had_match(self),
+                     getattr(x, "_repetitions_matched", None))
                 ))
                 self._repetitions_matched.append(values)
 
-- 
2.43.0


From 0ce28500f1cf66ead5d8ef7b922a6044354739d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:39 +0000
Subject: [PATCH 75/75] fix: Find parts with case-sensitive words and without
 space around them

---
 jsgf/rules.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsgf/rules.py b/jsgf/rules.py
index f780862..2c6d33d 100644
--- a/jsgf/rules.py
+++ b/jsgf/rules.py
@@ -317,9 +317,9 @@ class Rule(references.BaseRef):
         if not self._active:
             return None
 
-        # Strip whitespace at the start of 'speech' and lower it to match regex
-        # properly.
-        speech = speech.lstrip().lower()
+        # Strip whitespace at the start of 'speech'. Do not change its case, as parts
+        # of this rule may be case-sensitive.
+        speech = speech.lstrip()
 
         # Reset match data for this rule and referenced rules.
         self.expansion.reset_for_new_match()
@@ -332,7 +332,7 @@ class Rule(references.BaseRef):
         result = None
         for match in self.expansion.matcher_element.scanString(speech):
             _, start, end = match
-            result = speech[start:end]
+            result = speech[start:end].strip()
             break
 
         return result
-- 
2.43.0

