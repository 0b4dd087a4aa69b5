From 960cdaa8c7dfd83755418ba165de4e5e1f9bdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:34 +0000
Subject: [PATCH 01/42] fix: order an addition of a single script like the
 script it is equal to

---
 ieml/dictionary/script/script.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 7f4adca..431ce1c 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -95,6 +95,13 @@ class Script(TreeStructure, DecoratedComponent):
         if self == other:
             return False
 
+        # an addition of a single script is equal to that script, it must be ordered like it
+        if isinstance(self, AdditiveScript) and len(self.children) == 1:
+            return self.children[0] < other
+
+        if isinstance(other, AdditiveScript) and len(other.children) == 1:
+            return self < other.children[0]
+
         if self.layer != other.layer:
             # order by layer
             return self.layer < other.layer
-- 
2.43.0


From 5ec3ec30a855e2da234af52ac7ce4a5e1c5be4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 02/42] fix: count once the singular sequences shared by the
 terms of an addition

---
 ieml/dictionary/script/script.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ieml/dictionary/script/script.py b/ieml/dictionary/script/script.py
index 431ce1c..69e5d1b 100644
--- a/ieml/dictionary/script/script.py
+++ b/ieml/dictionary/script/script.py
@@ -294,7 +294,11 @@ class AdditiveScript(Script):
             self.layer = self.children[0].layer
             self.empty = all((e.empty for e in self.children))
             self.paradigm = len(self.children) > 1 or any(child.paradigm for child in self.children)
-            self.cardinal = sum((e.cardinal for e in self.children))
+            if len(self.children) > 1 and any(child.paradigm for child in self.children):
+                # the children may have singular sequences in common
+                self.cardinal = len(set(chain.from_iterable(e.singular_sequences for e in self.children)))
+            else:
+                self.cardinal = sum((e.cardinal for e in self.children))
 
         if self.cardinal > MAX_SINGULAR_SEQUENCES:
             raise TooManySingularSequences(self.cardinal)
@@ -328,9 +332,7 @@ class AdditiveScript(Script):
             return [self]
         else:
             # additive proposition has always children set
-            s = [sequence for child in self.children for sequence in child.singular_sequences]
-            s.sort()
-            return s
+            return sorted(set(sequence for child in self.children for sequence in child.singular_sequences))
 
     def _compute_cells(self):
         # we generate one table per children, unless one children is a singular sequence.
-- 
2.43.0


From e598804eb74dd2bb16c96362c634e7a132bedc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:44 +0000
Subject: [PATCH 03/42] fix: make factorize independent of the order and
 repetition of its input

---
 ieml/dictionary/script/tools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 66e2807..7dc4546 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -8,7 +8,9 @@ from ieml.dictionary.script import MultiplicativeScript, Script, AdditiveScript
 
 
 def factor(sequences):
-    layer = next(iter(sequences)).layer
+    # the factorisation must not depend on the order (or the repetitions) of the sequences
+    sequences = sorted(set(sequences))
+    layer = sequences[0].layer
 
     if layer == 0:
         return list(sequences)
-- 
2.43.0


From 6a2dcc8aea99c068effc58273b319ef04c322881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:34 +0000
Subject: [PATCH 04/42] fix: factorize no longer fails on sets whose factors
 miss a corner of a cube

---
 ieml/dictionary/script/tools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ieml/dictionary/script/tools.py b/ieml/dictionary/script/tools.py
index 7dc4546..2c1ea0a 100644
--- a/ieml/dictionary/script/tools.py
+++ b/ieml/dictionary/script/tools.py
@@ -43,7 +43,10 @@ def factor(sequences):
         cubes = {e for e in _computed if
                  topology[e[0]][seq[1]][seq[2]] and
                  topology[seq[0]][e[1]][seq[2]] and
-                 topology[seq[0]][seq[1]][e[2]]}
+                 topology[seq[0]][seq[1]][e[2]] and
+                 topology[e[0]][e[1]][seq[2]] and
+                 topology[e[0]][seq[1]][e[2]] and
+                 topology[seq[0]][e[1]][e[2]]}
 
         for c in cubes:
             relations[c].add(seq)
-- 
2.43.0


From fe3f209abe761c33ad7306e734fdad98c6ca3fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:55 +0000
Subject: [PATCH 05/42] fix: print a polymorpheme group of empty morphemes as
 it can be parsed

m1(E:) was printed as m1(), which cannot be parsed.
---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 31f1715..d01e493 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -161,7 +161,7 @@ class PolyMorpheme(USL):
         # self.groups_paradigms = [PolyMorpheme(groups=[g]) for g in groups]
 
         self._str = ' '.join(chain(map(str, self.constant),
-                               ["m{}({})".format(mult, ' '.join(map(str, group))) for group, mult
+                               ["m{}({})".format(mult, ' '.join(map(str, group)) or str(NULL_SCRIPTS[0])) for group, mult
                                     in self.groups]))
 
         if not self.constant:
-- 
2.43.0


From 8f6bbcf71fc70bd63bcca9de0790e67781058b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:55 +0000
Subject: [PATCH 06/42] fix: never take more morphemes from a group than its
 multiplicity

The cap was not recorded for one more morpheme than the smallest group holds,
so m1(S:) m1(A: B: T:) produced sequences with two morphemes of the second group.
---
 ieml/usl/polymorpheme.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index d01e493..125b459 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -108,7 +108,7 @@ def compute_PM_singular_sequences(constants, groups):
 
     max_sizes_groups = defaultdict(set)
     for i, (grp, mult) in enumerate(groups):
-        for j in range(mult + 1, min_len + 1):
+        for j in range(mult + 1, min_len + 2):
             max_sizes_groups[j].add(i)
 
     def iter_groups_combinations():
-- 
2.43.0


From 254890d1cc72500e84e222ba4abce4d13403bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:59 +0000
Subject: [PATCH 07/42] fix: reject malformed words instead of crashing or
 building a word without lexeme

A role without lexeme gave a word printing 'None'; a junction with a missing
index, or a lexeme without role, escaped as IndexError from the parser; a
junction mixed with another role was accepted or not depending on the order.
---
 ieml/usl/syntagmatic_function.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index f817c32..fa93f3c 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -190,6 +190,9 @@ class SyntagmaticFunction:
         if not l:
             raise ValueError("Empty syntagmatic function")
 
+        if any(len(address) == 0 for address, _ in l):
+            raise ValueError("Invalid syntagmatic function, a lexeme has no role")
+
         roles = [address[0] for address, _ in l]
         children_l = [(address[1:], x) for address, x in l]
 
@@ -262,10 +265,13 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
+        if any(len(address) < 2 for address, _ in l):
+            raise ValueError("Invalid junction syntagmatic function definition, missing junction link or index.")
+
         junctions = {address[0] for address, _ in l}
 
         links = junctions & set(JUNCTION_SCRIPTS)
-        if len(links) != 1:
+        if len(links) != 1 or len(junctions) != 1:
             raise ValueError("No links defined in the junction")
         link = next(iter(links))
 
@@ -288,7 +294,7 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         groups = [[] for _ in range(len(_groups))]
         for i in _groups:
-            if i > len(groups):
+            if i >= len(groups):
                 raise ValueError("Invalid junction syntagmatic function definition, incoherent indexing.")
             groups[i] = _groups[i]
 
@@ -377,6 +383,9 @@ class DependantQualitySyntagmaticFunction(SyntagmaticFunction):
         if _junction:
             return JunctionSyntagmaticFunction._from_list(l, DependantQualitySyntagmaticFunction)
 
+        if actor is None:
+            raise ValueError("Invalid actant syntagmatic function definition, there is no lexeme for the role.")
+
         dependant = None
         if _dependant:
             dependant = DependantQualitySyntagmaticFunction._from_list(_dependant)
-- 
2.43.0


From 0233d0932fe720cb553508413710e1bee443f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:04 +0000
Subject: [PATCH 08/42] fix: compare, walk and list the morphemes of words that
 hold a junction

The node of a junction has no lexeme: ordering such a word against one with a
lexeme at that role, and asking for its morphemes or emptiness, raised
AttributeError, and iter_structure yielded None.
---
 ieml/usl/syntagmatic_function.py | 19 ++++++++++++-------
 ieml/usl/word.py                 |  3 ++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index fa93f3c..bf94e47 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -54,15 +54,16 @@ class SyntagmaticFunction:
         self.actor = actor
         self.actors = {SyntagmaticRole(constant=role): f for role, f in _actors.items()}
 
+    def _sorted_actors(self):
+        # a junction has no lexeme, it is determined by the roles of its children
+        return sorted(((p, a.actor) for p, a in self.actors.items()
+                       if not isinstance(a, JunctionSyntagmaticFunction)), key=lambda e: e[0])
+
     def __eq__(self, other):
-        s_actors = sorted([(p, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
-        o_actors = sorted([(p, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
-        return s_actors == o_actors
+        return self._sorted_actors() == other._sorted_actors()
 
     def __lt__(self, other):
-        s_actors = sorted([(p, a.actor) for p, a in self.actors.items()], key=lambda e: e[0])
-        o_actors = sorted([(p, a.actor) for p, a in other.actors.items()], key=lambda e: e[0])
-        return s_actors < o_actors
+        return self._sorted_actors() < other._sorted_actors()
 
     # @property
     # def role(self):
@@ -104,8 +105,8 @@ class SyntagmaticFunction:
 
     def iter_structure(self):
         for sfun in self.actors.values():
-            yield sfun.actor
             if sfun.actor is not None:
+                yield sfun.actor
                 yield from sfun.actor.iter_structure()
 
     def iter_structure_path(self, context, focus_role=None):
@@ -262,6 +263,10 @@ class JunctionSyntagmaticFunction(SyntagmaticFunction):
 
         super().__init__(None, res)
 
+    @property
+    def empty(self):
+        return all(c.empty for c in self.children)
+
     @classmethod
     def _from_list(cls, l: List[Tuple[List[Script], X]], context: Type[SyntagmaticFunction]):
 
diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index e8aa5c2..6511a30 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -84,7 +84,8 @@ class Word(USL):
     @property
     def morphemes(self):
         return sorted(set(chain.from_iterable(e.actor.morphemes
-                                              for e in self.syntagmatic_fun.actors.values())))
+                                              for e in self.syntagmatic_fun.actors.values()
+                                              if e.actor is not None)))
 
     def check(self):
         check_word(self)
\ No newline at end of file
-- 
2.43.0


From 0c367907ffe74462c096c622ece903509bdf210e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:53 +0000
Subject: [PATCH 09/42] fix: a lexeme or word whose only combination leaves a
 group out is not its own singular sequence

(m1(E:))(S:) listed itself instead of ()(S:), whereas its polymorpheme lists the sequence without the group.
---
 ieml/usl/lexeme.py | 14 +++++---------
 ieml/usl/word.py   |  5 ++---
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index fea0d1c..08f1cf8 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -74,15 +74,11 @@ class Lexeme(USL):
 
 
 	def _compute_singular_sequences(self):
-		if self.pm_flexion.is_singular and (self.pm_content is None or self.pm_content.is_singular):
-			return [self]
-		else:
-			_product = [self.pm_flexion,
-						self.pm_content]
-			_product = [p.singular_sequences for p in _product if p is not None]
-
-			return [Lexeme(*ss)
-					for ss in itertools.product(*_product)]
+		res = [Lexeme(*ss)
+			   for ss in itertools.product(self.pm_flexion.singular_sequences,
+										   self.pm_content.singular_sequences)]
+
+		return [self] if res == [self] else res
 
 
 	@property
diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index 6511a30..b9a2d52 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -59,10 +59,9 @@ class Word(USL):
 
     def _compute_singular_sequences(self):
         sfun_ss = self.syntagmatic_fun.singular_sequences(context_type=self.context_type)
-        if len(sfun_ss) == 1:
-            return [self]
+        res = [Word(sfun, self.role, self.context_type) for sfun in sfun_ss]
 
-        return [Word(sfun, self.role, self.context_type) for sfun in sfun_ss]
+        return [self] if res == [self] else res
 
     def iter_structure(self):
         yield from self.syntagmatic_fun.iter_structure()
-- 
2.43.0


From e91af9b8605a5f8c7a4b3ab2e76973672154e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:39 +0000
Subject: [PATCH 10/42] fix: a path of the structure of a lexeme leads to one
 value only

The constants and the groups of a flexion were all given at the path >flexion,
and walking a polymorpheme as a flexion raised AssertionError.
---
 ieml/usl/lexeme.py       | 4 ++--
 ieml/usl/polymorpheme.py | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/ieml/usl/lexeme.py b/ieml/usl/lexeme.py
index 08f1cf8..bb5b18a 100644
--- a/ieml/usl/lexeme.py
+++ b/ieml/usl/lexeme.py
@@ -55,8 +55,8 @@ class Lexeme(USL):
 
 		yield (LexemePath(LexemeIndex.FLEXION), self.pm_flexion)
 
-		yield from [(LexemePath(LexemeIndex.FLEXION, child=None if path.morpheme is None else FlexionPath(path.morpheme)), pm)
-					for path, pm in self.pm_flexion.iter_structure_path()]
+		yield from [(LexemePath(LexemeIndex.FLEXION, child=FlexionPath(path.morpheme)), pm)
+					for path, pm in self.pm_flexion.iter_structure_path() if path.morpheme is not None]
 
 		yield (LexemePath(LexemeIndex.CONTENT), self.pm_content)
 		yield from [(LexemePath(LexemeIndex.CONTENT, child=path), pm)
diff --git a/ieml/usl/polymorpheme.py b/ieml/usl/polymorpheme.py
index 125b459..565b5e3 100644
--- a/ieml/usl/polymorpheme.py
+++ b/ieml/usl/polymorpheme.py
@@ -187,8 +187,13 @@ class PolyMorpheme(USL):
     def iter_structure_path(self, flexion=False):
         from ieml.usl.decoration.path import PolymorphemePath, GroupIndex, FlexionPath
 
-        res_f = lambda u, grp_idx, multiplicity: (FlexionPath(morpheme=u) if flexion else
-                                PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity))
+        if flexion:
+            # the paths in a flexion lead only to morphemes
+            yield from [(FlexionPath(morpheme=m), m)
+                        for m in chain(self.constant, *(group for group, _ in self.groups))]
+            return
+
+        res_f = lambda u, grp_idx, multiplicity: PolymorphemePath(group_idx=grp_idx, morpheme=u, multiplicity=multiplicity)
 
         yield (res_f(None, GroupIndex.CONSTANT, None), PolyMorpheme(constant=list(self.constant)))
         yield from [(res_f(m, GroupIndex.CONSTANT, None), m) for m in self.constant]
-- 
2.43.0


From 2e383628a1dbf568c17a125ba354b631cb7b783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:12 +0000
Subject: [PATCH 11/42] fix: read back the decorations as they are printed

The marked role, the multiplicity of a group and a path ending at a role were
printed but refused by the lexer; quotes and backslashes of a value came back
escaped once more at each round.
---
 ieml/usl/decoration/instance.py | 2 +-
 ieml/usl/parser/lexer.py        | 7 ++++---
 ieml/usl/parser/parser.py       | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index b07e0fa..6e92dbf 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -36,7 +36,7 @@ class Decoration:
 		tgt.set_literal(self.value)
 
 	def __str__(self):
-		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('"', r'\"'))
+		return '[{} "{}"]'.format(str(self.path), str(self.value).replace('\\', r'\\').replace('"', r'\"'))
 
 	def __lt__(self, other):
 		return (self.path, self.value) < (other.path, other.value)
diff --git a/ieml/usl/parser/lexer.py b/ieml/usl/parser/lexer.py
index 95b3222..bf4c262 100644
--- a/ieml/usl/parser/lexer.py
+++ b/ieml/usl/parser/lexer.py
@@ -55,10 +55,11 @@ def get_lexer(module=None):
     t_LITERAL = r'\#(\\\#|[^\#])+\#'
 
     t_GROUP_MULTIPLICITY = r'm\d+'
-    t_USL_PATH = r'(?<=\[)>(role>{role_regex}(\s{role_regex})*>)?((flexion|content)>)?(((group_\d|constant)>)?{term_regex})?'.format(role_regex=ROLE_REGEX,
-                                                                                                                        term_regex=TERM_REGEX)
+    t_USL_PATH = r'(?<=\[)>(role>(!\s)?{role_regex}(\s{role_regex})*(>|(?=\s)))?((flexion|content)>)?' \
+                 r'(((group_\d(\s\d)?|constant)>)?{term_regex}|group_\d(\s\d)?)?'.format(role_regex=ROLE_REGEX,
+                                                                                      term_regex=TERM_REGEX)
 
-    t_DECORATION_VALUE = r'"(\\"|[^"])*"'
+    t_DECORATION_VALUE = r'"(\\[\s\S]|[^"\\])*"'
 
     t_ignore  = '{} \t\n'
 
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index e63b963..7f3e37c 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,4 +1,4 @@
-import logging, os
+import logging, os, re
 import ply.yacc as yacc
 
 from ieml.constants import PARSER_FOLDER
@@ -209,7 +209,7 @@ class IEMLParser():
     def p_decoration(self, p):
         """decoration : LBRACKET USL_PATH DECORATION_VALUE RBRACKET"""
         usl_path = self.path_parser.parse(p[2])
-        p[0] = Decoration(usl_path, p[3][1:-1])
+        p[0] = Decoration(usl_path, re.sub(r'\\(["\\])', r'\1', p[3][1:-1]))
 
 
     def p_error(self, p):
-- 
2.43.0


From a1237e64c5dd2365f3fff9c59fddf7754322fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:04 +0000
Subject: [PATCH 12/42] fix: a decoration whose path is not in the USL is a
 parse error

---
 ieml/usl/decoration/parser/parser.py | 2 +-
 ieml/usl/parser/parser.py            | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index ef2e991..4f34c39 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -32,7 +32,7 @@ class PathParser:
         with self.lock:
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except ValueError as e:
+            except (ValueError, KeyError) as e:
                 raise CannotParse(s, str(e))
             except CannotParse as e:
                 e.s = s
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 7f3e37c..53ad439 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -12,6 +12,7 @@ import threading
 
 from ..decoration.instance import Decoration, InstancedUSL
 from ..decoration.parser.parser import PathParser
+from ..decoration.path import DeferenceError
 
 
 class IEMLParserSingleton(type):
@@ -51,7 +52,7 @@ class IEMLParser():
             self.factorize_script = factorize_script
             try:
                 return self.parser.parse(s, lexer=self.lexer)
-            except ValueError as e:
+            except (ValueError, DeferenceError) as e:
                 raise CannotParse(s, str(e))
             except CannotParse as e:
                 e.s = s
-- 
2.43.0


From b90203a6d2c11292f8c0d54921fcce6f77e0faa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:20 +0000
Subject: [PATCH 13/42] fix: has_prefix of a polymorpheme path with a path of
 another kind

---
 ieml/usl/decoration/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 0179811..48f4c44 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -220,7 +220,8 @@ class PolymorphemePath(UslPath):
 			   self.multiplicity == other.multiplicity
 
 	def _has_prefix(self, other):
-		return self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
+		return isinstance(other, PolymorphemePath) and \
+			   self.group_idx == other.group_idx and self.multiplicity == other.multiplicity
 
 	def as_constant(self, u=None):
 		return PolymorphemePath(group_idx=GroupIndex.CONSTANT,
-- 
2.43.0


From 9368f5b4be716bdf4f2b0b8158a866fe1110aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:54 +0000
Subject: [PATCH 14/42] fix: a decoration marks the morpheme of its USL,
 however the morpheme is spelled

---
 ieml/usl/decoration/path.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/path.py b/ieml/usl/decoration/path.py
index 48f4c44..23ccd4d 100644
--- a/ieml/usl/decoration/path.py
+++ b/ieml/usl/decoration/path.py
@@ -249,7 +249,12 @@ class PolymorphemePath(UslPath):
 			else:
 				group = usl.groups[self.group_idx.value][0]
 
-			if not self.morpheme.empty and self.morpheme not in group:
+			# the morpheme of the usl, it may be another object than the equal morpheme of this path
+			for morpheme in group:
+				if morpheme == self.morpheme:
+					return morpheme
+
+			if not self.morpheme.empty:
 				raise DeferenceError("Morpheme " + str(self.morpheme) + " not in group at " + str(self.group_idx.name))
 
 			return self.morpheme
@@ -395,7 +400,8 @@ class FlexionPath(UslPath):
 		if self.morpheme not in all_morphemes:
 			raise DeferenceError("Morpheme " + str(self.morpheme) + " not in flexion")
 
-		return self.morpheme
+		# the morpheme of the usl, it may be another object than the equal morpheme of this path
+		return all_morphemes[str(self.morpheme)]
 
 	def _to_str(self):
 		return str(self.morpheme)
-- 
2.43.0


From 24b992cd2f01500a4baa3b3b2cde403784eb67b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:09 +0000
Subject: [PATCH 15/42] fix: the columns of a 2D table denote the cells of the
 column

---
 ieml/usl/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/table.py b/ieml/usl/table.py
index be06731..9d8cede 100644
--- a/ieml/usl/table.py
+++ b/ieml/usl/table.py
@@ -154,7 +154,7 @@ class UslTable2D:
 
         res2 = []
         for l in res:
-            res2.append([(path.concat(p2).as_constant(ss), ss)
+            res2.append([(path.concat(p2), ss)
                          for path, vv in l
                          for p2, ss in vv.iter_structure_path_by_script_ss()])
 
-- 
2.43.0


From 1296dc3f1668da79459a497b8ecaec686692053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 16/42] fix: build the dictionary when a root or a paradigm
 outside the roots is ignored

---
 ieml/dictionary/dictionary.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ieml/dictionary/dictionary.py b/ieml/dictionary/dictionary.py
index cd82409..4902f23 100644
--- a/ieml/dictionary/dictionary.py
+++ b/ieml/dictionary/dictionary.py
@@ -29,9 +29,14 @@ class Dictionary:
             if key == 'inhibition':
                 inhibitions[p].append(value)
             elif key == 'is_root' and value[0].lower() == 't':
-                root_paradigms.append(p)
+                if p not in root_paradigms:
+                    root_paradigms.append(p)
             elif key == 'is_ignored' and value[0].lower() == 't':
-                ignored.append(p)
+                if p not in ignored:
+                    ignored.append(p)
+
+        # an ignored root paradigm defines nothing
+        root_paradigms = [r for r in root_paradigms if r not in ignored]
 
         # ignore all scripts that are not in a root paradigm
         singular_sequences = set()
@@ -41,13 +46,11 @@ class Dictionary:
             singular_sequences |= r.singular_sequences_set
 
         for s in scripts.values():
-            if not s.singular_sequences_set.issubset(singular_sequences):
+            if s not in ignored and not s.singular_sequences_set.issubset(singular_sequences):
                 ignored.append(s)
 
         for s in ignored:
             del scripts[str(s)]
-            if s in root_paradigms:
-                root_paradigms.remove(s)
             if s in inhibitions:
                 del inhibitions[s]
 
-- 
2.43.0


From e60f79caa5e08c843aea689fe96b0fc7ac0bfaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 17/42] fix: apply the inhibitions of the father relations

---
 ieml/dictionary/relation/relations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/relation/relations.py b/ieml/dictionary/relation/relations.py
index 24c3508..9ad3011 100644
--- a/ieml/dictionary/relation/relations.py
+++ b/ieml/dictionary/relation/relations.py
@@ -193,7 +193,7 @@ class RelationsGraph:
                     continue
 
                 for i, rel in enumerate(('father_substance', 'father_attribute', 'father_mode')):
-                    if rel in dictionary._inhibitions:
+                    if rel in dictionary._inhibitions[dictionary.tables.root(s)]:
                         continue
 
                     fathers_indexes = _recurse_script(sub_s.children[i])
-- 
2.43.0


From 7d7815152953c32f0ae57305b8298da4327c0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 18/42] fix: read the descriptors and the structure of the
 database as text

---
 ieml/ieml_database/ieml_database.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 90db087..8409fee 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -203,7 +203,7 @@ class IEMLDatabase:
 
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
         try:
-            r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
             r.columns=['ieml', 'language', 'descriptor', 'value']
         except EmptyDataError:
             r = pandas.DataFrame(columns=['ieml', 'language', 'descriptor', 'value'])
@@ -214,7 +214,7 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None)
+        r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
         r.columns = ['ieml', 'key', 'value']
         return Structure(r)
 
-- 
2.43.0


From c28e4f588a9623c160325b072251f7020c2eba0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 19/42] fix: read a database without structure or without a
 kind of ieml, and a key with a single value

---
 ieml/ieml_database/ieml_database.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 8409fee..3105332 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -55,7 +55,11 @@ class Structure:
         ieml, key, _ = normalize_key(ieml, key, None, parse_ieml=False, partial=False, structure=True)
 
         try:
-            return self.df.loc(axis=0)[(ieml, key)].to_dict('list')['value']
+            res = self.df.loc(axis=0)[(ieml, key)]
+            if isinstance(res, pandas.Series):
+                return res.to_list()
+            else:
+                return res.to_dict('list')['value']
         except KeyError:
             return []
 
@@ -155,6 +159,10 @@ class IEMLDatabase:
             if paradigm is not None:
                 p = os.path.join(p, 'paradigm' if paradigm else 'singular')
 
+        # nothing of this kind is stored yet
+        if not os.path.isdir(p):
+            return []
+
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
         p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
@@ -214,8 +222,12 @@ class IEMLDatabase:
     def get_structure(self):
         p1 = subprocess.Popen("find -path *.ieml -print0".split(), stdout=subprocess.PIPE, cwd=self.folder)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=self.folder)
-        r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
-        r.columns = ['ieml', 'key', 'value']
+        try:
+            r = pandas.read_csv(p2.stdout, sep=' ', header=None, dtype=str, keep_default_na=False)
+            r.columns = ['ieml', 'key', 'value']
+        except EmptyDataError:
+            r = pandas.DataFrame(columns=['ieml', 'key', 'value'])
+
         return Structure(r)
 
     @monitor_decorator("Get dictionary")
-- 
2.43.0


From 72f8f639276cb5406ef9615b1c69462093288c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 20/42] fix: remove exactly the given value of a descriptor or
 of the structure

---
 ieml/ieml_database/ieml_database.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 3105332..f4702fd 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -302,21 +302,21 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor)
+                    self.remove_descriptor(ieml, l, descriptor, value)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d)
+                    self.remove_descriptor(ieml, language, d, value)
             return
 
-        if value:
-            value = _normalize_value(value)
+        prefix = '"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor)
+        if value is not None:
+            line = prefix + '"{}"\n'.format(self.escape_value(_normalize_value(value)))
 
-        with open(path, "r", encoding='utf8') as f:
+        with open(path, "r", encoding='utf8', newline='\n') as f:
             lines = [l for l in f.readlines()
-                     if not l.startswith('"{}" {} {} '.format(str(ieml), language, descriptor) + \
-                                        ('"{}"'.format(self.escape_value(value)) if value is not None else ''))]
+                     if not (l.startswith(prefix) if value is None else l == line)]
 
-        with open(path, "w", encoding='utf8') as f:
+        with open(path, "w", encoding='utf8', newline='\n') as f:
             f.writelines(lines)
 
     def add_structure(self, ieml, key, value):
@@ -340,7 +340,7 @@ class IEMLDatabase:
         with open(path, "r", encoding='utf8') as f:
             lines = [l for l in f.readlines()
                      if not l.startswith('"{}" {} '.format(str(ieml), key) + \
-                                        ('"{}"'.format(value) if value else ''))]
+                                        ('"{}"'.format(value) if value is not None else ''))]
 
         with open(path, "w", encoding='utf8') as f:
             f.writelines(lines)
-- 
2.43.0


From 57d52fec503aa78d0acf44bc7c42caec977af9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:14 +0000
Subject: [PATCH 21/42] fix: store and list the decorated usls

---
 ieml/ieml_database/ieml_database.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index f4702fd..f63af62 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -1,6 +1,8 @@
+import csv
 import logging
 import operator
 from collections import defaultdict
+from io import TextIOWrapper
 from shlex import quote
 from sys import stdout
 
@@ -114,8 +116,9 @@ class IEMLDatabase:
 
     def filename_of(self, ieml):
         l = str(ieml)
-        if len(l) > self.MAX_IEML_NAME_SIZE:
-            l = "{}|{}".format(l[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1],
+        # the decorations of a usl can hold a path separator
+        if len(l) > self.MAX_IEML_NAME_SIZE or os.sep in l:
+            l = "{}|{}".format(l[:self.MAX_IEML_NAME_SIZE - self.HASH_SIZE - 1].replace(os.sep, '_'),
                                sha224(l.encode('utf8')).hexdigest()[:self.HASH_SIZE])
         return l
 
@@ -165,10 +168,10 @@ class IEMLDatabase:
 
         p1 = subprocess.Popen("find -path *.desc -print0".split(), stdout=subprocess.PIPE, cwd=p)
         p2 = subprocess.Popen("xargs -0 cat".split(), stdin=p1.stdout, stdout=subprocess.PIPE, cwd=p)
-        p3 = subprocess.Popen(["cut", "-f2", '-d', '"'], stdin=p2.stdout, stdout=subprocess.PIPE, cwd=p)
-        p4 = subprocess.Popen(["uniq"], stdin=p3.stdout, stdout=subprocess.PIPE, cwd=p)
 
-        res = [s.strip().decode('utf8') for s in p4.stdout.readlines() if s.strip()]
+        # the ieml can hold quotes (decorated usls)
+        lines = csv.reader(TextIOWrapper(p2.stdout, encoding='utf8', newline=''), delimiter=' ', quotechar='"')
+        res = list(dict.fromkeys(l[0] for l in lines if l))
 
         if parse:
             parser = IEMLParser(dictionary=self.get_dictionary())
-- 
2.43.0


From 8921252a1cf4002d9f6b54ae443c94f224263c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 22/42] fix: list lexemes as lexemes and words as words

---
 ieml/usl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/__init__.py b/ieml/usl/__init__.py
index 175ffa9..1e65495 100644
--- a/ieml/usl/__init__.py
+++ b/ieml/usl/__init__.py
@@ -35,7 +35,7 @@ def get_index(s, dic):
             return (0, '0' + int2base(dic.index[s.constant[0]]))
         else:
             return (1, '1' + int2base(_polymorph_idx(s, dic)))
-    elif isinstance(s, Word):
+    elif isinstance(s, Lexeme):
         return (2, '2' + int2base(0))
     else:
         return (3, '3' + int2base(0))
-- 
2.43.0


From e85d73fb0ba53dacd3f814a81354b5daa2373585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 23/42] fix: get_list fails on a database that holds a word

---
 ieml/ieml_database/ieml_database.py | 7 ++++++-
 ieml/usl/constants.py               | 6 ++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index f63af62..9dab4ae 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -32,6 +32,7 @@ from ieml.usl.decoration.instance import InstancedUSL
 from ieml.usl.lexeme import Lexeme
 from ieml.usl.parser import IEMLParser
 from ieml.usl import PolyMorpheme, Word, get_index
+from ieml.usl.constants import WORD_CLASS_NAMES
 
 
 
@@ -245,6 +246,10 @@ class IEMLDatabase:
         dictionary = self.get_dictionary()
         parser = IEMLParser(dictionary=dictionary)
 
+        def class_name(c):
+            # the class of a word is the one of its syntagmatic function
+            return WORD_CLASS_NAMES[c] if c in WORD_CLASS_NAMES else GRAMMATICAL_CLASS_NAMES[c]
+
         for (ieml, lang, desc), (v,) in tqdm(self.get_descriptors().df.iterrows(),
                                              "List all descriptors at {}".format(self.folder)):
             if ieml not in res:
@@ -260,7 +265,7 @@ class IEMLDatabase:
                 res[ieml] = {'ieml': str(pieml),
                              'type': TYPES[i],
                              'paradigm': len(pieml) != 1,
-                             'class': GRAMMATICAL_CLASS_NAMES[pieml.grammatical_class].lower().capitalize(),
+                             'class': class_name(pieml.grammatical_class).lower().capitalize(),
                              'index': r,
                              'cardinality': 'singular_sequence' if pieml.cardinal == 1 else \
                                  ('paradigm' if not isinstance(pieml,
diff --git a/ieml/usl/constants.py b/ieml/usl/constants.py
index f92f20b..72a0281 100644
--- a/ieml/usl/constants.py
+++ b/ieml/usl/constants.py
@@ -10,6 +10,12 @@ SYNTAGMATIC_FUNCTION_PROCESS_TYPE_SCRIPT = script('E:.b.E:S:.-')
 SYNTAGMATIC_FUNCTION_ACTANT_TYPE_SCRIPT = script('E:.b.E:B:.-')
 SYNTAGMATIC_FUNCTION_QUALITY_TYPE_SCRIPT = script('E:.b.E:T:.-')
 
+WORD_CLASS_NAMES = {
+    SYNTAGMATIC_FUNCTION_PROCESS_TYPE_SCRIPT: 'PROCESS',
+    SYNTAGMATIC_FUNCTION_ACTANT_TYPE_SCRIPT: 'ACTANT',
+    SYNTAGMATIC_FUNCTION_QUALITY_TYPE_SCRIPT: 'QUALITY'
+}
+
 # Process : grammatical role (valence)
 ONE_ACTANT_PROCESS = script('E:S:.')
 TWO_ACTANTS_PROCESS = script('E:T:.')
-- 
2.43.0


From 6c65118feca36238549fa8eca2ffde2c0607ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 24/42] fix: the cached list of usls ignores the changes of the
 usls and of the structure

---
 ieml/commons.py                     | 4 +++-
 ieml/ieml_database/ieml_database.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index b1cb461..9e2f3b1 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -95,7 +95,9 @@ class FolderWatcherCache:
         """
         self.db_path = db_path
         self.pattern = pattern
-        self.files = sorted([os.path.abspath(ff) for ff in glob.glob(os.path.join(self.db_path, self.pattern), recursive=True)])
+        self.files = sorted([os.path.abspath(ff)
+                             for ff in glob.glob(os.path.join(glob.escape(self.db_path), self.pattern), recursive=True)
+                             if os.path.isfile(ff)])
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index 9dab4ae..dd9872e 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -240,7 +240,7 @@ class IEMLDatabase:
         return Dictionary(self.list('morpheme', paradigm=True), self.get_structure())
 
     @monitor_decorator("Get list of all usls")
-    @cache_results_watch_files("morpheme/*/*.desc", 'all_usls')
+    @cache_results_watch_files("**/*", 'all_usls')
     def get_list(self):
         res = {}
         dictionary = self.get_dictionary()
-- 
2.43.0


From 9309135d0fb2daaa0ef65820b169b524552e1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 25/42] fix: a write or another reader during a cached
 computation leaves a stale cache or an error

---
 ieml/commons.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index 9e2f3b1..c04640d 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -3,6 +3,7 @@ import glob
 import logging
 import os
 import pickle
+import threading
 from collections import OrderedDict
 from enum import Enum
 from itertools import chain
@@ -101,18 +102,29 @@ class FolderWatcherCache:
         self.cache_folder = os.path.abspath(cache_folder)
         self.name = name
 
-    def update(self, obj) -> None:
+    def update(self, obj, cache_file=None) -> None:
         """
         Update the cache content, remove old cache files from the cache directory.
 
         :param obj: the object to pickle in the cache
+        :param cache_file: the cache file of the content `obj` was computed from (default to the current one)
         :return: None
         """
-        for c in self._cache_candidates():
-            os.remove(c)
+        if cache_file is None:
+            cache_file = self.cache_file
 
-        with open(self.cache_file, 'wb') as fp:
+        for c in self._cache_candidates():
+            try:
+                os.remove(c)
+            except FileNotFoundError:
+                pass  # another process removed it
+
+        # write then rename: a partial cache file must never be visible
+        tmp_file = os.path.join(self.cache_folder,
+                                ".tmp-{}-{}-{}".format(self.name, os.getpid(), threading.get_ident()))
+        with open(tmp_file, 'wb') as fp:
             pickle.dump(obj, fp, protocol=4)
+        os.replace(tmp_file, cache_file)
 
     def get(self) -> object:
         """
@@ -140,8 +152,11 @@ class FolderWatcherCache:
         """
         res = b""
         for file in self.files:
-            with open(file, 'rb') as fp:
-                res += file[len(self.db_path)+1:].encode('utf8') + b":" + fp.read()
+            try:
+                with open(file, 'rb') as fp:
+                    res += file[len(self.db_path)+1:].encode('utf8') + b":" + fp.read()
+            except FileNotFoundError:
+                pass  # removed since the files were listed
 
         return os.path.join(self.cache_folder, ".{}-cache.{}".format(self.name, hashlib.md5(res).hexdigest()))
 
@@ -178,6 +193,7 @@ def cache_results_watch_files(path, name):
 
             if use_cache:
                 cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
+                watched = cache.cache_file
                 if not cache.is_pruned():
                     logger.info("read_{}.cache: Reading cache at {}".format(name, cache.cache_file))
                     try:
@@ -198,8 +214,10 @@ def cache_results_watch_files(path, name):
             if use_cache and cache_folder:
                 cache = FolderWatcherCache(db_path, path, cache_folder=cache_folder, name=name)
 
-                logger.info("read_{}.cache: Updating cache at {}".format(name, cache.cache_file))
-                cache.update(instance)
+                # if the files changed in between, the content the instance was computed from is unknown
+                if cache.cache_file == watched:
+                    logger.info("read_{}.cache: Updating cache at {}".format(name, watched))
+                    cache.update(instance, watched)
 
             return instance
 
-- 
2.43.0


From 00d805de40a54e9e8d775cbb1233a94660a93df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 26/42] fix: an interrupted clone is taken for the repository
 afterwards

---
 ieml/ieml_database/git_interface.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index dcac1d9..7044bf7 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -1,6 +1,7 @@
 import csv
 import hashlib
 import os
+import tempfile
 from io import StringIO
 
 import tqdm
@@ -191,13 +192,18 @@ class GitInterface:
                 remote = repo.remotes.create(name, url)
                 return remote
 
-            return pygit2.clone_repository(self.origin,
-                                           self.folder,
+            # an interrupted clone must not be taken for the repository
+            parent = os.path.dirname(self.folder)
+            os.makedirs(parent, exist_ok=True)
+            with tempfile.TemporaryDirectory(prefix='.clone-', dir=parent) as tmp_folder:
+                pygit2.clone_repository(self.origin,
+                                           os.path.join(tmp_folder, 'clone'),
                                            remote=init_remote,
                                            # checkout_branch=self.branch,
                                            callbacks=callbacks)
-        else:
-            return pygit2.Repository(self.folder)
+                os.rename(os.path.join(tmp_folder, 'clone'), self.folder)
+
+        return pygit2.Repository(self.folder)
 
     @monitor_decorator('pull')
     def pull(self, remote='origin') -> {str: Descriptor}:
-- 
2.43.0


From e59dbcf3359cd9a96e5d94685262019f00274fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 27/42] fix: pull fails on a conflict on a file without
 descriptors or that is not a descriptor

---
 ieml/ieml_database/git_interface.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 7044bf7..84171db 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -23,7 +23,7 @@ from appdirs import user_cache_dir
 
 from ieml import logger, error
 from ieml.commons import monitor_decorator
-from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE
+from ieml.constants import IEMLDB_DEFAULT_GIT_ADDRESS, LIBRARY_VERSION, DEFAULT_COMMITER_SIGNATURE, LANGUAGES, DESCRIPTORS_CLASS
 
 
 def get_local_cache_dir(origin):
@@ -316,18 +316,21 @@ class GitInterface:
                                 raise ValueError("Renaming not supported")
 
                             # local entry is not deleted
-                            res = Descriptors.from_csv_string(repo.get(local_entry.oid).data.decode('utf8'),
-                                                              assert_unique_ieml=True)
-                            ieml = next(iter(res))
-                            conflicts[ieml] = res[ieml]
+                            res = Descriptors.from_csv_string(repo.get(local_entry.oid).data.decode('utf8'))
+                            conflicts.update(res)
                         else:
                             # locally deleted
                             assert remote_entry is not None
-                            res = Descriptors.from_csv_string(repo.get(remote_entry.oid).data.decode('utf8'),
-                                                              assert_unique_ieml=True)
-                            ieml = next(iter(res))
+                            res = {}
 
-                            conflicts[ieml] = {d: {l : [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
+                        if not res:
+                            # no descriptor is left locally, the ieml is in one of the other sides
+                            for entry in (remote_entry, ancestor):
+                                if entry is not None:
+                                    res.update(Descriptors.from_csv_string(repo.get(entry.oid).data.decode('utf8')))
+
+                            for ieml in res:
+                                conflicts[ieml] = {d: {l : [] for l in LANGUAGES} for d in DESCRIPTORS_CLASS}
                     else:
                         print("Ignoring", old_path, "not a descriptor", file=stderr)
                     # repo.index.read()
@@ -360,7 +363,7 @@ class GitInterface:
                     last = self.repo.create_commit('HEAD',
                                             DEFAULT_COMMITER_SIGNATURE,
                                             DEFAULT_COMMITER_SIGNATURE,
-                                            "Merge {}".format(ieml),
+                                            "Merge {}".format(", ".join(conflicts) or "branch"),
                                             tree_id,
                                             [repo.head.target, commit_target])
 
@@ -369,7 +372,7 @@ class GitInterface:
             # repo.head.set_target(last)
         else:
             #TODO handle merge conflicts here
-            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(self.branch, commit_target,self.folder))
+            raise ValueError("Incompatible history, can't merge origin into {}#{} in folder {}".format(repo.head.shorthand, commit_target,self.folder))
 
         return conflicts
 
-- 
2.43.0


From 19104303150080b3d3fb59cb532bc9e5cf3ae6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 28/42] fix: a pull leaves the repository in the middle of a
 merge or of a checkout

---
 ieml/ieml_database/git_interface.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index 84171db..afc1d88 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -212,6 +212,17 @@ class GitInterface:
         :param remote: the remote to pull from
         :return: the conflicts : a dict that map ieml to the descriptor in conflict. In case of a conflict, the remote version is chosen as current version and the old current is returned by the function.
         """
+        current_commit = self.repo.head.target
+        clean = not self.status()
+        try:
+            return self._pull(remote)
+        except Exception:
+            # do not stay in the middle of a merge or of a checkout
+            if clean or os.path.exists(os.path.join(self.repo.path, 'MERGE_HEAD')):
+                self.reset(current_commit)
+            raise
+
+    def _pull(self, remote) -> {str: Descriptor}:
         repo = self.repo
 
         remote_ = repo.remotes[remote]
@@ -367,7 +378,7 @@ class GitInterface:
                                             tree_id,
                                             [repo.head.target, commit_target])
 
-                # repo.state_cleanup()
+            repo.state_cleanup()
 
             # repo.head.set_target(last)
         else:
-- 
2.43.0


From bcb36d6ffa0c1cca59311869a313d1a82eab068c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 29/42] fix: diff fails on ieml with quotes and on files that
 are not of the database

---
 ieml/ieml_database/git_interface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ieml/ieml_database/git_interface.py b/ieml/ieml_database/git_interface.py
index afc1d88..e051261 100644
--- a/ieml/ieml_database/git_interface.py
+++ b/ieml/ieml_database/git_interface.py
@@ -437,9 +437,10 @@ class GitInterface:
                         deleted.append(l.content)
                     elif l.old_lineno == -1:
                         added.append(l.content)
-            if l:
+            # the other files of the repository do not describe an ieml
+            if l and file_path.endswith(('.desc', '.ieml')):
                 res[file_path] = {
-                    'ieml': l.content.split('"')[1],
+                    'ieml': next(csv.reader([l.content], delimiter=' '))[0],
                     'added': added,
                     'deleted': deleted,
                     'is_new': patch.delta.old_file.mode == 0,
-- 
2.43.0


From 923fc59c989052c2c5ea3e77c528c51aa39918cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 30/42] fix: a root paradigm can never be created, and could be
 without its main tables

---
 .../transactions/DBTransaction.py             | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 1755a92..26d00b5 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -88,11 +88,11 @@ class DBTransactions:
 
         dictionary = db.get_dictionary()
         for ss in root.singular_sequences:
-            try:
-                r = dictionary.tables.root(ss)
+            r = dictionary.tables.root(ss)
+            if r is not None:
                 raise ValueError("Root paradigms {} intersection with script {} ".format(str(r), str(root)))
-            except KeyError:
-                pass
+
+        commit_id = self.gitdb.repo.head.target
 
         with self.gitdb.commit(self.signature, "[dictionary] Create root paradigm {} ({}), create {} singular sequences"
                 .format(str(root),
@@ -113,10 +113,15 @@ class DBTransactions:
                     db.add_descriptor(root, language=l, descriptor='comments', value=v)
 
         # add main tables header
-        for i, t in enumerate([tt for tt in root.tables_script if tt != root]):
-            self.add_morpheme_paradigm(t,
-                                       translations=append_idx_to_dict(translations, i),
-                                       comments=append_idx_to_dict(comments, i))
+        try:
+            for i, t in enumerate([tt for tt in root.tables_script if tt != root]):
+                self.add_morpheme_paradigm(t,
+                                           translations=append_idx_to_dict(translations, i),
+                                           comments=append_idx_to_dict(comments, i))
+        except Exception:
+            # no root paradigm without its main tables
+            self.gitdb.reset(commit_id)
+            raise
         # main_tables = [tt for tt in root.tables_script if tt != root]
 
     def add_morpheme_paradigm(self,
-- 
2.43.0


From 0fa2e5e52b6a47c29f0ec3b0bbacdbf5375c94cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 31/42] fix: a paradigm can't be added without translations in
 every language

---
 ieml/ieml_database/transactions/DBTransaction.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 26d00b5..c15c880 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -135,15 +135,18 @@ class DBTransactions:
         if len(script) == 1:
             raise ValueError("The script is not a paradigm {}, can't use it to define a paradigm.".format(str(script)))
 
+        translations = _check_descriptors(translations)
+        comments = _check_descriptors(comments)
+
         if script in d.scripts:
             raise ValueError("Script {} already defined in the dictionary".format(str(script)))
 
         r_cand = set()
         for ss in script.singular_sequences:
-            try:
-                r_cand.add(d.tables.root(ss))
-            except KeyError:
+            r = d.tables.root(ss)
+            if r is None:
                 raise ValueError("No root paradigms contains this script {}".format(str(script)))
+            r_cand.add(r)
 
         if len(r_cand) != 1:
             raise ValueError("No root paradigms or too many for script {}".format(str(script)))
-- 
2.43.0


From 9f7db03623ac20532f4203de99f44393f3585bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:51 +0000
Subject: [PATCH 32/42] fix: a root paradigm can never be enlarged, a paradigm
 can leave its root

---
 ieml/ieml_database/transactions/DBTransaction.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index c15c880..7271a8c 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -231,7 +231,7 @@ class DBTransactions:
         if script_old == script_new:
             return
 
-        assert len(script_old) != 1 or len(script_new) != 1, "Can't update singular sequences, only paradigms"
+        assert len(script_old) != 1 and len(script_new) != 1, "Can't update singular sequences, only paradigms"
 
         db = IEMLDatabase(folder=self.gitdb.folder, use_cache=self.use_cache, cache_folder=self.cache_folder)
         d = db.get_dictionary()
@@ -247,11 +247,11 @@ class DBTransactions:
 
         root_new_cand = set()
         for ss in script_new.singular_sequences:
-            try:
-                root_new_cand.add(d.tables.root(ss))
-            except KeyError:
-                if not is_root:
-                    raise ValueError("A non root paradigm is defined over singular sequences that are in no paradigms")
+            r = d.tables.root(ss)
+            if r is not None:
+                root_new_cand.add(r)
+            elif not is_root:
+                raise ValueError("A non root paradigm is defined over singular sequences that are in no paradigms")
 
         assert len(root_new_cand) == 1, "No root paradigms or too many for script {}".format(str(script_new))
         root_new = next(iter(root_new_cand))
-- 
2.43.0


From 1a874c8c1c675ffe6999e14908eb20fe88ce3096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:52 +0000
Subject: [PATCH 33/42] fix: the migration of all the ieml always fails

---
 ieml/ieml_database/transactions/DBTransaction.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/ieml/ieml_database/transactions/DBTransaction.py b/ieml/ieml_database/transactions/DBTransaction.py
index 7271a8c..6b9d707 100644
--- a/ieml/ieml_database/transactions/DBTransaction.py
+++ b/ieml/ieml_database/transactions/DBTransaction.py
@@ -366,14 +366,13 @@ class DBTransactions:
 
         with self.gitdb.commit(self.signature, '[IEML migration] Update all ieml in db: {}'.format(message)):
 
+            migrated = []
             for old_ieml in tqdm.tqdm(db.list(parse=True), "Migrate all usls"):
-                new_ieml = f(old_ieml)
-
-                value = desc.get_values_partial(old_ieml)
-
+                migrated.append((f(old_ieml), desc.get_values_partial(old_ieml)))
                 db.remove_descriptor(old_ieml, None, None)
 
-                for l in LANGUAGES:
-                    for d in value[l]:
-                        for e in value[l][e]:
-                            db.add_descriptor(new_ieml, l, d, e)
\ No newline at end of file
+            # a new ieml can be the old one of another usl
+            for new_ieml, value in migrated:
+                for (_, l, d), values in value.items():
+                    for v in values:
+                        db.add_descriptor(new_ieml, l, d, v)
-- 
2.43.0


From ab5103e04bf6a0ad0e5bf781182a2526d132b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:38 +0000
Subject: [PATCH 34/42] fix: a torn or concurrently written parser table makes
 every parser fail

---
 ieml/commons.py                         | 52 +++++++++++++++++++++++++
 ieml/dictionary/script/parser/parser.py |  9 ++---
 ieml/usl/decoration/parser/parser.py    |  4 +-
 ieml/usl/parser/parser.py               | 11 +++---
 4 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index c04640d..d4e3a49 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -3,6 +3,7 @@ import glob
 import logging
 import os
 import pickle
+import shutil
 import threading
 from collections import OrderedDict
 from enum import Enum
@@ -12,9 +13,60 @@ from typing import List
 import hashlib
 from time import time
 
+from ply import yacc
+
 from ieml import logger
 
 
+def cached_yacc(picklefile, **kwargs):
+    """
+    Build a ply parser, its tables are cached in picklefile.
+    ply fails on a file that it can't load, and writes it in place: it is given a private copy instead, that replaces
+    the cached one when it is complete. The cache may be missing, torn by an interrupted process, or not writable.
+    """
+    private = '{}.{}.{}'.format(picklefile, os.getpid(), threading.get_ident())
+    rebuilt = private + '.new'
+
+    def discard():
+        for path in (private, rebuilt):
+            try:
+                os.remove(path)
+            except OSError:
+                pass
+
+    def content(path):
+        try:
+            with open(path, 'rb') as fp:
+                return fp.read()
+        except OSError:
+            return None
+
+    discard()
+    try:
+        try:
+            shutil.copyfile(picklefile, private)
+        except OSError as e:
+            logger.debug("No parser tables in %s: %s", picklefile, e)
+
+        try:
+            parser = yacc.yacc(picklefile=private, **kwargs)
+            tables = private
+        except Exception as e:
+            logger.warning("Invalid parser tables in %s, building them: %r", picklefile, e)
+            parser = yacc.yacc(picklefile=rebuilt, **kwargs)
+            tables = rebuilt
+
+        if content(tables) != content(picklefile):
+            try:
+                os.replace(tables, picklefile)
+            except OSError as e:
+                logger.warning("Can't write the parser tables in %s: %s", picklefile, e)
+    finally:
+        discard()
+
+    return parser
+
+
 class cached_property:
     def __init__(self, factory):
         self._factory = factory
diff --git a/ieml/dictionary/script/parser/parser.py b/ieml/dictionary/script/parser/parser.py
index e034ce3..d99602a 100644
--- a/ieml/dictionary/script/parser/parser.py
+++ b/ieml/dictionary/script/parser/parser.py
@@ -2,12 +2,11 @@ import logging
 import types
 from functools import lru_cache
 import os
-import ply.yacc as yacc
 
 from ieml.exceptions import InvalidScript, CannotParse
 from ieml.dictionary.script import AdditiveScript, MultiplicativeScript, NullScript
 from ieml.constants import REMARKABLE_ADDITION, PARSER_FOLDER
-from ieml.commons import Singleton
+from ieml.commons import Singleton, cached_yacc
 from ieml.dictionary.script.parser.lexer import get_script_lexer, tokens
 
 import threading
@@ -23,9 +22,9 @@ class ScriptParser(metaclass=Singleton):
         self.t_add_rules()
 
         self.lexer = get_script_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='term',
-                                debug=False, optimize=True,
-                                picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
+        self.parser = cached_yacc(module=self, errorlog=logging, start='term',
+                                  debug=False, optimize=True,
+                                  picklefile=os.path.join(PARSER_FOLDER, "morpheme_parser.pickle"))
         # rename the parsing method (can't name it directly parse with lru_cache due to ply checking)
         self.parse = self.t_parse
 
diff --git a/ieml/usl/decoration/parser/parser.py b/ieml/usl/decoration/parser/parser.py
index 4f34c39..8104c5f 100644
--- a/ieml/usl/decoration/parser/parser.py
+++ b/ieml/usl/decoration/parser/parser.py
@@ -1,8 +1,8 @@
 import logging
 import threading
 import os
-from ply.yacc import yacc
 
+from ieml.commons import cached_yacc
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script
 from ieml.exceptions import CannotParse
@@ -20,7 +20,7 @@ class PathParser:
     def __init__(self):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc(module=self, errorlog=logging, start='path',
+        self.parser = cached_yacc(module=self, errorlog=logging, start='path',
                                   # debug=True, debuglog=logging,
                                   optimize=False,
                                   picklefile=os.path.join(PARSER_FOLDER, "path_parser.pickle"))
diff --git a/ieml/usl/parser/parser.py b/ieml/usl/parser/parser.py
index 53ad439..5cfe25a 100644
--- a/ieml/usl/parser/parser.py
+++ b/ieml/usl/parser/parser.py
@@ -1,6 +1,5 @@
 import logging, os, re
-import ply.yacc as yacc
-
+from ieml.commons import cached_yacc
 from ieml.constants import PARSER_FOLDER
 from ieml.dictionary.script import script, Script, NullScript
 from ieml.usl import Word, PolyMorpheme, USL
@@ -32,10 +31,10 @@ class IEMLParser():
     def __init__(self, dictionary=None):
         # Build the lexer and parser
         self.lexer = get_lexer()
-        self.parser = yacc.yacc(module=self, errorlog=logging, start='proposition',
-                                # debug=True,
-                                optimize=False,
-                                picklefile=os.path.join(PARSER_FOLDER, "ieml_parser.pickle"))
+        self.parser = cached_yacc(module=self, errorlog=logging, start='proposition',
+                                  # debug=True,
+                                  optimize=False,
+                                  picklefile=os.path.join(PARSER_FOLDER, "ieml_parser.pickle"))
         self._ieml = None
         self.path_parser = PathParser()
         self.dictionary = dictionary
-- 
2.43.0


From 1501ba93fe8c4c005163bc086b45131388bc76eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 35/42] fix: the decorations of a usl leak into the usls used
 by other threads

---
 ieml/commons.py                 |  8 +++++---
 ieml/usl/decoration/instance.py | 28 +++++++++++++++++++++-------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/ieml/commons.py b/ieml/commons.py
index d4e3a49..57b350c 100644
--- a/ieml/commons.py
+++ b/ieml/commons.py
@@ -292,11 +292,13 @@ class DecoratedComponent:
     def set_literal(self, value):
         from ieml.usl.decoration.instance import literal_context
 
-        literal_context().push(self)
-        self._literal = value
+        if not literal_context().push(self, value):
+            self._literal = value
 
     def get_literal(self):
-        return self._literal
+        from ieml.usl.decoration.instance import literal_context
+
+        return literal_context().get(self, self._literal)
 
 class OrderedEnum(Enum):
     def __ge__(self, other):
diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 6e92dbf..4018791 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -1,3 +1,4 @@
+import threading
 from typing import List
 
 from ieml.commons import DecoratedComponent
@@ -6,20 +7,33 @@ from ieml.usl import USL
 from ieml.usl.decoration.path import UslPath, FlexionPath
 
 
-class LiteralContext:
+class LiteralContext(threading.local):
+	"""
+	The scripts are shared by all the usls: the literals set on them in a context are only those of this context, and
+	of this thread.
+	"""
 	def __init__(self):
 		self.stack = []
 
 	def __enter__(self):
-		self.stack = []
+		self.stack.append({})
 
 	def __exit__(self, exc_type, exc_val, exc_tb):
-		for s in self.stack:
-			s.clear_literal()
-		self.stack = []
+		self.stack.pop()
+
+	def push(self, u, value):
+		"""Set the literal of u in the current context, return False if there is none"""
+		if not self.stack:
+			return False
+
+		self.stack[-1][id(u)] = (u, value)
+		return True
+
+	def get(self, u, default):
+		if not self.stack:
+			return default
 
-	def push(self, u):
-		self.stack.append(u)
+		return self.stack[-1].get(id(u), (u, default))[1]
 
 __literal_context =LiteralContext()
 def literal_context():
-- 
2.43.0


From 107dd97182c6a0301647f43c7abd3623c0c062b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 36/42] fix: a singular usl can't be unpickled once the set of
 its singular sequences was asked

---
 ieml/usl/usl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 867d2ad..0e73d13 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -50,6 +50,10 @@ class USL(DecoratedComponent):
         """Since the IEML string for a script is its definition, it can be used as a hash"""
         return self._str.__hash__()
 
+    def __getstate__(self):
+        # a singular usl is in the set of its singular sequences, it can't be hashed before its attributes are restored
+        return {**self.__dict__, '_singular_sequences_set': None}
+
     def __len__(self):
         return self.cardinal
 
-- 
2.43.0


From c55a0cf06c09148b8caa3f8a1a525a481b75fe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 37/42] fix: usls with decorations don't have the hash of an
 equal usl

---
 ieml/usl/usl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 0e73d13..074e7cc 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -48,7 +48,7 @@ class USL(DecoratedComponent):
 
     def __hash__(self):
         """Since the IEML string for a script is its definition, it can be used as a hash"""
-        return self._str.__hash__()
+        return hash(str(self))
 
     def __getstate__(self):
         # a singular usl is in the set of its singular sequences, it can't be hashed before its attributes are restored
-- 
2.43.0


From 97dbe0237833a478e21aad515d8acfeeb22a858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 38/42] fix: simplify_word fails on junctions and on words
 whose empty process is not the focus

---
 ieml/usl/word.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/ieml/usl/word.py b/ieml/usl/word.py
index b9a2d52..310d25e 100644
--- a/ieml/usl/word.py
+++ b/ieml/usl/word.py
@@ -3,10 +3,10 @@ from typing import Type
 
 from ieml.dictionary.script import Script
 from ieml.usl import USL
-from ieml.usl.constants import check_address_script, class_from_address
+from ieml.usl.constants import check_address_script, class_from_address, ADDRESS_PROCESS_VALENCE_SCRIPTS, \
+    JUNCTION_SCRIPTS, JUNCTION_INDEX
 from ieml.usl.lexeme import Lexeme, check_lexeme
-from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole, DependantQualitySyntagmaticFunction, \
-    IndependantQualitySyntagmaticFunction
+from ieml.usl.syntagmatic_function import SyntagmaticFunction, SyntagmaticRole
 
 
 def check_word(w: 'Word'):
@@ -24,22 +24,27 @@ def check_word(w: 'Word'):
 
 
 def simplify_word(w: 'Word') -> 'Word':
-    """remove empty leaves"""
+    """remove empty leaves, except the ones needed by the focus, the process and the numbering of the junctions"""
+    lexemes = w.syntagmatic_fun.as_list(w.context_type)
+    needed = {tuple(w.role.constant[:i + 1]) for i in range(len(w.role.constant))}
+    for r, lexeme in lexemes:
+        if not lexeme.empty or r[0] in ADDRESS_PROCESS_VALENCE_SCRIPTS:
+            needed.update(tuple(r[:i + 1]) for i in range(len(r)))
 
-    res = []
-    word_role = w.role.constant if w.syntagmatic_fun.__class__ not in [DependantQualitySyntagmaticFunction, IndependantQualitySyntagmaticFunction] else \
-        w.role.constant[1:]
+    def is_kept(r):
+        if r in needed:
+            return True
+        if len(r) < 2 or r[-2] not in JUNCTION_SCRIPTS:
+            return False
 
-    for r, sfun in w.syntagmatic_fun.actors.items():
-        if all(l.actor.empty for l in sfun.actors.values() if l.actor is not None) and \
-                (len(word_role) < len(r.constant) or any(rw != rn for rw, rn in zip(word_role, r.constant))):
-            continue
+        # a member of a junction, the members are numbered without gap from the first
+        idx = JUNCTION_INDEX.index(r[-1])
+        return any((*r[:-1], i) in needed for i in JUNCTION_INDEX[idx:]) or (idx == 0 and is_kept(r[:-2]))
 
-        res.append([r.constant, sfun.actor])
+    context_type, sfun = SyntagmaticFunction.from_list([(r, lexeme) for r, lexeme in lexemes if is_kept(tuple(r))])
 
-    sfun = w.syntagmatic_fun._from_list(res)
+    return Word(sfun, role=w.role, context_type=context_type)
 
-    return Word(sfun, role=w.role, context_type=w.syntagmatic_fun.__class__)
 
 class Word(USL):
     syntactic_level = 3
-- 
2.43.0


From 8dc96b860ce491ba7720d5f342dee76346dcaeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 39/42] fix: a word without any morpheme is not said to be
 empty

---
 ieml/usl/syntagmatic_function.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ieml/usl/syntagmatic_function.py b/ieml/usl/syntagmatic_function.py
index bf94e47..5a2647e 100644
--- a/ieml/usl/syntagmatic_function.py
+++ b/ieml/usl/syntagmatic_function.py
@@ -79,7 +79,8 @@ class SyntagmaticFunction:
 
     @property
     def empty(self):
-        return self.actor.empty and len(self.actors) == 0
+        # the actors contain the function itself, a junction has no lexeme
+        return all(f.actor.empty for f in self.actors.values() if f.actor is not None)
 
     def get(self, role: SyntagmaticRole, ignore_prefix=False, ignore_process_valence=False) -> X:
         # UNUSED ?
-- 
2.43.0


From 547d60f25cce074777be25fad6f8aadcb2ee7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 40/42] fix: the cells of a 3d table can't be accessed

---
 ieml/dictionary/table/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ieml/dictionary/table/table.py b/ieml/dictionary/table/table.py
index 808267b..cf01db5 100644
--- a/ieml/dictionary/table/table.py
+++ b/ieml/dictionary/table/table.py
@@ -244,7 +244,7 @@ class TableSet(Table):
 
 class Table3D(TableSet):
     def __getitem__(self, item):
-        return self.tables[item[0]][item[1:]]
+        return self.cells[0][item]
 
     @property
     def ndim(self):
-- 
2.43.0


From 73667f86c8085119103939cb9bfc4dd43541aa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:40 +0000
Subject: [PATCH 41/42] fix: the order of usls with decorations is not total

---
 ieml/usl/decoration/instance.py | 7 ++++++-
 ieml/usl/usl.py                 | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ieml/usl/decoration/instance.py b/ieml/usl/decoration/instance.py
index 4018791..764d5a9 100644
--- a/ieml/usl/decoration/instance.py
+++ b/ieml/usl/decoration/instance.py
@@ -113,8 +113,13 @@ class InstancedUSL(USL):
 	def iter_structure_path(self, flexion=False):
 		return self.usl.iter_structure_path(flexion=flexion)
 
+	def __lt__(self, other):
+		# without decorations, it is equal to its usl
+		return super().__lt__(other) if self.decorations else self.usl < other
+
 	def do_lt(self, other):
-		return self.usl.do_lt(other)
+		return self.usl < other.usl or \
+			   (self.usl == other.usl and list(map(str, self.decorations)) < list(map(str, other.decorations)))
 
 	def _compute_singular_sequences(self):
 		res = []
diff --git a/ieml/usl/usl.py b/ieml/usl/usl.py
index 074e7cc..b945fb4 100644
--- a/ieml/usl/usl.py
+++ b/ieml/usl/usl.py
@@ -34,7 +34,7 @@ class USL(DecoratedComponent):
             return False
 
         from ieml.usl.decoration.instance import InstancedUSL
-        if isinstance(other, InstancedUSL):
+        if isinstance(other, InstancedUSL) and not other.decorations:
             other = other.usl
 
         return self.syntactic_level < other.syntactic_level or \
-- 
2.43.0


From a6318dd41a64f21316098bd5c43d57069accc5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:25 +0000
Subject: [PATCH 42/42] fix: a removal without normalisation removes the
 entries of the normalised ieml instead of those of the spelling given

---
 ieml/ieml_database/ieml_database.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ieml/ieml_database/ieml_database.py b/ieml/ieml_database/ieml_database.py
index dd9872e..e603ba9 100644
--- a/ieml/ieml_database/ieml_database.py
+++ b/ieml/ieml_database/ieml_database.py
@@ -296,8 +296,9 @@ class IEMLDatabase:
 
     @monitor_decorator('remove_key')
     def remove_descriptor(self, ieml, language=None, descriptor=None, value=None, normalize=True):
+        # the entries written with another spelling of the ieml are removed under that spelling
         ieml, language, descriptor = normalize_key(ieml, language, descriptor,
-                                                   parse_ieml=True, partial=True)
+                                                   parse_ieml=normalize, partial=True)
 
         path = self.path_of(ieml, mkdir=True, normalize=normalize)
         if not os.path.isfile(path):
@@ -310,10 +311,10 @@ class IEMLDatabase:
         if descriptor is None or language is None:
             if language is None:
                 for l in LANGUAGES:
-                    self.remove_descriptor(ieml, l, descriptor, value)
+                    self.remove_descriptor(ieml, l, descriptor, value, normalize=normalize)
             else:
                 for d in DESCRIPTORS_CLASS:
-                    self.remove_descriptor(ieml, language, d, value)
+                    self.remove_descriptor(ieml, language, d, value, normalize=normalize)
             return
 
         prefix = '"{}" {} {} '.format(self.escape_value(str(ieml)), language, descriptor)
@@ -334,7 +335,7 @@ class IEMLDatabase:
             fp.write('"{}" {} "{}"\n'.format(str(ieml), key, value))
 
     def remove_structure(self, ieml, key=None, value=None, normalize=True):
-        ieml, key, value = normalize_key(ieml, key, value, parse_ieml=True, partial=True, structure=True)
+        ieml, key, value = normalize_key(ieml, key, value, parse_ieml=normalize, partial=True, structure=True)
 
         path = self.path_of(ieml, descriptor=False, mkdir=True, normalize=normalize)
 
-- 
2.43.0

