From 6a4b3f161ae523bd6d8d588424ab7679b8c8ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 01/32] fix: ClassDB lookups of unknown and negative labels

A label past the end raised an IndexError, also for membership tests, and
a negative label was looked up from the end of the list.
---
 comb_spec_searcher/class_db.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 022775a..0f70edf 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -44,10 +44,9 @@ class LabelToInfo(MutableMapping[int, Optional[Info]]):
         self.empty_list = empty_list
 
     def __getitem__(self, label: int) -> Optional[Info]:
-        try:
-            return Info(self.comb_class_list[label], label, self.empty_list[label])
-        except KeyError:
+        if not 0 <= label < len(self.comb_class_list):
             return None
+        return Info(self.comb_class_list[label], label, self.empty_list[label])
 
     def __setitem__(self, key: int, value: Optional[Info]) -> None:
         raise NotImplementedError
-- 
2.43.0


From b8cc61cc2eacad2ce33aaa502b31ed2b3e8b11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 02/32] fix: ClassDB membership is False for anything but a
 class or a label

---
 comb_spec_searcher/class_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 0f70edf..7ba7871 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -158,7 +158,7 @@ class ClassDB(Generic[CombinatorialClassType]):
         elif isinstance(key, int):
             info = self.label_to_info.get(key)
         else:
-            raise ValueError("Invalid key")
+            return False
         return info is not None
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 0b2da49da1937ba6d93073e0134bc32f78b70a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:54 +0000
Subject: [PATCH 03/32] fix: ClassDB.is_empty of a class that has no label yet

It raised a KeyError, for instance when the strategies are recomputed on
classes the search did not label.
---
 comb_spec_searcher/class_db.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/class_db.py b/comb_spec_searcher/class_db.py
index 7ba7871..c01db3a 100644
--- a/comb_spec_searcher/class_db.py
+++ b/comb_spec_searcher/class_db.py
@@ -261,7 +261,10 @@ class ClassDB(Generic[CombinatorialClassType]):
         Return True if combinatorial class is empty set, False if not.
         """
         if label is None:
-            label = self.label_dict[self._compress(comb_class)]
+            label = self.label_dict.get(self._compress(comb_class))
+            if label is None:
+                # The class has no label, hence no cached answer.
+                return bool(self._is_empty(comb_class))
 
         empty = self.empty_list[label]
         if empty is None:
-- 
2.43.0


From f0a2719a132111f4e5e135254e661d50a308dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 04/32] fix: prune labels that have no rules at all

---
 comb_spec_searcher/tree_searcher.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index cd8ee67..a6a9162 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -80,8 +80,9 @@ def prune(rdict: RulesDict) -> None:
                 if any(x not in rdict for x in rule):
                     rule_set.remove(rule)
                     changed = True
-                if not rule_set:
-                    del rdict[k]
+            if not rule_set:
+                del rdict[k]
+                changed = True
 
 
 def iterative_prune(rules_dict: RulesDict, root: Optional[int] = None) -> RulesDict:
-- 
2.43.0


From 6f8d2739692628ce04b89f054b559c7489ab5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 05/32] fix: use the root's representative when pruning
 iteratively

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index b646340..dd1b8ba 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -70,7 +70,9 @@ class RuleDBBase(RuleDBAbstract):
         if self._pruned_dict is None:
             rules_dict = self.rules_up_to_equivalence()
             if self.iterative:
-                rules_dict = iterative_prune(rules_dict, root=self.root_label)
+                rules_dict = iterative_prune(
+                    rules_dict, root=self.equivdb[self.root_label]
+                )
             else:
                 prune(rules_dict)
             self._pruned_dict = rules_dict
-- 
2.43.0


From 4aab8f7b38cdfdc926603d8318a064ca222ab420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 06/32] fix: has_specification used a stale representative of
 the root

---
 comb_spec_searcher/rule_db/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index dd1b8ba..16e8503 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -222,7 +222,9 @@ class RuleDBBase(RuleDBAbstract):
 
     def has_specification(self) -> bool:
         """Return True if a specification has been found, false otherwise."""
-        return self.equivdb[self.root_label] in self.pruned_dict
+        # Computing the pruned dict may change the representative of the root.
+        pruned_dict = self.pruned_dict
+        return self.equivdb[self.root_label] in pruned_dict
 
     def rule_from_equivalence_rule(
         self, eqv_start: int, eqv_ends: Iterable[int]
-- 
2.43.0


From cd6d6d9a26b75403f97e97e4c911108629c31ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:36 +0000
Subject: [PATCH 07/32] fix: proof_tree_generator_bfs gave a label different
 rules in different branches

---
 comb_spec_searcher/tree_searcher.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/tree_searcher.py b/comb_spec_searcher/tree_searcher.py
index a6a9162..15c87cd 100644
--- a/comb_spec_searcher/tree_searcher.py
+++ b/comb_spec_searcher/tree_searcher.py
@@ -197,25 +197,34 @@ def proof_tree_generator_bfs(rules_dict: RulesDict, root: int) -> Iterator[Node]
     N.B. The rules_dict is assumed to be pruned.
     """
 
-    def _bfs_helper(root_label: int, seen: FrozenSet[int]):
+    def _bfs_helper(
+        root_label: int, seen: FrozenSet[int]
+    ) -> Iterator[Tuple[Dict[int, Tuple[int, ...]], Node]]:
+        """Yield the trees together with the rule used for each label."""
         if root_label in seen:
-            yield Node(root_label)
+            yield {}, Node(root_label)
             return
         next_seen = seen.union((root_label,))
-        for rule in rules_dict[root_label]:
-            for children in product(
+        for rule in sorted_rules_dict[root_label]:
+            for subtrees in product(
                 *[_bfs_helper(child_label, next_seen) for child_label in rule]
             ):
-                root_node = Node(root_label)
-                root_node.children = list(children)
-                yield root_node
+                rules = {root_label: rule}
+                for child_rules, _ in subtrees:
+                    if any(rules.get(k, v) != v for k, v in child_rules.items()):
+                        # A label can't have different rules in different branches.
+                        break
+                    rules.update(child_rules)
+                else:
+                    yield rules, Node(root_label, [tree for _, tree in subtrees])
 
     sorted_rules_dict = {
         start: tuple(sorted(ends)) for start, ends in rules_dict.items()
     }
 
     if root in sorted_rules_dict:
-        yield from _bfs_helper(root, frozenset())
+        for _, tree in _bfs_helper(root, frozenset()):
+            yield tree
 
 
 def proof_tree_generator_dfs(
-- 
2.43.0


From e096ed54720056c1fc3aec5b5cf09042fe2bed93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 08/32] fix: Complement mapped the terms to the child before
 subtracting the siblings

---
 .../strategies/constructor/disjoint.py        | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index b2c4686..6af23d3 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -360,21 +360,25 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_terms(
         self, parent_terms: Callable[[int], Terms], subterms: SubTerms, n: int
     ) -> Terms:
-        parent_terms_mapped: Terms = Counter()
+        # Subtract in terms of the parent's parameters as the objects on the other
+        # children need not satisfy the constraints of the child being counted.
+        remaining_terms: Terms = Counter()
         for param, value in subterms[0](n).items():
             if value:
-                parent_terms_mapped[self._parent_param_map(param)] += value
+                remaining_terms[param] += value
         children_terms = subterms[1:]
         for child_terms, param_map in zip(children_terms, self._children_param_maps):
             # we subtract from total
             for param, value in child_terms(n).items():
-                mapped_param = self._parent_param_map(param_map(param))
-                parent_terms_mapped[mapped_param] -= value
-                assert parent_terms_mapped[mapped_param] >= 0
-                if parent_terms_mapped[mapped_param] == 0:
-                    parent_terms_mapped.pop(mapped_param)
-
-        return parent_terms_mapped
+                parent_param = param_map(param)
+                remaining_terms[parent_param] -= value
+                assert remaining_terms[parent_param] >= 0
+                if remaining_terms[parent_param] == 0:
+                    remaining_terms.pop(parent_param)
+        new_terms: Terms = Counter()
+        for param, value in remaining_terms.items():
+            new_terms[self._parent_param_map(param)] += value
+        return new_terms
 
     def get_sub_objects(
         self, subobjs: SubObjects, n: int
-- 
2.43.0


From f74d797e0e7074f1a7de58891194931d89cb45f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 09/32] fix: reversing a cartesian product with one child
 divided by zero

---
 comb_spec_searcher/strategies/constructor/cartesian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index b259bf0..548805f 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -509,6 +509,8 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         Dict representing the polynomial that multiply the polynomial of the
         flipped child for length n.
         """
+        if self.number_of_children == 1:
+            return Counter([tuple(0 for _ in range(self._num_parent_params))])
         min_sizes = self._min_sizes[: self.idx] + self._min_sizes[self.idx + 1 :]
         max_sizes = self._max_sizes[: self.idx] + self._max_sizes[self.idx + 1 :]
         possible_sizes = utils.compositions(
-- 
2.43.0


From 7ea35f91ec7f5048f4779987669743656a2490db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:26 +0000
Subject: [PATCH 10/32] fix: equivalence paths through cartesian products with
 one child

---
 .../strategies/constructor/cartesian.py       |  6 ++++++
 comb_spec_searcher/strategies/rule.py         | 19 ++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index 548805f..afabb65 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -406,6 +406,12 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
         self._parent_shift = sum(self._min_sizes) - self._min_sizes[self.idx]
         self._num_parent_params = len(parent.extra_parameters)
 
+    def can_be_equivalent(self) -> bool:
+        return all(
+            len(params.values()) == len(set(params.values()))
+            for params in self.extra_parameters
+        )
+
     @staticmethod
     def param_map(
         child_pos_to_parent_pos: Tuple[Tuple[int, ...], ...],
diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 7195b81..bb9d69f 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -43,7 +43,13 @@ from comb_spec_searcher.typing import (
 from ..combinatorial_class import CombinatorialClassType, CombinatorialObjectType
 from ..exception import SanityCheckFailure, SpecificationNotFound, StrategyDoesNotApply
 from ..utils import TermsCache, equal_counters
-from .constructor import Complement, Constructor, DisjointUnion
+from .constructor import (
+    CartesianProduct,
+    Complement,
+    Constructor,
+    DisjointUnion,
+    Quotient,
+)
 
 if TYPE_CHECKING:
     from .strategy import AbstractStrategy, Strategy, VerificationStrategy
@@ -817,8 +823,8 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
 
 class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     """
-    A class for shortening a chain of disjoint union  or complement unary rules into a
-    single Rule.
+    A class for shortening a chain of unary rules (disjoint unions, cartesian products
+    and their reverses) into a single Rule.
     """
 
     def __init__(
@@ -856,9 +862,12 @@ class EquivalencePathRule(Rule[CombinatorialClassType, CombinatorialObjectType])
             }
             for rule in self.rules:
                 original_constructor = rule.constructor
-                assert isinstance(original_constructor, (DisjointUnion, Complement))
+                assert isinstance(
+                    original_constructor,
+                    (DisjointUnion, Complement, CartesianProduct, Quotient),
+                )
                 rules_parameters = original_constructor.extra_parameters[0]
-                if isinstance(original_constructor, Complement):
+                if isinstance(original_constructor, (Complement, Quotient)):
                     if len(set(rules_parameters.values())) != len(
                         rules_parameters.values()
                     ):
-- 
2.43.0


From b7caa5230f7953a26b79635171cecf55d5250bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 11/32] fix: RuleDBBase.contains built an unhashable key

---
 comb_spec_searcher/rule_db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/rule_db/base.py b/comb_spec_searcher/rule_db/base.py
index 16e8503..cd03001 100644
--- a/comb_spec_searcher/rule_db/base.py
+++ b/comb_spec_searcher/rule_db/base.py
@@ -159,7 +159,7 @@ class RuleDBBase(RuleDBAbstract):
 
     def contains(self, start: int, ends: Tuple[int, ...]) -> bool:
         """Return true if the rule start -> ends is in the database."""
-        key = (start, sorted(ends))
+        key = (start, tuple(sorted(ends)))
         return key in self.rule_to_strategy or key in self.eqv_rule_to_strategy
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From cca1a5c0215ac9d0f49060ea965520c81e625143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:12 +0000
Subject: [PATCH 12/32] fix: recompute strategies of rules found by expanding
 an empty class

---
 comb_spec_searcher/rule_db/forget.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index bbbe9aa..a72c7e7 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -82,8 +82,7 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
     def __getitem__(self, key: RuleKey) -> AbstractStrategy:
         if self._flatten(key) not in self.rules:
             raise KeyError(key)
-        possible_labels = (key[0],) + key[1]
-        for label, strat in itertools.product(possible_labels, self.pack):
+        for label, strat in self._possible_sources(key):
             comb_class = self.classdb.get_class(label)
             if isinstance(strat, StrategyFactory):
                 strats_or_rules: Iterable[Union[AbstractRule, AbstractStrategy]] = (
@@ -122,6 +121,23 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
             err_message += str(self.classdb.get_class(label)) + "\n"
         raise RuntimeError(err_message)
 
+    def _possible_sources(
+        self, key: RuleKey
+    ) -> Iterator[Tuple[int, Union[AbstractStrategy, StrategyFactory]]]:
+        """
+        Iterate over the labels and strategies that can have produced the rule.
+
+        The empty children are not part of the key but the rule can still have been
+        found by expanding one of them (e.g. an empty start class).
+        """
+        possible_labels = (key[0],) + key[1]
+        yield from itertools.product(possible_labels, self.pack)
+        for label in tuple(self.classdb):
+            if label not in possible_labels and self.classdb.is_empty(
+                self.classdb.get_class(label), label
+            ):
+                yield from itertools.product((label,), self.pack)
+
     def __setitem__(self, key: RuleKey, value: AbstractStrategy) -> None:
         assert not self.only_equiv or len(key[1]) == 1
         self.rules.add(self._flatten(key))
-- 
2.43.0


From ec6882e70004b9dd31133399536fce8344948f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:08 +0000
Subject: [PATCH 13/32] fix: equations substitute products of statistics and
 drop untracked ones

Several statistics of a parent tracking the same statistic of a child of a
product gave an equation with only the last of them, and a statistic of a child
that the parent does not track was left as a free variable.
---
 .../strategies/constructor/base.py               | 16 ++++++++++++++++
 .../strategies/constructor/cartesian.py          |  5 +----
 .../strategies/constructor/disjoint.py           | 11 +----------
 3 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/base.py b/comb_spec_searcher/strategies/constructor/base.py
index c101690..ee905c1 100644
--- a/comb_spec_searcher/strategies/constructor/base.py
+++ b/comb_spec_searcher/strategies/constructor/base.py
@@ -42,6 +42,22 @@ class Constructor(abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectTy
         Return the sympy.Eq in the form lhs_func = f(rhs_funcs).
         """
 
+    @staticmethod
+    def substitute_parameters(
+        rhs_func: sympy.Function, extra_parameters: Dict[str, str]
+    ) -> sympy.Function:
+        """
+        Return the child's function in terms of the parent's parameters.
+
+        Every parameter of the child becomes the product of the parent's parameters
+        that map to it. It is therefore set to 1 if it is not tracked by the parent.
+        """
+        subs = {param: sympy.Integer(1) for param in rhs_func.args[1:]}
+        for parent, child in extra_parameters.items():
+            child_var = sympy.Symbol(child)
+            subs[child_var] = subs.get(child_var, 1) * sympy.Symbol(parent)
+        return rhs_func.subs(subs, simultaneous=True)
+
     @abc.abstractmethod
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
         """
diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index afabb65..4fae010 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -145,10 +145,7 @@ class CartesianProduct(Constructor[CombinatorialClassType, CombinatorialObjectTy
     ) -> sympy.Eq:
         res = 1
         for extra_parameters, rhs_func in zip(self.extra_parameters, rhs_funcs):
-            res *= rhs_func.subs(
-                {child: parent for parent, child in extra_parameters.items()},
-                simultaneous=True,
-            )
+            res *= self.substitute_parameters(rhs_func, extra_parameters)
         return sympy.Eq(lhs_func, res)
 
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index 6af23d3..82919e5 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -95,16 +95,7 @@ class DisjointUnion(Constructor[CombinatorialClassType, CombinatorialObjectType]
     ) -> sympy.Eq:
         res = 0
         for rhs_func, extra_parameters in zip(rhs_funcs, self.extra_parameters):
-            subs: Dict[str, sympy.Expr] = {}
-            for parent, child in extra_parameters.items():
-                if child in subs:
-                    subs[child] *= sympy.var(parent)
-                else:
-                    subs[child] = sympy.var(parent)
-            res += rhs_func.subs(
-                subs,
-                simultaneous=True,
-            )
+            res += self.substitute_parameters(rhs_func, extra_parameters)
         return sympy.Eq(lhs_func, res)
 
     def reliance_profile(self, n: int, **parameters: int) -> RelianceProfile:
-- 
2.43.0


From 9e51419631012da418209ff87227159b5b635b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:31 +0000
Subject: [PATCH 14/32] fix: reverse rules with statistics on a sibling only
 fall back on the original equation

The equations of complement and quotient were used as soon as no parameter of the
parent was mapped, although a sibling can have parameters of its own, which were
left as free variables.
---
 comb_spec_searcher/strategies/constructor/cartesian.py | 2 +-
 comb_spec_searcher/strategies/constructor/disjoint.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/constructor/cartesian.py b/comb_spec_searcher/strategies/constructor/cartesian.py
index 4fae010..6dbe4ce 100644
--- a/comb_spec_searcher/strategies/constructor/cartesian.py
+++ b/comb_spec_searcher/strategies/constructor/cartesian.py
@@ -595,7 +595,7 @@ class Quotient(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_equation(
         self, lhs_func: sympy.Function, rhs_funcs: Tuple[sympy.Function, ...]
     ) -> sympy.Eq:
-        if any(self.extra_parameters):
+        if any(len(func.args) > 1 for func in (lhs_func, *rhs_funcs)):
             raise NotImplementedError(
                 "Quotient equation is not implemented with extra parameters. "
                 "You can fall back on the cartesian equation."
diff --git a/comb_spec_searcher/strategies/constructor/disjoint.py b/comb_spec_searcher/strategies/constructor/disjoint.py
index 82919e5..c113342 100644
--- a/comb_spec_searcher/strategies/constructor/disjoint.py
+++ b/comb_spec_searcher/strategies/constructor/disjoint.py
@@ -335,7 +335,7 @@ class Complement(Constructor[CombinatorialClassType, CombinatorialObjectType]):
     def get_equation(
         self, lhs_func: sympy.Function, rhs_funcs: Tuple[sympy.Function, ...]
     ) -> sympy.Eq:
-        if any(self.extra_parameters):
+        if any(len(func.args) > 1 for func in (lhs_func, *rhs_funcs)):
             raise NotImplementedError(
                 "Complement equation is not implemented with extra parameters. "
                 "You can fall back on the union equations."
-- 
2.43.0


From 83fddbb16f162c4814f97ad86d22b152503417f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 15/32] fix: get_genf only returns a solution all of whose
 functions start correctly

The initial conditions of the root alone are met by several solutions of the
system, e.g. when the root has no object of a size that is checked.
---
 comb_spec_searcher/specification.py | 37 ++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/specification.py b/comb_spec_searcher/specification.py
index ae50999..932c960 100644
--- a/comb_spec_searcher/specification.py
+++ b/comb_spec_searcher/specification.py
@@ -418,12 +418,47 @@ class CombinatorialSpecification(
                 expansion = taylor_expand(genf, check)
             except TaylorExpansionError:
                 continue
-            if expansion == initial_conditions:
+            if expansion == initial_conditions and self._check_initial_conditions(
+                solution, check
+            ):
                 return sympy.simplify(genf)
         raise IncorrectGeneratingFunctionError(
             "Failed to compute the generating function for the specification."
         )
 
+    def _check_initial_conditions(
+        self, solution: Dict[Function, Expr], check: int
+    ) -> bool:
+        """
+        Return True if every function of the solution is a power series starting as
+        the enumeration of its class.
+
+        The conditions on the root alone can be met by several solutions. The
+        equations have only one solution in power series such that no class has
+        objects smaller than its minimum size, hence the number of terms checked.
+        """
+        for comb_class, rule in self.rules_dict.items():
+            func = self.get_function(comb_class)
+            if func not in solution:
+                return False
+            order = check
+            try:
+                if not isinstance(rule, VerificationRule):
+                    order = max(order, comb_class.minimum_size_of_object())
+            except NotImplementedError:
+                pass  # it is only needed on the children of a product
+            try:
+                with RecursionLimit(order * self.number_of_rules()):
+                    terms = [rule.count_objects_of_size(n) for n in range(order + 1)]
+            except NotImplementedError:
+                continue
+            try:
+                if taylor_expand(solution[func], order) != terms:
+                    return False
+            except TaylorExpansionError:
+                return False
+        return True
+
     def get_maple_equations(self, check: int = 6) -> str:
         """
         Convert the systems of equations to version that can be copy pasted to maple.
-- 
2.43.0


From 52eae1fc04f8eef249b2480e3f9652f6806fa11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:28 +0000
Subject: [PATCH 16/32] fix: compare the state of forest databases, so that a
 restored searcher equals the original

---
 comb_spec_searcher/rule_db/forest.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index 9c7b487..e87f794 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -73,6 +73,11 @@ class DefaultList(Generic[T]):
     def __setitem__(self, key: int, value: T) -> None:
         self._list[key] = value
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, DefaultList):
+            return NotImplemented
+        return self.__dict__ == other.__dict__
+
     def __iter__(self) -> Iterator[T]:
         return iter(self._list)
 
@@ -95,6 +100,11 @@ class Function:
         self._preimage_count: DefaultList[int] = DefaultList(int)
         self._infinity_count: int = 0
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Function):
+            return NotImplemented
+        return self.__dict__ == other.__dict__
+
     @property
     def preimage_count(self) -> List[int]:
         """
@@ -202,6 +212,11 @@ class TableMethod:
         self._current_gap: Tuple[int, int] = (1, 1)
         self._rule_holding_extra_terms: Set[int] = set()
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, TableMethod):
+            return NotImplemented
+        return self.__dict__ == other.__dict__
+
     @property
     def function(self) -> Dict[int, Optional[int]]:
         """
@@ -633,6 +648,17 @@ class RuleDBForest(RuleDBAbstract):
         self._already_empty: Set[int] = set()
         self._rule_cache = tuple(rule_cache)
 
+    def __eq__(self, other: object) -> bool:
+        """Check if all stored information is the same."""
+        if not isinstance(other, RuleDBForest):
+            return NotImplemented
+        return (
+            self.reverse == other.reverse
+            and self.table_method == other.table_method
+            and self._already_empty == other._already_empty
+            and self._rule_cache == other._rule_cache
+        )
+
     # Implementation of RuleDBAbstract
 
     def status(self, elaborate: bool) -> str:
-- 
2.43.0


From 8ed4c1be82a2a95b1b57ad9a34c0d4af0a330be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:48 +0000
Subject: [PATCH 17/32] fix: compare recomputing dictionaries by their rules;
 recomputing each strategy failed for rules of empty classes

---
 comb_spec_searcher/rule_db/forget.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index a72c7e7..916e013 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -71,6 +71,19 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
             raise RuntimeError("Not linked with pack")
         return self._pack
 
+    def __eq__(self, other: object) -> bool:
+        """
+        Check if the same rules are stored, without recomputing any strategy.
+        """
+        if not isinstance(other, RecomputingDict):
+            return NotImplemented
+        return (
+            self.only_equiv == other.only_equiv
+            and self.rules == other.rules
+            and self._pack == other._pack
+            and self._classdb == other._classdb
+        )
+
     @staticmethod
     def _flatten(tuple_: RuleKey) -> Tuple[int, ...]:
         return (tuple_[0],) + tuple_[1]
-- 
2.43.0


From 1b98d5a2fbbad8919fef4f84ea715667c4cac856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:32 +0000
Subject: [PATCH 18/32] fix: find again the ready-made rules of factories that
 do not involve the class expanded

---
 comb_spec_searcher/rule_db/forest.py | 16 ++++++++++++++--
 comb_spec_searcher/rule_db/forget.py |  9 ++++-----
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/comb_spec_searcher/rule_db/forest.py b/comb_spec_searcher/rule_db/forest.py
index e87f794..de95080 100644
--- a/comb_spec_searcher/rule_db/forest.py
+++ b/comb_spec_searcher/rule_db/forest.py
@@ -578,9 +578,8 @@ class ForestRuleExtractor:
         """
         Find a rule that have the given rule key.
         """
-        all_classes = (rule_key.parent,) + rule_key.children
         all_normal_rules = itertools.chain.from_iterable(
-            self._rules_for_class(c) for c in all_classes
+            self._rules_for_class(c) for c in self._possible_sources(rule_key)
         )
         for normal_rule in all_normal_rules:
             potential_rules = [normal_rule]
@@ -602,6 +601,19 @@ class ForestRuleExtractor:
             err += f"Child {i}:\n{self.classdb.get_class(l)}\n"
         raise RuntimeError(err)
 
+    def _possible_sources(self, rule_key: ForestRuleKey) -> Iterator[int]:
+        """
+        Iterate over the labels of the classes the rule can have been found from.
+
+        A ready-made rule of a factory can have been found by expanding a class that
+        is not part of the rule, hence the other classes are considered last.
+        """
+        rule_classes = (rule_key.parent,) + rule_key.children
+        yield from rule_classes
+        for label in tuple(self.classdb):
+            if label not in rule_classes:
+                yield label
+
     def _rules_for_class(self, label: int) -> Iterator[AbstractRule]:
         """
         Return all the rule created for that class with the pack.
diff --git a/comb_spec_searcher/rule_db/forget.py b/comb_spec_searcher/rule_db/forget.py
index 916e013..d2d959f 100644
--- a/comb_spec_searcher/rule_db/forget.py
+++ b/comb_spec_searcher/rule_db/forget.py
@@ -140,15 +140,14 @@ class RecomputingDict(MutableMapping[RuleKey, AbstractStrategy]):
         """
         Iterate over the labels and strategies that can have produced the rule.
 
-        The empty children are not part of the key but the rule can still have been
-        found by expanding one of them (e.g. an empty start class).
+        The rule can have been found by expanding a class that is not part of the key:
+        one of the empty children (e.g. an empty start class), or any class for the
+        ready-made rules of a factory.
         """
         possible_labels = (key[0],) + key[1]
         yield from itertools.product(possible_labels, self.pack)
         for label in tuple(self.classdb):
-            if label not in possible_labels and self.classdb.is_empty(
-                self.classdb.get_class(label), label
-            ):
+            if label not in possible_labels:
                 yield from itertools.product((label,), self.pack)
 
     def __setitem__(self, key: RuleKey, value: AbstractStrategy) -> None:
-- 
2.43.0


From 71f89dc5979dae6d66530ea98abf41254bf09510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 19/32] fix: strategies created from parametrised classes equal
 those created plainly

---
 comb_spec_searcher/strategies/strategy.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/strategy.py b/comb_spec_searcher/strategies/strategy.py
index 03ec634..e26e8e7 100644
--- a/comb_spec_searcher/strategies/strategy.py
+++ b/comb_spec_searcher/strategies/strategy.py
@@ -114,6 +114,14 @@ def strategy_from_dict(d) -> CSSstrategy:
     return StratClass.from_dict(d)
 
 
+def _settings(strategy: CSSstrategy) -> Dict[str, Any]:
+    """
+    Return the attributes of the strategy, without the one `typing` adds to the
+    instances created from a parametrised class, e.g. `EmptyStrategy[A, B]()`.
+    """
+    return {k: v for k, v in strategy.__dict__.items() if k != "__orig_class__"}
+
+
 class AbstractStrategy(
     abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectType]
 ):
@@ -247,7 +255,7 @@ class AbstractStrategy(
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractStrategy):
             return NotImplemented
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __repr__(self):
         return (
@@ -947,7 +955,7 @@ class StrategyFactory(abc.ABC, Generic[CombinatorialClassType]):
         pass
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ == other.__class__ and self.__dict__ == other.__dict__
+        return self.__class__ == other.__class__ and _settings(self) == _settings(other)
 
     def __hash__(self) -> int:
         """
-- 
2.43.0


From 747635d1fc8c59a68a5b83d64d8636738ee5216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:18 +0000
Subject: [PATCH 20/32] fix: isomorphism test of a verified class and a rule
 without non-empty children

---
 comb_spec_searcher/isomorphism.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 99a5bf2..0adc85e 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -216,11 +216,12 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if len(non_empty_children1) != len(non_empty_children2):
             return Isomorphism._INVALID
 
-        # Atoms
-        if not rule1.children and not rule2.children:
-            if curr1.is_atom() and curr2.is_atom():
-                if self._atom_match(curr1, curr2, rule1, rule2):
-                    return Isomorphism._VALID
+        # Atoms, which only match atoms
+        if not rule1.children or not rule2.children:
+            if not rule1.children and not rule2.children:
+                if curr1.is_atom() and curr2.is_atom():
+                    if self._atom_match(curr1, curr2, rule1, rule2):
+                        return Isomorphism._VALID
             return Isomorphism._INVALID
 
         # If different type of rules are applied, the trees are not isomorphic
-- 
2.43.0


From c291bf933f61f38e80cbf7ce5acd8db2d4fa75da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 21/32] fix: bijections where an atom corresponds to a class
 equivalent to an atom

---
 comb_spec_searcher/isomorphism.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index 0adc85e..d54755e 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -345,14 +345,15 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         rule1: AbstractRule[ClassType1, ObjType1],
         rule2: AbstractRule[ClassType2, ObjType2],
     ) -> ObjType2:
-        # If atom, we return the minimum object of the corresponding rule.
-        if not rule1.children:
-            return ParseTreeMap._min_object(rule2)
-
-        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
-        mapped_obj, idx = rule1.indexed_forward_map(obj)
+        # Only atoms have no children, and their object is not decomposed
+        mapped_obj: Tuple[Optional[ObjType1], ...] = ()
+        idx = 0
+        if rule1.children:
+            assert isinstance(rule1, Rule)
+            mapped_obj, idx = rule1.indexed_forward_map(obj)
 
         if rule2.is_equivalence():
+            assert isinstance(rule2, Rule)
             if not rule1.is_equivalence():
                 # Backward map the outcome of a recursion when
                 # we move one rule further in spec2 only.
@@ -374,10 +375,15 @@ class ParseTreeMap(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             return self.map_rec(
                 mapped_obj[0], self.domain.rules_dict[rule1.children[0]], rule2
             )
+        elif not rule1.children:
+            # If atom, we return the minimum object of the corresponding rule.
+            return ParseTreeMap._min_object(rule2)
         else:
             # Fetch the matching order to know what parts to recurse together.
             order = self.get_order[(rule1.comb_class, rule2.comb_class)]
 
+        assert isinstance(rule1, Rule) and isinstance(rule2, Rule)
+
         # Sort rule1's children to match those of rule 2
         _children = self._get_nonempty(rule1, mapped_obj)
         child_it: Iterator[
-- 
2.43.0


From 482c401c61814e61aa06b84ecbd53de23ed7505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 22/32] fix: forget the matches that rely on an ancestor when
 the ancestor fails to match

---
 comb_spec_searcher/isomorphism.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index d54755e..ca96cb2 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -114,6 +114,9 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if is_base_case:
             return bool(is_base_case + 1)
 
+        # Matches found from here on may rely on current nodes being matched
+        number_of_matches = len(self._order_map)
+
         # Update ancestors for recursion
         self._ancestors.update(product(eq_path1, eq_path2))
 
@@ -174,10 +177,14 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             Isomorphism._extend_stack(i1, n, in_use, stack)
 
         # If stack has been exhausted we have failed to match the ids. We remove them
-        # from the ancestors set, memorize the failure and remove any data gathered.
+        # from the ancestors set, memorize the failure and remove any data gathered,
+        # including the matches that may have been concluded by recursion to them.
         self._ancestors.difference_update(product(eq_path1, eq_path2))
         self._failed.add((curr1, curr2))
         self._index_data.pop((curr1, curr2), None)
+        while len(self._order_map) > number_of_matches:
+            match, _ = self._order_map.popitem()
+            self._index_data.pop(match, None)
         return False
 
     def _get_eq_descendant(
-- 
2.43.0


From 695c82dfdbc93df4604a3feafb51afa05dc84b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 23/32] fix: no bijection is constructed between specifications
 whose reverse rules cannot map

---
 comb_spec_searcher/isomorphism.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index ca96cb2..bd739c6 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -13,7 +13,7 @@ from typing import (
 )
 
 from .combinatorial_class import CombinatorialClass
-from .strategies.rule import AbstractRule, Rule
+from .strategies.rule import AbstractRule, ReverseRule, Rule
 
 if TYPE_CHECKING:
     from .combinatorial_class import CombinatorialObject
@@ -431,7 +431,11 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         spec: "CombinatorialSpecification[ClassType1, ObjType1]",
         other: "CombinatorialSpecification[ClassType2, ObjType2]",
     ) -> Optional["Bijection[ClassType1, ObjType1, ClassType2, ObjType2]"]:
-        """Create a bijection object between two specifications if possible."""
+        """Create a bijection object between two specifications if possible. It is not
+        if the objects of some class can only be counted, by subtracting or dividing
+        (a reverse rule), as there are no maps for those."""
+        if any(map(cls._only_counts, spec)) or any(map(cls._only_counts, other)):
+            return None
         iso = Isomorphism[ClassType1, ObjType1, ClassType2, ObjType2](spec, other)
         if not iso.are_isomorphic():
             return None
@@ -455,6 +459,14 @@ class Bijection(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             (c2, c1): Bijection._perm_inv(lis) for ((c1, c2), lis) in get_order.items()
         }
 
+    @staticmethod
+    def _only_counts(rule: AbstractRule) -> bool:
+        """Is it a reverse rule that cannot map objects?"""
+        return (
+            isinstance(rule, ReverseRule)
+            and len(rule.original_rule.non_empty_children()) != 1
+        )
+
     @property
     def domain(self) -> "CombinatorialSpecification[ClassType1, ObjType1]":
         """The root class of the first specification."""
-- 
2.43.0


From 17d0ba984fd66bc4479dfab48203d073ec7a1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 24/32] fix: the parallel finder answers for a searcher with an
 empty start class

---
 comb_spec_searcher/bijection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 283a5a8..52f4db9 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -132,7 +132,9 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
 
         for eq_par, eq_chi in lis:
             parent, rule = self._get_class_and_rule(eq_par, eq_chi, rule_dict)
-            assert not parent.is_empty()
+            if parent.is_empty():
+                # Only an empty root gets here, and it matches nothing.
+                continue
             if parent.is_atom():
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
-- 
2.43.0


From 2fea808211c89595433126b5279180166eccc0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 25/32] fix: the parallel finder allows atoms that have other
 rules

---
 comb_spec_searcher/bijection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 52f4db9..259e85a 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -135,15 +135,15 @@ class ParallelInfo(Generic[CombinatorialClassType, CombinatorialObjectType]):
             if parent.is_empty():
                 # Only an empty root gets here, and it matches nothing.
                 continue
-            if parent.is_atom():
+            if isinstance(rule, Rule):
+                assert len(eq_chi) > 0
+            elif parent.is_atom():
                 sz = next(
                     parent.objects_of_size(parent.minimum_size_of_object())
                 ).size()
                 self.atom_map[eq_par] = (sz, rule.get_terms(sz))
             else:
-                if not isinstance(rule, Rule):
-                    raise ValueError("Only atoms can be verified.")
-                assert len(eq_chi) > 0
+                raise ValueError("Only atoms can be verified.")
             eq_label_rules[eq_par][len(eq_chi)].append((eq_chi, rule))
         return eq_label_rules
 
-- 
2.43.0


From d9c38b6617a3c2b2f9384164c1c3b28fc4adfb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 26/32] fix: specifications of the parallel finder start at the
 start class, not its representative

---
 comb_spec_searcher/bijection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index 259e85a..db77feb 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -535,7 +535,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
     @staticmethod
     def _create_spec(d: SpecMap, pi: ParallelInfo) -> CombinatorialSpecification:
         rules = SpecificationRuleExtractor(
-            pi.root_eq_label,
+            pi.searcher.start_label,
             ParallelSpecFinder._create_tree(d, pi.root_eq_label),
             pi.ruledb,
             pi.searcher.classdb,
-- 
2.43.0


From f7d9d97328208ae3d58918a2480a2accd2b863b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 27/32] fix: the parallel finder only relies on pairs of labels
 it matched with each other

---
 comb_spec_searcher/bijection.py | 46 +++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index db77feb..bc02c55 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -389,6 +389,9 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             sp2,
         ) = ParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs visited that have not failed, in the order they were visited.
+        matched: Dict[Tuple[int, int], None] = {}
+
         # Recursive helper function that tries to populate the spec maps in a way
         # that no label appears on the LHS more than one time.
         def _rec(
@@ -398,11 +401,21 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         ) -> bool:
             # Check base cases (invalid = -1, valid = 1)
             bc = ParallelSpecFinder._search_matching_info_recursion_base_cases(
-                id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
+                id1,
+                id2,
+                matching_info,
+                matching_info1,
+                matching_info2,
+                sp1,
+                sp2,
+                matched,
             )
             if bc:
                 return bool(bc + 1)
 
+            # If we fail, the pairs visited from here on are no longer matched
+            number_of_matched = len(matched)
+
             # If ids have appeared before, we don't want to clean them when done
             rec1, rec2 = id1 in sp1, id2 in sp2
 
@@ -415,6 +428,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             ):
                 # Add rule for spec to (id -> children) for both specs
                 sp1[id1], sp2[id2] = children1, children2
+                matched[(id1, id2)] = None
 
                 # Construct cleaning sets that are passed down the recursion
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
@@ -439,6 +453,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
                 ParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
+                while len(matched) > number_of_matched:
+                    matched.popitem()
             return False
 
         if _rec(
@@ -473,6 +489,7 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: Dict[Tuple[int, int], None],
     ) -> int:
         if ParallelSpecFinder._inconsistent_with_matching_info(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
@@ -482,8 +499,8 @@ class ParallelSpecFinder(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         if ((), ()) in matching_info[(id1, id2)]:
             sp1[id1], sp2[id2] = (), ()
             return ParallelSpecFinder._VALID
-        # If both are assigned, we are done
-        if id1 in sp1 and id2 in sp2:
+        # If they are assigned to each other, we are done
+        if (id1, id2) in matched:
             return ParallelSpecFinder._VALID
         return ParallelSpecFinder._UNKNOWN
 
@@ -591,6 +608,9 @@ class EqPathParallelSpecFinder(
             sp2,
         ) = EqPathParallelSpecFinder._search_matching_info_init(matching_info)
 
+        # The pairs visited that have not failed, in the order they were visited.
+        matched: Dict[Tuple[int, int], None] = {}
+
         # For storing results of eq path checking.
         eq_path_tracker: EqPathTracker = defaultdict(lambda: defaultdict(dict))
 
@@ -607,11 +627,13 @@ class EqPathParallelSpecFinder(
                 matching_info2,
                 sp1,
                 sp2,
+                matched,
                 self._path[-1],
                 eq_path_tracker,
             )
             if bc:
                 return bool(bc + 1)
+            number_of_matched = len(matched)
             rec1, rec2 = id1 in sp1, id2 in sp2
             for children1, children2 in filter(
                 lambda c: (id1 not in sp1 or c[0] == sp1[id1])
@@ -619,6 +641,7 @@ class EqPathParallelSpecFinder(
                 matching_info[(id1, id2)],
             ):
                 sp1[id1], sp2[id2] = children1, children2
+                matched[(id1, id2)] = None
                 to_clean: Tuple[Set[int], Set[int]] = (set(), set())
 
                 # Check if the path required for the eq labels actually matches
@@ -653,6 +676,8 @@ class EqPathParallelSpecFinder(
                 EqPathParallelSpecFinder._clean_descendants(
                     *to_clean, id1, id2, sp1, sp2, rec1, rec2
                 )
+                while len(matched) > number_of_matched:
+                    matched.popitem()
             return False
 
         if _rec(
@@ -672,6 +697,7 @@ class EqPathParallelSpecFinder(
         matching_info2: MatchingInfoSingle,
         sp1: SpecMap,
         sp2: SpecMap,
+        matched: Dict[Tuple[int, int], None],
         relations: Tuple[int, int, int, int],
         eq_path_tracker: EqPathTracker,
     ) -> int:
@@ -687,9 +713,9 @@ class EqPathParallelSpecFinder(
                 return EqPathParallelSpecFinder._INVALID
             sp1[id1], sp2[id2] = (), ()
             return EqPathParallelSpecFinder._VALID
-        # If both ids are set we still need to check if they are valid in terms
-        # of eq paths since we may have arrived from different parents.
-        if id1 in sp1 and id2 in sp2:
+        # If ids are set to each other we still need to check if they are valid in
+        # terms of eq paths since we may have arrived from different parents.
+        if (id1, id2) in matched:
             if self._eq_path_matches(
                 id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
             ):
@@ -697,7 +723,7 @@ class EqPathParallelSpecFinder(
                 # can still be incompatible due to this current path's atom labels.
                 should_check = (id1, id2) not in self._path_ancestors
                 if should_check and not self._validate_atoms_for_existing_entries(
-                    id1, id2, sp1, sp2, matching_info, set()
+                    id1, id2, sp1, sp2, matching_info, matched, set()
                 ):
                     return EqPathParallelSpecFinder._INVALID
                 return EqPathParallelSpecFinder._VALID
@@ -711,6 +737,7 @@ class EqPathParallelSpecFinder(
         sp1: SpecMap,
         sp2: SpecMap,
         matching_info: MatchingInfo,
+        matched: Dict[Tuple[int, int], None],
         mem: Set[Tuple[int, int]],
     ) -> bool:
         """Check if atoms are valid for a given path, when initial ids have already
@@ -722,6 +749,9 @@ class EqPathParallelSpecFinder(
             return True
         if children1 == () == children2:
             return self._atom_path_match(id1, id2, sp1, sp2)
+        # Pairs that have not been visited yet are validated when they are
+        if (id1, id2) not in matched:
+            return True
         mem.add((id1, id2))
         for j2, ((j1, child1), child2) in enumerate(
             zip(
@@ -734,7 +764,7 @@ class EqPathParallelSpecFinder(
         ):
             self._path.append((id1, id2, j1, j2))
             check_descendant = self._validate_atoms_for_existing_entries(
-                child1, child2, sp1, sp2, matching_info, mem
+                child1, child2, sp1, sp2, matching_info, matched, mem
             )
             self._path.pop()
             if not check_descendant:
-- 
2.43.0


From f80426f6fc368798367d9ff1ff7860662cb54df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 28/32] fix: the paths to matched atoms are compared too when
 labels are shared by classes that differ

---
 comb_spec_searcher/bijection.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index bc02c55..e58faed 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -706,13 +706,21 @@ class EqPathParallelSpecFinder(
             id1, id2, matching_info, matching_info1, matching_info2, sp1, sp2
         ):
             return EqPathParallelSpecFinder._INVALID
-        # These atoms will have matches in the first searcher but we do offer
-        # additional checks which will, by default, always return true.
+        # These atoms will have matches in the first searcher but the paths to them
+        # need to match too. We also offer additional checks which will, by default,
+        # always return true.
         if ((), ()) in matching_info[(id1, id2)]:
-            if not self._atom_path_match(id1, id2, sp1, sp2):
-                return EqPathParallelSpecFinder._INVALID
-            sp1[id1], sp2[id2] = (), ()
-            return EqPathParallelSpecFinder._VALID
+            rec1, rec2 = id1 in sp1, id2 in sp2
+            if self._atom_path_match(id1, id2, sp1, sp2):
+                sp1[id1], sp2[id2] = (), ()
+                if self._eq_path_matches(
+                    id1, id2, pid1, pid2, idx1, idx2, sp1, sp2, eq_path_tracker
+                ):
+                    return EqPathParallelSpecFinder._VALID
+                EqPathParallelSpecFinder._clean_descendants(
+                    set(), set(), id1, id2, sp1, sp2, rec1, rec2
+                )
+            return EqPathParallelSpecFinder._INVALID
         # If ids are set to each other we still need to check if they are valid in
         # terms of eq paths since we may have arrived from different parents.
         if (id1, id2) in matched:
-- 
2.43.0


From 3d9d1c83f9cb6fdec33b6efa4f75d48076dfc129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 29/32] fix: copies of rules share neither cached terms nor the
 rules they are made from

Expanding a verified class copies the rules of the specification. The copies kept
the caches of terms and objects, and the original rule of an equivalence or
reverse rule: setting up and counting the new specification changed what the
original counts with.
---
 comb_spec_searcher/strategies/rule.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index bb9d69f..193dee4 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -9,6 +9,7 @@ calling the Strategy class and storing its results.
 import abc
 import random
 from collections import defaultdict
+from copy import copy
 from importlib import import_module
 from itertools import chain, product
 from typing import (
@@ -87,6 +88,18 @@ class AbstractRule(abc.ABC, Generic[CombinatorialClassType, CombinatorialObjectT
         self._non_empty_children: Optional[Tuple[CombinatorialClassType, ...]] = None
         self._shifts: Optional[Tuple[int, ...]] = None
 
+    def __copy__(self) -> "AbstractRule":
+        """
+        A copy shares neither the cached terms and objects nor the functions of the
+        specification the rule is part of.
+        """
+        res = self.__class__.__new__(self.__class__)
+        res.__dict__.update(self.__dict__)
+        res.terms_cache, res.objects_cache = TermsCache(), []
+        res.subrecs = res.subgenerators = res.subsamplers = None
+        res.subterms = res.subobjects = None
+        return res
+
     def to_jsonable(self) -> dict:
         d = {
             "class_module": self.__class__.__module__,
@@ -735,6 +748,11 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
         self.original_rule = rule
         self._constructor: Optional[Union[DisjointUnion, Complement]] = None
 
+    def __copy__(self) -> "EquivalenceRule":
+        res = cast("EquivalenceRule", super().__copy__())
+        res.original_rule = copy(self.original_rule)
+        return res
+
     def to_jsonable(self) -> dict:
         d = super().to_jsonable()
         d.pop("comb_class")
@@ -989,6 +1007,11 @@ class ReverseRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
         self.idx = idx  # the idx of the child to be counted.
         self._constructor: Optional[Constructor] = None
 
+    def __copy__(self) -> "ReverseRule":
+        res = cast("ReverseRule", super().__copy__())
+        res.original_rule = copy(self.original_rule)
+        return res
+
     def to_jsonable(self) -> dict:
         d = super().to_jsonable()
         d.pop("comb_class")
-- 
2.43.0


From 71304b679f78d88c317e924a5a01dabd3504658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:21 +0000
Subject: [PATCH 30/32] fix: the isomorphism test follows equivalence rules
 until there are no more

An equivalence path of a specification ends early at a class that other rules
need, so one path may be followed by another.
---
 comb_spec_searcher/isomorphism.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/comb_spec_searcher/isomorphism.py b/comb_spec_searcher/isomorphism.py
index bd739c6..219d292 100644
--- a/comb_spec_searcher/isomorphism.py
+++ b/comb_spec_searcher/isomorphism.py
@@ -147,8 +147,8 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
             self._path_tracker_push(
                 non_empty_ind1[i1],
                 non_empty_ind2[i2],
-                len(eq_path1) > 1,
-                len(eq_path2) > 1,
+                len(eq_path1) - 1,
+                len(eq_path2) - 1,
             )
 
             # Call _are_isomorphic recursively for current pair
@@ -191,12 +191,12 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         self, node1: ClassType1, node2: ClassType2
     ) -> Tuple[List[ClassType1], List[ClassType2]]:
         """Get path to nodes that are not on the LHS of equivalence rules."""
-        rule1, rule2 = self._rules1[node1], self._rules2[node2]
         nodes1, nodes2 = [node1], [node2]
-        if rule1.is_equivalence():
-            nodes1.append(rule1.children[0])
-        if rule2.is_equivalence():
-            nodes2.append(rule2.children[0])
+        # An equivalence path ends early at a node that is needed by other rules
+        while self._rules1[nodes1[-1]].is_equivalence():
+            nodes1.append(self._rules1[nodes1[-1]].children[0])
+        while self._rules2[nodes2[-1]].is_equivalence():
+            nodes2.append(self._rules2[nodes2[-1]].children[0])
         return nodes1, nodes2
 
     def _base_cases(
@@ -243,11 +243,11 @@ class Isomorphism(Generic[ClassType1, ObjType1, ClassType2, ObjType2]):
         return Isomorphism._UNKNOWN
 
     def _path_tracker_push(
-        self, c1: int, c2: int, eq_path1: bool, eq_path2: bool
+        self, c1: int, c2: int, eq_rules1: int, eq_rules2: int
     ) -> None:
         """Store the path being taken."""
-        t1 = (0, c1) if eq_path1 else (c1,)
-        t2 = (0, c2) if eq_path2 else (c2,)
+        t1 = (0,) * eq_rules1 + (c1,)
+        t2 = (0,) * eq_rules2 + (c2,)
         self._path_tracker.append((t1, t2))
 
     def _path_tracker_pop(self) -> None:
-- 
2.43.0


From 01ce1a228134a6fd57af1ca847e04bb52b77cff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 31/32] fix: whether paths match depends on the child of the
 parent they start at

The cache of comparisons of paths was shared by different children of a parent
(and by different rules of it).
---
 comb_spec_searcher/bijection.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/comb_spec_searcher/bijection.py b/comb_spec_searcher/bijection.py
index e58faed..5b53409 100644
--- a/comb_spec_searcher/bijection.py
+++ b/comb_spec_searcher/bijection.py
@@ -60,8 +60,8 @@ RuleClassification = DefaultDict[
 EqPathTracker = DefaultDict[
     Tuple[int, int],
     DefaultDict[
-        Tuple[int, int],
-        Dict[Tuple[Tuple[int, ...], Tuple[int, ...]], bool],
+        Tuple[int, int, int, int],
+        Dict[Tuple[Optional[Tuple[int, ...]], ...], bool],
     ],
 ]
 
@@ -801,8 +801,9 @@ class EqPathParallelSpecFinder(
         if the actual rules required (disregarding actual equivalence rules) to traverse
         this path match.
         """
-        children = (sp1[id1], sp2[id2])
-        children_cache = cache[(id1, id2)][(pid1, pid2)]
+        # The start of a path is given by the rule of the parent and the child of it
+        children = (sp1[id1], sp2[id2], sp1.get(pid1), sp2.get(pid2))
+        children_cache = cache[(id1, id2)][(pid1, pid2, idx1, idx2)]
         if children not in children_cache:
             path1 = EquivalenceRuleExtractor(
                 self._pi1.root_eq_label,
-- 
2.43.0


From 12ee04f2c57df7ad1614c13bc01601a56f17bd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 32/32] fix: the reverse of an equivalence rule need not be an
 equivalence rule

The reverse of a union whose other children are empty is an equivalence
rule only when it does not lose a parameter. EquivalenceRule.to_reverse_rule
asserted it always was, and building the specification failed with
'EquivalenceRule can only be created for equivalence rules'.
---
 comb_spec_searcher/strategies/rule.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/comb_spec_searcher/strategies/rule.py b/comb_spec_searcher/strategies/rule.py
index 193dee4..0a05fac 100644
--- a/comb_spec_searcher/strategies/rule.py
+++ b/comb_spec_searcher/strategies/rule.py
@@ -805,9 +805,11 @@ class EquivalenceRule(Rule[CombinatorialClassType, CombinatorialObjectType]):
     ) -> bool:
         return True
 
-    def to_reverse_rule(self, idx: int) -> "EquivalenceRule":
+    def to_reverse_rule(self, idx: int) -> "Rule":
         assert idx == 0
-        return self.original_rule.to_reverse_rule(self.child_idx).to_equivalence_rule()
+        rule = self.original_rule.to_reverse_rule(self.child_idx)
+        # The reverse is not an equivalence rule if it loses a parameter
+        return rule.to_equivalence_rule() if rule.is_equivalence() else rule
 
     def to_equivalence_rule(self) -> "EquivalenceRule":
         raise NotImplementedError("You don't want to do that! I promise")
-- 
2.43.0

