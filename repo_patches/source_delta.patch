From d8f9aa62f62303962b70c3d05e91fb8636b12a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 01/94] fix: give partial reversed slices of diagrams their own
 boundary types

---
 lambeq/backend/grammar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7d9026c..f74006b 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1000,7 +1000,11 @@ class Diagram(Entity):
         if isinstance(key, slice):
             if key.step == -1:
                 layers = [layer.dagger() for layer in self.layers[key]]
-                return type(self)(self.cod, self.dom, layers)
+                if not layers:
+                    start = key.indices(len(self))[0] + 1
+                    return self.id(self.layers[start].dom
+                                   if start < len(self) else self.cod)
+                return type(self)(layers[0].dom, layers[-1].cod, layers)
             if (key.step or 1) != 1:
                 raise IndexError
             layers = self.layers[key]
-- 
2.43.0


From 3fce36b0fe4f0c1c35c8edf374078e0c2ad8ae48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 02/94] fix: honour is_reversed for composite cups and caps and
 in to_left/to_right

---
 lambeq/backend/grammar.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index f74006b..56bcbaa 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1466,7 +1466,7 @@ class Cap(Box):
 
             diagram = cls.category.Diagram.id()
             for i, (l_ob, r_ob) in enumerate(zip(left, reversed(right))):
-                diagram = diagram.then_at(cls(l_ob, r_ob), i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed), i)
             return diagram
 
     def __reduce__(self):
@@ -1479,11 +1479,15 @@ class Cap(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.r if is_reversed else left.l)
+        return cls(left,
+                   left.r if is_reversed else left.l,
+                   is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.l if is_reversed else right.r, right)
+        return cls(right.l if is_reversed else right.r,
+                   right,
+                   is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cap."""
@@ -1593,7 +1597,8 @@ class Cup(Box):
 
             diagram = cls.category.Diagram.id(left @ right)
             for i, (l_ob, r_ob) in enumerate(zip(reversed(left), right)):
-                diagram = diagram.then_at(cls(l_ob, r_ob), len(left) - 1 - i)
+                diagram = diagram.then_at(cls(l_ob, r_ob, is_reversed),
+                                          len(left) - 1 - i)
             return diagram
 
     def __reduce__(self):
@@ -1606,11 +1611,15 @@ class Cup(Box):
 
     @classmethod
     def to_right(cls, left: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(left, left.l if is_reversed else left.r)
+        return cls(left,
+                   left.l if is_reversed else left.r,
+                   is_reversed)
 
     @classmethod
     def to_left(cls, right: Ty, is_reversed: bool = False) -> Self | Diagram:
-        return cls(right.r if is_reversed else right.l, right)
+        return cls(right.r if is_reversed else right.l,
+                   right,
+                   is_reversed)
 
     def rotate(self, z: int) -> Self:
         """Rotate the cup."""
-- 
2.43.0


From 23be27f0e54979cff02bb20ef4e223f6ed6350c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 03/94] fix: allow spiders over the empty type (tensor with no
 operands)

---
 lambeq/backend/grammar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 56bcbaa..455799a 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -967,7 +967,7 @@ class Diagram(Entity):
         except ValueError:
             return NotImplemented   # type: ignore[no-any-return]
 
-        right = dom = self.dom.tensor(*[
+        right = dom = self.dom.tensor([
             diagram.to_diagram().dom for diagram in diagrams
         ])
         left = self.category.Ty()
-- 
2.43.0


From 6b278ee5c89bbec55c372da5a69222f696f7b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:22 +0000
Subject: [PATCH 04/94] fix: do not cache the image of an ill-typed arrow

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 455799a..b733d4d 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2091,8 +2091,6 @@ class Functor:
         else:
             ret = self.target_category.Diagram.id(self.ob_with_cache(ar.dom))
 
-        self.ar_cache[ar] = ret
-
         cod_check = self.ob_with_cache(ar.cod)
         dom_check = self.ob_with_cache(ar.dom)
         if ret.cod != cod_check or ret.dom != dom_check:
@@ -2100,6 +2098,8 @@ class Functor:
                             f'to a box returns dom = {ret.dom}, cod = '
                             f'{ret.cod} expected dom = {dom_check}, cod = '
                             f'{cod_check}')
+
+        self.ar_cache[ar] = ret
         return ret
 
     def ob(self, ob: Ty) -> Ty:
-- 
2.43.0


From 59b7668aab178d00d038f53a2f277b90d7a4a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 05/94] fix: read JSON of daggered words and of frames with
 boxes, words or daggers inside

---
 lambeq/backend/grammar.py | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index b733d4d..d3a8097 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -1708,7 +1708,7 @@ class Daggered(Box):
     def from_json(cls, data: _JSONDictT | str) -> Self:
         data_dict = json.loads(data) if isinstance(data, str) else data
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
-        box = cls.category.Box.from_json(data_dict['box'])
+        box = cls.category.from_json(data_dict['box'])
 
         return box.dagger()  # type: ignore[return-value]
 
@@ -2203,21 +2203,9 @@ class Frame(Box):
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
-        components = []
-        for component_json in data_dict['components']:
-            component_entity = component_json['entity']
-            if component_entity == 'Diagram':
-                component = cls.category.Diagram.from_json(component_json)
-            else:
-                comp_cls = cls.category.Diagram.special_boxes[
-                    component_entity.lower()
-                ]
-                component = comp_cls.from_json(    # type: ignore[attr-defined]
-                    component_json
-                )
-            components.append(component)
-
-        data_dict['components'] = components
+        data_dict['components'] = [cls.category.from_json(component_data)
+                                   for component_data
+                                   in data_dict['components']]
 
         return cls(**data_dict)
 
-- 
2.43.0


From d7e18a77237b1d3c35085aa7892cfc9a2c0f8b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:36 +0000
Subject: [PATCH 06/94] fix: do not consume the caller's dictionary when
 reading JSON

---
 lambeq/backend/grammar.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index d3a8097..7ea55e4 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -96,7 +96,8 @@ class Category:
             a :py:class:`~lambeq.backend.Box` subclass,
             or a :py:class:`~lambeq.backend.Diagram` instance.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _entity_mapping = {
             'Cap': Cap,
             'Cup': Cup,
@@ -365,7 +366,8 @@ class Ty(Entity):
         :py:class:`~lambeq.backend.Ty`
             The type generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['objects'] = [cls.from_json(obj_data)
                                 for obj_data
@@ -540,7 +542,8 @@ class Box(Entity):
         :py:class:`~lambeq.backend.Box`
             The box generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -647,7 +650,8 @@ class Layer(Entity):
         :py:class:`~lambeq.backend.grammar.Layer`
             The layer generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         _entity_mapping = {
@@ -1340,7 +1344,8 @@ class Diagram(Entity):
         :py:class:`~lambeq.backend.Diagram`
             The diagram generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -1515,7 +1520,8 @@ class Cap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1649,7 +1655,8 @@ class Cup(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1706,7 +1713,8 @@ class Daggered(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         box = cls.category.from_json(data_dict['box'])
 
@@ -1809,7 +1817,8 @@ class Spider(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['type'] = cls.category.Ty.from_json(data_dict['type'])
 
@@ -1902,7 +1911,8 @@ class Swap(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['left'] = cls.category.Ty.from_json(data_dict['left'])
         data_dict['right'] = cls.category.Ty.from_json(data_dict['right'])
@@ -1963,7 +1973,8 @@ class Word(Box):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
 
@@ -2199,7 +2210,8 @@ class Frame(Box):
         :py:class:`~lambeq.backend.Frame`
             The frame generated from the JSON data.
         """
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         data_dict['dom'] = cls.category.Ty.from_json(data_dict['dom'])
         data_dict['cod'] = cls.category.Ty.from_json(data_dict['cod'])
@@ -2273,7 +2285,8 @@ class DaggeredFrame(Frame):
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> DaggeredFrame:
-        data_dict = json.loads(data) if isinstance(data, str) else data
+        data_dict = (json.loads(data) if isinstance(data, str)
+                     else dict(data))
         _, _ = data_dict.pop('category', None), data_dict.pop('entity')
         frame_cls = cls.category.Diagram.special_boxes['frame']
         frame = frame_cls.from_json(     # type: ignore[attr-defined]
-- 
2.43.0


From 9e603e72a9fe0c313c8864f4df49d5975a2b6954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:40 +0000
Subject: [PATCH 07/94] fix: do not straighten a cap against a cup of the
 opposite orientation

---
 lambeq/backend/snake_removal.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/snake_removal.py b/lambeq/backend/snake_removal.py
index 346802e..20ed450 100644
--- a/lambeq/backend/snake_removal.py
+++ b/lambeq/backend/snake_removal.py
@@ -116,7 +116,15 @@ def snake_removal(diagram: Diagram, left: bool = False) -> Iterator[Diagram]:
                                     and diagram.offsets[cup] != wire))
                 if not_yankable:
                     continue
-                return cup, cap, obstructions, left_snake
+                cap_box, cup_box = diagram.boxes[cap], diagram.boxes[cup]
+                # Straightening is only valid if the other ends of the
+                # cup and the cap have the same type.
+                if left_snake:
+                    same_type = cup_box.left == cap_box.right
+                else:
+                    same_type = cup_box.right == cap_box.left
+                if same_type:
+                    return cup, cap, obstructions, left_snake
         return None
 
     def unsnake(diagram: Diagram,
-- 
2.43.0


From 275694b0aa8501242f33db4984ab0eadf25a3cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 08/94] fix: caps and cups of dimension three or more are
 identity tensors

---
 lambeq/backend/tensor.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 00cc12b..21f757b 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -453,10 +453,7 @@ class Cap(grammar.Cap, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
@@ -494,10 +491,7 @@ class Cup(grammar.Cup, Box):
 
         super().__init__(left, right)
 
-        arr = np.zeros(left.product ** 2)
-        arr[0] = 1
-        arr[-1] = 1
-        self.data = arr
+        self.data = np.eye(left.product).flatten()
 
     __hash__ = Box.__hash__
     __repr__ = Box.__repr__
-- 
2.43.0


From e407fd39aa681abb006f6a3f3079ca8b70d14e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 09/94] fix: conjugate boxes whose data is not given in tensor
 shape

---
 lambeq/backend/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 21f757b..6ef627a 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -198,7 +198,11 @@ class Box(grammar.Box):
 
         dom, cod = self.dom, self.cod
         with backend() as np:
-            array = np.moveaxis(self.data,
+            # The data is that of the original box, before its wires were
+            # reversed, and may be given in any shape
+            data = np.array(self.data).reshape(dom.dim[::-1]
+                                               + cod.dim[::-1])
+            array = np.moveaxis(data,
                                 range(len(dom @ cod)),
                                 [len(dom) - i - 1
                                     for i in range(len(dom @ cod))])
-- 
2.43.0


From faedf7ed17367f5b2e4b78d317666fab69b22866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 10/94] fix: lambdify keeps the winding number of a tensor box

---
 lambeq/backend/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 6ef627a..91114c2 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -284,7 +284,7 @@ class Box(grammar.Box):
 
         return lambda *xs: type(self)(
             self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs))
+            lambdify(symbols, self.data)(*xs), self.z)
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From 4596a6bdbdf4efd6953b30afbb96108ffd155447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 11/94] fix: a spider without legs is the dimension of its type

---
 lambeq/backend/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 91114c2..dfd34d2 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -402,7 +402,11 @@ class Diagram(grammar.Diagram):
                 tn.connect(scan[len(l)], scan[len(l) + 1])
                 del scan[len(l): len(l) + 2]
             else:
-                if isinstance(box, Spider):
+                if isinstance(box, Spider) and not box.dom and not box.cod:
+                    # A closed loop, which is not an (empty) copy tensor
+                    node = tn.Node(get_backend().array(box.type.product),
+                                   backend=backend)
+                elif isinstance(box, Spider):
                     node = tn.CopyNode(box.n_legs_in + box.n_legs_out,
                                        box.type.product, dtype=dtype,
                                        backend=backend)
-- 
2.43.0


From d0f7df5a2f308ce628b4d9583a9325dc6fe86762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 12/94] fix: evaluate a diagram without any boxes or wires

---
 lambeq/backend/tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index dfd34d2..99311dc 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -424,6 +424,10 @@ class Diagram(grammar.Diagram):
                         + node[len(box.dom):]
                         + scan[len(l) + len(box.dom):])
 
+        if not nodes:
+            # An empty network can not be contracted
+            nodes.append(tn.Node(get_backend().array(1), backend=backend))
+
         # nodes, input_edge_order, output_edge_order
         return nodes, inputs + scan
 
-- 
2.43.0


From c9fa8409113d8a317ac388da18ed2992d8a23d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 13/94] fix: mixed evaluation of swaps of bits and of classical
 boxes

---
 lambeq/backend/quantum.py | 61 +++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 5f836f5..b2cb57d 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -514,9 +514,26 @@ class Diagram(tensor.Diagram):
             c_offset = list(left).count(bit)
             q_offset = list(left).count(qubit)
 
-            if isinstance(box, Swap) and box.is_classical:
-                c_scan[q_offset], c_scan[q_offset + 1] = (c_scan[q_offset + 1],
-                                                          c_scan[q_offset])
+            if isinstance(box, Swap):
+                if box.left != box.right:
+                    # Classical and quantum wires are stored separately
+                    continue
+
+                scans, offset = (((c_scan,), c_offset) if box.is_classical
+                                 else ((q_scan1, q_scan2), q_offset))
+                for scan in scans:
+                    scan[offset], scan[offset + 1] = (scan[offset + 1],
+                                                      scan[offset])
+
+            elif box.is_classical:
+                node = tn.Node(box.array + 0j, 'c_' + str(box))
+                n_dom = len(box.dom)
+
+                for i in range(n_dom):
+                    tn.connect(c_scan[c_offset + i], node[i])
+
+                c_scan[c_offset:c_offset + n_dom] = node[n_dom:]
+                nodes.append(node)
 
             elif isinstance(box, Discard):
                 tn.connect(q_scan1[q_offset], q_scan2[q_offset])
@@ -558,28 +575,22 @@ class Diagram(tensor.Diagram):
             else:
                 # Purely quantum box
 
-                if isinstance(box, Swap):
-                    for scan in (q_scan1, q_scan2):
-                        (scan[q_offset],
-                         scan[q_offset + 1]) = (scan[q_offset + 1],
-                                                scan[q_offset])
-                else:
-                    utensor = box.array
-                    node1 = tn.Node(utensor + 0j, 'q1_' + str(box))
-                    with backend() as np:
-                        node2 = tn.Node(np.conj(utensor) + 0j,
-                                        'q2_' + str(box))
-
-                    for i in range(len(box.dom)):
-                        tn.connect(q_scan1[q_offset + i], node1[i])
-                        tn.connect(q_scan2[q_offset + i], node2[i])
-
-                    q_scan1[q_offset:q_offset
-                            + len(box.dom)] = node1[len(box.dom):]
-                    q_scan2[q_offset:q_offset
-                            + len(box.dom)] = node2[len(box.dom):]
-
-                    nodes.extend([node1, node2])
+                utensor = box.array
+                node1 = tn.Node(utensor + 0j, 'q1_' + str(box))
+                with backend() as np:
+                    node2 = tn.Node(np.conj(utensor) + 0j,
+                                    'q2_' + str(box))
+
+                for i in range(len(box.dom)):
+                    tn.connect(q_scan1[q_offset + i], node1[i])
+                    tn.connect(q_scan2[q_offset + i], node2[i])
+
+                q_scan1[q_offset:q_offset
+                        + len(box.dom)] = node1[len(box.dom):]
+                q_scan2[q_offset:q_offset
+                        + len(box.dom)] = node2[len(box.dom):]
+
+                nodes.extend([node1, node2])
 
         outputs = c_scan + q_scan1 + q_scan2
 
-- 
2.43.0


From 20f7fce1386caaeb7c6ccdf29d6d322dcf8e5c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 14/94] fix: mixed evaluation of a circuit without any boxes or
 wires

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index b2cb57d..2e30d56 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -594,6 +594,10 @@ class Diagram(tensor.Diagram):
 
         outputs = c_scan + q_scan1 + q_scan2
 
+        if not nodes:
+            # An empty network can not be contracted
+            nodes.append(tn.Node(get_backend().array(1 + 0j)))
+
         return nodes, inputs + outputs
 
     __hash__: Callable[[], int] = tensor.Diagram.__hash__
-- 
2.43.0


From 5591969308ad7de9d89850d1e6a45cead7e78238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 15/94] fix: rotate scalars (and so the cups and caps of
 qubits)

---
 lambeq/backend/quantum.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 2e30d56..404502b 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1103,6 +1103,10 @@ class Scalar(Box):
     def dagger(self):
         return replace(self, data=self.data.conjugate())
 
+    def rotate(self, z):
+        """Conjugate the scalar."""
+        return self.dagger() if z % 2 else self
+
 
 @dataclass
 class Sqrt(Scalar):
-- 
2.43.0


From 0526e212eef7cba6e6377483cade11921b15e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:24 +0000
Subject: [PATCH 16/94] fix: a tensor box is not equal to its conjugate

---
 lambeq/backend/tensor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 99311dc..b160fd8 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -170,6 +170,7 @@ class Box(grammar.Box):
         return (self.name == other.name
                 and self.dom == other.dom
                 and self.cod == other.cod
+                and self.z == other.z
                 and np.equal(self.data, other.data).all())
 
     @property
-- 
2.43.0


From 9a39180fb33bdac270d3e8bd06bbed95a280488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 17/94] fix: bits are self-conjugate, like kets (rotating one
 raised TypeError)

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 404502b..e834802 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1173,7 +1173,7 @@ class Daggered(tensor.Daggered, Box):
     __repr__: Callable[[Box], str] = Box.__repr__   # type: ignore[assignment]
 
 
-class Bit(Box):
+class Bit(SelfConjugate):
     """Classical state for a given bit."""
 
     def __new__(cls, *bitstring: int):
-- 
2.43.0


From 3cb0e90bfc4ce19e57cc9984c95907201f0d1a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:21 +0000
Subject: [PATCH 18/94] fix: apply gates to qubits that are not adjacent or not
 in order

---
 lambeq/backend/quantum.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index e834802..68db110 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -251,7 +251,17 @@ class Diagram(tensor.Diagram):
 
         else:
             assert len(qubits) == len(gate.dom)
-            return self.then_at(gate, min(qubits))
+            min_idx, width = min(qubits), max(qubits) - min(qubits) + 1
+            wires = [i - min_idx for i in qubits]
+
+            if wires == [*range(width)]:
+                return self.then_at(gate, min_idx)
+
+            # Bring the qubits together, in the order given
+            wires += [i for i in range(width) if i not in wires]
+            perm = type(self).permutation(qubit ** width, wires)
+            rest = qubit ** (width - len(qubits))
+            return self.then_at(perm >> gate @ rest >> perm.dagger(), min_idx)
 
     @property
     def is_mixed(self) -> bool:
-- 
2.43.0


From ec75987743cedcc496e911904eb8990e27d8ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 19/94] fix: keep the phase of CRy gates in the gate list

---
 lambeq/backend/quantum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 68db110..9f1f292 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1629,7 +1629,7 @@ class Gate:
             control = sorted(qubits[:-1])
             gate_q = qubits[-1]
 
-            if gtype in ('CRx', 'CRz'):
+            if gtype in ('CRx', 'CRy', 'CRz'):
                 phase = box.phase
                 if use_sympy and isinstance(box.phase, Symbol):
                     # Tket uses sympy, lambeq uses custom symbol
-- 
2.43.0


From d9f5151a0ea3edec705778c78e036714873023d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 20/94] fix: a diagram with gates after measurements or
 post-selections is not circuital

---
 lambeq/backend/quantum.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 9f1f292..77ca44a 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -311,17 +311,13 @@ class Diagram(tensor.Diagram):
             if len(qubit_layer.right):
                 return False
 
-        # Check there are no gates in between post-selections.
-        measure_idx = [i for i, layer in enumerate(layers[num_qubits:])
-                       if isinstance(layer.box, (Discard, Bra))]
-        if not measure_idx:
-            return True
-        mmax = max(measure_idx)
-        mmin = min(measure_idx)
-        for i, gate in enumerate(layers[num_qubits:]):
-            if not isinstance(gate.box, (Discard, Bra, Measure)):
-                if i > mmin and i < mmax:
-                    return False
+        # Check there are no gates after measurements or post-selections.
+        measured = False
+        for layer in layers[num_qubits:]:
+            if isinstance(layer.box, (Discard, Bra, Measure)):
+                measured = True
+            elif measured or isinstance(layer.box, Ket):
+                return False
 
         return True
 
-- 
2.43.0


From 4a91b9bd3811bea549a8049f76487a957bf78296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 21/94] fix: pull qubits through nested controlled gates

---
 lambeq/backend/quantum.py | 58 ++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 77ca44a..90eefee 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -316,7 +316,7 @@ class Diagram(tensor.Diagram):
         for layer in layers[num_qubits:]:
             if isinstance(layer.box, (Discard, Bra, Measure)):
                 measured = True
-            elif measured or isinstance(layer.box, Ket):
+            elif measured:
                 return False
 
         return True
@@ -1384,6 +1384,25 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return gates, q_idx
 
+    def skip_qubit(box: Controlled, idx: int) -> Controlled:
+        """
+            Widens a controlled box by a qubit which it does not act on.
+            idx: the (relative) index of the new qubit, inside the box
+        """
+        inner, dist = box.controlled, box.distance
+        # Index of the new qubit relative to the controlled box
+        inner_idx = idx - dist if dist > 0 else idx
+
+        if 0 < inner_idx < len(inner.dom):
+            if not isinstance(inner, Controlled):
+                raise NotImplementedError('Cannot pull qubit through '
+                                          f'box {inner}')
+            inner = skip_qubit(inner, inner_idx)
+        else:
+            dist += 1 if dist > 0 else -1
+
+        return Controlled(inner, dist)
+
     def pull_qubit_through(q_idx: int,
                            gates: list[Layer],
                            dom: Ty = qubit) -> tuple[list[Layer], int]:  # noqa: E501
@@ -1414,38 +1433,11 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
             else:
                 if isinstance(gate_layer.box, Controlled):
-                    gate_qubits = [len(gate_layer.left) + j
-                                   for j in range(len(gate_layer.box.dom))]
-
-                    # Initial control qubit box
-                    dists = [0]
-                    curr_box: Box | Controlled = gate_layer.box
-                    while isinstance(curr_box, Controlled):
-                        # Compute relative index control qubits
-                        dists.append(curr_box.distance + sum(dists))
-                        curr_box = curr_box.controlled
-
-                    prev_pos = -1 * min(dists) + gate_qubits[0]
-                    curr_box = gate_layer.box
-
-                    while isinstance(curr_box, Controlled):
-                        curr_pos = prev_pos + curr_box.distance
-                        if prev_pos < q_idx and q_idx <= curr_pos:
-                            curr_box.distance = curr_box.distance + 1
-
-                        elif q_idx <= prev_pos and q_idx > curr_pos:
-                            curr_box.distance = curr_box.distance - 1
-
-                        prev_pos = curr_pos
-                        curr_box = curr_box.controlled
-
-                    box = gate_layer.box
-
-                    box.dom = box.dom.insert(dom, q_idx - l_size)
-                    box.cod = box.cod.insert(dom, q_idx - l_size)
+                    gate_layer.box = skip_qubit(gate_layer.box,
+                                                q_idx - l_size)
                     new_gates.append(gate_layer)
 
-                if isinstance(gate_layer.box, Swap):
+                elif isinstance(gate_layer.box, Swap):
 
                     """
                     Replace single swap with a series of swaps
@@ -1462,6 +1454,10 @@ def to_circuital(diagram: Diagram) -> Diagram:
                                      Swap(qubit, qubit),
                                      dom >> gate_layer.right))
 
+                else:
+                    raise NotImplementedError('Cannot pull qubit through '
+                                              f'box {gate_layer}')
+
         return new_gates, q_idx
 
     def build_left_right(q_idx: int,
-- 
2.43.0


From fabd01554ee2858a9e29220e3c86d1051e99659b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:20 +0000
Subject: [PATCH 22/94] fix: keep track of measured wires in the circuital form

---
 lambeq/backend/quantum.py | 142 ++++++++++++--------------------------
 1 file changed, 43 insertions(+), 99 deletions(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 90eefee..8250457 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1275,8 +1275,7 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
     qubits: list[Layer] = []
     gates: list[Layer] = []
-    measures: list[Layer] = []
-    postselect: list[Layer] = []
+    postselect: list[tuple[int, Layer]] = []
     circuit = circuit.init_and_discard()
 
     #  Cleans up any '1' kets and converts them to X|0> -> |1>
@@ -1311,78 +1310,52 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return qubits, pull_qubit_through(offset, gates, dom=layer.box.cod)[0]
 
-    def construct_measurements(last_layer: Layer,
-                               post_selects: list[Layer]) -> list[Layer]:
-        # Change to accommodate measurements before
-        total_qubits = (len(last_layer.left)
-                        + len(last_layer.box.cod)
-                        + len(last_layer.right))
-
+    def construct_measurements(total_qubits: int,
+                               post_selects: list[tuple[int, Layer]]
+                               ) -> list[Layer]:
         bit_idx = list(range(total_qubits))
         q_idx = {}
-        for layer in post_selects:
-            # Find the qubit for each post selection
-            q_idx[bit_idx[len(layer.left)]] = layer
-            bit_idx.remove(bit_idx[len(layer.left)])
-
-        # Inserting to the left is always trivial
-        total_layer = ([*last_layer.left] + [*last_layer.box.cod]
-                       + [*last_layer.right])
+        for idx, layer in post_selects:
+            # Find the qubit for each measurement or post selection
+            key = bit_idx[idx]
+            q_idx[key] = layer
+            if not isinstance(layer.box, Measure):
+                bit_idx.remove(key)
 
         new_postselects = []
         for key in sorted(q_idx.keys()):
             bits_left = sum([1 for i in bit_idx if i < key])
             q_idx[key].left = bit ** bits_left
-            q_idx[key].right = q_idx[key].right._fromiter(total_layer[key+1:])
+            q_idx[key].right = qubit ** (total_qubits - key - 1)
             new_postselects.append(q_idx[key])
 
         return new_postselects
 
-    def pull_bit_through(q_idx: int,
-                         gates: list[Layer],
-                         layer: Layer) -> tuple[list[Layer], int]:
+    def defer_measurement(q_idx: int, layers: list[Layer]) -> int:
         """
-            Inserts a qubit type into every layer at the appropriate index
-            q_idx: idx - index of where to insert the gate.
+            Replaces a measured bit with its qubit in every layer.
+            q_idx: index of the wire to replace.
         """
-
-        for i, gate_layer in enumerate(gates):  # noqa: B007
-
-            l_size = len(gate_layer.left)
-            c_size = len(gate_layer.box.cod)
-            d_size = len(gate_layer.box.dom)
-
-            # Inserting to the left is always trivial
-            if q_idx == l_size:
-                break
-            elif q_idx < l_size:
-                gate_layer.left = gate_layer.left.replace(qubit, q_idx)
-            # Qubit on right of gate. Handles 1 qubit gates by l(dom) = 1
-            elif q_idx > l_size + len(gate_layer.box.dom) - 1:
-
-                # Index relative to the 1st qubit on right
-                r_rel = q_idx - (l_size + len(gate_layer.box.dom))
-
-                # Insert on right. Update relative index from the left
-                gate_layer.right = gate_layer.right.replace(qubit, r_rel)
-
-                q_idx = r_rel + l_size + len(gate_layer.box.cod)
-
-            elif c_size == d_size:
-                # Initial control qubit box
-                box = gate_layer.box
-                box.dom = box.dom.replace(qubit, q_idx - l_size)
-                box.cod = box.cod.replace(qubit, q_idx - l_size)
-
+        for layer in layers:
+            l_size = len(layer.left)
+            d_size = len(layer.box.dom)
+
+            if q_idx < l_size:
+                layer.left = layer.left.replace(qubit, q_idx)
+            elif q_idx >= l_size + d_size:
+                layer.right = layer.right.replace(qubit,
+                                                  q_idx - l_size - d_size)
+                q_idx += len(layer.box.cod) - d_size
+            elif isinstance(layer.box, Swap):
+                types = [*layer.box.dom]
+                types[q_idx - l_size] = qubit
+                layer.box = Swap(*types)
+                q_idx = 2 * l_size + 1 - q_idx
             else:
-                raise NotImplementedError('Cannot pull bit through '
-                                          f'box {gate_layer}')
-
-        # Insert layer back into list and remove from the original
-        layer = build_left_right(q_idx, layer, [gates[i-1]])
-        gates.insert(i, layer)
+                raise NotImplementedError('Cannot defer measurement through '
+                                          f'box {layer}')
 
-        return gates, q_idx
+        return q_idx
 
     def skip_qubit(box: Controlled, idx: int) -> Controlled:
         """
@@ -1460,39 +1433,6 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
         return new_gates, q_idx
 
-    def build_left_right(q_idx: int,
-                         layer: Layer,
-                         layers: list[Layer]) -> Layer:
-        """
-        We assume that the left and right are constructable
-        from the last gate
-        and the left position of the bra.
-        (We type check at the end.)
-        Rebuild left and right based on the last layer
-        """
-        if len(layers) == 0:
-            return layer
-
-        gate_layer = layers[-1]
-
-        total_layer = ([*gate_layer.left] + [*gate_layer.box.cod]
-                       + [*gate_layer.right])
-
-        # Assumes you're only inserting one qubit at a time
-        total_layer[q_idx] = layer.box.cod
-
-        if q_idx == 0 or not total_layer[:q_idx]:
-            layer.left = Ty()
-        else:
-            layer.left = layer.left._fromiter(total_layer[:q_idx])
-
-        if q_idx == len(total_layer) - 1 or not total_layer[q_idx+1:]:
-            layer.right = Ty()
-        else:
-            layer.right = layer.right._fromiter(total_layer[q_idx+1:])
-
-        return layer
-
     circuit = Functor(target_category=quantum,
                       ob=lambda _, x: x,
                       ar=remove_ketbra1)(circuit)  # type: ignore [arg-type]
@@ -1511,22 +1451,23 @@ def to_circuital(diagram: Diagram) -> Diagram:
 
             q_idx = len(layer.left)
             layers[i+1:], q_idx = pull_qubit_through(q_idx, layers[i+1:])
-            layer = build_left_right(q_idx, layer, layers[i+1 :])
+            postselect.insert(0, (q_idx, layer))
 
-            postselect.insert(0, layer)
+        elif isinstance(layer.box, Measure):
+            q_idx = defer_measurement(len(layer.left), layers[i+1:])
+            postselect.insert(0, (q_idx, layer))
 
         else:
             gates.append(layer)
 
-    if gates:
-        postselect = construct_measurements(gates[-1], postselect)
+    measures = construct_measurements(len(qubits), postselect)
 
     # Rebuild the diagram
     diags = [Diagram(dom=layer.dom, cod=layer.cod, layers=[layer])  # type: ignore [arg-type] # noqa: E501
-             for layer in qubits + gates + postselect + measures]
+             for layer in qubits + gates + measures]
 
-    layerD = diags[0]
-    for diagram in diags[1:]:
+    layerD = Id()
+    for diagram in diags:
         layerD = layerD >> diagram
 
     return layerD
@@ -1722,6 +1663,9 @@ def readoff_circuital(diagram: Diagram,
             gates.append(Gate.from_box(layer.box, qi,
                                        use_sympy=use_sympy))
 
+    # The order of the bits is the order of the measured wires
+    bitmap = {qi: i for i, qi in enumerate(sorted(bitmap))}
+
     return CircuitInfo(total_qubits,
                        gates,
                        bitmap,
-- 
2.43.0


From 979ae9136857f6307e2113202346e8c97f1ba45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:00 +0000
Subject: [PATCH 23/94] fix: conjugate gates in the gate list

---
 lambeq/backend/quantum.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 8250457..f2e7a2c 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1530,6 +1530,18 @@ class Gate:
             dagger = True
             gtype = box.name.split('(')[0]
 
+        target = box
+        while isinstance(target, Controlled):
+            target = target.controlled
+
+        if target.z % 2:
+            if box is target and gtype in ('S', 'T'):
+                # The conjugate of a diagonal gate is its dagger
+                dagger = not dagger
+            elif box is not target or gtype != 'Y':
+                # The conjugate of Y is Y, up to a global phase
+                raise NotImplementedError(f'Conjugate of {box} not supported')
+
         if isinstance(box, (Rx, Ry, Rz)):
             phase = box.phase
             if use_sympy and isinstance(box.phase, Symbol):
-- 
2.43.0


From 15f2d7b6d3a225050b1c52f33a5432083fca0581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 24/94] fix: keep Ket(1) preparations of circuital diagrams in
 the gate list

---
 lambeq/backend/quantum.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index f2e7a2c..9071849 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -1656,7 +1656,8 @@ def readoff_circuital(diagram: Diagram,
 
     for layer in layers:
         if isinstance(layer.box, Ket):
-            pass
+            if layer.box.bit:
+                gates.append(Gate.from_box(X, len(layer.left)))
         elif isinstance(layer.box, Measure):
             qi = available_qubits[layer.left.count(qubit)]
             available_qubits.remove(qi)
-- 
2.43.0


From cadc29df96d99c50025e77156950f45b34c4401d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 25/94] fix: export rotations by a phase of zero to tket

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index ed7fb63..8a35025 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -251,7 +251,7 @@ def to_tk(diagram: Diagram) -> Circuit:
         elif gate.gtype not in OPTYPE_MAP:
             raise NotImplementedError(f'Gate {gate.gtype} not supported')
 
-        if gate.phase:
+        if gate.phase is not None:
             op = Op.create(OPTYPE_MAP[gate.gtype], 2 * gate.phase)
         else:
             op = Op.create(OPTYPE_MAP[gate.gtype])
-- 
2.43.0


From 982bd9a5e6274f1bf9836f4b70f797b4b3ca0d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 26/94] fix: post-select tket circuits on bits, not on qubits

---
 lambeq/backend/converters/tk.py | 4 +++-
 lambeq/backend/quantum.py       | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 8a35025..35455ea 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -239,7 +239,9 @@ def to_tk(diagram: Diagram) -> Circuit:
 
     circuit = Circuit(circuit_info.total_qubits,
                       len(circuit_info.bitmap),
-                      post_selection=circuit_info.postmap)
+                      post_selection={circuit_info.bitmap[qi]: value
+                                      for qi, value
+                                      in circuit_info.postmap.items()})
 
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar':
diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 9071849..b6cc5d5 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -429,7 +429,7 @@ class Diagram(tensor.Diagram):
         ...     >> CX\\
         ...     >> Id(qubit) @ Bra(0)
         >>> circuit3.to_tk()
-        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({1: 0})
+        tk.Circuit(2, 1).H(0).CX(0, 1).Measure(1, 0).post_select({0: 0})
         """
         from lambeq.backend.converters.tk import to_tk
         return to_tk(self)
-- 
2.43.0


From 81ee4beba93819a781db0d4e595284ef8f682e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 27/94] fix: keep a scalar of zero when importing a tket
 circuit

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 35455ea..2685e7a 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -82,7 +82,7 @@ class Circuit(tk.Circuit):
                  scalar: float | None = None,
                  post_processing: Diagram | None = None) -> None:
         self.post_selection = post_selection or {}
-        self.scalar = scalar or 1
+        self.scalar = 1 if scalar is None else scalar
         self.post_processing = (
             post_processing or Id(bit ** (n_bits - len(self.post_selection))))
         super().__init__(n_qubits, n_bits)
-- 
2.43.0


From 13bd6a5e208ac90e5d391306e516b8b5fb627a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:18 +0000
Subject: [PATCH 28/94] fix: import plain pytket circuits and circuits with
 several registers

---
 lambeq/backend/converters/tk.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 2685e7a..cc5d23d 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -67,12 +67,14 @@ class Circuit(tk.Circuit):
         """
         result = Circuit(tk_circuit.n_qubits,
                          len(tk_circuit.bits),
-                         tk_circuit.post_selection,
-                         tk_circuit.scalar,
-                         tk_circuit.post_processing)
+                         getattr(tk_circuit, 'post_selection', None),
+                         getattr(tk_circuit, 'scalar', None),
+                         getattr(tk_circuit, 'post_processing', None))
+        units = {unit: i for register in (tk_circuit.qubits, tk_circuit.bits)
+                 for i, unit in enumerate(register)}
         for gate in tk_circuit:
             name, inputs = gate.op.type.name, gate.op.params + [
-                x.index[0] for x in gate.qubits + gate.bits]
+                units[x] for x in gate.qubits + gate.bits]
             result.__getattribute__(name)(*inputs)
         return result
 
-- 
2.43.0


From b0411d492c0d2de746aa086f0948926121f2fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 29/94] fix: import tket circuits with measurements in any
 order

---
 lambeq/backend/converters/tk.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index cc5d23d..be429f1 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -342,26 +342,32 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
             return box.to_diagram(), offset  # type: ignore [return-value]
 
     circuit = Ket(*(0, ) * n_qubits).to_diagram()
-    bras = {}
+    bitmap: dict[int, int] = {}
     for tk_gate in tk_circ.get_commands():
+        if any(unit.index[0] in bitmap for unit in tk_gate.qubits):
+            raise NotImplementedError('Gates after measurements are not '
+                                      'supported')
         if tk_gate.op.type.name == 'Measure':
-            offset: int = tk_gate.qubits[0].index[0]
             bit_index: int = tk_gate.bits[0].index[0]
-            if bit_index in tk_circ.post_selection:
-                bras[offset] = tk_circ.post_selection[bit_index]
-                continue  # post selection happens at the end
-            left = circuit.cod[:offset]
-            right = circuit.cod[offset + 1:]
-            circuit = circuit >> left @ Measure() @ right
+            if bit_index in bitmap.values():
+                raise NotImplementedError('Measuring two qubits to one bit '
+                                          'is not supported')
+            # measurement and post selection happen at the end
+            bitmap[tk_gate.qubits[0].index[0]] = bit_index
         else:
             box, offset = box_and_offset_from_tk(tk_gate)
             left = circuit.cod[:offset]
             right = circuit.cod[offset + len(box.dom):]
             circuit = circuit >> left @ box @ right
     circuit = circuit >> Id().tensor(*(
-        Bra(bras[i]) if i in bras
-        else Discard() if x == qubit else Id(bit)
-        for i, x in enumerate(circuit.cod)))
+        Discard() if i not in bitmap
+        else Bra(tk_circ.post_selection[bitmap[i]])
+        if bitmap[i] in tk_circ.post_selection else Measure()
+        for i in range(n_qubits)))
+    bits = [bitmap[i] for i in sorted(bitmap)
+            if bitmap[i] not in tk_circ.post_selection]
+    if bits != sorted(bits):
+        circuit = circuit.permuted([bits.index(i) for i in sorted(bits)])
     if tk_circ.scalar != 1:
         circuit = circuit @ Scalar(np.sqrt(abs(tk_circ.scalar)))
     return circuit >> tk_circ.post_processing  # type: ignore [return-value]
-- 
2.43.0


From 6647ecc38dbec4ededfd8ff160085ade0effe7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:31 +0000
Subject: [PATCH 30/94] fix: import scaled tket symbols with a plain number as
 their scale

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index be429f1..511238d 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -207,7 +207,7 @@ def _tk_to_lmbq_param(theta):
         if not isinstance(symbol, sympy.Symbol):
             raise ValueError('Parameter must be a (possibly scaled) sympy'
                              'Symbol')
-        return Symbol(symbol.name, scale=scale)
+        return Symbol(symbol.name, scale=float(scale))
     else:
         raise ValueError('Parameter must be a (possibly scaled) sympy Symbol')
 
-- 
2.43.0


From 26f67bccb39180ec3a4bbef43535a67e00b33d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 31/94] fix: import tket circuits without qubits

---
 lambeq/backend/converters/tk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 511238d..406c182 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -341,7 +341,7 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
         else:
             return box.to_diagram(), offset  # type: ignore [return-value]
 
-    circuit = Ket(*(0, ) * n_qubits).to_diagram()
+    circuit = Id().tensor(*(Ket(0) for _ in range(n_qubits)))
     bitmap: dict[int, int] = {}
     for tk_gate in tk_circ.get_commands():
         if any(unit.index[0] in bitmap for unit in tk_gate.qubits):
-- 
2.43.0


From be58a5139b0da64cd0d14194dfa7fd2fc524b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 32/94] fix: binding symbols keeps the kind of a quantum box
 (mixed, self-adjoint)

---
 lambeq/backend/tensor.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index b160fd8..8ffe8ee 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -283,9 +283,8 @@ class Box(grammar.Box):
         if not any(x in self.free_symbols for x in symbols):
             return lambda *xs: self
 
-        return lambda *xs: type(self)(
-            self.name, self.dom, self.cod,
-            lambdify(symbols, self.data)(*xs), self.z)
+        return lambda *xs: replace(self, data=lambdify(symbols,
+                                                       self.data)(*xs))
 
     def __repr__(self) -> str:
         return (f'[{self.name}{".l"*(-self.z)}{".r"*self.z}; '
-- 
2.43.0


From 225533c4358349d939cebfb0a45a4549fb2f4cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 33/94] fix: bind some of the symbols of a circuit

---
 lambeq/backend/quantum.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index b6cc5d5..844ce27 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -863,6 +863,9 @@ class Parametrized(Box):
     def lambdify(self, *symbols, **kwargs):
         """Return a lambda function that evaluates the box."""
 
+        if not any(x in self.free_symbols for x in symbols):
+            return lambda *xs: self
+
         return lambda *xs: type(self)(lambdify(
                                         symbols, self.data)(*xs))
 
-- 
2.43.0


From cf8a2483bfd3752f906e813b3f4f9d4261d4179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 34/94] fix: conjugating or binding a quantum box keeps it
 mixed and self-adjoint

---
 lambeq/backend/quantum.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/backend/quantum.py b/lambeq/backend/quantum.py
index 844ce27..ce4cd5f 100644
--- a/lambeq/backend/quantum.py
+++ b/lambeq/backend/quantum.py
@@ -104,6 +104,7 @@ bit = Ty('bit')
 
 
 @quantum
+@dataclass(init=False, repr=False, eq=False)
 class Box(tensor.Box):
     """A box in the quantum category."""
     name: str
-- 
2.43.0


From fc0d118cfbe230fc2a4837d589909ef91bb03f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:38 +0000
Subject: [PATCH 35/94] fix: bind the symbols of boxes with an array of symbols

---
 lambeq/backend/symbol.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lambeq/backend/symbol.py b/lambeq/backend/symbol.py
index fb14ca2..0fa36ad 100644
--- a/lambeq/backend/symbol.py
+++ b/lambeq/backend/symbol.py
@@ -104,6 +104,14 @@ def lambdify(symbol: Sequence[Symbol],
         Lambda function for returning evaluation of expr
 
     """
+    if isinstance(expr, np.ndarray) and expr.dtype == object:
+        entries = [lambdify(symbol, entry)
+                   if isinstance(entry, Symbol) and entry.unscaled in symbol
+                   else lambda *_lx, entry=entry: entry
+                   for entry in expr.flat]
+        return lambda *lx: np.array([entry(*lx) for entry in entries]
+                                    ).reshape(expr.shape)
+
     if not isinstance(expr, Symbol):
         return lambda *_lx: expr
 
-- 
2.43.0


From 7624feb8223e691db901fed9548e45c932db956f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 36/94] fix: convert circuits with several scalars to PennyLane

---
 lambeq/backend/pennylane.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a20d9aa..a40757a 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -198,12 +198,14 @@ def to_pennylane(diagram: Diagram,
     circuit_info = readoff_circuital(diagram)
 
     scalar = 1.0
+    gates = []
     for gate in circuit_info.gates:
         if gate.gtype == 'Scalar' and gate.phase is not None:
             scalar *= gate.phase
-            circuit_info.gates.remove(gate)
+        else:
+            gates.append(gate)
 
-    ex_ops = extract_ops_from_circuital(circuit_info.gates)
+    ex_ops = extract_ops_from_circuital(gates)
     op_list, params_list, symbols_set, wires_list = ex_ops
 
     # Get post selection bits
-- 
2.43.0


From 7c9e0ce4ce44ef5cf925bc759d1261140862a1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 37/94] fix: convert rotations by a phase of zero to PennyLane

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index a40757a..b094e63 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -119,7 +119,7 @@ def extract_ops_from_circuital(
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-                                               if x.phase
+                                               if x.phase is not None
                                                else []
                                                for x in gates]
 
-- 
2.43.0


From a597fc435c6e16023152dca311489b9238443b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 38/94] fix: convert scaled and negated symbols to PennyLane

---
 lambeq/backend/pennylane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index b094e63..0a8d102 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -135,7 +135,7 @@ def extract_ops_from_circuital(
         elif not isinstance(param, Symbol):
             param = torch.tensor(param)
         else:
-            symbols.add(param)
+            symbols.add(param.unscaled)
 
         remapped_params.append([param])
 
-- 
2.43.0


From 43d58fe3a1f85b070b4c916e2553f5daf9b61c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 39/94] fix: convert daggered gates to PennyLane

---
 lambeq/backend/pennylane.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 0a8d102..768b971 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -41,6 +41,7 @@ associated weights should be passed to `eval()` as `symbols=` and
 
 from __future__ import annotations
 
+from functools import partial
 from itertools import product
 import sys
 from typing import List, Set, Tuple, TYPE_CHECKING, Union
@@ -84,6 +85,10 @@ OP_MAP = {
 }
 
 
+def _adjoint(op, *params, wires):
+    return qml.adjoint(op(*params, wires=wires))
+
+
 def extract_ops_from_circuital(
     gates: List['Gate']
 ) -> Tuple[
@@ -115,7 +120,8 @@ def extract_ops_from_circuital(
         The wires/qubits to apply the operation to.
 
     """
-    ops = [OP_MAP[x.gtype] for x in gates]
+    ops = [partial(_adjoint, OP_MAP[x.gtype]) if x.dagger
+           else OP_MAP[x.gtype] for x in gates]
     qubits = [x.qubits for x in gates]
     params: list[Union[Symbol, float, int,
                        list, torch.Tensor]] = [x.phase
-- 
2.43.0


From 0e52109ed6da5612adf079f27d4e04672166cc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 40/94] fix: keep the order of the open wires of PennyLane
 circuits (ten or more qubits)

---
 lambeq/backend/pennylane.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 768b971..ecf78db 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -361,7 +361,8 @@ class PennyLaneCircuit:
         keep_indices = []
         fixed = ['0' if self._post_selection.get(i, 0) == 0 else
                  '1' for i in range(self._n_qubits)]
-        open_wires = set(range(self._n_qubits)) - self._post_selection.keys()
+        open_wires = [i for i in range(self._n_qubits)
+                      if i not in self._post_selection]
         permutations = [''.join(s) for s in product('01',
                                                     repeat=len(open_wires))]
         for perm in permutations:
-- 
2.43.0


From 56746ff037ad59c8fe1d30428579c9a81481301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 41/94] fix: scale the probabilities of PennyLane circuits by
 the modulus of the scalar

---
 lambeq/backend/pennylane.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index ecf78db..353e3ab 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -420,8 +420,8 @@ class PennyLaneCircuit:
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-        post_selected_states *= (self._scale ** 2 if self._probabilities
-                                 else self._scale)
+        post_selected_states *= (abs(self._scale) ** 2
+                                 if self._probabilities else self._scale)
 
         if post_selected_states.shape[0] == 1:
             return post_selected_states
-- 
2.43.0


From 7fefe6bccbc0f59fabd24aa27c3eef05a2ee666f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:21 +0000
Subject: [PATCH 42/94] fix: post-selection and scalars of PennyLane circuits
 with discards

---
 lambeq/backend/pennylane.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/pennylane.py b/lambeq/backend/pennylane.py
index 353e3ab..77fd484 100644
--- a/lambeq/backend/pennylane.py
+++ b/lambeq/backend/pennylane.py
@@ -389,7 +389,8 @@ class PennyLaneCircuit:
                 op(*[2 * torch.pi * p for p in params], wires=wires)
 
             if self._mixed:
-                return qml.density_matrix(self._post_selection.keys())
+                return qml.density_matrix(list(self._post_selection)
+                                          or range(self._n_qubits))
             if self._probabilities:
                 return qml.probs(wires=range(self._n_qubits))
             else:
@@ -415,8 +416,13 @@ class PennyLaneCircuit:
         states = self._circuit(params)
 
         if self._mixed:
-            # Select the all-zeros subsystem
-            return states[0][0]
+            # Select the post-selected subsystem; the other qubits are
+            # discarded
+            scale = abs(self._scale) ** 2
+            if not self._post_selection:
+                return scale * torch.trace(states)
+            idx = int(''.join(map(str, self._post_selection.values())), 2)
+            return scale * states[idx][idx]
 
         open_wires = self._n_qubits - len(self._post_selection)
         post_selected_states = states[self._valid_states]
-- 
2.43.0


From 42798138f31648ea628266dbd2fd7c14b11b3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 43/94] fix: sentence rewrite rules do not match boxes with
 inputs

---
 lambeq/rewrite/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index 2ef4783..dba2baf 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -170,8 +170,9 @@ class SimpleRewriteRule(RewriteRule):
 
     def matches(self, box: Box) -> bool:
         word = box.name if self.case_sensitive else box.name.lower()
-        return box.cod == self.cod and (self.words is None
-                                        or word in self.words)
+        return (box.dom == self.template.dom
+                and box.cod == self.cod
+                and (self.words is None or word in self.words))
 
     def rewrite(self, box: Box) -> Diagrammable:
         def replace_placeholder(_, ar: Box) -> Box:
@@ -270,7 +271,9 @@ class CoordinationRewriteRule(RewriteRule):
         self.words = ['and'] if words is None else words
 
     def matches(self, box: Box) -> bool:
-        if box.name in self.words and len(box.cod) % 3 == 0:
+        if (not box.dom
+                and box.name in self.words
+                and len(box.cod) % 3 == 0):
             n = len(box.cod) // 3
             left, mid, right = box.cod[:n], box.cod[n:2*n], box.cod[2*n:]
             return bool(right.r == mid == left.l)
-- 
2.43.0


From ff79acc1d0e20c3eb2d16f9be1b35978cf9bca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:30 +0000
Subject: [PATCH 44/94] fix: count adjoint and daggered words for the
 vocabulary

---
 lambeq/rewrite/base.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lambeq/rewrite/base.py b/lambeq/rewrite/base.py
index dba2baf..2bc0f2f 100644
--- a/lambeq/rewrite/base.py
+++ b/lambeq/rewrite/base.py
@@ -80,9 +80,9 @@ from abc import ABC, abstractmethod
 from collections import Counter
 from collections.abc import Container, Iterable
 
-from lambeq.backend.grammar import (Box, Cap, Cup, Diagram, Diagrammable,
-                                    Functor, grammar, Id, Spider, Swap,
-                                    Ty, Word)
+from lambeq.backend.grammar import (Box, Cap, Cup, Daggered, Diagram,
+                                    Diagrammable, Functor, grammar, Id,
+                                    Spider, Swap, Ty, Word)
 from lambeq.core.types import AtomicType
 
 N = AtomicType.NOUN
@@ -477,6 +477,13 @@ class UnknownWordsRewriteRule(RewriteRule):
     def rewrite(self, box: Box) -> Box:
         return Word(self.unk_token, cod=box.cod)
 
+    @staticmethod
+    def _as_written(box: Box) -> Box:
+        """Undo any dagger or adjoint, as is done before rewriting."""
+        if isinstance(box, Daggered):
+            box = box.dagger()
+        return box.rotate(-box.z)
+
     @classmethod
     def from_diagrams(cls,
                       diagrams: Iterable[Diagram],
@@ -506,7 +513,7 @@ class UnknownWordsRewriteRule(RewriteRule):
         counts: Counter[str | tuple[str, Ty]] = Counter(
             box.name if ignore_types else (box.name, box.cod)
             for diagram in diagrams
-            for box in diagram.boxes
+            for box in map(cls._as_written, diagram.boxes)
             if isinstance(box, Word))
         vocabulary = {word for word, count in counts.items()
                       if count >= min_freq}
-- 
2.43.0


From 022d8fcbf4aee775dcdbb8012859c01165dfa103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:16 +0000
Subject: [PATCH 45/94] fix: remove nested cups of any depth and of either
 orientation

---
 lambeq/rewrite/rewrite_diagram.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index d6d1c5f..260009f 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -116,13 +116,24 @@ class RemoveCupsRewriter(DiagramRewriter):
     def matches(self, diagram: Diagram) -> bool:
         return True
 
+    @staticmethod
+    def _is_cup(box: Box) -> bool:
+        return box.name == CUP_TOKEN or isinstance(box, Cup)
+
+    @staticmethod
+    def _is_right_cup(box: Box) -> bool:
+        mid = len(box.dom) // 2
+        return bool(box.dom[:mid].r == box.dom[mid:])
+
     def _compress_cups(self, diagram: Diagram) -> Diagram:
         layers: list[tuple[Box, int]] = []
         for box, offset in zip(diagram.boxes, diagram.offsets):
             nested_cup = (isinstance(box, Cup)
                           and layers
-                          and isinstance(layers[-1][0].boxes[0], Cup)
-                          and offset == layers[-1][1] - 1)
+                          and self._is_cup(layers[-1][0])
+                          and offset == layers[-1][1] - 1
+                          and (self._is_right_cup(box)
+                               == self._is_right_cup(layers[-1][0])))
             if nested_cup:
                 dom = box.dom[:1] @ layers[-1][0].dom @ box.dom[1:]
                 layers[-1] = (Box(CUP_TOKEN, dom, Ty()), offset)
@@ -160,7 +171,7 @@ class RemoveCupsRewriter(DiagramRewriter):
                 cod = left.cod @ right.cod
                 wires_l = Id(cod[:off])
                 wires_r = Id(cod[off + len(box.dom):])
-                if box.name == CUP_TOKEN or isinstance(box, Cup):
+                if self._is_cup(box):
                     # contract greedily, else combine
                     pg_len = len(box.dom) // 2
                     pg_type1, pg_type2 = box.dom[:pg_len], box.dom[pg_len:]
-- 
2.43.0


From a9fd630a8db38294ed003197de0a0cea815a8d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 46/94] fix: only bend diagrams contracted along all of their
 outputs

---
 lambeq/rewrite/rewrite_diagram.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 260009f..58e8117 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -175,12 +175,16 @@ class RemoveCupsRewriter(DiagramRewriter):
                     # contract greedily, else combine
                     pg_len = len(box.dom) // 2
                     pg_type1, pg_type2 = box.dom[:pg_len], box.dom[pg_len:]
-                    if len(left.cod) == pg_len and not left.dom:
+                    if (len(left.cod) == pg_len
+                            and not left.dom
+                            and off == 0):
                         if pg_type1.r == pg_type2:
                             new_diag = right >> (left.dagger().r @ wires_r)
                         else:  # illegal cup
                             new_diag = right >> (left.dagger().l @ wires_r)
-                    elif len(right.cod) == pg_len and not right.dom:
+                    elif (len(right.cod) == pg_len
+                            and not right.dom
+                            and len(left.cod) == off + pg_len):
                         if pg_type1.r == pg_type2:
                             new_diag = left >> (wires_l @ right.dagger().l)
                         else:
-- 
2.43.0


From d5db90185c623c311133b8bff82ed7cbeea58f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 47/94] fix: keep the right types and offsets when removing
 detached cups

---
 lambeq/rewrite/rewrite_diagram.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 58e8117..5e57b0f 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -347,8 +347,8 @@ class RemoveSwapsRewriter(DiagramRewriter):
             for mor in morphisms:
                 if (isinstance(mor.morphism, Cup) and mor.start in rng
                         and mor.end in rng):
-                    del scan[mor.start - wrd.offset:
-                             mor.start - wrd.offset + 2]
+                    scan.remove(mor.start)
+                    scan.remove(mor.end)
                     mor.deleted = True
 
             if len(scan) == len(rng):
@@ -377,16 +377,16 @@ class RemoveSwapsRewriter(DiagramRewriter):
         new_morphisms: list[Box] = []
         mor_offsets: list[int] = []
         for m_idx, m in enumerate(morphisms):
+            if m.deleted:
+                # cup is deleted, adjust all above offsets if required
+                for prev in morphisms[:m_idx]:
+                    if prev.start > m.start:
+                        prev.offset -= 2
+        for m in morphisms:
             if not m.deleted:
                 # morphism is not deleted, add it with its offset
                 new_morphisms.append(m.morphism)
                 mor_offsets.append(m.offset)
-            else:
-                # cup is deleted, adjust all above offsets if required
-                for j in range(m_idx):
-                    if (not morphisms[j].deleted
-                            and morphisms[j].start > morphisms[m_idx].start):
-                        mor_offsets[j] -= 2
 
         new_diag = Id(diagram.dom)
         for box, offset in zip(new_words+new_morphisms,
-- 
2.43.0


From a175d1ff16c892b39621499fd79049f7d76dcfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:45 +0000
Subject: [PATCH 48/94] fix: merge a detached last word with the previous one

---
 lambeq/rewrite/rewrite_diagram.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 5e57b0f..32bd510 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -358,6 +358,12 @@ class RemoveSwapsRewriter(DiagramRewriter):
                 # word type has been reduced in length
                 typ = Ty().tensor(*[atomic_types[i] for i in scan])
                 new_words.append(Word(wrd.word.name, typ))
+            elif w_idx + 1 == len(words):
+                # last word has been eliminated, merge word label with
+                # the previous one
+                prev = new_words.pop() if new_words else Word('', Ty())
+                name = f'{prev.name} {wrd.word.name}'.strip()
+                new_words.append(Word(name, prev.cod))
             else:
                 # word type has been eliminated, merge word label
                 # with next one
-- 
2.43.0


From 34a9c63163c3bdd90bc51bb96e37941cde88beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:52 +0000
Subject: [PATCH 49/94] fix: refuse to remove swaps from unsupported diagrams

---
 lambeq/rewrite/rewrite_diagram.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/rewrite/rewrite_diagram.py b/lambeq/rewrite/rewrite_diagram.py
index 32bd510..69010d6 100644
--- a/lambeq/rewrite/rewrite_diagram.py
+++ b/lambeq/rewrite/rewrite_diagram.py
@@ -402,6 +402,10 @@ class RemoveSwapsRewriter(DiagramRewriter):
         return new_diag
 
     def rewrite(self, diagram: Diagram) -> Diagram:
+        if diagram.dom or not all(isinstance(box, (Word, Cup, Swap))
+                                  for box in diagram.boxes):
+            raise ValueError('Not a valid pregroup diagram.')
+
         atomic_types = [ob for b in diagram.boxes
                         for ob in b.cod if isinstance(b, Word)]
         scan = list(range(len(atomic_types)))
-- 
2.43.0


From a30900e275eb14860312a47995dd01232b1665e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 50/94] fix: keep the order of frame components under even
 rotations

---
 lambeq/backend/grammar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 7ea55e4..b469752 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2174,12 +2174,12 @@ class Frame(Box):
 
     def rotate(self, z: int) -> Self:
         """Rotate the box, changing the winding number."""
+        components = self.components[::-1] if z % 2 else self.components
         return replace(self,
                        dom=self.dom.rotate(z),
                        cod=self.cod.rotate(z),
                        z=self.z + z,
-                       components=[c.rotate(z) for c in
-                                   reversed(self.components)])
+                       components=[c.rotate(z) for c in components])
 
     def dagger(self) -> DaggeredFrame | Frame:
         return DaggeredFrame(self)
-- 
2.43.0


From 988f9c63506e9db9baf276570c33b1e2f43cc72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:14 +0000
Subject: [PATCH 51/94] fix: count frames inside component diagrams in
 frame_order

---
 lambeq/backend/grammar.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index b469752..865efd1 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2196,9 +2196,11 @@ class Frame(Box):
     def frame_order(self):
         """The level of nesting in the frame increasing from the inside
         going outward."""
-        component_frame_orders = [c.frame_order if isinstance(c, Frame) else 0
-                                  for c in self.components]
-        return max(component_frame_orders) + 1
+        component_frame_orders = [box.frame_order
+                                  for c in self.components
+                                  for box in c.to_diagram().boxes
+                                  if isinstance(box, Frame)]
+        return max(component_frame_orders, default=0) + 1
 
     @classmethod
     def from_json(cls, data: _JSONDictT | str) -> Self:
-- 
2.43.0


From e0da5e36b5ecd83b8105f7f0120867e43245f314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:15 +0000
Subject: [PATCH 52/94] fix: map a daggered frame to the dagger of the image of
 the frame

---
 lambeq/backend/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/grammar.py b/lambeq/backend/grammar.py
index 865efd1..e94ea27 100644
--- a/lambeq/backend/grammar.py
+++ b/lambeq/backend/grammar.py
@@ -2282,6 +2282,9 @@ class DaggeredFrame(Frame):
     def dagger(self) -> Frame:
         return self.frame
 
+    def apply_functor(self, functor: Functor) -> Diagrammable:
+        return functor(self.dagger()).dagger()
+
     def __hash__(self) -> int:
         return hash(repr(self))
 
-- 
2.43.0


From 04ad0dc24859d1084686961b5fb8a913358eb538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 53/94] fix: refuse unclosed brackets in CCG categories with
 CCGParseError

---
 lambeq/text2diagram/ccg_type.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 1f6b35e..63ea438 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -382,7 +382,11 @@ class CCGType:
                     cat,
                     f'input ended with unmatched "(" at index {start}'
                 )
-            assert cat[end] == ')'
+            if cat[end] != ')':
+                raise CCGParseError(
+                    cat,
+                    f'unexpected {repr(cat[end])} at index {end}'
+                )
             end += 1
 
         return biclosed_type, end
-- 
2.43.0


From a9ba540b67d036af099828082e4df21ab8920138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:54 +0000
Subject: [PATCH 54/94] fix: allow empty parts in CCGType.replace

---
 lambeq/text2diagram/ccg_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index 63ea438..d163102 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -396,7 +396,7 @@ class CCGType:
 
         if self == original:
             return replacement
-        elif self.is_atomic:
+        elif not self.is_complex:
             return self
         else:
             new_result = self.result.replace(original, replacement)
-- 
2.43.0


From b88557e3003512010588a32d906279943595f92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 55/94] fix: resolve crossed compositions whose result occurs
 below another slash

---
 lambeq/text2diagram/ccg_type.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_type.py b/lambeq/text2diagram/ccg_type.py
index d163102..d59aeaa 100644
--- a/lambeq/text2diagram/ccg_type.py
+++ b/lambeq/text2diagram/ccg_type.py
@@ -496,11 +496,14 @@ class CCGType:
 
         # `replace` indicates whether `self.result` should be replaced,
         # due to one of the following conditions being true:
-        # - `self.result` matches `original`
+        # - `self.result` matches `original`, as the result of the
+        #   required operation
         # - `self.result` is an atomic type
         # - `self.direction` does not match the required operation
         # - attempting to replace any inner category fails
-        replace = self.result == original or self.result.is_atomic
+        replace = (self.result.is_atomic
+                   or (self.result == original
+                       and direction[0] in ('|', self.direction)))
         if not replace:
             if self.direction != direction[-1] != '|':
                 replace = True
-- 
2.43.0


From 03d4e2c915fed3e07d27fe45e71ce74944697c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 56/94] fix: keep the inner derivation in planar generalised
 crossed composition

---
 lambeq/text2diagram/ccg_tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0c156fa..e611c2c 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -503,7 +503,7 @@ class CCGTree:
             inner = right_words >> right_diag
             cups = Diagram.cups(join, join.r)
             mid = (Id(join) @ inner) >> (cups @ Id(inner.cod[len(join):]))
-            diag = Id(left) @ mid @ Id(right)
+            diag = left_diag >> Id(left) @ mid @ Id(right)
         elif planar and (self.rule
                          == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION):
             (left_words, left_diag), (words, right_diag) = children
@@ -514,7 +514,7 @@ class CCGTree:
             inner = left_words >> left_diag
             cups = Diagram.cups(join.l, join)
             mid = (inner @ Id(join)) >> (Id(inner.cod[:-len(join)]) @ cups)
-            diag = Id(left) @ mid @ Id(right)
+            diag = right_diag >> Id(left) @ mid @ Id(right)
         else:
             words, diag = [Id().tensor(*d) for d in zip(*children)]
             diag >>= this_layer
-- 
2.43.0


From c23de945c1c846392e6d819f4e874f5884c9851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:18 +0000
Subject: [PATCH 57/94] fix: unary rules that swap the slash of a category with
 distinct result and argument

---
 lambeq/text2diagram/ccg_tree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index e611c2c..3871381 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -391,12 +391,13 @@ class CCGTree:
                 #           Ty() << Y        -> Y.l
                 #  Ty() << (Ty() << Y)       -> Y.l.l
                 # (Ty() << (Ty() << Y)) >> X -> Y.l.l.r @ X = Y.l @ X
+                # where X is the result and Y the argument of the output
                 other_direction = '\\' if output.direction == '/' else '/'
-                resolved_dom = (output.argument.slash(
+                resolved_dom = (output.result.slash(
                     other_direction,
                     CCGType().slash(
                         output.direction,
-                        CCGType().slash(output.direction, output.result)
+                        CCGType().slash(output.direction, output.argument)
                     )
                 ),)
             else:
-- 
2.43.0


From 9c6bd320bb4e4a7b2455cb131c4a8f271d2a080f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 58/94] fix: accept null children in the JSON form of CCG trees

---
 lambeq/text2diagram/ccg_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 3871381..e9d73cb 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -160,7 +160,7 @@ class CCGTree:
                    rule=data_dict.get('rule', CCGRule.UNKNOWN),
                    biclosed_type=CCGType.parse(data_dict['type']),
                    children=[cls.from_json(child)
-                             for child in data_dict.get('children', [])])
+                             for child in data_dict.get('children') or []])
 
     def without_trivial_unary_rules(self) -> CCGTree:
         """Create a new CCGTree from the current tree, with all
-- 
2.43.0


From c87a68e1551d0858b33d1eefe29975efb1dd2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 59/94] fix: update the height of CCG trees when unary rules
 are removed

---
 lambeq/text2diagram/ccg_tree.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index e9d73cb..0013adb 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -182,6 +182,9 @@ class CCGTree:
             new_tree = new_tree.children[0]
         new_tree.children = [child.without_trivial_unary_rules() for child
                              in new_tree.children]
+        if new_tree.children:
+            new_tree.height = 1 + max(child.height for child
+                                      in new_tree.children)
         return new_tree
 
     def to_json(self) -> _JSONDictT:
-- 
2.43.0


From 7f9e576b02d9c288425fd7858ad98572411f635c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:18 +0000
Subject: [PATCH 60/94] fix: resolve generalised compositions with as many
 arguments as they were built with

---
 lambeq/text2diagram/ccg_rule.py | 44 ++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/lambeq/text2diagram/ccg_rule.py b/lambeq/text2diagram/ccg_rule.py
index bb62edd..8278703 100644
--- a/lambeq/text2diagram/ccg_rule.py
+++ b/lambeq/text2diagram/ccg_rule.py
@@ -82,6 +82,41 @@ class CCGRule(str, Enum):
             raise CCGRuleUseError(self,
                                   f'mismatched types - {left} != {right}')
 
+    @staticmethod
+    def _replace_core(secondary: CCGType,
+                      join: CCGType,
+                      cod: CCGType,
+                      result: CCGType,
+                      direction: str) -> tuple[CCGType, CCGType | None]:
+        """Split the codomain of a generalised composition.
+
+        The part of `cod` that takes as many arguments as `join` does in
+        `secondary` is replaced by `join`. If `cod` does not have these
+        arguments, its innermost suitable result is replaced instead.
+
+        Returns
+        -------
+        CCGType
+            The new category of the secondary input.
+        CCGType or None
+            The part of `cod` that has been replaced.
+
+        """
+        args = []
+        core = cod
+        while secondary != join and secondary.is_complex and core.is_complex:
+            args.append((core.direction, core.argument))
+            secondary, core = secondary.result, core.result
+
+        if (args and secondary == join
+                and direction[0] in ('|', args[-1][0])
+                and all(direction[-1] in ('|', op) for op, _ in args[:-1])):
+            new = join
+            for op, argument in reversed(args):
+                new = new.slash(op, argument)
+            return new, core
+        return cod.replace_result(result, join, direction)
+
     def resolve(self,
                 dom: Sequence[CCGType],
                 cod: CCGType) -> tuple[CCGType, ...]:
@@ -137,22 +172,23 @@ class CCGRule(str, Enum):
             return left.left << cod.right, right.left >> cod.left
         elif self == CCGRule.GENERALIZED_FORWARD_COMPOSITION:
             ll, lr = left.left, left.right
-            new_right, new_left = cod.replace_result(ll, lr, '/')
+            new_right, new_left = self._replace_core(right, lr, cod, ll, '/')
             assert new_left is not None
             return new_left << left.right, new_right
         elif self == CCGRule.GENERALIZED_BACKWARD_COMPOSITION:
             rl, rr = right.left, right.right
-            new_left, new_right = cod.replace_result(rr, rl, '\\')
+            new_left, new_right = self._replace_core(left, rl, cod, rr, '\\')
             assert new_right is not None
             return new_left, rl >> new_right
         elif self == CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION:
             ll, lr = left.left, left.right
-            new_right, new_left = cod.replace_result(ll, lr, r'\|')
+            new_right, new_left = self._replace_core(right, lr, cod, ll,
+                                                     r'\|')
             assert new_left is not None
             return new_left << lr, new_right
         elif self == CCGRule.GENERALIZED_BACKWARD_CROSSED_COMPOSITION:
             rl, rr = right.left, right.right
-            new_left, new_right = cod.replace_result(rr, rl, '/|')
+            new_left, new_right = self._replace_core(left, rl, cod, rr, '/|')
             assert new_right is not None
             return new_left, right.left >> new_right
         elif self == CCGRule.REMOVE_PUNCTUATION_LEFT:
-- 
2.43.0


From 190db230fa2f6340b95426a9ebbea9837008fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 61/94] fix: resolve the middle type of every rule with a
 type-raised functor

---
 lambeq/text2diagram/ccg_tree.py | 54 +++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/lambeq/text2diagram/ccg_tree.py b/lambeq/text2diagram/ccg_tree.py
index 0013adb..b7844bc 100644
--- a/lambeq/text2diagram/ccg_tree.py
+++ b/lambeq/text2diagram/ccg_tree.py
@@ -30,6 +30,18 @@ from lambeq.text2diagram.ccg_type import CCGType
 _JSONDictT = Dict[str, Any]
 
 
+FORWARD_RULES = (CCGRule.FORWARD_APPLICATION,
+                 CCGRule.FORWARD_COMPOSITION,
+                 CCGRule.FORWARD_CROSSED_COMPOSITION,
+                 CCGRule.GENERALIZED_FORWARD_COMPOSITION,
+                 CCGRule.GENERALIZED_FORWARD_CROSSED_COMPOSITION)
+BACKWARD_RULES = (CCGRule.BACKWARD_APPLICATION,
+                  CCGRule.BACKWARD_COMPOSITION,
+                  CCGRule.BACKWARD_CROSSED_COMPOSITION,
+                  CCGRule.GENERALIZED_BACKWARD_COMPOSITION,
+                  CCGRule.GENERALIZED_BACKWARD_CROSSED_COMPOSITION)
+
+
 class CCGTree:
     """Derivation tree for a CCG.
 
@@ -355,6 +367,30 @@ class CCGTree:
             metadata=self.metadata
         )
 
+    @staticmethod
+    def _retype_raised(functor: CCGType,
+                       secondary: CCGType) -> tuple[CCGType, CCGType]:
+        """Propagate the result of a type-raised functor to its argument.
+
+        Type-raised categories have the form T/(T\X) or T\(T/X), so when
+        the result T changes, the middle type has to change as well.
+
+        """
+        old_mid = functor.argument
+        new_mid = functor.result.slash(old_mid.direction, old_mid.argument)
+
+        args = []
+        core = secondary
+        while core != old_mid:
+            args.append((core.direction, core.argument))
+            core = core.result
+
+        new_secondary = new_mid
+        for direction, argument in reversed(args):
+            new_secondary = new_secondary.slash(direction, argument)
+        return (functor.result.slash(functor.direction, new_mid),
+                new_secondary)
+
     def _resolved(self, resolved_output: CCGType | None = None) -> CCGTree:
         """Perform type resolution on the tree.
 
@@ -365,8 +401,8 @@ class CCGTree:
         - unary rules that involve a swap in the direction of the type
         are not changed.
         - conjunctions are replaced by applications.
-        - one other special case: rewriting the type of a forward
-        composition which has a type-raising child requires special
+        - one other special case: rewriting the type of an application
+        or composition whose functor is type-raised requires special
         handling to ensure that the composed (middle) type is correct.
 
         Resolution starts from the root of the tree, and then rewritten
@@ -405,18 +441,18 @@ class CCGTree:
                 ),)
             else:
                 return self.child._resolved(output)
-        elif (rule == CCGRule.FORWARD_COMPOSITION
-                and self.left.rule == CCGRule.FORWARD_TYPE_RAISING):
-            left = output.left
-            right = output.right
-            mid = self.left.biclosed_type.right.left >> left
-
-            resolved_dom = rule.resolve((left << mid, mid << right), output)
         else:
             child_types = [child.biclosed_type
                            for child in self.children]
             resolved_dom = rule.resolve(child_types, output)
 
+            if (rule in FORWARD_RULES
+                    and self.left.rule == CCGRule.FORWARD_TYPE_RAISING):
+                resolved_dom = self._retype_raised(*resolved_dom)
+            elif (rule in BACKWARD_RULES
+                    and self.right.rule == CCGRule.BACKWARD_TYPE_RAISING):
+                resolved_dom = self._retype_raised(*resolved_dom[::-1])[::-1]
+
             if rule == CCGRule.CONJUNCTION:
                 if self.children[0].biclosed_type.is_conjoinable:
                     rule = CCGRule.FORWARD_APPLICATION
-- 
2.43.0


From 476823eab0f739f965b8dea66538acb2852ea397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 62/94] fix: give the feature variable one consistent value in
 unification

---
 lambeq/bobcat/tree.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lambeq/bobcat/tree.py b/lambeq/bobcat/tree.py
index c503ab6..61e8fa8 100644
--- a/lambeq/bobcat/tree.py
+++ b/lambeq/bobcat/tree.py
@@ -154,11 +154,19 @@ class Unify:
 
             if left.atom == Atom.S:
                 if left.feature == Feature.X:
-                    self.feature = right.feature
+                    feature = right.feature
                 elif right.feature == Feature.X:
-                    self.feature = left.feature
+                    feature = left.feature
                 elif left.feature != right.feature:
                     return False
+                else:
+                    feature = Feature.NONE
+
+                # all instances of the variable have the same value
+                if not feature.is_free:
+                    if self.feature not in (Feature.NONE, feature):
+                        return False
+                    self.feature = feature
         else:
             if not (left.dir == right.dir
                     and self.unify_recursive(left.result, right.result)
-- 
2.43.0


From 9ae8f82da767856cfbe58bf9282327379b8753e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:23 +0000
Subject: [PATCH 63/94] fix: refuse category strings with an invalid slash

---
 lambeq/bobcat/lexicon.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lambeq/bobcat/lexicon.py b/lambeq/bobcat/lexicon.py
index ec4cadc..70283cd 100644
--- a/lambeq/bobcat/lexicon.py
+++ b/lambeq/bobcat/lexicon.py
@@ -285,6 +285,7 @@ def _parse(string: str,
     if string[pos] == '(':
         left, pos, slots = _parse(string, 0, pos + 1, slots, in_result)
         dir = string[pos]
+        assert dir in ('/', '\\')
         pos += 1
         if in_result:
             slots += 1
-- 
2.43.0


From d09755563242e450ce9b7b954f767840c1f1ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 64/94] fix: build the category of generalised backward
 composition

---
 lambeq/bobcat/rules.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/lambeq/bobcat/rules.py b/lambeq/bobcat/rules.py
index c22b902..8da033d 100644
--- a/lambeq/bobcat/rules.py
+++ b/lambeq/bobcat/rules.py
@@ -363,7 +363,7 @@ class Rules:
             left: ParseTree,
             right: ParseTree,
             comp: str) -> ParseTree | None:
-        assert comp in ('bx', 'fc')
+        assert comp in ('bc', 'bx', 'fc')
 
         unification = Unify(left, right, comp == 'fc')
         arg = unification.arg
@@ -385,7 +385,12 @@ class Rules:
                                         new_argument,
                                         var,
                                         arg.relation)
-        rule = Rule.GFC if comp == 'fc' else Rule.GBX
+        if comp == 'bc':
+            rule = Rule.GBC
+        elif comp == 'fc':
+            rule = Rule.GFC
+        else:
+            rule = Rule.GBX
         return BinaryCombinator(rule, new_category, left, right, unification)
 
     def gc3(self,
@@ -448,7 +453,7 @@ class Rules:
         self,
         left: ParseTree,
         right: ParseTree
-    ) -> ParseTree:
+    ) -> ParseTree | None:
         if not Category.parse(r'S[dcl]\S[dcl]').matches(left.cat.result):
             return None
 
@@ -458,11 +463,7 @@ class Rules:
         except KeyError:
             return None
 
-        unification = Unify(left, right, False)
-        if not unification.unify(unification.arg.result.result,
-                                 unification.res.argument):
-            return None
-        return BinaryCombinator(Rule.GBC, left.cat, left, right, unification)
+        return self.gc2(left, right, 'bc')
 
     def generalised_backward_cross_composition(
         self,
-- 
2.43.0


From 00c792d58200e2b4ccf13e3cf0aa1ea72eb0038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 65/94] fix: never keep the empty span category in the tagger
 output

---
 lambeq/bobcat/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/bobcat/tagger.py b/lambeq/bobcat/tagger.py
index 9ad8e31..1ced428 100644
--- a/lambeq/bobcat/tagger.py
+++ b/lambeq/bobcat/tagger.py
@@ -381,7 +381,7 @@ class Tagger:
                     for score, index in zip(scores, indices):
                         if score < threshold:
                             break
-                        elif index != 0 or output_batch == tag_output:
+                        elif index != 0 or output_batch is tag_output:
                             output.append((index, score))
 
         spans_list = [[(*idx2span(i), output)
-- 
2.43.0


From fcd0466e1fbea16637f23b78f7c2bfa12bcb2015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:24 +0000
Subject: [PATCH 66/94] fix: return no parse when a word has no supertag

---
 lambeq/bobcat/parser.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lambeq/bobcat/parser.py b/lambeq/bobcat/parser.py
index 14e5909..5ab1d1e 100644
--- a/lambeq/bobcat/parser.py
+++ b/lambeq/bobcat/parser.py
@@ -211,6 +211,9 @@ class ParseResult:
     ----------
     chart : Chart
         The parse chart.
+    length : int, optional
+        The number of words in the sentence. If some of its words have
+        no entry in the chart, there is no parse.
 
     Attributes
     ----------
@@ -221,6 +224,7 @@ class ParseResult:
 
     """
     chart: Chart
+    length: int | None = None
     words: list[str] = field(init=False)
     root: list[ParseTree] = field(init=False)
 
@@ -235,6 +239,9 @@ class ParseResult:
                 while tree.left:
                     tree = tree.left
                 self.words.append(tree.word)
+        if self.length is not None and len(self.words) != self.length:
+            self.root = []
+            return
         try:
             self.root = self.chart[0, len(self.words) - 1]
         except KeyError:
@@ -464,7 +471,7 @@ class ChartParser:
                                 else:
                                     self.calc_score_unary(tree, span_scores)
                             chart.add(start, end, results)
-        return ParseResult(chart)
+        return ParseResult(chart, len(sentence))
 
     def calc_score_unary(self,
                          tree: ParseTree,
-- 
2.43.0


From 9f566d3768d5c0e47fc64202cac9453adfa5c371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 67/94] fix: keep the sign of the angle when Rotosolve wraps it

---
 lambeq/training/rotosolve_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/rotosolve_optimizer.py b/lambeq/training/rotosolve_optimizer.py
index af15e4c..76acf1c 100644
--- a/lambeq/training/rotosolve_optimizer.py
+++ b/lambeq/training/rotosolve_optimizer.py
@@ -77,7 +77,7 @@ class RotosolveOptimizer(Optimizer):
 
     @staticmethod
     def project(x: np.ndarray) -> np.ndarray:
-        return abs(x) % 1
+        return x % 1
 
     def backward(self,
                  batch: tuple[Iterable[Any], np.ndarray]) -> float:
-- 
2.43.0


From 632b07e8fc4722200150f3f2e31b5f91e546d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:05 +0000
Subject: [PATCH 68/94] fix: do not divide by zero when the SPSA bounds clip
 both shifts

---
 lambeq/training/spsa_optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/spsa_optimizer.py b/lambeq/training/spsa_optimizer.py
index 63cf524..22bd210 100644
--- a/lambeq/training/spsa_optimizer.py
+++ b/lambeq/training/spsa_optimizer.py
@@ -170,7 +170,10 @@ class SPSAOptimizer(Optimizer):
         if self.bounds is None:
             grad = (loss0 - loss1) / (2 * self.ck * delta)
         else:
-            grad = (loss0 - loss1) / (xplus - xminus)
+            shift = np.asarray(xplus - xminus)
+            fixed = shift == 0  # both shifts clipped to the same value
+            grad = np.where(fixed, 0,
+                            (loss0 - loss1) / np.where(fixed, 1, shift))
 
         self.gradient += grad * mask
 
-- 
2.43.0


From 41a9bf8bcf49f2f2a59a0c527bae07d287b58a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 69/94] fix: stop early when the criterion stays the same

---
 lambeq/training/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 2e426dc..c63a8c9 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -466,7 +466,7 @@ class Trainer(ABC):
                 factor * val for val in
                 criterion_vals[-early_stopping_interval:]
             ]
-            early_stopping = reference < min(latter_vals)
+            early_stopping = reference <= min(latter_vals)
 
         return early_stopping
 
-- 
2.43.0


From 31c83b7369f3b9cb2cfc40d1ef373a959dac5461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 70/94] fix: keep the best model of the interrupted run when
 resuming

---
 lambeq/training/trainer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index c63a8c9..6c69c57 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -567,7 +567,14 @@ class Trainer(ABC):
         # start training loop
         with backend(self.backend):
             early_stopping = False
-            best_val_criterion = float('inf')
+            # the best value so far, if resuming from a checkpoint
+            best_val_criterion = min(
+                (factor * val for val in (
+                    self.val_costs if early_stopping_criterion is None
+                    else self.val_eval_results[early_stopping_criterion]
+                )),
+                default=float('inf')
+            )
             for epoch in trange(self.start_epoch,
                                 self.epochs + 1,
                                 desc='Epoch',
-- 
2.43.0


From cc03ad2664ee2d8e50fb6b0988d9e6493dbd895e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:43 +0000
Subject: [PATCH 71/94] fix: keep the running training metrics when resuming

---
 lambeq/training/trainer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lambeq/training/trainer.py b/lambeq/training/trainer.py
index 6c69c57..441a074 100644
--- a/lambeq/training/trainer.py
+++ b/lambeq/training/trainer.py
@@ -272,6 +272,8 @@ class Trainer(ABC):
         self.train_epoch_costs = checkpoint['train_epoch_costs']
         self.train_epoch_durations = checkpoint['train_epoch_durations']
         self.train_eval_results = checkpoint['train_eval_results']
+        if 'train_eval_running' in checkpoint:
+            self._train_eval_running = checkpoint['train_eval_running']
         self.val_costs = checkpoint['val_costs']
         self.val_durations = checkpoint['val_durations']
         self.val_eval_results = checkpoint['val_eval_results']
@@ -703,6 +705,7 @@ class Trainer(ABC):
                                  'train_durations': self.train_durations,
                                  'train_epoch_costs': self.train_epoch_costs,
                                  'train_eval_results': self.train_eval_results,
+                                 'train_eval_running': self._train_eval_running,   # noqa: E501
                                  'val_costs': self.val_costs,
                                  'val_durations': self.val_durations,
                                  'train_epoch_durations': self.train_epoch_durations,   # noqa: E501
@@ -789,6 +792,7 @@ class Trainer(ABC):
                      'train_durations': self.train_durations,
                      'train_epoch_costs': self.train_epoch_costs,
                      'train_eval_results': self.train_eval_results,
+                     'train_eval_running': self._train_eval_running,
                      'train_epoch_durations': self.train_epoch_durations,
                      'val_costs': self.val_costs,
                      'val_durations': self.val_durations,
-- 
2.43.0


From 89c5979bf028c51292344d77293c3fa65aa9091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 72/94] fix: substitute weights into all levels of controlled
 gates

---
 lambeq/training/quantum_model.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lambeq/training/quantum_model.py b/lambeq/training/quantum_model.py
index be21a0b..73deb3d 100644
--- a/lambeq/training/quantum_model.py
+++ b/lambeq/training/quantum_model.py
@@ -138,8 +138,6 @@ class QuantumModel(Model):
         for diagram in diagrams:
             for b in diagram.boxes:
                 if b.free_symbols:
-                    while hasattr(b, 'controlled'):
-                        b = b.controlled
                     syms, values = [], []
                     for sym in b.free_symbols:
                         syms.append(sym)
@@ -149,8 +147,12 @@ class QuantumModel(Model):
                             raise KeyError(
                                 f'Unknown symbol: {repr(sym)}'
                             ) from e
+                    # This also sets the data of all controlled boxes
                     b.data = lambdify(syms, b.data)(*values)  # type: ignore[attr-defined] # noqa: E501
-                    del b.free_symbols
+                    b.__dict__.pop('free_symbols', None)
+                    while hasattr(b, 'controlled'):
+                        b = b.controlled
+                        b.__dict__.pop('free_symbols', None)
         return diagrams
 
     @abstractmethod
-- 
2.43.0


From 78f0a51cc8794ca222fc5523fa79741590e1b8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 73/94] fix: do not create a directory in place of the file of
 cached paths

---
 lambeq/training/tn_path_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 377a1bc..96670d3 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -194,7 +194,7 @@ class CachedTnPathOptimizer(TnPathOptimizer):
                     self.cached_paths = pickle.load(f)
             except FileNotFoundError:
                 # Make sure the path exists for future use.
-                self.filepath.mkdir(parents=True, exist_ok=True)
+                Path(self.filepath).parent.mkdir(parents=True, exist_ok=True)
             except EOFError:
                 # No previous paths present; continue.
                 pass
-- 
2.43.0


From 4133bc9679b32298f3fef502d962c14cb1f21029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 74/94] fix: evaluate daggered and rotated tensor boxes with
 all backends

---
 lambeq/backend/tensor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 8ffe8ee..38c0c35 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -188,11 +188,11 @@ class Box(grammar.Box):
 
         arr = self.array
 
-        source = range(len(self.dom @ self.cod))
+        source = list(range(len(self.dom @ self.cod)))
         target = [i + len(self.cod) if i < len(self.dom) else
                   i - len(self.dom) for i in range(len(self.dom @ self.cod))]
         with backend() as np:
-            return np.conjugate(np.moveaxis(arr, source, target))
+            return np.conj(np.moveaxis(arr, source, target))
 
     def _conjugate_array(self):
         """Returns the diagrammtic conjugate of the box's data"""
@@ -204,10 +204,10 @@ class Box(grammar.Box):
             data = np.array(self.data).reshape(dom.dim[::-1]
                                                + cod.dim[::-1])
             array = np.moveaxis(data,
-                                range(len(dom @ cod)),
+                                list(range(len(dom @ cod))),
                                 [len(dom) - i - 1
                                     for i in range(len(dom @ cod))])
-            return np.conjugate(array)
+            return np.conj(array)
 
     def dagger(self):
         """Get the dagger (adjoint) of the box.
-- 
2.43.0


From 603040a6921b0195ee0c567a6ed6e42d5df54f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:49 +0000
Subject: [PATCH 75/94] fix: give tensor caps the data type of the network

---
 lambeq/backend/tensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lambeq/backend/tensor.py b/lambeq/backend/tensor.py
index 38c0c35..7d262a2 100644
--- a/lambeq/backend/tensor.py
+++ b/lambeq/backend/tensor.py
@@ -406,6 +406,9 @@ class Diagram(grammar.Diagram):
                     # A closed loop, which is not an (empty) copy tensor
                     node = tn.Node(get_backend().array(box.type.product),
                                    backend=backend)
+                elif isinstance(box, Cap):
+                    node = tn.CopyNode(2, box.left.product, dtype=dtype,
+                                       backend=backend)
                 elif isinstance(box, Spider):
                     node = tn.CopyNode(box.n_legs_in + box.n_legs_out,
                                        box.type.product, dtype=dtype,
-- 
2.43.0


From 1d0d92d5f3e607212e36c57bf3c6c02bee05f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 76/94] fix: keep all free wires when removing caps from a
 diagram

---
 .../text2diagram/pregroup_tree_converter.py   | 34 ++++---------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 4e56ff9..18bd662 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -169,37 +169,15 @@ def diagram2tree(diagram: Diagram,
                 if (box[0] == 'Cup'
                     and (cap[1] in box[1:] or cap[2] in box[1:]))]
 
+        # the other ends of these cups
+        ends = [ind for cup in cups for ind in cup[1:] if ind not in cap[1:]]
+
         if len(cups) == 2:
-            # three cases:
-            if max(cups[0][1], cups[1][1]) < cap[1]:
-                # cap is to the right of cups
-                new_cup_ends = [cups[0][1], cups[1][1]]
-            elif min(cups[0][2], cups[1][2]) > cap[2]:
-                # cap is to the left of cups
-                new_cup_ends = [cups[0][2], cups[1][2]]
-            else:
-                # cap is in the middle of the cups
-                new_cup_ends = [
-                    min(cups[0][1], cups[1][1]),
-                    max(cups[0][2], cups[1][2]),
-                ]
-
-            boxes_absolute.append((
-                'Cup', min(new_cup_ends), max(new_cup_ends)
-            ))
+            boxes_absolute.append(('Cup', min(ends), max(ends)))
         elif len(cups) == 1:
             # this cup-cap can be yanked to the free index
-            snake_inds = [
-                cups[0][1], cups[0][2],
-                cap[1], cap[2]
-            ]
-            assert types_ind[0] in snake_inds
-            if types_ind[0] == min(snake_inds):
-                types_ind = [max(snake_inds)]
-            elif types_ind[0] == max(snake_inds):
-                types_ind = [min(snake_inds)]
-            else:
-                raise Exception('Impossible case when removing caps.')
+            (free_ind,) = [ind for ind in cap[1:] if ind not in cups[0][1:]]
+            types_ind[types_ind.index(free_ind)] = ends[0]
 
         for cup in cups:
             boxes_absolute.remove(cup)
-- 
2.43.0


From 01b104ec916e069ce3db84858195e58c57a2aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 77/94] fix: break self cycles on the root of a tree

---
 lambeq/text2diagram/pregroup_tree_converter.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 18bd662..2c40b7a 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -214,15 +214,11 @@ def remove_cycles(root: PregroupTreeNode) -> None:
     `pregroup_tree.PregroupTreeNode`
         The root node of the new tree without the duplicate nodes.
     """
-    root_word_idx = root.ind
-    nodes = root.get_nodes()
-    assert len(nodes[root_word_idx]) == 1
-
-    root_node = nodes[root_word_idx][0]
-
     # Remove nodes that cycles to itself
     # (see https://github.com/CQCL/lambeq/issues/180)
+    root_node = root
     root_node.remove_self_cycles()
+    nodes = root_node.get_nodes()
 
     for _, nodes_for_idx in enumerate(nodes):
         if len(nodes_for_idx) > 1:
-- 
2.43.0


From 86c8fc6aeec1ce0c8b3378d2401d943185ffd93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:43 +0000
Subject: [PATCH 78/94] fix: keep the children of duplicate nodes when breaking
 cycles

---
 lambeq/text2diagram/pregroup_tree_converter.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 2c40b7a..8a43a68 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -222,12 +222,15 @@ def remove_cycles(root: PregroupTreeNode) -> None:
 
     for _, nodes_for_idx in enumerate(nodes):
         if len(nodes_for_idx) > 1:
-            # Retain the deepest copy of the node
+            # Retain the deepest copy of the node, unless this drops
+            # the children of another copy
             idx_to_retain = 0
-            depth = nodes_for_idx[idx_to_retain].get_depth(root_node)
+            depth = (bool(nodes_for_idx[idx_to_retain].children),
+                     nodes_for_idx[idx_to_retain].get_depth(root_node))
 
             for j in range(1, len(nodes_for_idx)):
-                copy_depth = nodes_for_idx[j].get_depth(root_node)
+                copy_depth = (bool(nodes_for_idx[j].children),
+                              nodes_for_idx[j].get_depth(root_node))
                 if copy_depth > depth:
                     depth = copy_depth
                     idx_to_retain = j
-- 
2.43.0


From 5c47d8f78dbfeace8096f92259ab731210f42ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:36 +0000
Subject: [PATCH 79/94] fix: keep the wires of a diagram apart from those of
 its caps

---
 .../text2diagram/pregroup_tree_converter.py   | 45 ++-----------------
 1 file changed, 4 insertions(+), 41 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 8a43a68..2bd4c51 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -79,47 +79,10 @@ def diagram2tree(diagram: Diagram,
                 box_ends = types_ind[left_len:]
 
             if isinstance(l.box, Cap):
-                if left_len < len(types_ind):
-                    box_left_end = types_ind[left_len]
-                else:
-                    box_left_end = types_ind[left_len - 1] + 1
-                words_by_typ_index = (words_by_typ_index[:box_left_end]
-                                      + [(None, None), (None, None)]
-                                      + words_by_typ_index[box_left_end:])
-                types = (types[:box_left_end]
-                         + [l.box.left, l.box.right]
-                         + types[box_left_end:])
-
-                box_ends = [box_left_end, box_left_end + 1]
-                new_boxes_absolute = []
-                for box_abs in boxes_absolute:
-                    if box_abs[1] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1] + 2,
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[1])] += 2
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    elif box_abs[2] >= box_left_end:
-                        new_boxes_absolute.append((
-                            box_abs[0],
-                            box_abs[1],
-                            box_abs[2] + 2,
-                        ))
-                        try:
-                            left_cod[left_cod.index(box_abs[2])] += 2
-                        except ValueError:
-                            pass
-                    else:
-                        new_boxes_absolute.append(box_abs)
-                boxes_absolute = new_boxes_absolute
-
-                # update node type indices
-                right_cod = [ind + 2 for ind in right_cod]
+                # The wires of caps are indexed after all other wires
+                box_ends = [len(types), len(types) + 1]
+                words_by_typ_index += [(None, None), (None, None)]
+                types += [l.box.left, l.box.right]
 
             assert len(box_ends) == 2
 
-- 
2.43.0


From 981c96058cee49ded2bd844a7aebb020d72be8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:50 +0000
Subject: [PATCH 80/94] fix: draw wires below their types in text drawings

---
 lambeq/backend/drawing/text_printer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/text_printer.py b/lambeq/backend/drawing/text_printer.py
index aef8711..63ae06a 100644
--- a/lambeq/backend/drawing/text_printer.py
+++ b/lambeq/backend/drawing/text_printer.py
@@ -149,14 +149,15 @@ class PregroupTextPrinter(DiagramTextPrinter):
             type_str = type_sep.join(types)
             width = max(len(word), len(type_str))
 
-            last_pos = len(type_line) + (width - len(type_str)) // 2
+            type_field = type_str.center(width)
+            last_pos = len(type_line) + type_field.index(type_str)
             for t in types:
                 pos.append(last_pos + (len(t) - 1) // 2)
                 last_pos += len(t) + len(type_sep)
 
             word_line += word.center(width)
             underlines += self.chr_set['LINE'] * width
-            type_line += type_str.center(width)
+            type_line += type_field
 
         # process layers
         scan = [*range(len(pos))]
-- 
2.43.0


From c4804c4823fd29594d15af5830d4bbf6522d1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:59 +0000
Subject: [PATCH 81/94] fix: join all crossing wires when converting trees to
 diagrams

---
 .../text2diagram/pregroup_tree_converter.py   | 113 +++++-------------
 1 file changed, 33 insertions(+), 80 deletions(-)

diff --git a/lambeq/text2diagram/pregroup_tree_converter.py b/lambeq/text2diagram/pregroup_tree_converter.py
index 2bd4c51..c3b1206 100644
--- a/lambeq/text2diagram/pregroup_tree_converter.py
+++ b/lambeq/text2diagram/pregroup_tree_converter.py
@@ -763,11 +763,6 @@ def tree2diagram(
             morphisms.append(('Cup', sn, en))
 
     morphisms = sorted(morphisms, key=lambda t: abs(t[1] - t[2]) - 1)
-    free_wires_morphisms_inds = {}
-    for free_wire in free_wires:
-        morphisms.append(('Free', free_wire, free_wire))
-        free_wires_morphisms_inds[free_wire] = len(morphisms) - 1
-
     # Build words
     word_boxes = []
     for token, word_component in zip(tokens, word_components):
@@ -776,58 +771,6 @@ def tree2diagram(
             word_cod @= ty
         word_boxes.append(Word(token, word_cod))
 
-    # Add swaps
-    new_morphisms: list[tuple[str, int, int]] = []
-    offsets = []
-    n_morphisms = len(morphisms)
-    for i in range(n_morphisms):
-        m_t, m_l, m_r = morphisms[i]
-        swaps = []
-        for j in range(i + 1, n_morphisms):
-            o_t, o_l, o_r = morphisms[j]
-            if o_l == o_r and m_l < o_l < m_r:
-                # o_l == o_r indicates a free string
-                swaps.append(('Swap', m_l, o_l))
-                morphisms[j] = (o_t, m_l, m_l)
-                m_l = o_l
-            if o_l != o_r:
-                # Always introduce swaps with the free wires
-                # if they are in between wires that will get swapped
-                if o_l < m_l < o_r < m_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if m_l < free_wire < o_r:
-                            swaps.append(('Swap', m_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', m_l, m_l)
-                            m_l = free_wire
-                    swaps.append(('Swap', m_l, o_r))
-                    morphisms[j] = (o_t, o_l, m_l)
-                    m_l = o_r
-                elif m_l < o_l < m_r < o_r:
-                    for (free_wire,
-                         free_wire_ind) in free_wires_morphisms_inds.items():
-                        if o_l < free_wire < m_r:
-                            swaps.append(('Swap', o_l, free_wire))
-                            morphisms[free_wire_ind] = ('Free', o_l, o_l)
-                            o_l = free_wire
-                    swaps.append(('Swap', o_l, m_r))
-                    morphisms[j] = (o_t, m_r, o_r)
-                    m_r = o_l
-
-        new_morphism = (m_t, m_l, m_r)
-        new_morphisms.extend(swaps)
-        offsets.extend([swap[1] for swap in swaps])
-        new_morphisms.append(new_morphism)
-        offsets.append(new_morphism[1])
-
-    morphism_str_to_cls: dict[str, type[Cup | Swap]] = {
-        'Cup': Cup, 'Swap': Swap
-    }
-    new_morphisms_cls: list[tuple[type[Cup | Swap], int, int]] = [
-        (morphism_str_to_cls[m_t], m_l, m_r)
-        for (m_t, m_l, m_r) in new_morphisms if m_t != 'Free'
-    ]
-
     diagram = Diagram.create_pregroup_diagram(
         words=word_boxes,
         morphisms=[],
@@ -839,29 +782,39 @@ def tree2diagram(
         diagram.draw(**draw_kwargs)
 
     if not no_morphisms:
-        n_morphisms = len(new_morphisms_cls)
-        for i, ((m_cls, m_l, m_r), offset) in enumerate(zip(new_morphisms_cls,
-                                                            offsets)):
-            left = diagram.cod[:offset]
-            right = diagram.cod[offset + 2:]
-            box_l, box_r = diagram.cod[m_l:m_l + 1], diagram.cod[m_r:m_r + 1]
-            box = m_cls(box_l, box_r)
-            diagram >>= left @ box @ right
-            if m_cls == Cup:
-                for j in range(i + 1, n_morphisms):
-                    other = new_morphisms_cls[j]
-                    if other[1] < m_l < m_r < other[2]:
-                        new_morphisms_cls[j] = (
-                            other[0], other[1], other[2] - 2
-                        )
-                    elif m_r < other[1] < other[2]:
-                        new_morphisms_cls[j] = (
-                            other[0], other[1] - 2, other[2] - 2
-                        )
-                        offsets[j] = offsets[j] - 2
-                    elif other[1] < other[2] < m_l:
-                        pass
-
+        # The wires that are not cupped yet, and the wires they are
+        # joined with
+        scan = list(range(ty_global_index))
+        partners: dict[int, int] = {}
+        for _, start, end in morphisms:
+            partners[start], partners[end] = end, start
+
+        for _, start, end in morphisms:
+            left, right = sorted((scan.index(start), scan.index(end)))
+            while right - left > 1:
+                # Swap the ends of the cup with the wires in between
+                left_partner = partners.get(scan[left + 1])
+                right_partner = partners.get(scan[right - 1])
+                if (left_partner is None
+                        or scan.index(left_partner) < left
+                        or right_partner is None
+                        or scan.index(right_partner) < right):
+                    offset = left
+                    left += 1
+                else:
+                    offset = right - 1
+                    right -= 1
+                diagram >>= diagram.cod[:offset] @ Swap(
+                    diagram.cod[offset:offset + 1],
+                    diagram.cod[offset + 1:offset + 2]
+                ) @ diagram.cod[offset + 2:]
+                scan[offset:offset + 2] = scan[offset:offset + 2][::-1]
+                if draw_intermediate:
+                    diagram.draw(**draw_kwargs)
+            diagram >>= diagram.cod[:left] @ Cup(
+                diagram.cod[left:left + 1], diagram.cod[right:right + 1]
+            ) @ diagram.cod[right + 1:]
+            del scan[left:right + 1]
             if draw_intermediate:
                 diagram.draw(**draw_kwargs)
 
-- 
2.43.0


From ee5ebeb2684d843be0974b2c86ad849261ba662e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:07 +0000
Subject: [PATCH 82/94] fix: frames of clauses missing an object act on noun
 wires

---
 lambeq/experimental/discocirc/reader.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 1e2476c..928fdcb 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -139,20 +139,21 @@ class DisCoCircReader(Reader):
         noun_inds = [nid for _, _, nids in subdiags_n_nouns
                      for nid in nids]
 
-        dom = Ty().tensor(Ty(),
-                          *list(filter(lambda t: t.z != 0, node.typ)))
+        # Wires of the nouns that are not below this node (e.g. the
+        # subject of a verb phrase), on either side of it
+        dom = Ty().tensor(Ty(), *[t.unwind() for t in node.typ if t.z != 0])
 
         if not nouns and not dom:
             return Id(), [], []
 
         if not subdiags or not any(d.layers for d in subdiags):
             return Box(node.word,
-                       NOUN ** len(nouns) @ dom.l,
-                       NOUN ** len(nouns) @ dom.l), nouns, noun_inds
+                       NOUN ** len(nouns) @ dom,
+                       NOUN ** len(nouns) @ dom), nouns, noun_inds
         else:
             f = Frame(node.word,
-                      NOUN ** len(nouns) @ dom.l,
-                      NOUN ** len(nouns) @ dom.l,
+                      NOUN ** len(nouns) @ dom,
+                      NOUN ** len(nouns) @ dom,
                       0,
                       subdiags)
             return f, nouns, noun_inds
-- 
2.43.0


From 1554e11d3c7cfb3956546be7f82c6592ebaedcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 83/94] fix: read texts in which every noun is pruned

---
 lambeq/experimental/discocirc/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index 928fdcb..f284701 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -411,7 +411,7 @@ class DisCoCircReader(Reader):
                   else Spider(NOUN,
                               1,
                               wire_counter[wid])
-                  for wid in range(max(wire_ids)+1)])
+                  for wid in range(max(wire_ids, default=-1)+1)])
 
             permute = Diagram.permutation(NOUN ** len(wire_ids), perm_list)
 
-- 
2.43.0


From b2a35673c85caa5094e5a680ed54f4deb6208e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:49 +0000
Subject: [PATCH 84/94] fix: prune every mention of a pruned noun and of no
 other noun

---
 lambeq/experimental/discocirc/reader.py | 33 +++++++++----------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/lambeq/experimental/discocirc/reader.py b/lambeq/experimental/discocirc/reader.py
index f284701..eb3fb2e 100644
--- a/lambeq/experimental/discocirc/reader.py
+++ b/lambeq/experimental/discocirc/reader.py
@@ -263,26 +263,18 @@ class DisCoCircReader(Reader):
 
         return bigdiag, nouns, noun_inds, noun_cursor
 
-    def _get_index(self, s, pnoun):
-        for j, w in enumerate(s):
-            if w == pnoun:
-                return j
-        return -1
-
     def _prune_indices(self,
                        sentences,
                        corefs,
-                       pruned_nouns: Iterable[str] = ()):
-        initial_ids = []
-
+                       pruned_nouns: Iterable[str] = (),
+                       initial_ids: Iterable[tuple[int, int]] = ()):
+        pruned_nouns = set(pruned_nouns)
         pruned_ids = [[] for _ in sentences]
-        # Find first coref of each pruned noun
-        for pnoun in pruned_nouns:
-            for i, s in enumerate(sentences):
-                j = self._get_index(s, pnoun)
-                if j != -1:
-                    initial_ids.append((i, j))
-                    break
+        # Find every mention of each pruned noun
+        initial_ids = [*initial_ids,
+                       *((i, j) for i, s in enumerate(sentences)
+                         for j, word in enumerate(s)
+                         if word in pruned_nouns)]
 
         for i, j in initial_ids:
             pruned_ids[i].append(j)
@@ -291,8 +283,7 @@ class DisCoCircReader(Reader):
                     break
                 elif j in p[i]:
                     for h, hword in enumerate(p):
-                        if len(hword) > 0 and h != i:
-                            pruned_ids[h].append(hword[0])
+                        pruned_ids[h].extend(hword)
                     break
 
         return pruned_ids
@@ -350,10 +341,8 @@ class DisCoCircReader(Reader):
         freq_pruned_ids = [nid for nid, count in noun_counts.items()
                            if count < min_noun_freq]
 
-        pruned_nouns = set(pruned_nouns).union(
-                        {sentences[i][j] for (i, j) in freq_pruned_ids})
-
-        pruned_ids = self._prune_indices(sentences, corefs, pruned_nouns)
+        pruned_ids = self._prune_indices(sentences, corefs, pruned_nouns,
+                                         freq_pruned_ids)
 
         rewriter = TreeRewriter(rewrite_rules)
 
-- 
2.43.0


From 5efe9a73b7f2f69482accdb412dfa133ac445c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:17 +0000
Subject: [PATCH 85/94] fix: import doubly controlled gates from tket on any
 qubits

---
 lambeq/backend/converters/tk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/converters/tk.py b/lambeq/backend/converters/tk.py
index 406c182..7f8dd60 100644
--- a/lambeq/backend/converters/tk.py
+++ b/lambeq/backend/converters/tk.py
@@ -329,12 +329,15 @@ def from_tk(tk_circuit: tk.Circuit) -> Diagram:
         if len(tk_gate.args) == 3:  # three qubit gate
             controls = (tk_gate.args[0].index[0], tk_gate.args[1].index[0])
             target = tk_gate.args[2].index[0]
-            span = max(controls + (target,)) - min(controls + (target,)) + 1
+            offset = min(controls + (target,))
+            span = max(controls + (target,)) - offset + 1
+            # Indices relative to the first qubit the gate acts on
+            controls = (controls[0] - offset, controls[1] - offset)
+            target -= offset
             if name == 'CCX':
                 box = Id(qubit**span).apply_gate(CCX, *controls, target)
             elif name == 'CCZ':
                 box = Id(qubit**span).apply_gate(CCZ, *controls, target)
-            offset = min(controls + (target,))
 
         if box is None:
             raise NotImplementedError
-- 
2.43.0


From 93a41f6365153523394b1685052d36bc0d051335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:58 +0000
Subject: [PATCH 86/94] fix: do not draw a box over earlier ones when no wires
 are open

---
 lambeq/backend/drawing/drawable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/backend/drawing/drawable.py b/lambeq/backend/drawing/drawable.py
index ad792a1..c4588d2 100644
--- a/lambeq/backend/drawing/drawable.py
+++ b/lambeq/backend/drawing/drawable.py
@@ -436,7 +436,8 @@ class DrawableDiagram:
         """
 
         if not scan:
-            return 0, 0
+            # no open wires: draw below everything drawn so far
+            return 0, min([node.y for node in self.boxes], default=1) - 1
 
         half_width = X_SPACING * (len(box.cod[:-1]) / 2 + 1)
 
-- 
2.43.0


From 01de5a9952be0c053f5c39eacbd0eeb9b6b05a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 87/94] fix: give None for CCGBank derivations followed by
 extra text

---
 lambeq/text2diagram/ccgbank_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index e51f362..95b9ecf 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -376,10 +376,11 @@ class CCGBankParser(CCGParser):
             assert isinstance(sentence, str)
             tree = None
             try:
-                tree, pos = CCGBankParser._build_ccgtree(sentence, 0)
+                full_tree, pos = CCGBankParser._build_ccgtree(sentence, 0)
                 if pos < len(sentence):
                     raise CCGBankParseError(f'extra text from index {pos+1} - '
                                             f'{repr(sentence[pos:])}')
+                tree = full_tree
             except Exception as e:
                 if not suppress_exceptions:
                     raise CCGBankParseError(sentence, str(e)) from e
-- 
2.43.0


From 30587a5d00b388d07a9884a8938042b5950cb760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:35 +0000
Subject: [PATCH 88/94] fix: only skip spaces after the closing bracket of a
 CCGBank tree

---
 lambeq/text2diagram/ccgbank_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lambeq/text2diagram/ccgbank_parser.py b/lambeq/text2diagram/ccgbank_parser.py
index 95b9ecf..114df09 100644
--- a/lambeq/text2diagram/ccgbank_parser.py
+++ b/lambeq/text2diagram/ccgbank_parser.py
@@ -424,7 +424,9 @@ class CCGBankParser(CCGParser):
                                biclosed_type=biclosed_type,
                                children=children,
                                metadata={'original': tree_match})
-            pos += 2
+            pos += 1
+            while pos < len(sentence) and sentence[pos].isspace():
+                pos += 1
         return ccg_tree, pos
 
     @staticmethod
-- 
2.43.0


From 7e8fbd191d897a07fb4f318d37e6e4bee7c4fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:24 +0000
Subject: [PATCH 89/94] fix: do not force the root of a sentence onto a special
 token

---
 lambeq/oncilla/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lambeq/oncilla/parser.py b/lambeq/oncilla/parser.py
index 5d88456..73750d4 100644
--- a/lambeq/oncilla/parser.py
+++ b/lambeq/oncilla/parser.py
@@ -799,7 +799,7 @@ class BertForSentenceToTree(BertPreTrainedModel):
         # Use `word_ids` to mask the root logits
         curr_word_id = None
         for i, word_id in enumerate(word_ids):
-            if word_id in {-1000, 0} or curr_word_id == word_id:
+            if word_id in {None, -1000, 0} or curr_word_id == word_id:
                 root_logits[i] = -torch.inf
             curr_word_id = word_id
 
-- 
2.43.0


From 4791b3c5263674aa418a84b4e2d56d05481ddee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:34 +0000
Subject: [PATCH 90/94] fix: keep traced nodes when contracting with a path
 optimiser

---
 lambeq/training/tn_path_optimizer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lambeq/training/tn_path_optimizer.py b/lambeq/training/tn_path_optimizer.py
index 96670d3..084bdf9 100644
--- a/lambeq/training/tn_path_optimizer.py
+++ b/lambeq/training/tn_path_optimizer.py
@@ -319,8 +319,11 @@ def ordered_nodes_contractor(
         if not edge.is_disabled:
             # if it is disabled we already contracted it
             if edge.is_trace():
-                nodes_set.remove(edge.node1)
-                nodes_set.add(contract_parallel(edge))
+                old_node = edge.node1
+                new_node = contract_parallel(edge)
+                nodes_set.remove(old_node)
+                nodes_set.add(new_node)
+                nodes = [new_node if n is old_node else n for n in nodes]
 
     if len(nodes_set) == 1:
         # There's nothing to contract.
-- 
2.43.0


From 651ae28df08e8f924c5f31737dc19bf33936d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:09 +0000
Subject: [PATCH 91/94] fix: load the stored output mode of the command line

---
 lambeq/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index c97079b..b113fa2 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -611,6 +611,8 @@ class DiagramSaveModule(CLIModule):
 
 def main() -> None:
     parser = prepare_parser()
+    # the default mode must not take precedence over a stored one
+    parser.set_defaults(mode=None)
     cl_args = parser.parse_args()
     if cl_args.load_args is not None:
         saved_args = yaml.load(open(cl_args.load_args, 'r'),
-- 
2.43.0


From 35f4b03a7cd906fbc1163b1d099f19ff3e1007c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:09 +0000
Subject: [PATCH 92/94] fix: use the documented ansatz options when none are
 given

---
 lambeq/cli.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/lambeq/cli.py b/lambeq/cli.py
index b113fa2..e2ec056 100644
--- a/lambeq/cli.py
+++ b/lambeq/cli.py
@@ -75,10 +75,16 @@ AVAILABLE_IMAGE_TYPES: list[str] = [
     'svgz', 'tif', 'tiff'
 ]
 
-DEFAULT_ARG_VALUES: dict[str, str] = {
+DEFAULT_ARG_VALUES: dict[str, Any] = {
     'output_format': 'text-unicode',
     'image_format': 'png',
-    'mode': 'string-diagram'
+    'mode': 'string-diagram',
+    'ansatz_options': {'dim_n': 2,
+                       'dim_s': 2,
+                       'n_layers': 2,
+                       'n_single_qubit_params': 3,
+                       'bond_dim': 3,
+                       'max_order': 3}
 }
 
 
@@ -304,12 +310,9 @@ def prepare_parser() -> argparse.ArgumentParser:
             choices=AVAILABLE_ANSATZE.keys(),
             help='Ansatz to be used. This determines if the result will be a '
                  'quantum circuit or a tensor network.')
-    ansatz_arglist = ArgumentList([('dim_n', int, 2),
-                                   ('dim_s', int, 2),
-                                   ('n_layers', int, 2),
-                                   ('n_single_qubit_params', int, 3),
-                                   ('bond_dim', int, 3),
-                                   ('max_order', int, 3)])
+    ansatz_arglist = ArgumentList([
+        (k, int, v) for k, v in DEFAULT_ARG_VALUES['ansatz_options'].items()
+    ])
 
     ansatz_group.add_argument(
             '-n',
-- 
2.43.0


From 9918346d7018d903c7940ceafb2bd2321075d84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:30 +0000
Subject: [PATCH 93/94] fix: keep the looseness of each TikZ wire when styles
 are used

---
 lambeq/backend/drawing/tikz_backend.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lambeq/backend/drawing/tikz_backend.py b/lambeq/backend/drawing/tikz_backend.py
index 2eb5477..45b8301 100644
--- a/lambeq/backend/drawing/tikz_backend.py
+++ b/lambeq/backend/drawing/tikz_backend.py
@@ -178,10 +178,6 @@ class TikzBackend(DrawingBackend):
                                if color != '#000000' else 'black_wire')
             wire_style = (f'\\tikzstyle{{{wire_style_name}}}='
                           f'[-, draw={self.format_wire_color(color)}')
-
-            # Concatenate additional styles like looseness if present
-            if style:
-                wire_style += f', {style}'
             wire_style += f', line width={self.wire_linewidth}pt]\n'
 
             if wire_style not in self.edge_styles:
@@ -191,8 +187,10 @@ class TikzBackend(DrawingBackend):
         else:
             wire_options = f'-, draw={self.format_wire_color(color)}'
             wire_options += f', line width={self.wire_linewidth}pt'
-            if style:
-                wire_options += f', {style}'
+
+        # Wires of the same colour may differ in looseness
+        if style:
+            wire_options += f', {style}'
         cmd = (
             '\\draw [in={}, out={}{}] '
             '({}.center) to ({}.center);\n')
-- 
2.43.0


From 476a5d526db98870f6552a8aad68c6e82e4661db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:31:30 +0000
Subject: [PATCH 94/94] fix: attach no TikZ wire to a shifted label

---
 lambeq/backend/drawing/tikz_backend.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lambeq/backend/drawing/tikz_backend.py b/lambeq/backend/drawing/tikz_backend.py
index 45b8301..406c9cc 100644
--- a/lambeq/backend/drawing/tikz_backend.py
+++ b/lambeq/backend/drawing/tikz_backend.py
@@ -73,7 +73,7 @@ class TikzBackend(DrawingBackend):
                  options: str | None = None) -> int:
         """ Add a node to the tikz picture, return its unique id. """
 
-        node = max(self.nodes.values()) + 1 if self.nodes else 1
+        node = len(self.nodelayer) + len(self.label_layer) + 1
         text = '' if text is None else text
         if is_label:
             self.label_layer.append(
@@ -83,7 +83,9 @@ class TikzBackend(DrawingBackend):
             self.nodelayer.append(
                 f'\\node [{options or ""}] ({node}) '
                 f'at ({x}, {y}) {{{text}}};\n')
-        self.nodes.update({(x, y): node})
+            # The centre of a label may be away from its coordinates,
+            # so no wire can be attached to it.
+            self.nodes.update({(x, y): node})
 
         self.max_width = max(self.max_width, x)
 
-- 
2.43.0

