From ef835ddc15badb84df6f01517c623f91bf9208fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 01/54] fix: serialize booleans as true/false instead of
 unparsable True/False

---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..62563e7 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -210,9 +210,9 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
-        if isinstance(value, (int, float)):
+        # bool is a subclass of int, and int or float need to be handled before constants (1.0 == True)
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
-        # int or float needs to be handled before this (1.0 == True)
         if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
             return REVERSE_CONSTANTS[value]
         if isinstance(value, RecipeNode):
-- 
2.43.0


From ab3fc47ff046f86c75242603bfe8071ed7e97edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 02/54] fix: keep quoted strings that contain '=' and dict keys
 with special characters intact in serialized recipes

---
 sd_mecha/serialization.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 62563e7..43eca84 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -48,7 +48,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         if line.startswith("#"):
             return
 
-        command, *args = tokenize(line)
+        (_, command), *args = tokenize(line)
         positional_args, keyword_args = preprocess_args(args)
         if command == "dict":
             results.append(dict(*positional_args, **keyword_args))
@@ -67,12 +67,11 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     def preprocess_args(args):
         positional_args = []
         named_args = {}
-        for arg_index, arg in enumerate(args):
-            if '=' in arg:
-                key, value = arg.split('=', maxsplit=1)
+        for arg_index, (key, value) in enumerate(args):
+            if key is not None:
                 named_args[key] = get_arg_value(value, arg_index)
             else:
-                positional_args.append(get_arg_value(arg, arg_index))
+                positional_args.append(get_arg_value(value, arg_index))
         return positional_args, named_args
 
     def get_arg_value(arg, arg_index):
@@ -94,7 +93,9 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
             raise ValueError(f"argument {arg_index}: {str(e)}")
 
     def tokenize(line):
+        # each token is a pair (key, value), where key is None for positional arguments
         tokens = []
+        current_key = None
         current_token = []
         quote_prefix = []
         inside_quotes = False
@@ -111,20 +112,26 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                     quote_prefix = current_token
                     current_token = []
                 else:  # End of quoted string
-                    tokens.append(f'{"".join(quote_prefix)}"{"".join(current_token)}"')
+                    tokens.append((current_key, f'{"".join(quote_prefix)}"{"".join(current_token)}"'))
+                    current_key = None
                     current_token = []
                     quote_prefix = []
                 continue
             elif char == ' ' and not inside_quotes:
-                if current_token:  # End of a token
-                    tokens.append(''.join(current_token))
+                if current_token or current_key is not None:  # End of a token
+                    tokens.append((current_key, ''.join(current_token)))
+                    current_key = None
                     current_token = []
                 continue
+            elif char == '=' and not inside_quotes and current_key is None:  # End of a key
+                current_key = ''.join(current_token)
+                current_token = []
+                continue
             current_token.append(char)
         if inside_quotes:  # Handle mismatched quotes
             raise ValueError(f"mismatched quotes in input")
-        if current_token:  # Add last token if exists
-            tokens.append(''.join(current_token))
+        if current_token or current_key is not None:  # Add last token if exists
+            tokens.append((current_key, ''.join(current_token)))
         return tokens
 
     for line_num, line in enumerate(recipe, 1):
@@ -208,7 +215,7 @@ class SerializerVisitor(RecipeVisitor):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
             return f'"{value}"'
         if isinstance(value, dict):
-            dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         # bool is a subclass of int, and int or float need to be handled before constants (1.0 == True)
         if isinstance(value, (int, float)) and not isinstance(value, bool):
@@ -219,6 +226,10 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    @staticmethod
+    def __serialize_key(key) -> str:
+        return "".join(f"\\{c}" if c in '\\"= ' else c for c in str(key))
+
     def __add_instruction(self, instruction: str) -> str:
         try:
             return f"&{self.instructions.index(instruction)}"
-- 
2.43.0


From 6b2090f101ceb5b773f3861d08865a2218f873fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 03/54] fix: escape line breaks in serialized strings so that
 each instruction stays on one line

---
 sd_mecha/serialization.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 43eca84..aeccdbc 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -103,6 +103,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         for char in line:
             if is_escape:
                 is_escape = False
+                char = LINE_BREAK_ESCAPES.get(char, char)
             elif char == "\\":
                 is_escape = True
                 continue
@@ -213,7 +214,7 @@ class SerializerVisitor(RecipeVisitor):
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
-            return f'"{value}"'
+            return f'"{escape_line_breaks(value)}"'
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
@@ -228,7 +229,7 @@ class SerializerVisitor(RecipeVisitor):
 
     @staticmethod
     def __serialize_key(key) -> str:
-        return "".join(f"\\{c}" if c in '\\"= ' else c for c in str(key))
+        return escape_line_breaks("".join(f"\\{c}" if c in '\\"= ' else c for c in str(key)))
 
     def __add_instruction(self, instruction: str) -> str:
         try:
@@ -238,6 +239,15 @@ class SerializerVisitor(RecipeVisitor):
             return f"&{len(self.instructions) - 1}"
 
 
+LINE_BREAK_ESCAPES = {"n": "\n", "r": "\r"}
+
+
+def escape_line_breaks(value: str) -> str:
+    for escape, char in LINE_BREAK_ESCAPES.items():
+        value = value.replace(char, f"\\{escape}")
+    return value
+
+
 CONSTANTS = {
     "null": None,
     "true": True,
-- 
2.43.0


From ebc4dad8be4a7574844b52276faddad47f9d4766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 04/54] fix: accept infinite and NaN floats when deserializing
 recipes

---
 sd_mecha/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index aeccdbc..5b409f9 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -85,7 +85,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                 return results[ref_index]
             elif arg.startswith('"') and arg.endswith('"'):
                 return arg[1:-1]
-            elif '.' in arg or 'e' in arg.lower():
+            elif '.' in arg or 'e' in arg.lower() or arg in NON_FINITE_FLOATS:
                 return float(arg)
             else:
                 return int(arg)
@@ -248,6 +248,7 @@ def escape_line_breaks(value: str) -> str:
     return value
 
 
+NON_FINITE_FLOATS = ("inf", "-inf", "nan")
 CONSTANTS = {
     "null": None,
     "true": True,
-- 
2.43.0


From d0f9f4dd8ad7f80db51c998b9e9beb1610f34188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:31 +0000
Subject: [PATCH 05/54] fix: deserialize recipes given as lines with
 terminators or containing blank lines

---
 sd_mecha/serialization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 5b409f9..dc3437b 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -32,6 +32,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     """
     if not isinstance(recipe, list):
         recipe = recipe.split("\n")
+    recipe = [line.rstrip("\r\n") for line in recipe]
 
     if not recipe[0].startswith("version"):
         raise RuntimeError("bad format: expected version at line 1")
@@ -45,7 +46,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
 
     def parse(line):
         line = line.strip()
-        if line.startswith("#"):
+        if not line or line.startswith("#"):
             return
 
         (_, command), *args = tokenize(line)
-- 
2.43.0


From 7685f064a629dcf3e002cfa1702535a6dac24b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:54 +0000
Subject: [PATCH 06/54] fix: keep merge spaces of literals, top-level literals
 and structural configs when serializing recipes

---
 sd_mecha/serialization.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index dc3437b..00d78ce 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -161,7 +161,7 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         A string representation of the recipe, suitable for writing to a .mecha file.
     """
     serializer = SerializerVisitor()
-    recipe.accept(serializer)
+    serializer.visit_root(recipe)
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
 
@@ -183,19 +183,27 @@ class SerializerVisitor(RecipeVisitor):
     def __init__(self, instructions: Optional[List[str]] = None):
         self.instructions = instructions if instructions is not None else []
 
+    def visit_root(self, node: RecipeNode):
+        # the root needs an instruction of its own even when it is a bare literal
+        if isinstance(node, LiteralRecipeNode):
+            return self.__add_literal(node)
+        return node.accept(self)
+
     def visit_literal(self, node: LiteralRecipeNode):
+        if node.model_config is None and node.merge_space == "param":
+            return self.__serialize_value(node.value)
+        return self.__add_literal(node)
+
+    def __add_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
-        if node.model_config is None:
-            return value
-        else:
-            config = self.__serialize_value(node.model_config.identifier)
-            merge_space = self.__serialize_value(node.merge_space.identifier)
-            line = f"literal {value} model_config={config} merge_space={merge_space}"
-            return self.__add_instruction(line)
+        config = self.__serialize_value(self.__get_config_identifier(node))
+        merge_space = self.__serialize_value(node.merge_space.identifier)
+        line = f"literal {value} model_config={config} merge_space={merge_space}"
+        return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_value(self.__get_config_identifier(node))
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -228,6 +236,12 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    @staticmethod
+    def __get_config_identifier(node: RecipeNode) -> Optional[str]:
+        # structural configs are not registered under an identifier: they are inferred again from the keys
+        identifier = getattr(node.model_config, "identifier", None)
+        return None if identifier == "structural" else identifier
+
     @staticmethod
     def __serialize_key(key) -> str:
         return escape_line_breaks("".join(f"\\{c}" if c in '\\"= ' else c for c in str(key)))
-- 
2.43.0


From d824e183ed8c82256c000fd47929a0b74d1d3bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 07/54] fix: pass overlap_emphasis under the name dropout
 declares

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..0e93ad6 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
-- 
2.43.0


From b552d8f7899c14f564ca5fb4f72a77f8be6e0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 08/54] fix: make the rescale option of ties_with_dare reach
 ties_sum_with_dropout with the documented meaning

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 sd_mecha/merge_method_wrappers.py                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..7577886 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -698,7 +698,7 @@ def ties_sum_with_dropout(
     if math.isclose(probability, 1.0):
         # Corner case
         return deltas * 0.0
-    elif no_rescale:
+    elif not no_rescale:
         # Rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
         return deltas / (1.0 - probability) 
diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 0e93ad6..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From f1ef51d5ebf59740a357fff5a2e652aaaccf456a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 09/54] fix: declare the inputs of rotate as state dicts, as it
 indexes them by key

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 7577886..b0046dc 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -381,8 +381,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
-- 
2.43.0


From d2c7212bc2d362d0a48991cc629b91af2b92628b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 10/54] fix: do not modify input tensors in place in
 tensor_sum, rotate and multiply_quotient

---
 .../extensions/builtin/merge_methods/__init__.py  | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index b0046dc..82bcbb6 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,11 +153,12 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
-        b[start_i:end_i] = a[start_i:end_i]
-        return b
+        res = b.clone()
+        res[start_i:end_i] = a[start_i:end_i]
     else:
-        a[start_i:end_i] = b[start_i:end_i]
-        return a
+        res = a.clone()
+        res[start_i:end_i] = b[start_i:end_i]
+    return res
 
 
 @merge_method
@@ -288,7 +289,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
@@ -409,8 +410,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
-- 
2.43.0


From bb51bfc12c978b4a4d50e37b071539f1e7045299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 11/54] fix: stack dropout masks so that the default overlap
 does not fail

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 82bcbb6..0c5b88a 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -598,10 +598,10 @@ def dropout(  # aka n-supermario
     rng = np.random.default_rng(seed)
 
     if overlap % 2 == 1:
-        masks = tuple(
+        masks = torch.stack([
             torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
-        )
+        ])
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
-- 
2.43.0


From 1303edf55edddd3f70e1a6f0e6188a22a2e2114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 12/54] fix: do not raise cached eigenvalues to a power in
 place

---
 sd_mecha/extensions/builtin/merge_methods/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index a88a218..5a596fc 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -34,7 +34,7 @@ def fractional_matrix_power(matrix: Tensor, power: float, cache: Optional[Dict[s
             cache["eigenvectors"] = eigenvectors.to("cpu", torch.complex32)
             cache["eigenvectors_inv"] = eigenvectors_inv.to("cpu", torch.complex32)
 
-    eigenvalues.pow_(power)
+    eigenvalues = eigenvalues.pow(power)
     result = eigenvectors @ torch.diag(eigenvalues) @ eigenvectors_inv
     return result.real.to(dtype=matrix.dtype)
 
-- 
2.43.0


From 1fed0ba6ef1969c037aaaa6daf760bf6e28ec3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 13/54] fix: do not delete ema keys from the cached metadata of
 the model config

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..8ba3fa2 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,7 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From bb2991aa4bd3bb7cb02e33284715cabc04335470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 14/54] fix: do not let a missing key of one input hide the
 error of another input

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 8ba3fa2..0ee0b6a 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -600,7 +600,9 @@ class ErrorHolder:
         try:
             return fn(*args, **kwargs)
         except Exception:
-            self.exc_info = sys.exc_info()
+            # a missing key must not hide another error
+            if self.exc_info is None or isinstance(self.exc_info[1], StateDictKeyError):
+                self.exc_info = sys.exc_info()
             return None
 
     def try_raise(self):
-- 
2.43.0


From 4d37b6340e170ddf7e6b8bad3864ed69c211df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 15/54] fix: wait for the workers before closing the output of
 a failed merge

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 0ee0b6a..fa6351b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -170,7 +170,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -179,6 +178,7 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # workers need to stop before the output is closed
         ):
             fix_torch_threading()
             futures = []
-- 
2.43.0


From 2edc0b23cce6ec6ed62eeb39686b8659d8dada27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 16/54] fix: write exactly the elements of views,
 non-contiguous and device tensors

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..89a23b7 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -335,8 +335,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse
+    tensor = tensor.cpu().contiguous()
+    total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
     if ptr == 0:
-- 
2.43.0


From 4bb914f32df161f518a4ed0c36e995894baa5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 17/54] fix: never read or write tensor data partially

---
 sd_mecha/streaming.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 89a23b7..bd8ad8f 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -80,7 +80,7 @@ class InSafetensorsDict(SafetensorsMapping):
             raise ValueError(f"Model type not supported: {file_path} (only safetensors are supported)")
 
         self.default_buffer_size = buffer_size
-        self.file = open(file_path, mode='rb', buffering=0)
+        self.file = open(file_path, mode='rb')
         self.file_path = file_path
         self.header_size, self.header = self._read_header()
         self.buffer = bytearray()
@@ -140,13 +140,12 @@ class InSafetensorsDict(SafetensorsMapping):
     def _ensure_buffer(self, start_pos, length):
         if start_pos < self.buffer_start_offset or start_pos + length > self.buffer_start_offset + len(self.buffer):
             self.file.seek(start_pos)
-            necessary_buffer_size = max(self.default_buffer_size, length)
-            if len(self.buffer) < necessary_buffer_size:
-                self.buffer = bytearray(necessary_buffer_size)
-            else:
-                self.buffer = self.buffer[:necessary_buffer_size]
+            buffer = bytearray(max(self.default_buffer_size, length))
+            bytes_read = self.file.readinto(buffer)
+            if bytes_read < length:
+                raise EOFError(f"unexpected end of file in {self.file_path}")
 
-            self.file.readinto(self.buffer)
+            self.buffer = buffer[:bytes_read]
             self.buffer_start_offset = start_pos
 
     def _load_tensor(self, tensor_name):
@@ -197,7 +196,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
         self.header = {
             "__metadata__": {"mecha_recipe": mecha_recipe} if mecha_recipe is not None else {}
         }
-        self.file = file_path.open("wb", buffering=0)
+        self.file = file_path.open("wb")
         self.file_path = file_path
         self.flushed_size = 0
         self.minimum_buffer_size = minimum_buffer_size
-- 
2.43.0


From 9518cd5206fca428e5461243ad5cc1b3ee9210cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 18/54] fix: reallocate the data section even when the buffer
 size is zero

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index bd8ad8f..61b83a9 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -311,8 +311,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                max_chunk_size = max(self.minimum_buffer_size, 2**16)
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From bbdef085d804695eed2bbd676d9556aa390e6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 19/54] fix: pass the metadata of the config to the safetensors
 writer

---
 sd_mecha/extensions/model_formats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/model_formats.py b/sd_mecha/extensions/model_formats.py
index 73b3aef..d84cd31 100644
--- a/sd_mecha/extensions/model_formats.py
+++ b/sd_mecha/extensions/model_formats.py
@@ -92,7 +92,7 @@ def _register_builtin_model_formats():
             mecha_recipe: str,
             buffer_size: int,
         ) -> WriteOnlyMapping[str, torch.Tensor]:
-            return OutSafetensorsDict(path, model_config.metadata, mecha_recipe, buffer_size)
+            return OutSafetensorsDict(path, model_config.metadata(), mecha_recipe, buffer_size)
 
 
 _register_builtin_model_formats()
-- 
2.43.0


From fded313ff51d150dbc4a716685b1aa1f97eaec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 20/54] fix: accept empty dictionaries as recipes

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 sd_mecha/merging.py                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 364b772..981d13b 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -571,7 +571,7 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
 
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
-            expected_type = next(iter(node_or_value.values()))
+            expected_type = next(iter(node_or_value.values()), None)
         else:
             expected_type = type(node_or_value)
 
diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index fa6351b..9b93e58 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -679,10 +679,10 @@ class CastInputDicts(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if (
             isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), torch.Tensor | int | float)
+            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), torch.Tensor | int | float)
         ):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), RecipeNode):
+        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
-- 
2.43.0


From 78c5f941928e8ac517a9b441f609b3b92c0d274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 21/54] fix: count the models of recipe dictionaries when
 splitting the buffer size

---
 sd_mecha/recipe_nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..fd41d34 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -240,6 +240,8 @@ class ModelsCountVisitor(RecipeVisitor):
         self.__seen_nodes = []
 
     def visit_literal(self, node: LiteralRecipeNode) -> int:
+        if isinstance(node.value, dict):
+            return sum(v.accept(self) for v in node.value.values() if isinstance(v, RecipeNode))
         return 0
 
     def visit_model(self, node: ModelRecipeNode) -> int:
-- 
2.43.0


From dfc682ccfad378b45f566e2009498483dac7f179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 22/54] fix: use the default progress bar factory in
 Defaults.merge

---
 sd_mecha/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..26315b7 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -178,6 +178,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
-- 
2.43.0


From 608f43a71bea76216f4cb5f2c5930d5f52b2d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 23/54] fix: accept any iterable of model directories in
 Defaults

---
 sd_mecha/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 26315b7..3e67d69 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -204,7 +204,7 @@ class Defaults:
     def _model_dirs_to_pathlib_list(models_dir):
         if models_dir is ...:
             models_dir = []
-        if not isinstance(models_dir, List):
+        if models_dir is None or isinstance(models_dir, (str, pathlib.Path)):
             models_dir = [models_dir]
         models_dir = list(models_dir)
         for i in range(len(models_dir)):
-- 
2.43.0


From 7610af96414c32cf81155f55d53d803fe196e854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 24/54] fix: raise ValueError when converting to or from a
 config without converters

---
 sd_mecha/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 0785215..63ca080 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -107,7 +107,7 @@ def dijkstra(graph, start, goal):
         if current_node == goal:
             break
 
-        for neighbor, edge_id in graph[current_node]:
+        for neighbor, edge_id in graph.get(current_node, ()):
             distance_via_current = current_dist + 1
             if distance_via_current < distances[neighbor]:
                 distances[neighbor] = distance_via_current
@@ -115,7 +115,7 @@ def dijkstra(graph, start, goal):
                 edge_used[neighbor] = edge_id
                 heapq.heappush(heap, (distance_via_current, neighbor))
 
-    if distances[goal] == float('inf'):
+    if distances.get(goal, float('inf')) == float('inf'):
         return None
 
     path_ids = []
-- 
2.43.0


From 55e3435292ab00e08dc5ae778429afc570e30f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 25/54] fix: reject arguments given both positionally and by
 keyword instead of dropping one

---
 sd_mecha/extensions/merge_methods.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 981d13b..fa955f7 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -249,6 +249,9 @@ class MergeMethod:
             float('inf'),
         ))
 
+        if first_arg_as_kwarg < len(args):
+            raise TypeError(f"Got multiple values for argument '{params.args[first_arg_as_kwarg]}'")
+
         def ensure_positive(v: int):
             if v < 0:
                 raise RuntimeError
-- 
2.43.0


From 6b05b2691329804be041c3f14631fa2ff7ad80d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:29 +0000
Subject: [PATCH 26/54] fix: bind each lycoris converter to its own config
 instead of the last one

---
 sd_mecha/extensions/builtin/lycoris.py | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 935153f..80bb5c1 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -15,21 +15,25 @@ def _register_all_lycoris_configs():
                 LycorisModelConfig(base_config, "kohya", "lora", list(lycoris_algorithms)),
         ):
             model_configs.register_aux(lyco_config)
-            lora_config_id = lyco_config.identifier
-            base_config_id = lyco_config.base_config.identifier
-
-            @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
-            def diffusers_lora_to_base(
-                lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
-                **kwargs,
-            ) -> Return(torch.Tensor, "delta", base_config_id):
-                key = kwargs["key"]
-                lycoris_keys = lyco_config.to_lycoris_keys(key)
-                if not lycoris_keys:
-                    raise StateDictKeyError(key)
-
-                lycoris_key = next(iter(lycoris_keys))
-                return compose_lora_up_down(lora, lycoris_key.split(".")[0])
+            _register_lycoris_converter(lyco_config)
+
+
+def _register_lycoris_converter(lyco_config: "LycorisModelConfig"):
+    lora_config_id = lyco_config.identifier
+    base_config_id = lyco_config.base_config.identifier
+
+    @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
+    def diffusers_lora_to_base(
+        lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
+        **kwargs,
+    ) -> Return(torch.Tensor, "delta", base_config_id):
+        key = kwargs["key"]
+        lycoris_keys = lyco_config.to_lycoris_keys(key)
+        if not lycoris_keys:
+            raise StateDictKeyError(key)
+
+        lycoris_key = next(iter(lycoris_keys))
+        return compose_lora_up_down(lora, lycoris_key.split(".")[0])
 
 
 def compose_lora_up_down(state_dict: Mapping[str, torch.Tensor], key: str):
-- 
2.43.0


From 032f310a4669af083f60d6849296b8f2fbf2c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 27/54] fix: load model config files with a safe YAML loader

---
 sd_mecha/extensions/model_configs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..2709768 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -10,9 +10,9 @@ from collections import OrderedDict
 from sd_mecha.streaming import TensorMetadata
 from typing import Dict, List, Iterable, Mapping, Protocol, runtime_checkable, Optional
 try:
-    from yaml import CLoader as YamlLoader
+    from yaml import CSafeLoader as YamlLoader
 except ImportError:
-    from yaml import Loader as YamlLoader
+    from yaml import SafeLoader as YamlLoader
 
 
 StateDictKey = str
-- 
2.43.0


From 48c0dbff0e5c709ac03b9fc67773eb45a8494ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 28/54] fix: serialize the keys, aliases and optional flags of
 model configs

---
 sd_mecha/extensions/model_configs.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 2709768..85e1b07 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -313,14 +313,15 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 def serialize(obj):
     if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+        return serialize(obj.keys())
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude"))
+                else field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
-- 
2.43.0


From 34612f5ce54d079feb1afd90f8b5acd479b93465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 29/54] fix: make the identifiers inside the flux config files
 match the registered ones

---
 sd_mecha/extensions/builtin/model_configs/flux-flux.yaml        | 2 +-
 .../builtin/model_configs/flux-flux_diffuser_only.yaml          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
index 9b8dc3c..c8fac97 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev-flux
+identifier: flux-flux
 components:
   diffuser:
     model.diffusion_model.double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
index 4ccadd8..8ef06f5 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev_unet_only-flux
+identifier: flux-flux_diffuser_only
 components:
   diffuser:
     double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
-- 
2.43.0


From 3bf350e4a186b9e62e9241a7876d22628db7e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:05 +0000
Subject: [PATCH 30/54] fix: convert lazily loaded model configs to YAML

---
 sd_mecha/extensions/model_configs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 85e1b07..40eed1e 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -312,7 +312,10 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 
 def serialize(obj):
-    if isinstance(obj, ModelComponent):
+    if isinstance(obj, LazyModelConfigBase):
+        obj._ensure_config()
+        return serialize(obj.underlying_config)
+    elif isinstance(obj, ModelComponent):
         return serialize(obj.keys())
     elif dataclasses.is_dataclass(obj):
         return {
-- 
2.43.0


From 786ad07a75c286e41cef9a7eb65ae2dd8b46eb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 31/54] fix: concatenate in_proj biases of the second sdxl text
 encoder along their only dimension

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 0f6484f..139ffa9 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -42,7 +42,7 @@ def convert_sdxl_kohya_to_original(
         if kohya_key.endswith((".in_proj_weight", ".in_proj_bias")):
             is_bias = kohya_key.endswith("bias")
             partial_key = kohya_key.replace(".in_proj_weight", "").replace(".in_proj_bias", "")
-            res = torch.vstack([
+            res = torch.cat([
                 kohya_sd[f"{partial_key}.{k}_proj.{'bias' if is_bias else 'weight'}"]
                 for k in ("q", "k", "v")
             ])
-- 
2.43.0


From a08680932d2ff4311be8b4d7ed726caaef253f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 32/54] fix: read the sdxl-kohya vae under the keys that its
 config declares

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 139ffa9..09d3070 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -2,7 +2,6 @@ import torch
 from torch import Tensor
 from sd_mecha import merge_method, StateDict, Return, Parameter
 from sd_mecha.extensions import model_configs
-from .convert_huggingface_sd_vae_to_original import convert_vae
 
 
 sdxl_kohya_config = model_configs.resolve('sdxl-kohya')
@@ -53,7 +52,5 @@ def convert_sdxl_kohya_to_original(
             res = res.T
 
         return res
-    elif sgm_key.startswith("first_stage_model."):
-        return convert_vae(kohya_sd, sgm_key)
     else:
         return kohya_sd[sgm_key]
-- 
2.43.0


From b6046666a98dc53423e433371d8eed487cdb40fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 33/54] fix: map the sdxl attention and upsampler keys of
 output block 2 to distinct diffusers keys

---
 .../model_configs/convert_sdxl_diffusers_unet_to_original.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
index 8bb3e7e..83805d7 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
@@ -103,9 +103,8 @@ for i in range(3):
 
         # no upsample in up_blocks.3
         hf_upsample_prefix = f"up_blocks.{i}.upsamplers.0."
-        sd_upsample_prefix = f"output_blocks.{3*i + 2}.{1 if i == 0 else 2}."
+        sd_upsample_prefix = f"output_blocks.{3*i + 2}.2."
         unet_conversion_map_layer[sd_upsample_prefix] = hf_upsample_prefix
-unet_conversion_map_layer["output_blocks.2.2.conv."] = "output_blocks.2.1.conv."
 
 hf_mid_atn_prefix = "mid_block.attentions.0."
 sd_mid_atn_prefix = "middle_block.1."
-- 
2.43.0


From 249fbde366b1902e524612ba1e40f731d8170869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:31 +0000
Subject: [PATCH 34/54] fix: map the norm of vae attention blocks to the
 diffusers group_norm keys

---
 .../model_configs/convert_huggingface_sd_vae_to_original.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
index 9397677..31a5ead 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
@@ -41,6 +41,7 @@ vae_conversion_map = {
     # (original, huggingface)
     "nin_shortcut": "conv_shortcut",
     "norm_out": "conv_norm_out",
+    "mid.attn_1.norm.": "mid_block.attentions.0.group_norm.",
     "mid.attn_1.": "mid_block.attentions.0.",
 }
 for i in range(4):
-- 
2.43.0


From 68ce5857ebc879831f1e6df387b73296dc587474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 35/54] fix: register the flux config converters

---
 sd_mecha/extensions/builtin/model_configs/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/__init__.py b/sd_mecha/extensions/builtin/model_configs/__init__.py
index 78104bc..a6d6fa9 100644
--- a/sd_mecha/extensions/builtin/model_configs/__init__.py
+++ b/sd_mecha/extensions/builtin/model_configs/__init__.py
@@ -15,5 +15,6 @@ _register_configs()
 from .convert_sdxl_kohya_to_original import convert_sdxl_kohya_to_original
 from .convert_sdxl_diffusers_unet_to_original import convert_sdxl_diffusers_unet_to_original
 from .convert_sd1_kohya_to_original import convert_sd1_kohya_to_original
+from . import convert_flux
 from . import convert_sdxl_blocks
 from . import convert_sd1_blocks
-- 
2.43.0


From 16bd4d6284d7ffd9c04b05de2630234bd46170fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:37 +0000
Subject: [PATCH 36/54] fix: describe the keys of model files of unknown
 architecture with key metadata

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 9b93e58..5628de4 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -388,7 +388,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From d9c08440d32d6958673b95ac0d9347bc75496ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 37/54] fix: close a model file whose header cannot be read

---
 sd_mecha/streaming.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 61b83a9..1fac4ee 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -82,7 +82,11 @@ class InSafetensorsDict(SafetensorsMapping):
         self.default_buffer_size = buffer_size
         self.file = open(file_path, mode='rb')
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            self.close()
+            raise
         self.buffer = bytearray()
         self.buffer_start_offset = 8 + self.header_size
         self.lock = threading.Lock()
-- 
2.43.0


From 075b057e937899f95b8b2cf9d32517ebe64929e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:11 +0000
Subject: [PATCH 38/54] fix: close the output file when it cannot be started or
 finalized

---
 sd_mecha/streaming.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 1fac4ee..fe0f40a 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -205,7 +205,11 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
         self.flushed_size = 0
         self.minimum_buffer_size = minimum_buffer_size
 
-        self.max_header_size = self._init_buffer(header)
+        try:
+            self.max_header_size = self._init_buffer(header)
+        except BaseException:
+            self.file.close()
+            raise
 
     def __del__(self):
         self.file.close()
@@ -293,6 +297,12 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
             state.buffer = b""
 
     def close(self):
+        try:
+            self._finalize()
+        finally:
+            self.file.close()
+
+    def _finalize(self):
         with self.lock:
             for state in self.thread_states.values():
                 self._flush_buffer(state, close=True)
-- 
2.43.0


From 08a8619ffd96efe1c16bca857238b575107d303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 39/54] fix: pass numbers to python parameters without rounding
 them through tensors

---
 sd_mecha/merging.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 5628de4..fb1e257 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -697,9 +697,22 @@ class CastInputDicts(RecipeVisitor):
         return node.to(device=self.device, dtype=self.dtype)
 
     def visit_merge(self, node: MergeRecipeNode):
+        input_types = node.merge_method.get_input_types().as_dict(len(node.args))
         return MergeRecipeNode(
             node.merge_method,
-            tuple(v.accept(self) for v in node.args),
-            {k: v.accept(self) for k, v in node.kwargs.items()},
+            tuple(self.__visit_input(v, input_types[i]) for i, v in enumerate(node.args)),
+            {k: self.__visit_input(v, input_types[k]) for k, v in node.kwargs.items()},
             node.cache,
         )
+
+    def __visit_input(self, node: RecipeNode, input_type: type):
+        if is_subclass(input_type, StateDict):
+            input_type = next(iter(typing.get_args(input_type)), None)
+        if input_type in (int, float, bool) and isinstance(node, LiteralRecipeNode):
+            value = node.value
+            if isinstance(value, Mapping):
+                value = next(iter(value.values()), None)
+            # numbers should not become tensors on the way to a python parameter: this would round them
+            if isinstance(value, int | float):
+                return node
+        return node.accept(self)
-- 
2.43.0


From 3c24681bb72d89612fc34fbef212fc4446a17e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 40/54] fix: membership of nodes in literal recipe nodes with
 tensors or recipes

---
 sd_mecha/recipe_nodes.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index fd41d34..6515d47 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -113,9 +113,19 @@ class LiteralRecipeNode(RecipeNode):
 
     def __contains__(self, item):
         if isinstance(item, LiteralRecipeNode):
-            return self.value == item.value
-        else:
-            return False
+            if any(isinstance(v, (dict, torch.Tensor)) for v in (self.value, item.value)):
+                # equality of tensors is elementwise
+                contains = self.value is item.value
+            else:
+                contains = self.value == item.value
+            if contains:
+                return True
+
+        return isinstance(self.value, dict) and any(
+            item in v
+            for v in self.value.values()
+            if isinstance(v, RecipeNode)
+        )
 
 
 class ModelRecipeNode(RecipeNode):
-- 
2.43.0


From 4e7442078208afa5d4519f1117bbd834baa70cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:58 +0000
Subject: [PATCH 41/54] fix: evaluate merge methods without any argument

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index 6515d47..ec434bc 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -238,11 +238,11 @@ class ModelDepthRecipeVisitor(RecipeVisitor):
         return 1
 
     def visit_merge(self, node: MergeRecipeNode):
-        return max(
+        return max((
             child.accept(self)
             for children in (node.args, node.kwargs.values())
             for child in children
-        ) + 1
+        ), default=0) + 1
 
 
 class ModelsCountVisitor(RecipeVisitor):
-- 
2.43.0


From db511612667b668498ef060aead154b28d9034ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 42/54] fix: forward extra keys only from models in the merge
 space of the result

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index fb1e257..ea474ea 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -251,7 +251,11 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if (
+            node.model_config == self.target_config and
+            node.merge_space == self.target_merge_space and
+            not any(node in n[0] for n in self.forwardable_nodes)
+        ):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0


From 36a27773bfd2c8f9f9e696269e6044d67f0d1881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 43/54] fix: apply_median and apply_stock select the variants
 they name in ties_sum_extended

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 0c5b88a..d5cb2d0 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -498,9 +498,9 @@ def ties_sum_extended(  # aka add_difference_ties
 ) -> Return(Tensor, "delta"):
     filtered_delta, param_counts = ties_sum_deltas(*models, k=k, vote_sgn=vote_sgn)
 
-    if apply_median:
+    if not apply_median:
         # Model Stock
-        t = 1.0 if apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
+        t = get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps) if apply_stock else 1.0
 
         filtered_delta = filtered_delta.sum(dim=0)
 
-- 
2.43.0


From cbf1f36cca1a9c0d216103685dfa3da12e133203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 44/54] fix: draw a new seed for ties_sum_with_dropout when
 none is given

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index d5cb2d0..b23cfe4 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -675,6 +675,8 @@ def ties_sum_with_dropout(
     generator = torch.Generator(device=deltas[0].device)
     if seed is not None:
         generator.manual_seed(seed)
+    else:
+        generator.seed()
 
     # Under "Dropout", delta will be 0 by definition. Multiply it (Hadamard product) will return 0 also.
     # $$ \tilde{\delta}^t = (1 - m^t) \odot \delta^t $$
-- 
2.43.0


From 926d04a48e31063f1cc5c428a62cd9fc2b60add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 45/54] fix: fractional alignments of rotate are not rounded

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index b23cfe4..8d3a09a 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -420,7 +420,7 @@ def rotate(
             cache[key] = {}
         cache = cache[key]
 
-    alignment_is_float = math.isclose(alignment, round(alignment))
+    alignment_is_float = not math.isclose(alignment, round(alignment))
 
     if cache is not None and "rotation" in cache:
         rotation = transform = cache["rotation"].to(a.device, a.dtype)
-- 
2.43.0


From 20aef4fed4ef85b9285ed925e8907bda4ae2350a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 46/54] fix: infer configs when a config made of a
 ModelConfigImpl is registered

---
 sd_mecha/extensions/model_configs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 40eed1e..db9156e 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -132,6 +132,9 @@ class ModelConfigImpl(ModelConfig):
                 components[k] = v
         self._components = components
 
+    def __hash__(self):
+        return hash(self._identifier)
+
     @property
     def identifier(self) -> str:
         return self._identifier
-- 
2.43.0


From c1279a1aa3aa1104177814a55907f81a27b8fddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 47/54] fix: do not give the aliases of the base keys to the
 keys of lycoris configs

---
 sd_mecha/extensions/builtin/lycoris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 80bb5c1..779f399 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -105,7 +105,7 @@ def _to_lycoris_keys(
 
             for suffix in lycoris_algorithms[algorithm]:
                 lycoris_key = f"{prefix}_{key}.{suffix}"
-                lycoris_keys[lycoris_key] = dataclasses.replace(meta, shape=[], optional=True)
+                lycoris_keys[lycoris_key] = dataclasses.replace(meta, shape=[], aliases=(), optional=True)
 
     return lycoris_keys
 
-- 
2.43.0


From 4a8ee52f4e22c866574d01781637209524dc511e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:59 +0000
Subject: [PATCH 48/54] fix: paths can be used with operators and helpers

---
 sd_mecha/extensions/merge_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index fa955f7..e294258 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -575,6 +575,8 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
             expected_type = next(iter(node_or_value.values()), None)
+        elif isinstance(node_or_value, pathlib.Path):
+            expected_type = torch.Tensor
         else:
             expected_type = type(node_or_value)
 
-- 
2.43.0


From 8ab571432c474b6b615834c77f6b2207a4935455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 49/54] fix: whiten the two deltas of select_max_white_delta
 instead of their elements

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 8d3a09a..b117788 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -264,13 +264,13 @@ def select_max_white_delta(
     b: Parameter(Tensor, "delta"),
     alpha: Parameter(Tensor) = 0.5,
 ) -> Return(Tensor, "delta"):
-    a_norm = (a - a.mean()) / a.std(correction=0)
-    b_norm = (b - b.mean()) / b.std(correction=0)
+    a_norm = ((a - a.mean()) / a.std(correction=0)).nan_to_num(nan=0)
+    b_norm = ((b - b.mean()) / b.std(correction=0)).nan_to_num(nan=0)
 
-    d = torch.stack((a_norm.flatten(), b_norm.flatten()), dim=-1)
+    d = torch.stack((a_norm.flatten(), b_norm.flatten()))
     v, vs = torch.linalg.eigh(d.cov(correction=0))
     w = vs @ torch.diag_embed(1 / v.sqrt()) @ vs.mH
-    a_w, b_w = (w @ d).T
+    a_w, b_w = (w @ d).reshape(2, *a.shape)
 
     return torch.where((1 - alpha) * a_w.abs() >= alpha * b_w.abs(), a, b)
 
-- 
2.43.0


From 466d94d128c72e5bcac9f49e956c720abf035c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 50/54] fix: truncate_rank to the full rank returns the input
 instead of failing

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index b117788..f131d97 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -801,6 +801,9 @@ def truncate_rank(
     a_2d = a.flatten(start_dim=1)
     max_rank = min(a_2d.shape)
     target_rank = min(max(round(max_rank * rank_ratio), 1), max_rank)
+    if target_rank == max_rank:
+        return a
+
     svd_driver = "gesvda" if a.is_cuda else None
     u, s, vt = torch_svd_lowrank(a_2d, q=target_rank, full_matrices=False, driver=svd_driver)
     return (u @ torch.diag(s) @ vt).reshape(original_shape)
-- 
2.43.0


From b2fb53840ae01ce1287598bf2edd4d62a0bd69d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 51/54] fix: keep the shape of scalars in model_stock

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index f131d97..0baf9e1 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -747,9 +747,9 @@ def get_model_stock_t(deltas: Sequence[Tensor], cos_eps: float):
     # Still a vector
     cos_theta = torch.stack(cos_thetas).mean(dim=0)
 
+    t = n * cos_theta / (1 + (n - 1) * cos_theta)
     # Convert to column vector for multiplication
-    t = (n * cos_theta / (1 + (n - 1) * cos_theta)).unsqueeze(-1)
-    return t
+    return t.unsqueeze(-1) if deltas[0].dim() > 0 else t
 
 
 # src: https://github.com/krishnap25/geom_median/blob/main/src/geom_median/torch/weiszfeld_list_of_array.py
-- 
2.43.0


From 74cec9b997dde9d100b623b120ae861cf0e1258c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 52/54] fix: cache the rotations of rotate with and without
 reflection separately

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 0baf9e1..86ddce9 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -422,12 +422,13 @@ def rotate(
 
     alignment_is_float = not math.isclose(alignment, round(alignment))
 
-    if cache is not None and "rotation" in cache:
-        rotation = transform = cache["rotation"].to(a.device, a.dtype)
+    rotation_name = "proper_rotation" if alignment_is_float else "rotation"
+    if cache is not None and rotation_name in cache:
+        rotation = transform = cache[rotation_name].to(a.device, a.dtype)
     else:
         rotation = transform = orthogonal_procrustes(a_neurons, b_neurons, cancel_reflection=alignment_is_float)
         if cache is not None:
-            cache["rotation"] = rotation.to("cpu", torch.float16)
+            cache[rotation_name] = rotation.to("cpu", torch.float16)
 
     if alignment_is_float:
         transform = fractional_matrix_power(transform, alignment, cache)
-- 
2.43.0


From d9481e8e88fa7a2dc5be38e76b4b2d5de60ef8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:08 +0000
Subject: [PATCH 53/54] fix: dropout without dropping anything

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 86ddce9..bd1fc96 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -639,6 +639,8 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
         pmf = np.exp(pmf) / np.sum(np.exp(pmf))
 
     binomial_pmf = binom.pmf(np.arange(1, n + 1), n, p)
+    if not binomial_pmf.any():  # p = 0
+        binomial_pmf[0] = 1.0
     expanded_binomial_pmf = np.zeros(2 ** n - 1)
     for i in range(1, 2 ** n):
         num_sets = bin(i).count("1")
-- 
2.43.0


From d99d1f8efc1935da4d9561a0dfc3207a95f55afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 54/54] fix: interpolate convolutions element by element in
 rotate

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index bd1fc96..b73a008 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -408,6 +408,8 @@ def rotate(
 
     a_neurons = a.reshape(*shape_2d)
     b_neurons = b.reshape(*shape_2d)
+    if alpha.dim() > 0:
+        alpha = alpha.expand_as(a).reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
     a_neurons = a_neurons - a_centroid
-- 
2.43.0

