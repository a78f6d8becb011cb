From e1ea729a81c251ab2580277f8ddc7e9fc7ecdf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 01/76] fix: raw file reads and writes of more than 2 GiB were
 silently cut short

Unbuffered FileIO.readinto/write may transfer fewer bytes than asked; the
buffered classes loop until everything was transferred.
---
 sd_mecha/streaming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 100c2f7..0742a8a 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -80,7 +80,7 @@ class InSafetensorsDict(SafetensorsMapping):
             raise ValueError(f"Model type not supported: {file_path} (only safetensors are supported)")
 
         self.default_buffer_size = buffer_size
-        self.file = open(file_path, mode='rb', buffering=0)
+        self.file = open(file_path, mode='rb')
         self.file_path = file_path
         self.header_size, self.header = self._read_header()
         self.buffer = bytearray()
@@ -197,7 +197,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
         self.header = {
             "__metadata__": {"mecha_recipe": mecha_recipe} if mecha_recipe is not None else {}
         }
-        self.file = file_path.open("wb", buffering=0)
+        self.file = file_path.open("wb")
         self.file_path = file_path
         self.flushed_size = 0
         self.minimum_buffer_size = minimum_buffer_size
-- 
2.43.0


From d63e45e92d1c7e99d3a0cf43fb02430ef19caf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 02/76] fix: tensors of a truncated safetensors file were
 silently filled with zeros

---
 sd_mecha/streaming.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 0742a8a..9b33b7e 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -146,8 +146,10 @@ class InSafetensorsDict(SafetensorsMapping):
             else:
                 self.buffer = self.buffer[:necessary_buffer_size]
 
-            self.file.readinto(self.buffer)
+            del self.buffer[self.file.readinto(self.buffer):]
             self.buffer_start_offset = start_pos
+            if len(self.buffer) < length:
+                raise ValueError(f"{self.file_path} is truncated: expected {length} bytes at offset {start_pos}, got {len(self.buffer)}")
 
     def _load_tensor(self, tensor_name):
         tensor_info = self.header[tensor_name]
-- 
2.43.0


From 00d5241356bc7c9ddfdc6838da1c0e31f59f5a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 03/76] fix: views and non-contiguous tensors were saved as
 their whole storage

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 9b33b7e..02b6c4f 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -337,8 +337,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 # src: https://github.com/huggingface/safetensors/blob/aa4ad823cf71d913f283b70332d37ab45803949d/bindings/python/py_src/safetensors/torch.py#L405
 # this function is Apache 2.0: https://github.com/huggingface/safetensors/blob/main/LICENSE
 def tensor_to_bytes(tensor: torch.Tensor) -> bytes:
-    # assume tensor is not spare nor contiguous and on the cpu
-    total_bytes = len(tensor.untyped_storage())
+    # assume tensor is not sparse and on the cpu
+    tensor = tensor.resolve_neg().contiguous()
+    total_bytes = tensor.numel() * tensor.element_size()
 
     ptr = tensor.data_ptr()
     if ptr == 0:
-- 
2.43.0


From 67f7e02dd7148511eb6d70d94f7797a55106b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 04/76] fix: growing the header of an output file failed with
 an empty buffer

---
 sd_mecha/streaming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 02b6c4f..9103064 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -314,8 +314,9 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
                 self.file = open(self.file_path, "rb+")
 
                 # move data in chunks from the end to avoid overwriting
-                for chunk_end in tqdm(range(old_file_end, old_data_section, -self.minimum_buffer_size), desc="Reallocating data section"):
-                    chunk_start = max(chunk_end - self.minimum_buffer_size, old_data_section)
+                max_chunk_size = max(self.minimum_buffer_size, 1)
+                for chunk_end in tqdm(range(old_file_end, old_data_section, -max_chunk_size), desc="Reallocating data section"):
+                    chunk_start = max(chunk_end - max_chunk_size, old_data_section)
                     chunk_size = chunk_end - chunk_start
                     self.file.seek(chunk_start)
                     data = self.file.read(chunk_size)
-- 
2.43.0


From 5b39bb4ba906f5c4d29f7669807e60f4295346aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 05/76] fix: bool literals were serialized to text that cannot
 be deserialized

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4db8a7f..55eb322 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -210,7 +210,7 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
-        if isinstance(value, (int, float)):
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
         # int or float needs to be handled before this (1.0 == True)
         if isinstance(value, Hashable) and value in REVERSE_CONSTANTS:
-- 
2.43.0


From 215c44a72d4dc844ec4dcdec65889c55bbcb0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 06/76] fix: infinite and nan literals could not be
 deserialized

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 55eb322..1d6cf35 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -86,7 +86,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                 return results[ref_index]
             elif arg.startswith('"') and arg.endswith('"'):
                 return arg[1:-1]
-            elif '.' in arg or 'e' in arg.lower():
+            elif '.' in arg or 'e' in arg.lower() or arg.lstrip('+-') in ('inf', 'nan'):
                 return float(arg)
             else:
                 return int(arg)
-- 
2.43.0


From 87f1cffb82e4cf294cf697537f25d1a0115d7a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 07/76] fix: quoted strings containing '=' were deserialized as
 keyword arguments

---
 sd_mecha/serialization.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 1d6cf35..a08499c 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -48,7 +48,9 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         if line.startswith("#"):
             return
 
-        command, *args = tokenize(line)
+        (command_key, command), *args = tokenize(line)
+        if command_key is not None:
+            raise ValueError(f"unknown command: {command_key}={command}")
         positional_args, keyword_args = preprocess_args(args)
         if command == "dict":
             results.append(dict(*positional_args, **keyword_args))
@@ -67,12 +69,11 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     def preprocess_args(args):
         positional_args = []
         named_args = {}
-        for arg_index, arg in enumerate(args):
-            if '=' in arg:
-                key, value = arg.split('=', maxsplit=1)
+        for arg_index, (key, value) in enumerate(args):
+            if key is not None:
                 named_args[key] = get_arg_value(value, arg_index)
             else:
-                positional_args.append(get_arg_value(arg, arg_index))
+                positional_args.append(get_arg_value(value, arg_index))
         return positional_args, named_args
 
     def get_arg_value(arg, arg_index):
@@ -95,6 +96,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
 
     def tokenize(line):
         tokens = []
+        current_key = None
         current_token = []
         quote_prefix = []
         inside_quotes = False
@@ -111,20 +113,26 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
                     quote_prefix = current_token
                     current_token = []
                 else:  # End of quoted string
-                    tokens.append(f'{"".join(quote_prefix)}"{"".join(current_token)}"')
+                    tokens.append((current_key, f'{"".join(quote_prefix)}"{"".join(current_token)}"'))
+                    current_key = None
                     current_token = []
                     quote_prefix = []
                 continue
+            elif char == '=' and not inside_quotes and current_key is None:  # End of a keyword
+                current_key = ''.join(current_token)
+                current_token = []
+                continue
             elif char == ' ' and not inside_quotes:
-                if current_token:  # End of a token
-                    tokens.append(''.join(current_token))
+                if current_token or current_key is not None:  # End of a token
+                    tokens.append((current_key, ''.join(current_token)))
+                    current_key = None
                     current_token = []
                 continue
             current_token.append(char)
         if inside_quotes:  # Handle mismatched quotes
             raise ValueError(f"mismatched quotes in input")
-        if current_token:  # Add last token if exists
-            tokens.append(''.join(current_token))
+        if current_token or current_key is not None:  # Add last token if exists
+            tokens.append((current_key, ''.join(current_token)))
         return tokens
 
     for line_num, line in enumerate(recipe, 1):
-- 
2.43.0


From d371bcf1cd8181f4445c108d24979248784886a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 08/76] fix: strings containing line breaks broke the lines of
 serialized recipes

---
 sd_mecha/serialization.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index a08499c..3f1c244 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -104,6 +104,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         for char in line:
             if is_escape:
                 is_escape = False
+                char = ESCAPES.get(char, char)
             elif char == "\\":
                 is_escape = True
                 continue
@@ -214,6 +215,8 @@ class SerializerVisitor(RecipeVisitor):
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
             value = value.replace("\\", "\\\\").replace('"', "\\\"")
+            for escape, char in ESCAPES.items():
+                value = value.replace(char, f"\\{escape}")
             return f'"{value}"'
         if isinstance(value, dict):
             dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
@@ -235,6 +238,10 @@ class SerializerVisitor(RecipeVisitor):
             return f"&{len(self.instructions) - 1}"
 
 
+ESCAPES = {
+    "n": "\n",
+    "r": "\r",
+}
 CONSTANTS = {
     "null": None,
     "true": True,
-- 
2.43.0


From 7fe69f99026fceca3bd28d6708af8c1b58d3b2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 09/76] fix: dict keys were not escaped in serialized recipes

---
 sd_mecha/serialization.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 3f1c244..d54fd8e 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -212,14 +212,20 @@ class SerializerVisitor(RecipeVisitor):
         line = " ".join(parts)
         return self.__add_instruction(line)
 
+    def __escape(self, value: str) -> str:
+        value = value.replace("\\", "\\\\").replace('"', "\\\"")
+        for escape, char in ESCAPES.items():
+            value = value.replace(char, f"\\{escape}")
+        return value
+
+    def __serialize_key(self, key: str) -> str:
+        return self.__escape(key).replace(" ", "\\ ").replace("=", "\\=")
+
     def __serialize_value(self, value) -> str:
         if isinstance(value, str):
-            value = value.replace("\\", "\\\\").replace('"', "\\\"")
-            for escape, char in ESCAPES.items():
-                value = value.replace(char, f"\\{escape}")
-            return f'"{value}"'
+            return f'"{self.__escape(value)}"'
         if isinstance(value, dict):
-            dict_line = "dict " + " ".join(f"{k}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
-- 
2.43.0


From 9834ec9011dee77c7d61140b816ce5cb264c0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 10/76] fix: literals without a model config lost their merge
 space when serialized

---
 sd_mecha/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index d54fd8e..4d00b53 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -185,10 +185,10 @@ class SerializerVisitor(RecipeVisitor):
 
     def visit_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
-        if node.model_config is None:
+        if node.model_config is None and node.merge_space == "param":
             return value
         else:
-            config = self.__serialize_value(node.model_config.identifier)
+            config = self.__serialize_value(getattr(node.model_config, "identifier", None))
             merge_space = self.__serialize_value(node.merge_space.identifier)
             line = f"literal {value} model_config={config} merge_space={merge_space}"
             return self.__add_instruction(line)
-- 
2.43.0


From 80ad002b52df7292a0b9cf6bd243a8fc591f9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 11/76] fix: recipes of models with a structural config could
 not be deserialized

---
 sd_mecha/serialization.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 4d00b53..bb61d27 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -188,14 +188,14 @@ class SerializerVisitor(RecipeVisitor):
         if node.model_config is None and node.merge_space == "param":
             return value
         else:
-            config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+            config = self.__serialize_config(node.model_config)
             merge_space = self.__serialize_value(node.merge_space.identifier)
             line = f"literal {value} model_config={config} merge_space={merge_space}"
             return self.__add_instruction(line)
 
     def visit_model(self, node: ModelRecipeNode) -> str:
         path = self.__serialize_value(str(node.path))
-        config = self.__serialize_value(getattr(node.model_config, "identifier", None))
+        config = self.__serialize_config(node.model_config)
         merge_space = self.__serialize_value(node.merge_space.identifier)
         line = f"model {path} model_config={config} merge_space={merge_space}"
         return self.__add_instruction(line)
@@ -212,6 +212,12 @@ class SerializerVisitor(RecipeVisitor):
         line = " ".join(parts)
         return self.__add_instruction(line)
 
+    def __serialize_config(self, config) -> str:
+        identifier = getattr(config, "identifier", None)
+        if identifier == "structural":  # cannot be resolved by name, it is determined again from the state dict
+            identifier = None
+        return self.__serialize_value(identifier)
+
     def __escape(self, value: str) -> str:
         value = value.replace("\\", "\\\\").replace('"', "\\\"")
         for escape, char in ESCAPES.items():
-- 
2.43.0


From 6623760b71fee48fe8d1176c47f0b4040ab50d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 12/76] fix: recipes made of a single literal could not be
 deserialized

---
 sd_mecha/serialization.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index bb61d27..b42d2de 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -161,7 +161,7 @@ def serialize(recipe: RecipeNode, *, output: Optional[pathlib.Path | str] = None
         A string representation of the recipe, suitable for writing to a .mecha file.
     """
     serializer = SerializerVisitor()
-    recipe.accept(serializer)
+    serializer.visit_root(recipe)
     version_header = get_version_header(MECHA_FORMAT_VERSION)
     serialized = "\n".join([version_header] + serializer.instructions)
 
@@ -183,9 +183,18 @@ class SerializerVisitor(RecipeVisitor):
     def __init__(self, instructions: Optional[List[str]] = None):
         self.instructions = instructions if instructions is not None else []
 
+    def visit_root(self, node: RecipeNode):
+        value = node.accept(self)
+        if self.__is_implicit_literal(node):
+            self.__add_instruction(f"literal {value}")
+
+    @staticmethod
+    def __is_implicit_literal(node: RecipeNode) -> bool:
+        return isinstance(node, LiteralRecipeNode) and node.model_config is None and node.merge_space == "param"
+
     def visit_literal(self, node: LiteralRecipeNode):
         value = self.__serialize_value(node.value)
-        if node.model_config is None and node.merge_space == "param":
+        if self.__is_implicit_literal(node):
             return value
         else:
             config = self.__serialize_config(node.model_config)
-- 
2.43.0


From 5cbefe9db95a09a6ebe36f7310dacee223811027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 13/76] fix: lines read with readlines() could not be
 deserialized

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index b42d2de..9e84a91 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -36,7 +36,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
     if not recipe[0].startswith("version"):
         raise RuntimeError("bad format: expected version at line 1")
 
-    actual_version, recipe = recipe[0], recipe[1:]
+    actual_version, recipe = recipe[0].rstrip("\r\n"), recipe[1:]
     expected_version = get_version_header(MECHA_FORMAT_VERSION)
     if actual_version != expected_version:
         raise RuntimeError(f"bad recipe version: got {actual_version}, expected {expected_version}")
-- 
2.43.0


From 7eeec498d829a088682f865ce74b2878f210f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:27 +0000
Subject: [PATCH 14/76] fix: deserialization errors named the line before the
 bad one

---
 sd_mecha/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 9e84a91..7f69c95 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -136,7 +136,7 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
             tokens.append((current_key, ''.join(current_token)))
         return tokens
 
-    for line_num, line in enumerate(recipe, 1):
+    for line_num, line in enumerate(recipe, 2):  # line 1 is the version
         try:
             parse(line)
         except ValueError as e:
-- 
2.43.0


From 64e6979be301f769600cb3abe7adaffd877a17bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 15/76] fix: merging a model file without a known config raised
 AttributeError

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index e48c15c..a6312c3 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -388,7 +388,10 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
         node.state_dict, node_path = self.__load_dict(node)
-        metadata = OrderedDict(node.state_dict.metadata())
+        metadata = OrderedDict(
+            (k, KeyMetadata(v.shape, v.dtype, optional=True))
+            for k, v in node.state_dict.metadata()
+        )
         node.model_config = self.__determine_model_config(metadata, node.model_config)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
-- 
2.43.0


From 9c2b0b649df1e4e757b85eaa8cc9cb76459fc499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 16/76] fix: merging with omit_ema removed the ema keys from
 the registered model config

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index a6312c3..102b908 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -158,7 +158,7 @@ def merge(
         if strict_weight_space and recipe.merge_space != "weight":
             raise ValueError(f"recipe should be in 'weight' space, not '{recipe.merge_space.identifier}'")
 
-        recipe_metadata = recipe.model_config.metadata()
+        recipe_metadata = OrderedDict(recipe.model_config.metadata())
         if not omit_extra_keys:
             recipe, recipe_metadata = copy_extra_keys(recipe)
 
-- 
2.43.0


From 10c8601fee32012ce90a175615bfdf207abfebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 17/76] fix: keeping extra keys failed when a model file is in
 another merge space

---
 sd_mecha/merging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 102b908..f2f29da 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -251,7 +251,11 @@ class ForwardableNodesVisitor(RecipeVisitor):
             self.forwardable_nodes.append((node, metadata))
 
     def visit_model(self, node: ModelRecipeNode):
-        if node.model_config == self.target_config and not any(node in n[0] for n in self.forwardable_nodes):
+        if (
+            node.model_config == self.target_config and
+            node.merge_space == self.target_merge_space and
+            not any(node in n[0] for n in self.forwardable_nodes)
+        ):
             self.forwardable_nodes.append((node, OrderedDict(node.state_dict.metadata())))
 
     def visit_merge(self, node: MergeRecipeNode):
-- 
2.43.0


From 5f03927c65c3fb3c42e202cda0e90ccf4ac44c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 18/76] fix: keeping extra keys of several in-memory models
 raised RuntimeError

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index f2f29da..05e4586 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -242,7 +242,7 @@ class ForwardableNodesVisitor(RecipeVisitor):
             isinstance(next(iter(node.value.values())), torch.Tensor) and
             node.model_config == self.target_config and
             node.merge_space == self.target_merge_space and
-            not any(node in n[0] for n in self.forwardable_nodes)
+            not any(node.value is getattr(n[0], "value", None) for n in self.forwardable_nodes)
         ):
             metadata = OrderedDict(
                 (k, TensorMetadata(v.shape, v.dtype))
-- 
2.43.0


From 4966226fab62c1e1361a730675d625f94a76f132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 19/76] fix: python number arguments of merge methods were
 rounded to float32 and to the merge dtype

---
 sd_mecha/merging.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 05e4586..d93d57a 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -15,7 +15,7 @@ from .extensions import model_configs, model_formats
 from .extensions.merge_methods import MergeMethod, StateDict, T as MergeMethodT, value_to_node
 from .extensions.merge_spaces import MergeSpace
 from .extensions.model_configs import ModelConfig, StructuralModelConfig, KeyMetadata
-from .recipe_nodes import RecipeVisitor, LiteralRecipeNode, RecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNodeOrValue, NonDictLiteralValue
+from .recipe_nodes import RecipeVisitor, LiteralRecipeNode, RecipeNode, MergeRecipeNode, ModelRecipeNode, RecipeNodeOrValue, NonDictLiteralValue, PythonLiteralValue
 from .streaming import OutSafetensorsDict, TensorMetadata, StateDictKeyError
 from . import recipe_nodes, serialization
 from collections import OrderedDict
@@ -699,9 +699,16 @@ class CastInputDicts(RecipeVisitor):
         return node.to(device=self.device, dtype=self.dtype)
 
     def visit_merge(self, node: MergeRecipeNode):
+        input_types = node.merge_method.get_input_types().as_dict(len(node.args))
+
+        def cast(index, arg):
+            if isinstance(arg, LiteralRecipeNode) and is_subclass(input_types[index], PythonLiteralValue):
+                return arg  # not a tensor: casting can only lose precision
+            return arg.accept(self)
+
         return MergeRecipeNode(
             node.merge_method,
-            tuple(v.accept(self) for v in node.args),
-            {k: v.accept(self) for k, v in node.kwargs.items()},
+            tuple(cast(i, v) for i, v in enumerate(node.args)),
+            {k: cast(k, v) for k, v in node.kwargs.items()},
             node.cache,
         )
-- 
2.43.0


From 22dd1415fe528f38f63dabcb8f1dcdd9e763befe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 20/76] fix: values of the wrong type were delivered to str and
 bool parameters

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index d93d57a..8845ce5 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -665,8 +665,10 @@ def cast_node_value(value, expected_type):
 
     if isinstance(expected_type, TypeVar) or isinstance(value, expected_type):
         return value
-    if isinstance(expected_type, str):
+    if issubclass(expected_type, str):
         raise RuntimeError(f"cannot implicitly convert {type(value)} to {expected_type}")
+    if issubclass(expected_type, bool):
+        return bool(value)
     if issubclass(expected_type, int):
         return int(value)
     if issubclass(expected_type, float):
-- 
2.43.0


From d63a37e69355be5e6943dc307bed9f77d1ff5771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 21/76] fix: merging an empty state dict raised StopIteration

---
 sd_mecha/merging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 8845ce5..5acaee2 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -686,10 +686,10 @@ class CastInputDicts(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if (
             isinstance(node.value, torch.Tensor | int | float) or
-            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), torch.Tensor | int | float)
+            isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), torch.Tensor | int | float)
         ):
             return node.to(device=self.device, dtype=self.dtype)
-        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values())), RecipeNode):
+        if isinstance(node.value, Mapping) and isinstance(next(iter(node.value.values()), None), RecipeNode):
             return LiteralRecipeNode(
                 {k: v.accept(self) for k, v in node.value.items()},
                 model_config=node.model_config,
-- 
2.43.0


From 27d0daaa9bf3767316c0c99076c96bcb623299a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 22/76] fix: convert() raised KeyError instead of ValueError
 for configs without any conversion

---
 sd_mecha/conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 0785215..63ca080 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -107,7 +107,7 @@ def dijkstra(graph, start, goal):
         if current_node == goal:
             break
 
-        for neighbor, edge_id in graph[current_node]:
+        for neighbor, edge_id in graph.get(current_node, ()):
             distance_via_current = current_dist + 1
             if distance_via_current < distances[neighbor]:
                 distances[neighbor] = distance_via_current
@@ -115,7 +115,7 @@ def dijkstra(graph, start, goal):
                 edge_used[neighbor] = edge_id
                 heapq.heappush(heap, (distance_via_current, neighbor))
 
-    if distances[goal] == float('inf'):
+    if distances.get(goal, float('inf')) == float('inf'):
         return None
 
     path_ids = []
-- 
2.43.0


From 98115e75145c429c9de5d47b7a33b71bcbb89d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 23/76] fix: convert() returned the raw dict when no conversion
 is needed

---
 sd_mecha/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 63ca080..8f98227 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -53,7 +53,7 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     if isinstance(recipe, Mapping):
         possible_configs = infer_model_configs(recipe)
         for possible_config in (cfg for s in possible_configs for cfg in s):
-            res = create_conversion_recipe(recipe, converter_paths, possible_config.identifier, tgt_config)
+            res = create_conversion_recipe(value_to_node(recipe), converter_paths, possible_config.identifier, tgt_config)
             if res is not None:
                 return res
         raise ValueError(
-- 
2.43.0


From fd4089b956204e849bec3025cdede641fa904df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 24/76] fix: arguments given both by position and by keyword
 were silently dropped

---
 sd_mecha/extensions/merge_methods.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 364b772..16ba415 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -260,6 +260,10 @@ class MergeMethod:
         if not (min_args <= n_args <= max_args):
             raise TypeError(f"Expected from {min_args} to {max_args} arguments, received {n_args} arguments")
 
+        for k in params.args[:len(args)]:
+            if k in kwargs:
+                raise TypeError(f"Got multiple values for argument '{k}'")
+
         args = [
             args[i] if i < min(first_arg_as_kwarg, len(args))
             else kwargs.pop(params.args[i]) if params.args[i] in kwargs
-- 
2.43.0


From 6205aba54215b79b7bbc4496771738fd882f0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 25/76] fix: model configs could not be converted to yaml, and
 would have lost aliases and optional keys

---
 sd_mecha/extensions/model_configs.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index c6b1002..37f6636 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -22,7 +22,7 @@ StateDictKey = str
 class KeyMetadata:
     shape: Optional[List[int]] | torch.Size
     dtype: Optional[str] | torch.dtype
-    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: bool(p)})
+    aliases: Iterable[str] = dataclasses.field(default_factory=tuple, metadata={"exclude": lambda p: not p})
     optional: bool = dataclasses.field(default=False, metadata={"exclude": lambda p: not p})
 
     def __post_init__(self):
@@ -313,14 +313,18 @@ _model_configs_registry_aux: Dict[str, ModelConfig] = {}
 
 def serialize(obj):
     if isinstance(obj, ModelComponent):
-        return serialize(obj.keys)
+        return serialize(obj.keys())
+    elif isinstance(obj, LazyModelConfigBase):
+        obj._ensure_config()
+        return serialize(obj.underlying_config)
     elif dataclasses.is_dataclass(obj):
         return {
             field.metadata.get("serial_name", field.name): serialize(getattr(obj, field.name))
             for field in dataclasses.fields(obj)
             if not (
-                callable(field.metadata.get("exclude")) and field.metadata["exclude"](getattr(obj, field.name))
-                or field.metadata.get("exclude", False)
+                field.metadata["exclude"](getattr(obj, field.name))
+                if callable(field.metadata.get("exclude")) else
+                field.metadata.get("exclude", False)
             )
         }
     elif isinstance(obj, (str, int, float, type(None))):
-- 
2.43.0


From 9f27852e7d74bdf803f7b1b3c79311776049e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 26/76] fix: tensor_sum modified its input tensors

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index aae7a68..d208188 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -153,9 +153,11 @@ def tensor_sum(
 
     start_i, end_i, region_is_inverted = ratio_to_region(width, offset, a.size(0))
     if region_is_inverted:
+        b = b.clone()
         b[start_i:end_i] = a[start_i:end_i]
         return b
     else:
+        a = a.clone()
         a[start_i:end_i] = b[start_i:end_i]
         return a
 
-- 
2.43.0


From d354d492015cbcf1d178d78ecb5185df54dcdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 27/76] fix: multiply_quotient modified its alpha input

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index d208188..fc83a91 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -290,7 +290,7 @@ def multiply_quotient(
     c = torch.complex(c, torch.zeros_like(c))
 
     threshold = torch.maximum(torch.abs(ac_log), torch.abs(bc_log))
-    alpha *= torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
+    alpha = alpha * torch.clamp(-torch.nan_to_num(ac_log * bc_log / threshold**2, nan=0), 0)
 
     res = a * (b / c)**alpha
     res = torch.where(torch.isnan(res), a, res)
-- 
2.43.0


From 6504f46df12be58d5ab2e61256f5f22b579634ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 28/76] fix: rotate modified its input tensors

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index fc83a91..780ce3d 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -411,8 +411,8 @@ def rotate(
     b_neurons = b.reshape(*shape_2d)
     a_centroid = a_neurons.mean(0)
     b_centroid = b_neurons.mean(0)
-    a_neurons -= a_centroid
-    b_neurons -= b_centroid
+    a_neurons = a_neurons - a_centroid
+    b_neurons = b_neurons - b_centroid
 
     cache = kwargs.get("cache")
     if cache is not None:
-- 
2.43.0


From cfafb37eba6c40a584cfd9a4476b97f99ff95932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 29/76] fix: fractional_matrix_power modified the cached
 eigenvalues of half precision models

---
 sd_mecha/extensions/builtin/merge_methods/svd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/svd.py b/sd_mecha/extensions/builtin/merge_methods/svd.py
index a88a218..5a596fc 100644
--- a/sd_mecha/extensions/builtin/merge_methods/svd.py
+++ b/sd_mecha/extensions/builtin/merge_methods/svd.py
@@ -34,7 +34,7 @@ def fractional_matrix_power(matrix: Tensor, power: float, cache: Optional[Dict[s
             cache["eigenvectors"] = eigenvectors.to("cpu", torch.complex32)
             cache["eigenvectors_inv"] = eigenvectors_inv.to("cpu", torch.complex32)
 
-    eigenvalues.pow_(power)
+    eigenvalues = eigenvalues.pow(power)
     result = eigenvectors @ torch.diag(eigenvalues) @ eigenvectors_inv
     return result.real.to(dtype=matrix.dtype)
 
-- 
2.43.0


From 1d4fa5038342aca0f89cb8aa168e4754ac1bbd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 30/76] fix: rotate always failed because its models were not
 declared as state dicts

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 780ce3d..6637c9e 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -383,8 +383,8 @@ def create_filter(shape: Tuple[int, ...] | torch.Size, alpha: float, tilt: float
 
 @merge_method
 def rotate(
-    a_dict: Parameter(Tensor),
-    b_dict: Parameter(Tensor),
+    a_dict: Parameter(StateDict[Tensor]),
+    b_dict: Parameter(StateDict[Tensor]),
     alignment: Parameter(float) = 1.0,
     alpha: Parameter(Tensor) = 0.0,
     **kwargs,
-- 
2.43.0


From bc0ced24b776c2f4ff51f10e9213f2f99b43f24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 31/76] fix: rotate rounded fractional alignments to an integer

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 6637c9e..ec7d97b 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -421,7 +421,7 @@ def rotate(
             cache[key] = {}
         cache = cache[key]
 
-    alignment_is_float = math.isclose(alignment, round(alignment))
+    alignment_is_float = not math.isclose(alignment, round(alignment))
 
     if cache is not None and "rotation" in cache:
         rotation = transform = cache["rotation"].to(a.device, a.dtype)
-- 
2.43.0


From f3aa148e1d3acd26cdf04f9885990d8f22b5e99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 32/76] fix: ties_sum_with_dropout rescaled if and only if
 no_rescale was set

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index ec7d97b..8a401c3 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -700,7 +700,7 @@ def ties_sum_with_dropout(
     if math.isclose(probability, 1.0):
         # Corner case
         return deltas * 0.0
-    elif no_rescale:
+    elif not no_rescale:
         # Rescale
         # $$ \hat{\delta}^t = \tilde{\delta}^t / (1-p) $$
         return deltas / (1.0 - probability) 
-- 
2.43.0


From e03c73aadb4c51c93a8326ef1978bcba6b050d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 33/76] fix: apply_median and apply_stock of ties_sum_extended
 were inverted

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 8a401c3..f73eab9 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -499,9 +499,9 @@ def ties_sum_extended(  # aka add_difference_ties
 ) -> Return(Tensor, "delta"):
     filtered_delta, param_counts = ties_sum_deltas(*models, k=k, vote_sgn=vote_sgn)
 
-    if apply_median:
+    if not apply_median:
         # Model Stock
-        t = 1.0 if apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
+        t = 1.0 if not apply_stock else get_model_stock_t(torch.unbind(filtered_delta), cos_eps=cos_eps)
 
         filtered_delta = filtered_delta.sum(dim=0)
 
-- 
2.43.0


From b2a7d87b78618cadc1f4d04744e74d3d26b201b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 34/76] fix: the dropout recipe always failed with an
 unexpected keyword argument

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 1d2bf39..0e93ad6 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -248,7 +248,7 @@ def dropout(
         subtract(model, a)
         for model in models
     ]
-    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_skew=overlap_emphasis, seed=seed)
+    ba_delta = merge_methods.dropout(*deltas, probability=probability, overlap=overlap, overlap_emphasis=overlap_emphasis, seed=seed)
     return merge_methods.add_difference(a, ba_delta, alpha=alpha)
 
 
-- 
2.43.0


From 88bcf619213facadc7dde02de2d9cb9d93377b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 35/76] fix: the ties_with_dare recipe always failed with an
 unexpected keyword argument

---
 sd_mecha/merge_method_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merge_method_wrappers.py b/sd_mecha/merge_method_wrappers.py
index 0e93ad6..1e86876 100644
--- a/sd_mecha/merge_method_wrappers.py
+++ b/sd_mecha/merge_method_wrappers.py
@@ -297,7 +297,7 @@ def ties_with_dare(
     res = ties_sum_with_dropout(
         *deltas,
         probability=probability,
-        rescale=rescale,
+        no_rescale=not rescale,
         k=k,
         vote_sgn=vote_sgn,
         seed=seed,
-- 
2.43.0


From a6bcd2c060350d160186ede2524f4a849f01814c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 36/76] fix: Defaults ignored its tqdm

---
 sd_mecha/helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index ec3bb52..26315b7 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -178,6 +178,8 @@ class Defaults:
             omit_ema = self.__omit_ema
         if check_mandatory_keys is ...:
             check_mandatory_keys = self.__check_mandatory_keys
+        if tqdm is ...:
+            tqdm = self.__tqdm
 
         return merge(
             recipe,
-- 
2.43.0


From 1b54c6d3b529fd2388316835f696c7e5aab8548b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 37/76] fix: Defaults only accepted model_dirs iterables of
 type list

---
 sd_mecha/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 26315b7..3e67d69 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -204,7 +204,7 @@ class Defaults:
     def _model_dirs_to_pathlib_list(models_dir):
         if models_dir is ...:
             models_dir = []
-        if not isinstance(models_dir, List):
+        if models_dir is None or isinstance(models_dir, (str, pathlib.Path)):
             models_dir = [models_dir]
         models_dir = list(models_dir)
         for i in range(len(models_dir)):
-- 
2.43.0


From 8e16d6319b95d3d0f4b619b6806027e53997af4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 38/76] fix: lycoris conversions looked up the keys of another
 lycoris config

---
 sd_mecha/extensions/builtin/lycoris.py | 35 +++++++++++++++-----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 935153f..03aafc0 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -15,21 +15,26 @@ def _register_all_lycoris_configs():
                 LycorisModelConfig(base_config, "kohya", "lora", list(lycoris_algorithms)),
         ):
             model_configs.register_aux(lyco_config)
-            lora_config_id = lyco_config.identifier
-            base_config_id = lyco_config.base_config.identifier
-
-            @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
-            def diffusers_lora_to_base(
-                lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
-                **kwargs,
-            ) -> Return(torch.Tensor, "delta", base_config_id):
-                key = kwargs["key"]
-                lycoris_keys = lyco_config.to_lycoris_keys(key)
-                if not lycoris_keys:
-                    raise StateDictKeyError(key)
-
-                lycoris_key = next(iter(lycoris_keys))
-                return compose_lora_up_down(lora, lycoris_key.split(".")[0])
+            _register_lycoris_conversion(lyco_config)
+
+
+# one scope per config: the conversion must not see the `lyco_config` of a later loop iteration
+def _register_lycoris_conversion(lyco_config: "LycorisModelConfig"):
+    lora_config_id = lyco_config.identifier
+    base_config_id = lyco_config.base_config.identifier
+
+    @merge_method(identifier=f"convert_'{lora_config_id}'_to_base", is_conversion=True)
+    def diffusers_lora_to_base(
+        lora: Parameter(StateDict[torch.Tensor], "weight", lora_config_id),
+        **kwargs,
+    ) -> Return(torch.Tensor, "delta", base_config_id):
+        key = kwargs["key"]
+        lycoris_keys = lyco_config.to_lycoris_keys(key)
+        if not lycoris_keys:
+            raise StateDictKeyError(key)
+
+        lycoris_key = next(iter(lycoris_keys))
+        return compose_lora_up_down(lora, lycoris_key.split(".")[0])
 
 
 def compose_lora_up_down(state_dict: Mapping[str, torch.Tensor], key: str):
-- 
2.43.0


From d6f5d93cb90ae8ce10e5cdb8360dc71a91a956c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:43 +0000
Subject: [PATCH 39/76] fix: model configs inferred by a merge leaked into
 later merges of the same recipe nodes

---
 sd_mecha/merging.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 5acaee2..c30662b 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -354,11 +354,14 @@ def open_input_dicts(
     check_mandatory_keys: bool = False,
     empty_cuda_cache: bool = False,
 ):
+    load_visitor = LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys)
     try:
-        recipe.accept(LoadInputDictsVisitor(list(model_dirs), buffer_size_per_dict, omit_extra_keys, check_mandatory_keys))
+        recipe.accept(load_visitor)
         yield recipe
     finally:
         recipe.accept(CloseInputDictsVisitor())
+        for node, config_hint in load_visitor.config_hints:
+            node.model_config = config_hint
         if empty_cuda_cache:
             gc.collect()
             torch.cuda.empty_cache()
@@ -372,6 +375,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    config_hints: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
     def visit_literal(self, node: LiteralRecipeNode):
@@ -387,7 +391,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
 
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        self.__set_model_config(node, metadata)
         check_model_config(node.value, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, "<in-memory state dict>")
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
@@ -396,7 +400,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
             (k, KeyMetadata(v.shape, v.dtype, optional=True))
             for k, v in node.state_dict.metadata()
         )
-        node.model_config = self.__determine_model_config(metadata, node.model_config)
+        self.__set_model_config(node, metadata)
         check_model_config(node.state_dict, node.model_config, self.strip_extra_keys, self.check_mandatory_keys, str(node.path))
 
     def visit_merge(self, node: recipe_nodes.MergeRecipeNode):
@@ -434,6 +438,12 @@ class LoadInputDictsVisitor(RecipeVisitor):
 
         return self.dicts_cache[cache_key], path
 
+    def __set_model_config(self, node: LiteralRecipeNode | ModelRecipeNode, metadata: MutableMapping[str, KeyMetadata]):
+        if is_config_stub(node.model_config):
+            # what gets inferred from these state dicts must not outlive them
+            self.config_hints.append((node, node.model_config))
+        node.model_config = self.__determine_model_config(metadata, node.model_config)
+
     def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], config_hint: Optional[ModelConfig]) -> ModelConfig:
         config = config_hint
         if config is None or config == model_configs.INFER:
-- 
2.43.0


From e1ce559628a0ca3b21b228ef5a75bc5c6f77d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 40/76] fix: dropout always failed with its default overlap

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index f73eab9..a7b031b 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -599,10 +599,10 @@ def dropout(  # aka n-supermario
     rng = np.random.default_rng(seed)
 
     if overlap % 2 == 1:
-        masks = tuple(
+        masks = torch.stack([
             torch.from_numpy(rng.binomial(n=1, p=1 - probability, size=delta0.shape)).to(device=delta0.device, dtype=torch.bool)
             for _ in range(len(deltas))
-        )
+        ])
     else:
         ks = np.arange(2 ** len(deltas))
         pmf = overlapping_sets_pmf(len(deltas), probability, overlap, overlap_emphasis)
-- 
2.43.0


From 6dcc61509c051cf9ea1989ba1d1c3e985ca124e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 41/76] fix: the flux model configs did not declare the
 identifier they are registered under

---
 sd_mecha/extensions/builtin/model_configs/flux-flux.yaml        | 2 +-
 .../builtin/model_configs/flux-flux_diffuser_only.yaml          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
index 9b8dc3c..c8fac97 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev-flux
+identifier: flux-flux
 components:
   diffuser:
     model.diffusion_model.double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
diff --git a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
index 4ccadd8..8ef06f5 100644
--- a/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
+++ b/sd_mecha/extensions/builtin/model_configs/flux-flux_diffuser_only.yaml
@@ -1,4 +1,4 @@
-identifier: flux_dev_unet_only-flux
+identifier: flux-flux_diffuser_only
 components:
   diffuser:
     double_blocks.0.img_attn.norm.key_norm.scale: {shape: [128], dtype: bfloat16}
-- 
2.43.0


From abed72b687a571ff59a06e003e30849d8bd37c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:38 +0000
Subject: [PATCH 42/76] fix: the builtin flux conversions were never registered

---
 sd_mecha/extensions/builtin/model_configs/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/__init__.py b/sd_mecha/extensions/builtin/model_configs/__init__.py
index 78104bc..b78f497 100644
--- a/sd_mecha/extensions/builtin/model_configs/__init__.py
+++ b/sd_mecha/extensions/builtin/model_configs/__init__.py
@@ -17,3 +17,4 @@ from .convert_sdxl_diffusers_unet_to_original import convert_sdxl_diffusers_unet
 from .convert_sd1_kohya_to_original import convert_sd1_kohya_to_original
 from . import convert_sdxl_blocks
 from . import convert_sd1_blocks
+from . import convert_flux
-- 
2.43.0


From e4e511247a23f65e687a72f49bc5be127d770a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 43/76] fix: converting sdxl-kohya models to sdxl-sgm lost the
 vae, whose keys are the same in both configs

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 0f6484f..440773e 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -2,7 +2,6 @@ import torch
 from torch import Tensor
 from sd_mecha import merge_method, StateDict, Return, Parameter
 from sd_mecha.extensions import model_configs
-from .convert_huggingface_sd_vae_to_original import convert_vae
 
 
 sdxl_kohya_config = model_configs.resolve('sdxl-kohya')
@@ -53,7 +52,5 @@ def convert_sdxl_kohya_to_original(
             res = res.T
 
         return res
-    elif sgm_key.startswith("first_stage_model."):
-        return convert_vae(kohya_sd, sgm_key)
     else:
         return kohya_sd[sgm_key]
-- 
2.43.0


From aec1ca3534b6260c95632a3018e40657ebb1183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 44/76] fix: converting sdxl diffusers unets lost the last
 attention and the upsampler of the first up block

---
 .../model_configs/convert_sdxl_diffusers_unet_to_original.py   | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
index 8bb3e7e..b902995 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_diffusers_unet_to_original.py
@@ -103,9 +103,8 @@ for i in range(3):
 
         # no upsample in up_blocks.3
         hf_upsample_prefix = f"up_blocks.{i}.upsamplers.0."
-        sd_upsample_prefix = f"output_blocks.{3*i + 2}.{1 if i == 0 else 2}."
+        sd_upsample_prefix = f"output_blocks.{3*i + 2}.2."  # after the attentions, which all upsampling blocks have
         unet_conversion_map_layer[sd_upsample_prefix] = hf_upsample_prefix
-unet_conversion_map_layer["output_blocks.2.2.conv."] = "output_blocks.2.1.conv."
 
 hf_mid_atn_prefix = "mid_block.attentions.0."
 sd_mid_atn_prefix = "middle_block.1."
-- 
2.43.0


From a3a04a3a2c0391570cf922885bc511242f81133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 45/76] fix: converting sd1-kohya models lost the group norm of
 the vae attentions

---
 .../model_configs/convert_huggingface_sd_vae_to_original.py      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
index 9397677..31a5ead 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_huggingface_sd_vae_to_original.py
@@ -41,6 +41,7 @@ vae_conversion_map = {
     # (original, huggingface)
     "nin_shortcut": "conv_shortcut",
     "norm_out": "conv_norm_out",
+    "mid.attn_1.norm.": "mid_block.attentions.0.group_norm.",
     "mid.attn_1.": "mid_block.attentions.0.",
 }
 for i in range(4):
-- 
2.43.0


From d9f010085deb1074ac74b91e8a0ba12d0c467fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:45 +0000
Subject: [PATCH 46/76] fix: converting sdxl-kohya models gave the attention
 biases of the second text encoder the wrong shape

---
 .../builtin/model_configs/convert_sdxl_kohya_to_original.py     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
index 440773e..09d3070 100644
--- a/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
+++ b/sd_mecha/extensions/builtin/model_configs/convert_sdxl_kohya_to_original.py
@@ -41,7 +41,7 @@ def convert_sdxl_kohya_to_original(
         if kohya_key.endswith((".in_proj_weight", ".in_proj_bias")):
             is_bias = kohya_key.endswith("bias")
             partial_key = kohya_key.replace(".in_proj_weight", "").replace(".in_proj_bias", "")
-            res = torch.vstack([
+            res = torch.cat([
                 kohya_sd[f"{partial_key}.{k}_proj.{'bias' if is_bias else 'weight'}"]
                 for k in ("q", "k", "v")
             ])
-- 
2.43.0


From 311759f442c96937959d0936b4abd7808a047703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 47/76] fix: a missing key in one argument could hide the error
 of another argument

---
 sd_mecha/merging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index c30662b..63e308a 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -616,8 +616,10 @@ class ErrorHolder:
     def intercept(self, fn, *args, **kwargs):
         try:
             return fn(*args, **kwargs)
-        except Exception:
-            self.exc_info = sys.exc_info()
+        except Exception as e:
+            # a missing key must not hide another error: it would only skip the key
+            if self.exc_info is None or not isinstance(e, StateDictKeyError):
+                self.exc_info = sys.exc_info()
             return None
 
     def try_raise(self):
-- 
2.43.0


From f0b51dc86645a30e773bcbc0b117d1105d9264d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 48/76] fix: files with an unreadable header stayed open

---
 sd_mecha/streaming.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 9103064..16b1dcb 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -82,7 +82,11 @@ class InSafetensorsDict(SafetensorsMapping):
         self.default_buffer_size = buffer_size
         self.file = open(file_path, mode='rb')
         self.file_path = file_path
-        self.header_size, self.header = self._read_header()
+        try:
+            self.header_size, self.header = self._read_header()
+        except BaseException:
+            self.file.close()
+            raise
         self.buffer = bytearray()
         self.buffer_start_offset = 8 + self.header_size
         self.lock = threading.Lock()
-- 
2.43.0


From e5a3ca76e686fe3d972f31fe8accac1a41ec32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 49/76] fix: literal nodes inside of dictionaries were
 deserialized as plain values

---
 sd_mecha/serialization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 7f69c95..215ba22 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -240,7 +240,7 @@ class SerializerVisitor(RecipeVisitor):
         if isinstance(value, str):
             return f'"{self.__escape(value)}"'
         if isinstance(value, dict):
-            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_value(v)}" for k, v in value.items())
+            dict_line = "dict " + " ".join(f"{self.__serialize_key(k)}={self.__serialize_entry(v)}" for k, v in value.items())
             return self.__add_instruction(dict_line)
         if isinstance(value, (int, float)) and not isinstance(value, bool):
             return str(value)
@@ -251,6 +251,12 @@ class SerializerVisitor(RecipeVisitor):
             return value.accept(self)
         raise TypeError(f"type {type(value)} cannot be serialized: {value}")
 
+    def __serialize_entry(self, value) -> str:
+        entry = self.__serialize_value(value)
+        if self.__is_implicit_literal(value):  # nothing turns a plain value into a node again inside of a dict
+            return self.__add_instruction(f"literal {entry}")
+        return entry
+
     def __add_instruction(self, instruction: str) -> str:
         try:
             return f"&{self.instructions.index(instruction)}"
-- 
2.43.0


From 275d3616bbbad9cb789100153e7d447de6ea823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:55 +0000
Subject: [PATCH 50/76] fix: repeated keywords and model configs that are not
 texts were accepted in serialized recipes

---
 sd_mecha/serialization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sd_mecha/serialization.py b/sd_mecha/serialization.py
index 215ba22..a9ec28d 100644
--- a/sd_mecha/serialization.py
+++ b/sd_mecha/serialization.py
@@ -52,6 +52,10 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         if command_key is not None:
             raise ValueError(f"unknown command: {command_key}={command}")
         positional_args, keyword_args = preprocess_args(args)
+        if command in ("literal", "model"):
+            for name in ("model_config", "merge_space"):
+                if not isinstance(keyword_args.get(name), str | None):
+                    raise ValueError(f"unknown {name}: {keyword_args[name]}")
         if command == "dict":
             results.append(dict(*positional_args, **keyword_args))
         elif command == "literal":
@@ -71,6 +75,8 @@ def deserialize(recipe: str | List[str]) -> RecipeNode:
         named_args = {}
         for arg_index, (key, value) in enumerate(args):
             if key is not None:
+                if key in named_args:
+                    raise ValueError(f"argument {arg_index}: repeated keyword {key}")
                 named_args[key] = get_arg_value(value, arg_index)
             else:
                 positional_args.append(get_arg_value(value, arg_index))
-- 
2.43.0


From ffdcd8b9cb735552f8d1ea8fb58254032110362a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 51/76] fix: registering a config read from yaml broke the
 inference of model configs

---
 sd_mecha/extensions/model_configs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 37f6636..9cd1874 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -132,6 +132,9 @@ class ModelConfigImpl(ModelConfig):
                 components[k] = v
         self._components = components
 
+    def __hash__(self):
+        return hash(self.identifier)
+
     @property
     def identifier(self) -> str:
         return self._identifier
-- 
2.43.0


From 69e3102658abda96a49895623413da97fb8a06fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 52/76] fix: numbers and texts given as variadic arguments were
 not in the param merge space

---
 sd_mecha/extensions/merge_methods.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 16ba415..bd1052c 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -373,9 +373,7 @@ class MergeMethod:
 
         varargs_merge_space = FunctionArgs.EMPTY_VARARGS
         if params.has_varargs():
-            varargs_merge_space = params.vararg.merge_space
-            if varargs_merge_space is None:
-                varargs_merge_space = self.default_merge_space
+            varargs_merge_space = get_merge_space_or_default(params.vararg, False)
 
         kwargs_merge_spaces = {}
         for name in names.kwargs:
-- 
2.43.0


From a1a7425b8e9ef38a2d03f0ada873e730aba5757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 53/76] fix: calls of merge methods that miss a positional
 argument raised RuntimeError instead of TypeError

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index bd1052c..6ba5535 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -251,7 +251,7 @@ class MergeMethod:
 
         def ensure_positive(v: int):
             if v < 0:
-                raise RuntimeError
+                raise TypeError("Missing a positional argument that has no default value")
             return v
 
         max_args = len(params.args) if not params.has_varargs() else float("inf")
-- 
2.43.0


From 6fdf4e318c2dcc90b9d79bb0e5eb6e2e98599c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:56 +0000
Subject: [PATCH 54/76] fix: deliver literal values of state dict parameters
 unrounded

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 63e308a..ea207f9 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -716,7 +716,10 @@ class CastInputDicts(RecipeVisitor):
         input_types = node.merge_method.get_input_types().as_dict(len(node.args))
 
         def cast(index, arg):
-            if isinstance(arg, LiteralRecipeNode) and is_subclass(input_types[index], PythonLiteralValue):
+            expected_type = input_types[index]
+            if is_subclass(expected_type, StateDict):
+                expected_type = next(iter(typing.get_args(expected_type)), MergeMethodT)
+            if isinstance(arg, LiteralRecipeNode) and is_subclass(expected_type, PythonLiteralValue):
                 return arg  # not a tensor: casting can only lose precision
             return arg.accept(self)
 
-- 
2.43.0


From 042bc6e91228588cddb868ac23592c38d3d92019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 55/76] fix: close the models of a dictionary whose first entry
 is not a recipe

---
 sd_mecha/merging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ea207f9..1c9db6a 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -529,8 +529,8 @@ def check_model_config(state_dict: Iterable[str], config: ModelConfig, strip_ext
 class CloseInputDictsVisitor(RecipeVisitor):
     def visit_literal(self, node: LiteralRecipeNode):
         if isinstance(node.value, Mapping):
-            if not node.value or isinstance(next(iter(node.value.values())), RecipeNode):
-                for v in node.value.values():
+            for v in node.value.values():
+                if isinstance(v, RecipeNode):
                     v.accept(self)
 
     def visit_model(self, node: recipe_nodes.ModelRecipeNode):
-- 
2.43.0


From 59b8ab3c41dbe50ba749aa98d9de763b05e162b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 56/76] fix: keep the output file readable when a tensor has an
 unsupported dtype

---
 sd_mecha/streaming.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index 16b1dcb..e3c9146 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -222,6 +222,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 
         state = self.thread_states[tid]
 
+        dtype_name = DTYPE_REVERSE_MAPPING[tensor.dtype][0]  # fail before anything is buffered
         tensor_bytes = tensor_to_bytes(tensor)
         tensor_size = len(tensor_bytes)
 
@@ -233,7 +234,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
         state.memory_used += tensor_size
 
         state.sub_header[key] = {
-            "dtype": DTYPE_REVERSE_MAPPING[tensor.dtype][0],
+            "dtype": dtype_name,
             "shape": list(tensor.shape),
             "data_offsets": [local_offset, local_offset + tensor_size]
         }
-- 
2.43.0


From 690eb0605cd5acf0564dbe276dc3303b173d00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 57/76] fix: finalise the output file when the config declares
 an unsupported dtype

---
 sd_mecha/streaming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/streaming.py b/sd_mecha/streaming.py
index e3c9146..c6c87e3 100644
--- a/sd_mecha/streaming.py
+++ b/sd_mecha/streaming.py
@@ -244,7 +244,7 @@ class OutSafetensorsDict(WriteOnlyMapping[str, torch.Tensor]):
 
     def _init_buffer(self, header: Mapping[str, TensorMetadata]) -> int:
         trimmed_header = {
-            k: v for k, v in header.items() if v.shape is not None and v.dtype is not None
+            k: v for k, v in header.items() if v.shape is not None and v.dtype in DTYPE_REVERSE_MAPPING
         }
         worst_case_header = OrderedDict(sorted(
             trimmed_header.items(),
-- 
2.43.0


From 19c54248ddba617ec3598bff7ba3dd8ddca0aaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:00 +0000
Subject: [PATCH 58/76] fix: wait for the worker threads before closing the
 output

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 1c9db6a..3f8f82e 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -170,7 +170,6 @@ def merge(
         buffer_size_per_file_per_thread = buffer_size_per_file // max(1, threads)
 
         with (
-            executor,
             tqdm(total=len(recipe_metadata), desc="Merging recipe") as progress,
             _get_output_dict(
                 output,
@@ -179,6 +178,7 @@ def merge(
                 model_dirs,
                 buffer_size_per_file_per_thread,
             ) as output_dict,
+            executor,  # innermost: wait for the threads before closing the output
         ):
             fix_torch_threading()
             futures = []
-- 
2.43.0


From ee24b239c46d15dfea8102d6dd7e10eb5985ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 59/76] fix: close the output file when it cannot be finalised

---
 sd_mecha/merging.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 3f8f82e..ed630c1 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -294,7 +294,10 @@ def _get_output_dict(
         try:
             yield streamed_output
         finally:
-            streamed_output.close()
+            try:
+                streamed_output.close()
+            finally:
+                streamed_output.file.close()
     else:
         if output is None:
             output = {}
-- 
2.43.0


From a3e95427de471204935d2f9bb56d2cb6c739b6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 60/76] fix: keep the extra keys of every model of a structural
 config

---
 sd_mecha/merging.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index ed630c1..31534c7 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -240,7 +240,7 @@ class ForwardableNodesVisitor(RecipeVisitor):
                 v.accept(self)
         elif (
             isinstance(next(iter(node.value.values())), torch.Tensor) and
-            node.model_config == self.target_config and
+            node.model_config.identifier == self.target_config.identifier and
             node.merge_space == self.target_merge_space and
             not any(node.value is getattr(n[0], "value", None) for n in self.forwardable_nodes)
         ):
@@ -252,7 +252,7 @@ class ForwardableNodesVisitor(RecipeVisitor):
 
     def visit_model(self, node: ModelRecipeNode):
         if (
-            node.model_config == self.target_config and
+            node.model_config.identifier == self.target_config.identifier and
             node.merge_space == self.target_merge_space and
             not any(node in n[0] for n in self.forwardable_nodes)
         ):
-- 
2.43.0


From de4f0b957e7e3f3700d1397a8c4b3a64ffca8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 61/76] fix: convert a dictionary of recipes from the config of
 these recipes instead of guessing it from the keys

---
 sd_mecha/conversion.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 8f98227..45575b7 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -50,10 +50,12 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
 
     tgt_config = config if isinstance(config, str) else config.identifier
 
-    if isinstance(recipe, Mapping):
-        possible_configs = infer_model_configs(recipe)
+    is_dict = isinstance(recipe, Mapping)
+    recipe = value_to_node(recipe)
+    if is_dict and recipe.model_config is None:
+        possible_configs = infer_model_configs(recipe.value)
         for possible_config in (cfg for s in possible_configs for cfg in s):
-            res = create_conversion_recipe(value_to_node(recipe), converter_paths, possible_config.identifier, tgt_config)
+            res = create_conversion_recipe(recipe, converter_paths, possible_config.identifier, tgt_config)
             if res is not None:
                 return res
         raise ValueError(
@@ -61,7 +63,6 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
             "explicitly specifying the input config might resolve the issue"
         )
 
-    recipe = value_to_node(recipe)
     with open_input_dicts(recipe, model_dirs):
         src_config = recipe.model_config.identifier
     if src_config == "structural":
-- 
2.43.0


From b0f8834576ff0053b2286f3e731d0f7ea495bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 62/76] fix: raise ValueError when converting from or to a
 recipe without config

---
 sd_mecha/conversion.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index 45575b7..cdda56a 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -47,6 +47,8 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     if isinstance(config, RecipeNode):
         with open_input_dicts(config, model_dirs):
             config = config.model_config
+        if config is None:
+            raise ValueError("the target recipe has no config to convert to")
 
     tgt_config = config if isinstance(config, str) else config.identifier
 
@@ -64,7 +66,10 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
         )
 
     with open_input_dicts(recipe, model_dirs):
-        src_config = recipe.model_config.identifier
+        src_config = recipe.model_config
+    if src_config is None:
+        raise ValueError("recipe has no config to convert from")
+    src_config = src_config.identifier
     if src_config == "structural":
         raise ValueError(
             "recipe config is 'structural': "
-- 
2.43.0


From 1cf8b6355b83873ec14e3ca3c7f0a60579212854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 63/76] fix: conversions declared with a variadic parameter
 work, those that cannot be applied to one input are rejected at registration

---
 sd_mecha/conversion.py               | 4 ++--
 sd_mecha/extensions/merge_methods.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sd_mecha/conversion.py b/sd_mecha/conversion.py
index cdda56a..660492d 100644
--- a/sd_mecha/conversion.py
+++ b/sd_mecha/conversion.py
@@ -37,8 +37,8 @@ def convert(recipe: RecipeNodeOrValue, config: str | ModelConfig | RecipeNode, m
     converter_paths: Dict[str, List[Tuple[str, Any]]] = {}
     for converter in all_converters:
         input_configs = converter.get_input_configs()
-        return_config = converter.get_return_config(input_configs.args, input_configs.kwargs)
-        src_config = input_configs.args[0].identifier
+        return_config = converter.get_return_config(input_configs.args_varargs(1), input_configs.kwargs)
+        src_config = input_configs.args_varargs(1)[0].identifier
         tgt_config = return_config.identifier
         converter_paths.setdefault(src_config, [])
         converter_paths.setdefault(tgt_config, [])
diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 6ba5535..982d9b3 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -519,11 +519,13 @@ def __recipe_impl(
 
 def validate_config_conversion(merge_method: MergeMethod):
     params = merge_method.get_param_names()
-    args_varargs = params.args if params.args else params.args_varargs()
+    args_varargs = params.args if params.args else params.args_varargs(1)
     assert len(args_varargs) == 1, f"the merge method should be able to take exactly 1 positional argument"
     configs = merge_method.get_input_configs()
-    input_config = configs.args if configs.args else configs.args_varargs()[0]
+    input_config = configs.args_varargs(1)[0]
     assert input_config is not None, f"the input ModelConfig['identifier...'] is missing. It should be appended to the type annotation of `{args_varargs[0]}`"
+    missing_kwargs = params.kwargs.keys() - merge_method.get_default_args().kwargs.keys()
+    assert not missing_kwargs, f"the merge method should be able to take no keyword arguments, but {missing_kwargs} have no default"
     return merge_method
 
 
-- 
2.43.0


From 03b3fa49c26318ca39cf7feccdaf505c364746a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:10 +0000
Subject: [PATCH 64/76] fix: an empty dictionary is a valid literal argument

---
 sd_mecha/extensions/merge_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/merge_methods.py b/sd_mecha/extensions/merge_methods.py
index 982d9b3..cb442f8 100644
--- a/sd_mecha/extensions/merge_methods.py
+++ b/sd_mecha/extensions/merge_methods.py
@@ -575,7 +575,7 @@ def value_to_node(node_or_value: RecipeNodeOrValue, expected_type: type = None)
 
     if expected_type is None:
         if isinstance(node_or_value, Mapping):
-            expected_type = next(iter(node_or_value.values()))
+            expected_type = next(iter(node_or_value.values()), None)
         else:
             expected_type = type(node_or_value)
 
-- 
2.43.0


From 111a24ed7a84ce72832f48855812ac2b80b20fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:34 +0000
Subject: [PATCH 65/76] fix: the keys of LoRA configs do not take the aliases
 of the base config

---
 sd_mecha/extensions/builtin/lycoris.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/lycoris.py b/sd_mecha/extensions/builtin/lycoris.py
index 03aafc0..8de6229 100644
--- a/sd_mecha/extensions/builtin/lycoris.py
+++ b/sd_mecha/extensions/builtin/lycoris.py
@@ -106,7 +106,7 @@ def _to_lycoris_keys(
 
             for suffix in lycoris_algorithms[algorithm]:
                 lycoris_key = f"{prefix}_{key}.{suffix}"
-                lycoris_keys[lycoris_key] = dataclasses.replace(meta, shape=[], optional=True)
+                lycoris_keys[lycoris_key] = dataclasses.replace(meta, shape=[], aliases=(), optional=True)
 
     return lycoris_keys
 
-- 
2.43.0


From 60a0c2c0dfe4ad80326bd1752b86753022b38bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 66/76] fix: an empty intersection of structural configs is not
 refilled by the next input

---
 sd_mecha/merging.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 31534c7..df14aaf 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -378,6 +378,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     check_mandatory_keys: bool
     dicts_cache: MutableMapping[str, Mapping[str, torch.Tensor]] = dataclasses.field(default_factory=dict)
     structural_metadata: MutableMapping[str, KeyMetadata] = dataclasses.field(default_factory=OrderedDict)
+    structural_configs: List[StructuralModelConfig] = dataclasses.field(default_factory=list)
     config_hints: List[Tuple[RecipeNode, Optional[ModelConfig]]] = dataclasses.field(default_factory=list)
     param_config: Optional[ModelConfig] = None
 
@@ -459,7 +460,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                 raise RuntimeError("could not infer model config")
 
         if config is None:
-            if not self.structural_metadata:
+            if not self.structural_configs:
                 self.structural_metadata.update(metadata)
             else:
                 for k in list(self.structural_metadata):
@@ -471,6 +472,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
                     ):
                         self.structural_metadata[k] = metadata[k]
             config = StructuralModelConfig(self.structural_metadata)
+            self.structural_configs.append(config)
 
         return config
 
-- 
2.43.0


From 19941cf232cd026540ad2ffbfa933a1ebc4fda6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 67/76] fix: keys of a literal dict that hold recipes count as
 keys of its model config

---
 sd_mecha/merging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index df14aaf..3dd2525 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -390,7 +390,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
         for k, v in node.value.items():
             if isinstance(v, RecipeNode):
                 v.accept(self)
-            elif isinstance(v, torch.Tensor):
+            if isinstance(v, torch.Tensor):
                 metadata[k] = KeyMetadata(v.shape, v.dtype, optional=True)
             elif k not in metadata:
                 metadata[k] = KeyMetadata(None, None, optional=True)
-- 
2.43.0


From e5ff821c51da4a9fb5c0548c05bd34b4debdd32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 68/76] fix: a parameter's declared config is considered before
 inference stops early

---
 sd_mecha/merging.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sd_mecha/merging.py b/sd_mecha/merging.py
index 3dd2525..488e659 100644
--- a/sd_mecha/merging.py
+++ b/sd_mecha/merging.py
@@ -451,7 +451,7 @@ class LoadInputDictsVisitor(RecipeVisitor):
     def __determine_model_config(self, metadata: MutableMapping[str, KeyMetadata], config_hint: Optional[ModelConfig]) -> ModelConfig:
         config = config_hint
         if config is None or config == model_configs.INFER:
-            inferred_model_configs = infer_model_configs(metadata)
+            inferred_model_configs = infer_model_configs(metadata, preferred=self.param_config)
             if any(self.param_config in cfgs for cfgs in inferred_model_configs):
                 config = self.param_config
             elif inferred_model_configs and len(inferred_model_configs[0]) == 1:
@@ -481,11 +481,12 @@ def is_config_stub(config: Optional[model_configs.ModelConfig]) -> bool:
     return getattr(config, "identifier", None) in (None, model_configs.INFER.identifier)
 
 
-def infer_model_configs(state_dict: Iterable[str]) -> List[Set[ModelConfig]]:
+def infer_model_configs(state_dict: Iterable[str], preferred: Optional[ModelConfig] = None) -> List[Set[ModelConfig]]:
     state_dict_set = set(state_dict)
     configs_affinity = {}
 
-    for model_config in model_configs.get_all():
+    # the preferred config comes first so that the early break below cannot skip it
+    for model_config in sorted(model_configs.get_all(), key=lambda c: c != preferred):
         config_keys = set(model_config.keys()) | set(alias for aliases in model_config.aliases().values() for alias in aliases)
         matched_keys = state_dict_set.intersection(config_keys)
 
-- 
2.43.0


From 6629d39658cf92f439f1297f15411869a1256272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:05 +0000
Subject: [PATCH 69/76] fix: a lazy config of a lazy config delegates to the
 innermost config

---
 sd_mecha/extensions/model_configs.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/sd_mecha/extensions/model_configs.py b/sd_mecha/extensions/model_configs.py
index 9cd1874..0566af1 100644
--- a/sd_mecha/extensions/model_configs.py
+++ b/sd_mecha/extensions/model_configs.py
@@ -217,11 +217,7 @@ class LazyModelConfigBase(ModelConfig):
 
 def resolve_lazy_model_config_attribute(self: LazyModelConfigBase, name: str):
     self._ensure_config()
-    attribute = getattr(self.underlying_config, name)
-    if inspect.ismethod(attribute):
-        method = attribute.__func__.__get__(self.underlying_config, self.underlying_config.__class__)
-        return method
-    return attribute
+    return getattr(self.underlying_config, name)
 
 
 class StructuralModelConfig(ModelConfig):
-- 
2.43.0


From 38917bfb1c740cd01caa5e4bd631dd9427cf9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 70/76] fix: ties keeps the elements at the threshold of double
 precision deltas

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index a7b031b..baa0b09 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -577,7 +577,7 @@ def ties_sum_deltas(
 
 def filter_top_k(a: Tensor, k: float):
     k = max(int((1 - k) * a.numel()), 1)
-    k_value, _ = a.flatten().abs().float().kthvalue(k)
+    k_value, _ = a.flatten().abs().to(torch.promote_types(a.dtype, torch.float32)).kthvalue(k)
     top_k_filter = (a.abs() >= k_value).float()
     return a * top_k_filter
 
-- 
2.43.0


From 70588637c152fe524c5a7a92aba30281f8c3e728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 71/76] fix: top-k sums select the same elements of double
 precision tensors as of single precision ones

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index baa0b09..085ae5c 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -192,7 +192,7 @@ def kth_abs_value(a: Tensor, k: int) -> Tensor:
     if k <= 0:
         return torch.tensor(-1, device=a.device)
     else:
-        return torch.kthvalue(torch.abs(a.float()), k)[0]
+        return torch.kthvalue(torch.abs(a.to(torch.promote_types(a.dtype, torch.float32))), k)[0]
 
 
 def ratio_to_region(width: float, offset: float, n: int) -> Tuple[int, int, bool]:
-- 
2.43.0


From ae719c2f960eae471845565d48379ca4982b9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 72/76] fix: an iterator of default model directories was used
 up by the first merge

---
 sd_mecha/helpers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/helpers.py b/sd_mecha/helpers.py
index 3e67d69..b80d157 100644
--- a/sd_mecha/helpers.py
+++ b/sd_mecha/helpers.py
@@ -98,6 +98,8 @@ class Defaults:
         Args:
             See documentation for `sd_mecha.merge` or `sd_mecha.conversion` for a description of each parameter.
         """
+        if model_dirs is not ...:
+            model_dirs = self._model_dirs_to_list(model_dirs)  # it may be an iterator, and is needed for every call
         self.__model_dirs = model_dirs
         self.__merge_device = merge_device
         self.__merge_dtype = merge_dtype
@@ -201,12 +203,16 @@ class Defaults:
         )
 
     @staticmethod
-    def _model_dirs_to_pathlib_list(models_dir):
+    def _model_dirs_to_list(models_dir):
         if models_dir is ...:
             models_dir = []
         if models_dir is None or isinstance(models_dir, (str, pathlib.Path)):
             models_dir = [models_dir]
-        models_dir = list(models_dir)
+        return list(models_dir)
+
+    @staticmethod
+    def _model_dirs_to_pathlib_list(models_dir):
+        models_dir = Defaults._model_dirs_to_list(models_dir)
         for i in range(len(models_dir)):
             if isinstance(models_dir[i], str):
                 models_dir[i] = pathlib.Path(models_dir[i])
-- 
2.43.0


From fe5ad66749c6a07c85aaac92e119b045c973c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 73/76] fix: copying a region of full width could leave a row
 or element out

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 085ae5c..508fe8d 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -199,7 +199,8 @@ def ratio_to_region(width: float, offset: float, n: int) -> Tuple[int, int, bool
     if width < 0:
         offset += width
         width = -width
-    width = min(width, 1)
+    if width >= 1:
+        return 0, n, False
 
     if offset < 0:
         offset = 1 + offset - int(offset)
-- 
2.43.0


From 482fce6f1ca0968ba0eb2ea992184104b89734ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:48 +0000
Subject: [PATCH 74/76] fix: a merge method without arguments can be used
 inside of a recipe

---
 sd_mecha/recipe_nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sd_mecha/recipe_nodes.py b/sd_mecha/recipe_nodes.py
index f742f84..fc48465 100644
--- a/sd_mecha/recipe_nodes.py
+++ b/sd_mecha/recipe_nodes.py
@@ -228,11 +228,11 @@ class ModelDepthRecipeVisitor(RecipeVisitor):
         return 1
 
     def visit_merge(self, node: MergeRecipeNode):
-        return max(
+        return max((
             child.accept(self)
             for children in (node.args, node.kwargs.values())
             for child in children
-        ) + 1
+        ), default=0) + 1
 
 
 class ModelsCountVisitor(RecipeVisitor):
-- 
2.43.0


From e40868d82b302c1f06b703e55ce832de7a06c482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:34 +0000
Subject: [PATCH 75/76] fix: geometric_sum gives nan where a weight is zero and
 the other input is zero

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 508fe8d..04004af 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -105,10 +105,15 @@ def geometric_sum(
 ) -> Return(Tensor):
     a = torch.complex(a, torch.zeros_like(a))
     b = torch.complex(b, torch.zeros_like(b))
-    res = a ** (1 - alpha) * b ** alpha
+    res = complex_power(a, 1 - alpha) * complex_power(b, alpha)
     return res.real
 
 
+def complex_power(base, exponent):
+    # torch returns nan for complex 0 ** 0
+    return torch.where(exponent == 0, torch.ones_like(base), base ** exponent)
+
+
 @merge_method
 def add_cosine_a(
     a: Parameter(Tensor, "weight"),
-- 
2.43.0


From 02f8cd92c76b002ef02b1b5026b3785024f382ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:43 +0000
Subject: [PATCH 76/76] fix: dropout with probability 0 and a fractional
 overlap raises an error

---
 sd_mecha/extensions/builtin/merge_methods/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sd_mecha/extensions/builtin/merge_methods/__init__.py b/sd_mecha/extensions/builtin/merge_methods/__init__.py
index 04004af..1cbed87 100644
--- a/sd_mecha/extensions/builtin/merge_methods/__init__.py
+++ b/sd_mecha/extensions/builtin/merge_methods/__init__.py
@@ -645,6 +645,8 @@ def overlapping_sets_pmf(n, p, overlap, overlap_emphasis):
         pmf = np.exp(pmf) / np.sum(np.exp(pmf))
 
     binomial_pmf = binom.pmf(np.arange(1, n + 1), n, p)
+    if not binomial_pmf.any():
+        binomial_pmf[0] = 1  # the limit as p approaches 0
     expanded_binomial_pmf = np.zeros(2 ** n - 1)
     for i in range(1, 2 ** n):
         num_sets = bin(i).count("1")
-- 
2.43.0

