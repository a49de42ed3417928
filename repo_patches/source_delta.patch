From a92411724404fe02253aa76c5d63c1520f1dc8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:52 +0000
Subject: [PATCH 01/35] fix: reject circular module imports instead of hanging

---
 .../asn1/validation/asn1_bundle_validator.py  | 34 +++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 97e948c..85ec8df 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -35,6 +35,7 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_circular_imports(bundle)
 
     @staticmethod
     def _check_imported_types_and_check_components(bundle: ASN1Bundle) -> None:
@@ -101,6 +102,39 @@ class ASN1BundleValidator:
                         definition.get_type_name()
                     ] = module.get_module_name()
 
+    @staticmethod
+    def _check_circular_imports(bundle: ASN1Bundle) -> None:
+        cyclic = ASN1BundleValidator._find_cyclic(
+            {
+                module.get_module_name(): [
+                    item.get_module_name() for item in module.get_import_items()
+                ]
+                for module in bundle.get_modules()
+            }
+        )
+        if cyclic:
+            raise ASN1ConsistencyError(
+                f"The modules {', '.join(cyclic)} import each other in a circle"
+            )
+
+    @staticmethod
+    def _find_cyclic(graph: Dict[str, List[str]]) -> List[str]:
+        """
+        Repeatedly drops the nodes which do not depend on a remaining node and
+        returns what is left: the nodes on, or depending on, a cycle.
+        """
+        remaining = dict(graph)
+        while True:
+            resolved = [
+                node
+                for node, dependencies in remaining.items()
+                if not any(dep in remaining for dep in dependencies)
+            ]
+            if not resolved:
+                return list(remaining)
+            for node in resolved:
+                del remaining[node]
+
     @staticmethod
     def check_missing_modules(
         config: Union[
-- 
2.43.0


From 7b0b812c3f846e2b161a019accbb9c4930461411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:04 +0000
Subject: [PATCH 02/35] fix: reject recursive type definitions instead of
 hanging

---
 .../asn1/validation/asn1_bundle_validator.py  | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 85ec8df..6507c9d 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -2,7 +2,9 @@ from typing import List, Union, Dict
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
+from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.sequence import Sequence
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -36,6 +38,7 @@ class ASN1BundleValidator:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
         ASN1BundleValidator._check_circular_imports(bundle)
+        ASN1BundleValidator._check_recursive_definitions(bundle)
 
     @staticmethod
     def _check_imported_types_and_check_components(bundle: ASN1Bundle) -> None:
@@ -117,6 +120,25 @@ class ASN1BundleValidator:
                 f"The modules {', '.join(cyclic)} import each other in a circle"
             )
 
+    @staticmethod
+    def _check_recursive_definitions(bundle: ASN1Bundle) -> None:
+        cyclic = ASN1BundleValidator._find_cyclic(
+            {
+                definition.get_type_name(): [
+                    child.get_asn_type().get_type_name()
+                    for child in definition.get_children()
+                ]
+                for module in bundle.get_modules()
+                for definition in module.get_definitions()
+                if isinstance(definition, (Sequence, Choice))
+            }
+        )
+        if cyclic:
+            raise ASN1ConsistencyError(
+                f"The types {', '.join(cyclic)} are defined in terms of "
+                f"themselves"
+            )
+
     @staticmethod
     def _find_cyclic(graph: Dict[str, List[str]]) -> List[str]:
         """
-- 
2.43.0


From 261ff62f424bc64fee2fc34c4e5c54fde7624afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:30 +0000
Subject: [PATCH 03/35] fix: generate signed INTEGER with the width its range
 needs, not C int

---
 asn1_parser/generators/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..8d133f5 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,7 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "uint":
+            if valid_c_type in ["int", "uint"]:
                 if (
                     valid_c_type + str(next_bit_size) + "_t"
                 ) in cls._POSIX_DEFINED_TYPES:
-- 
2.43.0


From 03a881c4f73845f17d21681ab438d58f1dd4b0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:42 +0000
Subject: [PATCH 04/35] fix: encode a BOOLEAN simple definition like a BOOLEAN
 member

---
 asn1_parser/generators/generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 8d133f5..dd8c4b5 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -77,6 +77,11 @@ class Generator:
                     # TODO specify correctly (smallest uint)
                     # if not matching get something big
                     valid_c_type = "unsigned long long"
+            elif c_type == TypeEnum.A_BOOL:
+                # same encoding as a BOOLEAN used directly (see below)
+                bit_length = " : 1"
+                valid_c_type = "uint8_t"
+                is_stdint_needed = True
         elif valid_c_type == "BOOLEAN":
             # Note: booleans are encoded as uint8_t bitfilds of 1 bit
             bit_length = " : 1"
-- 
2.43.0


From 4d715d927c8f5c88a49fcfb30fbeb02b11e432d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:54 +0000
Subject: [PATCH 05/35] fix: keep the .c include when a later definition has no
 initialiser

---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..b3ebcf3 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # TODO prevent overriding existing keys
-- 
2.43.0


From 49313e2ab9123afb44a7f987e2d5992cc9211fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:06 +0000
Subject: [PATCH 06/35] fix: include the imported module's header by its file
 name

---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From e69e6c89763d134003070a16df2045e8f006bb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:36 +0000
Subject: [PATCH 07/35] fix: do not turn a BOOLEAN without fixed value into a
 COSMOS ID item

---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From 85e52896af97d9c4c590f534b9db8057cf252100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:50 +0000
Subject: [PATCH 08/35] fix: generate COSMOS for a packet whose APID has no
 fixed value

---
 asn1_parser/generators/cosmos/generator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..ec728dc 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -217,7 +217,10 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif (
+                    seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and specific_value != ""
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From 5e4f99dac0cdae08f9d077c338fdc1dbd4511025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:04 +0000
Subject: [PATCH 09/35] fix: do not carry fixed values over from one COSMOS
 packet to the next

---
 asn1_parser/generators/cosmos/generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index ec728dc..e371b5d 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -131,7 +131,8 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    # copy: it is extended below
+                    components_list = with_components.get_components().copy()
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From 342e1f973e258687f3d2ca1ccda950162c7fe889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:17 +0000
Subject: [PATCH 10/35] fix: generate every element of an array of SEQUENCE for
 COSMOS

---
 asn1_parser/generators/cosmos/generator.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index e371b5d..5e5f9c4 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -195,13 +195,17 @@ class COSMOSGenerator:
                         begin = 0
                         end = len(state_list) - 1
                     else:
-                        # resolve definitions recursively
-                        cls._create_telemetry_item_data(
-                            telemetry_items_list=telemetry_items_list,
-                            definition=inner_definition,
-                            asn1_model=asn1_model,
-                            with_comp=components_list,
-                        )
+                        # resolve definitions recursively, once per element
+                        repetitions: int = 1
+                        if isinstance(seq_type, Array):
+                            repetitions = seq_type.get_length()
+                        for _ in range(repetitions):
+                            cls._create_telemetry_item_data(
+                                telemetry_items_list=telemetry_items_list,
+                                definition=inner_definition,
+                                asn1_model=asn1_model,
+                                with_comp=components_list,
+                            )
                         continue
 
                 if c_type is None:
-- 
2.43.0


From 6d48817df6093e9ab1b26fd88c699a02e1b16f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:20 +0000
Subject: [PATCH 11/35] fix: reject ENUMERATED positions which merely sum up to
 zero

---
 asn1_parser/asn1/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..1135c02 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,7 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if not any(e.get_pos() for e in model.get_enum()):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 5550faad58805d0dd8da4ffe4d467df733347f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:33 +0000
Subject: [PATCH 12/35] fix: give an item with a single possible value one bit
 instead of none

---
 asn1_parser/asn1/grammar_elements/enumerated.py | 3 ++-
 asn1_parser/utils/size.py                       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..e5bb02d 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,5 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, a single item needs 1 bit too
+        return int(max(1, last_value.bit_length()))
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..a0abb84 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,8 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, a single value needs 1 bit too
+        bitsize = max(1, end.bit_length())
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From 36559b993a39ea1ec5a13667648e2742585912e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:58 +0000
Subject: [PATCH 13/35] fix: reject INTEGER ranges which do not fit into 64 bit

---
 asn1_parser/asn1/processor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 1135c02..7ea989c 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -193,9 +193,12 @@ def asn1_type(model: Asn1Type) -> None:
     elif type_name == "INTEGER" and begin is not None and end is not None:
         if begin >= 0:
             c_type = TypeEnum.A_UINT
+            widest = ASN1_POSIX_RANGE["Uint64-t"]
         else:
-            # TODO check bounds
             c_type = TypeEnum.A_INT
+            widest = ASN1_POSIX_RANGE["Int64-t"]
+        if begin < widest["begin"] or end > widest["end"]:
+            raise ValueError(f"{begin} or {end} are out of 64 bit range")
     elif type_name == "REAL" and begin is not None and end is not None:
         if begin >= FLOAT_MIN and end <= FLOAT_MAX:
             c_type = TypeEnum.A_FLOAT
-- 
2.43.0


From d29b8c45c5ee14ff646d67a2e44dee57ecc8db0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:22 +0000
Subject: [PATCH 14/35] fix: reject comment texts which corrupt the generated
 artifacts

---
 asn1_parser/asn1/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 7ea989c..daf9e62 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -258,7 +258,8 @@ def null_exception_catch(model: Union[KeyTypePair, SimpleDefinition]) -> None:
 
 def check_comment(model: Asn1Comment) -> None:
     assert isinstance(model, Asn1Comment), f"{model}"
-    not_allowed = ["[", "]", "--"]
+    # the last three would end or escape the text in the generated artifacts
+    not_allowed = ["[", "]", "--", '"', "\\", "*/"]
     for sign in not_allowed:
         if not model.get_comment():
             return
-- 
2.43.0


From 54434bbb6bf59c165443c7513a0af2e460bdb4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:35 +0000
Subject: [PATCH 15/35] fix: reject duplicate module names in generate-cosmos
 as well

---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..d088505 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -164,6 +165,7 @@ class ASN1BundleBuilder:
         module_list: List[Asn1Module],
         config: Union[
             GenerateCFSCommandConfig,
+            GenerateCosmosCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
         ],
-- 
2.43.0


From 6fa39a580e765617468314ad5b9fc3166fa1b133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:51 +0000
Subject: [PATCH 16/35] fix: reject a POSIX type name on the wrong base type

---
 asn1_parser/asn1/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index daf9e62..b23a925 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -228,7 +228,12 @@ def check_posix(model: SimpleDefinition) -> None:
     if posix:
         begin = model.get_asn_type().get_begin()
         end = model.get_asn_type().get_end()
-        if posix.get("begin") != begin or posix.get("end") != end:
+        base_type = "REAL" if name in ["Float", "Double"] else "INTEGER"
+        if (
+            model.get_asn_type().get_type_name() != base_type
+            or posix.get("begin") != begin
+            or posix.get("end") != end
+        ):
             # pylint: disable=import-outside-toplevel
 
             raise ASN1ConsistencyError(
-- 
2.43.0


From fd113a5f1d27fbfe90202b53d85584daf76fdb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:42 +0000
Subject: [PATCH 17/35] fix: reject keys used multiple times in a definition

---
 .../asn1/validation/asn1_bundle_validator.py  | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 6507c9d..5b9b7b0 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -1,10 +1,12 @@
-from typing import List, Union, Dict
+from typing import Any, List, Union, Dict
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
 from asn1_parser.asn1.grammar_elements.sequence import Sequence
+from asn1_parser.asn1.grammar_elements.with_components import WithComponents
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -37,6 +39,7 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_duplicate_keys(bundle)
         ASN1BundleValidator._check_circular_imports(bundle)
         ASN1BundleValidator._check_recursive_definitions(bundle)
 
@@ -105,6 +108,42 @@ class ASN1BundleValidator:
                         definition.get_type_name()
                     ] = module.get_module_name()
 
+    @staticmethod
+    def _check_duplicate_keys(bundle: ASN1Bundle) -> None:
+        for module in bundle.get_modules():
+            for definition in module.get_definitions():
+                items: List[Any] = []
+                if isinstance(definition, (Sequence, Choice)):
+                    items = definition.get_children()
+                    for item in items:
+                        ASN1BundleValidator._check_duplicate_components(
+                            definition, item.get_with_components()
+                        )
+                elif isinstance(definition, Enumerated):
+                    items = definition.get_enum()
+                ASN1BundleValidator._check_unique_keys(definition, items)
+
+    @staticmethod
+    def _check_duplicate_components(definition: Definitions, value: Any) -> None:
+        if isinstance(value, WithComponents):
+            ASN1BundleValidator._check_unique_keys(
+                definition, value.get_components()
+            )
+            for component in value.get_components():
+                ASN1BundleValidator._check_duplicate_components(
+                    definition, component.get_value()
+                )
+
+    @staticmethod
+    def _check_unique_keys(definition: Definitions, items: List[Any]) -> None:
+        keys = [item.get_key() for item in items]
+        for key in keys:
+            if keys.count(key) > 1:
+                raise ASN1ConsistencyError(
+                    f"'{key}' is used multiple times in "
+                    f"'{definition.get_type_name()}'"
+                )
+
     @staticmethod
     def _check_circular_imports(bundle: ASN1Bundle) -> None:
         cyclic = ASN1BundleValidator._find_cyclic(
-- 
2.43.0


From 5429c39fc6a639f51bedce6db39a056d99bac74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:21 +0000
Subject: [PATCH 18/35] fix: reject WITH COMPONENTS values outside the type of
 their component

---
 .../asn1/validation/asn1_bundle_validator.py  | 58 +++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 5b9b7b0..8eece5b 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -5,7 +5,9 @@ from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
 from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
+from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
 from asn1_parser.asn1.grammar_elements.sequence import Sequence
+from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition
 from asn1_parser.asn1.grammar_elements.with_components import WithComponents
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
@@ -40,6 +42,7 @@ class ASN1BundleValidator:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
         ASN1BundleValidator._check_duplicate_keys(bundle)
+        ASN1BundleValidator._check_component_values(bundle)
         ASN1BundleValidator._check_circular_imports(bundle)
         ASN1BundleValidator._check_recursive_definitions(bundle)
 
@@ -144,6 +147,61 @@ class ASN1BundleValidator:
                     f"'{definition.get_type_name()}'"
                 )
 
+    @staticmethod
+    def _check_component_values(bundle: ASN1Bundle) -> None:
+        definitions: Dict[str, Definitions] = {
+            definition.get_type_name(): definition
+            for module in bundle.get_modules()
+            for definition in module.get_definitions()
+        }
+        for definition in definitions.values():
+            if isinstance(definition, Sequence):
+                for item in definition.get_children():
+                    if item.get_with_components():
+                        ASN1BundleValidator._check_component_value(
+                            item, item.get_with_components(), definitions
+                        )
+
+    @staticmethod
+    def _check_component_value(
+        item: KeyTypePair, value: Any, definitions: Dict[str, Definitions]
+    ) -> None:
+        asn_type = item.get_asn_type()
+        definition = definitions.get(asn_type.get_type_name())
+        if isinstance(definition, SimpleDefinition):
+            asn_type = definition.get_asn_type()
+        type_name = asn_type.get_type_name()
+        begin, end = asn_type.get_begin(), asn_type.get_end()
+
+        valid = True
+        if isinstance(value, WithComponents):
+            if isinstance(definition, Sequence):
+                children = {c.get_key(): c for c in definition.get_children()}
+                for component in value.get_components():
+                    ASN1BundleValidator._check_component_value(
+                        children[component.get_key()],
+                        component.get_value(),
+                        definitions,
+                    )
+        elif isinstance(definition, (Sequence, Choice)):
+            valid = False
+        elif isinstance(definition, Enumerated):
+            valid = type(value) is int and 0 <= value < len(
+                definition.get_enum()
+            )
+        elif type_name in ["INTEGER", "REAL"]:
+            valid = not isinstance(value, bool) and (
+                type_name == "REAL" or isinstance(value, int)
+            )
+            if valid and begin is not None and end is not None:
+                valid = begin <= value <= end
+        elif type_name == "BOOLEAN":
+            valid = isinstance(value, bool)
+        if not valid:
+            raise ASN1ConsistencyError(
+                f"The value of '{item.get_key()}' is not one of its type"
+            )
+
     @staticmethod
     def _check_circular_imports(bundle: ASN1Bundle) -> None:
         cyclic = ASN1BundleValidator._find_cyclic(
-- 
2.43.0


From 71b5433e31d42c8adc248405fee5547a2e5c5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:10 +0000
Subject: [PATCH 19/35] fix: keep the bytes of every WITH COMPONENTS member in
 the binary

---
 asn1_parser/c_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index b3ebcf3..fbef309 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -84,8 +84,8 @@ class CData:
             self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
-        # TODO prevent overriding existing keys
-        self._binary_init.update(other_cdata.get_binary_init())
+        for key, binary_init_list in other_cdata.get_binary_init().items():
+            self._binary_init.setdefault(key, []).extend(binary_init_list)
 
     def add_data(self, data_string: str) -> None:
         self._data.append(data_string)
-- 
2.43.0


From e16632186a117824c98cd37a50ea3b5dd623d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:24 +0000
Subject: [PATCH 20/35] fix: write binary values in the order of the
 declaration

---
 asn1_parser/generators/binary/generator.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 23b153c..e1b912e 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -225,7 +225,9 @@ class BinaryGenerator(Generator):
             )
         asn_type_name: str = asn_type.get_type_name()
 
-        for component in with_component.get_components():
+        for component in cls._in_declared_order(
+            with_component, asn_type_name, definitions
+        ):
             bin_data = cls._component_to_bytes(
                 component,
                 asn_type_name,
@@ -235,6 +237,20 @@ class BinaryGenerator(Generator):
 
         return bin_data_list
 
+    @classmethod
+    def _in_declared_order(
+        cls,
+        with_component: WithComponents,
+        asn_type_name: str,
+        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
+    ) -> List[ComponentsItem]:
+        # the bytes have to match the members of the generated struct
+        declared_keys: List[str] = list(definitions[asn_type_name])
+        return sorted(
+            with_component.get_components(),
+            key=lambda component: declared_keys.index(component.get_key()),
+        )
+
     @classmethod
     def _component_to_bytes(  # pylint: disable=too-many-arguments
         cls,
@@ -255,7 +271,9 @@ class BinaryGenerator(Generator):
 
         if isinstance(value, WithComponents):
             inner_asn_type_name: str = key.get_seq_type()
-            for inner_component in value.get_components():
+            for inner_component in cls._in_declared_order(
+                value, inner_asn_type_name, definitions
+            ):
                 bin_data = cls._component_to_bytes(
                     inner_component,
                     inner_asn_type_name,
-- 
2.43.0


From 32df9b5bf25d8ac00a8721a72f6255e7f1068602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:36 +0000
Subject: [PATCH 21/35] fix: write binary values of imported types

---
 asn1_parser/generators/binary/generator.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index e1b912e..17c9335 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -11,6 +11,7 @@ from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.asn1_type import Asn1Type
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.components_item import ComponentsItem
+from asn1_parser.asn1.grammar_elements.definitions import Definitions
 from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
 from asn1_parser.asn1.grammar_elements.import_item import ImportItem
 from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
@@ -179,7 +180,7 @@ class BinaryGenerator(Generator):
 
         # get sequences with their defined keys and types
         definitions: Dict[str, Dict[str, SequenceSpecificationContainer]] = {}
-        for definition in module.get_definitions():
+        for definition in cls._get_reachable_definitions(module):
             # only sequences can have WITH COMPONENTS
             # ignore other ASN.1 definitions
             if isinstance(definition, Sequence):
@@ -209,6 +210,13 @@ class BinaryGenerator(Generator):
         )
         return cdata
 
+    @classmethod
+    def _get_reachable_definitions(cls, module: Asn1Module) -> List[Definitions]:
+        definitions: List[Definitions] = list(module.get_definitions())
+        for imported_module in module.get_imported_modules():
+            definitions.extend(cls._get_reachable_definitions(imported_module))
+        return definitions
+
     @classmethod
     def _values_to_bytes_list(
         cls,
-- 
2.43.0


From c6f2553020448bef42a25b8c6ef37a80df881e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:50 +0000
Subject: [PATCH 22/35] fix: write binary values of simple definitions

---
 asn1_parser/generators/binary/generator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 17c9335..8a9e665 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -189,11 +189,17 @@ class BinaryGenerator(Generator):
                 ] = {}
                 for sequence in definition.get_children():
                     if sequence.get_with_components() is None:
+                        c_type = sequence.get_asn_type().get_c_type()
+                        simple_definition = sequence.get_asn_type().get_type()
+                        if isinstance(simple_definition, SimpleDefinition):
+                            c_type = (
+                                simple_definition.get_asn_type().get_c_type()
+                            )
                         seq_specifications[
                             sequence.get_key()
                         ] = SequenceSpecificationContainer(
                             # None if a WITH COMPONENTS otherwise TypeEnum
-                            c_type=sequence.get_asn_type().get_c_type(),
+                            c_type=c_type,
                             # needed for correct (u)int assignement
                             bitsize=sequence.get_size_bits(),
                             # ASN.1 type, either simple definition or own
-- 
2.43.0


From 7848ed1e4b19dd8d29a9d5b4c6103d2b2fd43ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:43 +0000
Subject: [PATCH 23/35] fix: initialise all WITH COMPONENTS members in one C
 variable

---
 asn1_parser/generators/c/generator.py | 40 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 7472726..ac386a3 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -117,6 +117,28 @@ class CGenerator(Generator):
                 header_type=HeaderType.STORED_DATA,
             )
 
+    # override
+    @classmethod
+    def _convert_sequence_to_c(
+        cls,
+        simple_definition_list: List[SimpleDefinition],
+        definition: Sequence,
+        module: Asn1Module,
+    ) -> CData:
+        cdata = super()._convert_sequence_to_c(
+            simple_definition_list, definition, module
+        )
+        # one variable holds the values of all WITH COMPONENTS members
+        init_list: List[str] = cdata.get_init_list()
+        if init_list:
+            seq_name = CPrinter.asn1_to_c_style_naming(
+                definition.get_type_name()
+            )
+            variable = seq_name + " " + lowerize(seq_name)
+            init_list[:] = [variable + " = {\n" + "".join(init_list) + "};\n"]
+            cdata.add_init_predef(variable + ";")
+        return cdata
+
     # override
     @classmethod
     def _with_components_handling(
@@ -130,15 +152,7 @@ class CGenerator(Generator):
 
         cdata: CData = CData.create_empty()
 
-        cdata.add_init(
-            cls._process_start_with_component(definition_type_name_c, seq_item)
-        )
-        cdata.add_init_predef(
-            definition_type_name_c
-            + " "
-            + lowerize(definition_type_name_c)
-            + ";"
-        )
+        cdata.add_init(cls._process_start_with_component(seq_item))
         filename = cls.get_filename(module)
         cdata.set_init_include(str(cgen.Include(filename + ".h", system=False)))
 
@@ -147,7 +161,6 @@ class CGenerator(Generator):
     @classmethod
     def _process_start_with_component(
         cls,
-        seq_name: str,
         seq_item: KeyTypePair,
     ) -> str:
         seq_key: str = seq_item.get_key()
@@ -155,11 +168,7 @@ class CGenerator(Generator):
 
         shift_level: int = 1
         return (
-            seq_name
-            + " "
-            + lowerize(seq_name)
-            + " = {\n"
-            + (shift_level * cls._C_SPACES)
+            (shift_level * cls._C_SPACES)
             + "."
             + CPrinter.asn1_to_c_style_naming(seq_key)
             + " = {\n"
@@ -168,7 +177,6 @@ class CGenerator(Generator):
             )
             + (shift_level * cls._C_SPACES)
             + "},\n"
-            + "};\n"
         )
 
     @classmethod
-- 
2.43.0


From 4f2b5166eedeffa36dfdf94ec9547359b10cf88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:17 +0000
Subject: [PATCH 24/35] fix: refuse arrays which C can not represent instead of
 emitting invalid C

---
 asn1_parser/generators/generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index dd8c4b5..7cc91b4 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -167,6 +167,13 @@ class Generator:
                 seq_key += bit_length
 
             seq_item_type = seq_item.get_asn_type().get_type()
+            if isinstance(seq_item_type, Array) and (
+                bit_length or seq_item_type.get_asn_type().get_type()
+            ):
+                raise NotImplementedError(
+                    f"C can not represent the array '{seq_item.get_key()}': "
+                    "its elements are bitfields, strings or arrays."
+                )
             if isinstance(seq_item_type, (Array, Asn1String)):
                 # array or string (char array)
 
-- 
2.43.0


From 438fdbfb32988d2f9a49b0d2ed692fdc8fd6b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:23 +0000
Subject: [PATCH 25/35] fix: visit every imported module once when looking up
 definitions

The number of visits grew exponentially with the number of modules which
import each other: generate-cosmos needed minutes for 24 modules.
---
 asn1_parser/generators/binary/generator.py | 13 ++++++++---
 asn1_parser/generators/cosmos/generator.py | 25 ++++++++++------------
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 8a9e665..eeb4faa 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -218,9 +218,16 @@ class BinaryGenerator(Generator):
 
     @classmethod
     def _get_reachable_definitions(cls, module: Asn1Module) -> List[Definitions]:
-        definitions: List[Definitions] = list(module.get_definitions())
-        for imported_module in module.get_imported_modules():
-            definitions.extend(cls._get_reachable_definitions(imported_module))
+        definitions: List[Definitions] = []
+        visited: List[Asn1Module] = []
+        pending: List[Asn1Module] = [module]
+        while pending:
+            current = pending.pop()
+            # visit every module once no matter how often it is imported
+            if current not in visited:
+                visited.append(current)
+                definitions.extend(current.get_definitions())
+                pending.extend(current.get_imported_modules())
         return definitions
 
     @classmethod
diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 5e5f9c4..5b2294f 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -257,25 +257,22 @@ class COSMOSGenerator:
     def _get_definitions_recurs(
         cls, type_name: str, asn1_model: Optional[Asn1Module]
     ) -> List[Definitions]:
-        # search for the definition in current module
+        # search for the definition in current module and in imported modules,
+        # every module is visited once no matter how often it is imported
 
-        module_definitions: List[Definitions] = []
+        modules: List[Asn1Module] = []
+        pending: List[Asn1Module] = []
         if asn1_model is not None:
-            module_definitions = asn1_model.get_definitions()
-
-        # search for the definition in imported modules
-        imported_definitions: List[Definitions] = []
-        if asn1_model is not None:
-            imported_definitions = flatten(
-                [
-                    cls._get_definitions_recurs(type_name, module)
-                    for module in asn1_model.get_imported_modules()
-                ]
-            )
+            pending.append(asn1_model)
+        while pending:
+            module = pending.pop()
+            if module not in modules:
+                modules.append(module)
+                pending.extend(module.get_imported_modules())
 
         # filter by name
 
-        all_def = module_definitions + imported_definitions
+        all_def = flatten([module.get_definitions() for module in modules])
 
         matching_def = [d for d in all_def if d.get_type_name() == type_name]
 
-- 
2.43.0


From ebe459add0731ba24975a8e8df25badbd30f3cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:19 +0000
Subject: [PATCH 26/35] fix: write files only after all modules have been
 converted

A project that one of the generators cannot handle (for example a member
without range in the second module) was refused with a traceback after
the files of the first modules had already been replaced.
---
 asn1_parser/generators/binary/generator.py |  7 ++++++-
 asn1_parser/generators/c/generator.py      |  7 ++++++-
 asn1_parser/generators/cfs/generator.py    | 11 ++++++++---
 3 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index eeb4faa..8bcbd96 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 import struct
 
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import cgen
 
@@ -83,8 +83,12 @@ class BinaryGenerator(Generator):
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
 
+        # nothing is written before all modules have been converted
+        module_cdata_list: List[Tuple[Asn1Module, CData]] = []
+
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
+            module_cdata_list.append((module, module_cdata))
 
             # Include
 
@@ -156,6 +160,7 @@ class BinaryGenerator(Generator):
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
+        for module, module_cdata in module_cdata_list:
             filename = cls.get_filename(module)
             CPrinter.print_to_file(
                 cdata=module_cdata,
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index ac386a3..c8fc815 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -1,7 +1,7 @@
 import os
 import pathlib
 
-from typing import List, Optional, Union
+from typing import List, Optional, Tuple, Union
 
 import cgen
 
@@ -37,8 +37,12 @@ class CGenerator(Generator):
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
 
+        # nothing is written before all modules have been converted
+        module_cdata_list: List[Tuple[Asn1Module, CData]] = []
+
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
+            module_cdata_list.append((module, module_cdata))
 
             # Include
 
@@ -109,6 +113,7 @@ class CGenerator(Generator):
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
+        for module, module_cdata in module_cdata_list:
             filename = cls.get_filename(module)
             CPrinter.print_to_file(
                 cdata=module_cdata,
diff --git a/asn1_parser/generators/cfs/generator.py b/asn1_parser/generators/cfs/generator.py
index b981955..b070ac3 100644
--- a/asn1_parser/generators/cfs/generator.py
+++ b/asn1_parser/generators/cfs/generator.py
@@ -1,6 +1,6 @@
 import os
 import pathlib
-from typing import List, Optional, Union
+from typing import List, Optional, Tuple, Union
 
 import cgen
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
@@ -56,8 +56,12 @@ class CFSGenerator(Generator):
 
         module_list_ordered: List[Asn1Module] = bundle.get_modules_ordered()
 
+        # nothing is written before all modules have been converted
+        module_cdata_list: List[Tuple[Asn1Module, CData]] = []
+
         for module in module_list_ordered:
             module_cdata = CData.create_empty()
+            module_cdata_list.append((module, module_cdata))
 
             # Include
 
@@ -141,13 +145,14 @@ class CFSGenerator(Generator):
                         + "implemented."
                     )
 
-            c_printer: CPrinter = CPrinter()
-
             comment = module.get_comment()
             file_documentation = comment and comment.get_comment()
             if file_documentation:
                 module_cdata.set_header_comment(file_documentation)
 
+        c_printer: CPrinter = CPrinter()
+
+        for module, module_cdata in module_cdata_list:
             # generate one xx_msg.h file per module
             filename_msg = cls.get_msg_filename(module)
             c_printer.print_to_file(
-- 
2.43.0


From 22de5e1070999e538edb9489a90b514f7bf18045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 27/35] fix: reject composite types with the name of a POSIX
 type

---
 .../asn1/validation/asn1_bundle_validator.py      | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 8eece5b..b5b10ba 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -18,6 +18,7 @@ from asn1_parser.cli.cli_arg_parser import (
     GenerateCFSCommandConfig,
 )
 from asn1_parser.utils.array import flatten
+from asn1_parser.utils.size import ASN1_POSIX_RANGE
 
 
 class ASN1ConsistencyError(Exception):
@@ -41,6 +42,7 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_posix_names(bundle)
         ASN1BundleValidator._check_duplicate_keys(bundle)
         ASN1BundleValidator._check_component_values(bundle)
         ASN1BundleValidator._check_circular_imports(bundle)
@@ -111,6 +113,19 @@ class ASN1BundleValidator:
                         definition.get_type_name()
                     ] = module.get_module_name()
 
+    @staticmethod
+    def _check_posix_names(bundle: ASN1Bundle) -> None:
+        for module in bundle.get_modules():
+            for definition in module.get_definitions():
+                # simple definitions have been checked when parsing
+                if definition.get_type_name() in ASN1_POSIX_RANGE and (
+                    not isinstance(definition, SimpleDefinition)
+                ):
+                    raise ASN1ConsistencyError(
+                        f"The type '{definition.get_type_name()}' has the name "
+                        f"of a POSIX definition"
+                    )
+
     @staticmethod
     def _check_duplicate_keys(bundle: ASN1Bundle) -> None:
         for module in bundle.get_modules():
-- 
2.43.0


From 4fe9617447dea16d6e4f8d5361cf0044e0ee2a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 28/35] fix: write only unsigned COSMOS APIDs in hexadecimal

---
 asn1_parser/generators/cosmos/generator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 5b2294f..40c229e 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -224,6 +224,7 @@ class COSMOSGenerator:
                     specific_value = str(seq_type.get_length() * bitsize)
                 elif (
                     seq_item.get_key() == ASN1_KEY_CCSDS_APID
+                    and c_type == TypeEnum.A_UINT
                     and specific_value != ""
                 ):
                     specific_value = f"0x{specific_value:02X}"
-- 
2.43.0


From b3aebadfc9ab66a167cc2ede6b11b2f224ee703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 29/35] fix: reject negative sizes

---
 asn1_parser/asn1/processor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index b23a925..0bbcb89 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -3,6 +3,7 @@ from typing import Any, List, Optional, Union
 from textx.exceptions import TextXSyntaxError
 from textx.metamodel import TextXMetaModel
 
+from asn1_parser.asn1.grammar_elements.array import Array
 from asn1_parser.asn1.grammar_elements.asn1_comment import Asn1Comment
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
@@ -177,6 +178,8 @@ def asn1_type(model: Asn1Type) -> None:
 
     type_name: str = model.get_type_name()
     seq_type = model.get_type()
+    if isinstance(seq_type, (Array, Asn1String)) and seq_type.get_length() < 0:
+        raise ValueError(f"the size {seq_type.get_length()} is negative")
 
     c_type: Optional[TypeEnum]
     if ASN1_POSIX_RANGE.get(type_name) is not None:
-- 
2.43.0


From 679223fe51c3ef06e214bd40e7b3a679b4812175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 30/35] fix: check the WITH COMPONENTS of CHOICE alternatives
 too

---
 asn1_parser/asn1/processor.py                        | 2 +-
 asn1_parser/asn1/validation/asn1_bundle_validator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 0bbcb89..a40b6cc 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -87,7 +87,7 @@ def model_processor_check_used_components_defined(model: Asn1Module) -> None:
         s for s in model.get_definitions() if isinstance(s, Sequence)
     ]
     for definition in model.get_definitions():
-        if isinstance(definition, Sequence):
+        if isinstance(definition, (Sequence, Choice)):
             for seq_item in definition.get_children():
                 type_name: str = seq_item.get_asn_type().get_type_name()
                 with_component: WithComponents = seq_item.get_with_components()
diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index b5b10ba..0936430 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -170,7 +170,7 @@ class ASN1BundleValidator:
             for definition in module.get_definitions()
         }
         for definition in definitions.values():
-            if isinstance(definition, Sequence):
+            if isinstance(definition, (Sequence, Choice)):
                 for item in definition.get_children():
                     if item.get_with_components():
                         ASN1BundleValidator._check_component_value(
-- 
2.43.0


From cf13681ecd21cdd2102933f9397bd61617474483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 31/35] fix: reject simple definitions of undefined types

---
 asn1_parser/asn1/processor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index a40b6cc..6e28dbe 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -66,11 +66,11 @@ def model_processor_check_used_types_defined(
 
     defined_types: List[str] = _check_types_once_defined(model)
     for definition in model.get_definitions():
-        key_type_pair_list: List[KeyTypePair] = []
+        key_type_pair_list: List[Union[KeyTypePair, SimpleDefinition]] = []
         if isinstance(definition, (Sequence, Choice)):
             key_type_pair_list = definition.get_children()
-        else:
-            pass
+        elif isinstance(definition, SimpleDefinition):
+            key_type_pair_list = [definition]
 
         for key_type_pair in key_type_pair_list:
             type_name: str = key_type_pair.get_asn_type().get_type_name()
-- 
2.43.0


From ecdd2e0ca97aa39106a9802595a47e66416bb2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 32/35] fix: reject single values fixed for strings and arrays

---
 asn1_parser/asn1/validation/asn1_bundle_validator.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 0936430..00f779a 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -1,7 +1,9 @@
 from typing import Any, List, Union, Dict
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
+from asn1_parser.asn1.grammar_elements.array import Array
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
+from asn1_parser.asn1.grammar_elements.asn1_string import Asn1String
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
 from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
@@ -185,6 +187,7 @@ class ASN1BundleValidator:
         definition = definitions.get(asn_type.get_type_name())
         if isinstance(definition, SimpleDefinition):
             asn_type = definition.get_asn_type()
+            definition = definitions.get(asn_type.get_type_name())
         type_name = asn_type.get_type_name()
         begin, end = asn_type.get_begin(), asn_type.get_end()
 
@@ -198,7 +201,10 @@ class ASN1BundleValidator:
                         component.get_value(),
                         definitions,
                     )
-        elif isinstance(definition, (Sequence, Choice)):
+        elif isinstance(definition, (Sequence, Choice)) or any(
+            isinstance(composed.get_type(), (Array, Asn1String))
+            for composed in (item.get_asn_type(), asn_type)
+        ):
             valid = False
         elif isinstance(definition, Enumerated):
             valid = type(value) is int and 0 <= value < len(
-- 
2.43.0


From 672f7458045d15e32bb646d0ccf01750ebba7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:05 +0000
Subject: [PATCH 33/35] fix: give named BOOLEAN members their COSMOS states

---
 asn1_parser/generators/cosmos/generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 40c229e..54469ae 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -187,6 +187,8 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        if c_type is TypeEnum.A_BOOL:
+                            state_list = ["False", "True"]
                     elif isinstance(inner_definition, Enumerated):
                         # if it is an enumerated do not start a recursion but
                         # resolve the data
-- 
2.43.0


From 6597ca188e7e38ead8e9d66879e82cfbec470902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:53 +0000
Subject: [PATCH 34/35] fix: keep the fixed values of a COSMOS item when
 several WITH COMPONENTS reach below it

---
 asn1_parser/generators/cosmos/generator.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 54469ae..f66cd52 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -141,13 +141,12 @@ class COSMOSGenerator:
                         for c in with_comp
                         if c.get_key() == item_name
                     ]
-                    if len(spec_val) == 1:
-                        specific_value = spec_val[0]
-                        if isinstance(specific_value, WithComponents):
-                            inner_components_list: List[
-                                ComponentsItem
-                            ] = specific_value.get_components()
-                            components_list.extend(inner_components_list)
+                    # several WITH COMPONENTS may fix different values below it
+                    for value in spec_val:
+                        if isinstance(value, WithComponents):
+                            components_list.extend(value.get_components())
+                        else:
+                            specific_value = value
 
                 comment: str = ""
                 unit: str = ""
-- 
2.43.0


From 45724c9e2811509dfb2fee9e22c39bcaedf7a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:32 +0000
Subject: [PATCH 35/35] fix: count all elements of an array of arrays in a
 COSMOS packet

---
 asn1_parser/generators/cosmos/generator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index f66cd52..cc48182 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -199,7 +199,7 @@ class COSMOSGenerator:
                         # resolve definitions recursively, once per element
                         repetitions: int = 1
                         if isinstance(seq_type, Array):
-                            repetitions = seq_type.get_length()
+                            repetitions = cls._count_elements(seq_type)
                         for _ in range(repetitions):
                             cls._create_telemetry_item_data(
                                 telemetry_items_list=telemetry_items_list,
@@ -222,7 +222,9 @@ class COSMOSGenerator:
 
                 is_array = isinstance(seq_type, Array)
                 if is_array:
-                    specific_value = str(seq_type.get_length() * bitsize)
+                    specific_value = str(
+                        cls._count_elements(seq_type) * bitsize
+                    )
                 elif (
                     seq_item.get_key() == ASN1_KEY_CCSDS_APID
                     and c_type == TypeEnum.A_UINT
@@ -255,6 +257,15 @@ class COSMOSGenerator:
         else:
             raise Exception(f"unknown '{definition}' processing")
 
+    @classmethod
+    def _count_elements(cls, array: Array) -> int:
+        count: int = array.get_length()
+        # the elements of an array may be arrays
+        inner = array.get_asn_type().get_type()
+        if isinstance(inner, Array):
+            count *= cls._count_elements(inner)
+        return count
+
     @classmethod
     def _get_definitions_recurs(
         cls, type_name: str, asn1_model: Optional[Asn1Module]
-- 
2.43.0

