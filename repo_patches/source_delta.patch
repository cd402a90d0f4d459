From b1c8b3b3a8921e3cb90882bf3d853f270b0c46d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:30 +0000
Subject: [PATCH 01/13] fix: write_i32() rejects valid values above 2^30

---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From d3d78108892d2172c12775deb2bc3a07179b053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:00 +0000
Subject: [PATCH 02/13] fix: invalid or negative AT time crashes instead of
 removing the policy

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..643ff26 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1141,13 +1141,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From 15223f2a6beb49051baa3bbc0f03c54b48e44999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:01 +0000
Subject: [PATCH 03/13] fix: C generator fails in basic and extended scopes on
 missing delta_minutes

---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From 47ccacd68e2856e54f2715696a92abd8d53ebdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:03 +0000
Subject: [PATCH 04/13] fix: SAVE beyond 127 minutes overflows the 8-bit field
 of complete databases

---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From 6e8eb6b352e3ec771468f3545bed62a133c47d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 05/13] fix: --granularity flag is ignored

---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..a80341d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -473,6 +473,10 @@ def main() -> None:
         offset_granularity = args.offset_granularity
     if args.delta_granularity:
         delta_granularity = args.delta_granularity
+    if args.granularity:
+        until_at_granularity = args.granularity
+        offset_granularity = args.granularity
+        delta_granularity = args.granularity
 
     logging.info('======== TZ Compiler settings')
     logging.info(f'Scope: {args.scope}')
-- 
2.43.0


From bd6c09c6849ccfd7d8e3e707d4666702408afa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:27 +0000
Subject: [PATCH 06/13] fix: untagged TZ version 'HEAD' crashes the database
 creation

---
 src/acetimetools/datatypes/attyping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/datatypes/attyping.py b/src/acetimetools/datatypes/attyping.py
index 8f38210..5924437 100644
--- a/src/acetimetools/datatypes/attyping.py
+++ b/src/acetimetools/datatypes/attyping.py
@@ -561,8 +561,11 @@ def _sort_merged_comments(
 def _to_version_number(version: str) -> int:
     """Convert version string (e.g. '2020a') to an integer of the form YYNN
     (e.g. '2001'), where YY is (year - 2000) and NN is the patch number,
-    where 'a' is 01.
+    where 'a' is 01. An untagged version (e.g. 'HEAD') has no number and is
+    converted to 0.
     """
     year = version[0:4]
-    patch = version[4]
+    patch = version[4:5]
+    if not year.isdigit() or not patch:
+        return 0
     return (int(year) - 2000) * 100 + (ord(patch) - ord('a') + 1)
-- 
2.43.0


From 434b4238e5790b234ed10495517a2d3625148a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:28 +0000
Subject: [PATCH 07/13] fix: --skip_bufestimator crashes the Arduino and C
 generators

---
 src/acetimetools/generator/argenerator.py | 7 +++++--
 src/acetimetools/generator/cgenerator.py  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/acetimetools/generator/argenerator.py b/src/acetimetools/generator/argenerator.py
index 386a626..72ab493 100644
--- a/src/acetimetools/generator/argenerator.py
+++ b/src/acetimetools/generator/argenerator.py
@@ -13,6 +13,7 @@ from acetimetools.datatypes.attyping import ZoneRuleRaw
 from acetimetools.datatypes.attyping import ZoneEraRaw
 from acetimetools.datatypes.attyping import CommentsMap
 from acetimetools.datatypes.attyping import MergedCommentsMap
+from acetimetools.datatypes.attyping import CountAndYear
 from acetimetools.datatypes.attyping import ZoneInfoDatabase
 from acetimetools.transformer.transformer import normalize_name
 from acetimetools.transformer.transformer import normalize_raw
@@ -394,8 +395,10 @@ extern const {self.scope}::ZoneInfo kZone{zone_normalized_name}; // {zone_name}
 const uint32_t kZoneId{zone_normalized_name} = 0x{zone_id:08x}; // {zone_name}
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
+            # Empty if the BufSizeEstimator was skipped.
+            buf_info = self.buf_sizes.get(zone_name, CountAndYear(0, 0))
+            buf_size = buf_info.number
+            buf_year = buf_info.year
             buf_sizes += f"""\
 const uint8_t kZoneBufSize{zone_normalized_name} = {buf_size};  \
 // {zone_name} in {buf_year}
diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 456d5a4..6c7b5c3 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -12,6 +12,7 @@ from typing import List
 
 from acetimetools.datatypes.attyping import ZoneRuleRaw
 from acetimetools.datatypes.attyping import ZoneEraRaw
+from acetimetools.datatypes.attyping import CountAndYear
 from acetimetools.datatypes.attyping import ZoneInfoDatabase
 from acetimetools.transformer.transformer import normalize_name
 from acetimetools.transformer.transformer import normalize_raw
@@ -401,8 +402,10 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name}; \
 /* {zone_name} */
 """
 
-            buf_size = self.buf_sizes[zone_name].number
-            buf_year = self.buf_sizes[zone_name].year
+            # Empty if the BufSizeEstimator was skipped.
+            buf_info = self.buf_sizes.get(zone_name, CountAndYear(0, 0))
+            buf_size = buf_info.number
+            buf_year = buf_info.year
             zone_buf_sizes += f"""\
 #define k{self.db_namespace}ZoneBufSize{zone_normalized_name} {buf_size}  \
 /* {zone_name} in {buf_year} */
-- 
2.43.0


From 673c51a696b7e9ef9120b1eb92bb77570d21184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:00 +0000
Subject: [PATCH 08/13] fix: rule on e.g. 'Sun<=1' in January can shift to the
 previous year

---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 643ff26..054713c 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1332,7 +1332,7 @@ class Transformer:
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
                     if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                            and on_day_of_month < 0
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From 743a13fd31d75647d2ab87b9b6c7a0d7ec1abeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:02 +0000
Subject: [PATCH 09/13] fix: final era extended to +Infinity keeps a stale
 UNTIL month, day and time

---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 054713c..14d2596 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -432,6 +432,11 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From 0ab9b643b27e6303793208f19176df401de2a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 10/13] fix: unusable day number in ON column crashes or is
 read as 'last'

---
 src/acetimetools/transformer/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 14d2596..bd7c2bd 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1701,6 +1701,8 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
         dayOfMonth = on_string[greater_than_equal_index + 2:]
         if dayOfWeek not in WEEK_TO_WEEK_INDEX:
             return (0, 0)
+        if not dayOfMonth.isdigit() or int(dayOfMonth) == 0:
+            return (0, 0)
         return (WEEK_TO_WEEK_INDEX[dayOfWeek], int(dayOfMonth))
 
     less_than_equal_index = on_string.find('<=')
@@ -1709,6 +1711,8 @@ def _parse_on_day_string(on_string: str) -> Tuple[int, int]:
         dayOfMonth = on_string[less_than_equal_index + 2:]
         if dayOfWeek not in WEEK_TO_WEEK_INDEX:
             return (0, 0)
+        if not dayOfMonth.isdigit() or int(dayOfMonth) == 0:
+            return (0, 0)
         return (WEEK_TO_WEEK_INDEX[dayOfWeek], -int(dayOfMonth))
 
     return (0, 0)
-- 
2.43.0


From 6cf19f5214011c36494c97a3c5af75dddb04a8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 11/13] fix: tzcompiler.sh deletes a pre-existing tzfiles
 directory

---
 tzcompiler.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tzcompiler.sh b/tzcompiler.sh
index 6381a47..745e341 100755
--- a/tzcompiler.sh
+++ b/tzcompiler.sh
@@ -119,8 +119,9 @@ else
 fi
 
 # Install a trap to delete the tzfile/ temp directory, but disable it if
-# --nocleanup given for debugging.
-if [[ $cleanup == 1 ]]; then
+# --nocleanup given for debugging, or if the directory was there before us
+# (in which case copy_tzfiles() refuses to overwrite it).
+if [[ $cleanup == 1 && ! -e "$TZFILES" ]]; then
     trap clean_tzfiles EXIT
 fi
 
-- 
2.43.0


From b8f207e29013a96a5d987cb3787050e942e53ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:24 +0000
Subject: [PATCH 12/13] fix: 'Notable zones' count differs from the number of
 zones listed

---
 src/acetimetools/generator/cgenerator.py  | 2 +-
 src/acetimetools/generator/gogenerator.py | 2 +-
 src/acetimetools/generator/pygenerator.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index 6c7b5c3..427c9cf 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -433,7 +433,7 @@ extern const AtcZoneInfo k{self.db_namespace}Zone{link_normalized_name}; \
         notable_link_items = render_comments_map(self.notable_links)
 
         num_removed_infos = len(self.removed_zones)
-        num_notable_infos = len(self.notable_zones)
+        num_notable_infos = len(self.merged_notable_zones)
         num_removed_links = len(self.removed_links)
         num_notable_links = len(self.notable_links)
 
diff --git a/src/acetimetools/generator/gogenerator.py b/src/acetimetools/generator/gogenerator.py
index 4f54d3c..2235090 100644
--- a/src/acetimetools/generator/gogenerator.py
+++ b/src/acetimetools/generator/gogenerator.py
@@ -549,7 +549,7 @@ const ZoneInfosData = {zone_infos_data_string}
 {removed_info_items}
 
 // ---------------------------------------------------------------------------
-// Notable zones: {len(self.notable_zones)}
+// Notable zones: {len(self.merged_notable_zones)}
 // ---------------------------------------------------------------------------
 
 {notable_info_items}
diff --git a/src/acetimetools/generator/pygenerator.py b/src/acetimetools/generator/pygenerator.py
index 9d0c708..ec623f6 100644
--- a/src/acetimetools/generator/pygenerator.py
+++ b/src/acetimetools/generator/pygenerator.py
@@ -286,7 +286,7 @@ UNTIL_YEAR_ACCURATE = {self.until_year_accurate}
 {removed_info_items}
 
 # ---------------------------------------------------------------------------
-# Notable zones: {len(self.notable_zones)}
+# Notable zones: {len(self.merged_notable_zones)}
 # ---------------------------------------------------------------------------
 
 {notable_info_items}
-- 
2.43.0


From 7d12512ad98a6d0d0afc52ee8e8e54e798868df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 13/13] fix: count a Rule, Zone or Link line without a name as
 invalid instead of stopping

---
 src/acetimetools/extractor/extractor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..c5e8130 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -160,17 +160,30 @@ class Extractor:
 
             tag: str = line[:4]
             if tag == 'Rule':
+                in_zone_mode = False
                 tokens: List[str] = line.split()
+                if len(tokens) < 2:
+                    logging.error(f'Missing name: {line}')
+                    self.invalid_rule_lines += 1
+                    continue
                 policy_name: str = tokens[1]
                 _add_item(self.rule_lines, policy_name, line)
-                in_zone_mode = False
             elif tag == 'Link':
+                in_zone_mode = False
                 tokens = line.split()
+                if len(tokens) < 3:
+                    logging.error(f'Missing name: {line}')
+                    self.invalid_link_lines += 1
+                    continue
                 link_name: str = tokens[2]
                 _add_item(self.link_lines, link_name, tokens[1])
-                in_zone_mode = False
             elif tag == 'Zone':
+                in_zone_mode = False
                 tokens = line.split()
+                if len(tokens) < 2:
+                    logging.error(f'Missing name: {line}')
+                    self.invalid_zone_lines += 1
+                    continue
                 zone_name: str = tokens[1]
                 _add_item(self.zone_lines, zone_name, ' '.join(tokens[2:]))
                 in_zone_mode = True
-- 
2.43.0

