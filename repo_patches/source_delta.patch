From b1a9affb6e7aedbee094845166b8216f141f6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 01/10] fix: write_i32() accepts the full int32 range (operator
 precedence)

---
 src/acetimetools/generator/byteutils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/byteutils.py b/src/acetimetools/generator/byteutils.py
index 5c549f5..8d19915 100644
--- a/src/acetimetools/generator/byteutils.py
+++ b/src/acetimetools/generator/byteutils.py
@@ -71,8 +71,8 @@ def write_u32(data: bytearray, x: int) -> None:
 
 
 def write_i32(data: bytearray, x: int) -> None:
-    if x > (1 << 31 - 1):
-        raise ValueError(f"x={x} > {1<<31-1}, cannot write into int32")
+    if x > (1 << 31) - 1:
+        raise ValueError(f"x={x} > {(1<<31)-1}, cannot write into int32")
     if x < -(1 << 31):
         raise ValueError(f"x={x} < {-(1<<31)}, cannot write into int32")
     if x < 0:
-- 
2.43.0


From ea063946f7fb67a95e8f6216c2d631493cfbd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 02/10] fix: invalid or negative AT removes the policy instead
 of raising TypeError

---
 src/acetimetools/transformer/transformer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 09cc099..643ff26 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1141,13 +1141,13 @@ class Transformer:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"invalid AT '{at_time}'" % at_time)
+                        f"invalid AT '{at_time}'")
                     break
                 if at_seconds < 0:
                     valid = False
                     add_comment(
                         removed_policies, policy_name,
-                        f"negative AT '{at_time}'" % at_time)
+                        f"negative AT '{at_time}'")
                     break
 
                 # Check if AT is not on 15-minute boundary
-- 
2.43.0


From 6b194792cb148cf229c404f220821f12f402da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 03/10] fix: extending the last era to infinity also clears its
 UNTIL month, day and time

---
 src/acetimetools/transformer/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 643ff26..fa1e4ae 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -432,6 +432,11 @@ class Transformer:
             last_era = info['eras'][-1]
             if last_era['until_year'] != MAX_UNTIL_YEAR:
                 last_era['until_year'] = MAX_UNTIL_YEAR
+                last_era['until_year_only'] = True
+                last_era['until_month'] = 1
+                last_era['until_day_string'] = '1'
+                last_era['until_time'] = '00:00'
+                last_era['until_time_suffix'] = 'w'
                 last_era['raw_line'] = 'Extended: ' + last_era['raw_line']
                 # Don't bother adding an entry in notable_zones, because there
                 # would already be a note about removing eras "too new".
-- 
2.43.0


From affd1fde6a6577c990964c6827505b5a3ad94e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 04/10] fix: reject "dow<=1" in January, it shifts to the
 previous year too

---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index fa1e4ae..921f5f7 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1337,7 +1337,7 @@ class Transformer:
                 # to change.
                 if on_day_of_week != 0 and on_day_of_month != 0:
                     if (-7 <= on_day_of_month
-                            and on_day_of_month < -1
+                            and on_day_of_month <= -1
                             and rule['in_month'] == 1):
                         valid = False
                         add_comment(
-- 
2.43.0


From 9961916bdf5e1a3cd7b339e98b4ff2fd30e15636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 05/10] fix: do not turn a single DST rule into a standard time
 anchor

---
 src/acetimetools/transformer/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 921f5f7..386535d 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1373,7 +1373,7 @@ class Transformer:
         """
         for name, policy in policies_map.items():
             rules = policy['rules']
-            if len(rules) == 1:
+            if len(rules) == 1 and rules[0]['delta_seconds'] == 0:
                 _convert_to_anchor(rules[0])
             else:
                 anchor_rule = _get_anchor_rule(rules)
-- 
2.43.0


From 45a35fc68f92be7bad3df65d73d705bb7fa2bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 06/10] fix: time strings with negative components are invalid

---
 src/acetimetools/transformer/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/acetimetools/transformer/transformer.py b/src/acetimetools/transformer/transformer.py
index 386535d..a7a6549 100644
--- a/src/acetimetools/transformer/transformer.py
+++ b/src/acetimetools/transformer/transformer.py
@@ -1737,11 +1737,11 @@ def time_string_to_seconds(time_string: str) -> int:
 
     # A number of countries use 24:00, and Japan uses 25:00(!).
     # Rule  Japan   1948    1951  -     Sep Sat>=8  25:00   0   	S
-    if hour > 25:
+    if hour < 0 or hour > 25:
         return INVALID_SECONDS
-    if minute > 59:
+    if minute < 0 or minute > 59:
         return INVALID_SECONDS
-    if second > 59:
+    if second < 0 or second > 59:
         return INVALID_SECONDS
     return sign * ((hour * 60 + minute) * 60 + second)
 
-- 
2.43.0


From 35967c42242e9f19e392b55739989dd6d315b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 07/10] fix: reject a rule SAVE that does not fit in
 delta_minutes (int8)

---
 src/acetimetools/transformer/artransformer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acetimetools/transformer/artransformer.py b/src/acetimetools/transformer/artransformer.py
index 75e1976..0584292 100644
--- a/src/acetimetools/transformer/artransformer.py
+++ b/src/acetimetools/transformer/artransformer.py
@@ -225,7 +225,12 @@ class ArduinoTransformer:
                         raise Exception(
                             f'delta_seconds={delta_seconds} is '
                             'not a multiple of 0:01 minutes')
-                    rule['delta_minutes'] = delta_seconds // 60
+                    delta_minutes = delta_seconds // 60
+                    if delta_minutes < -128 or delta_minutes > 127:
+                        raise Exception(
+                            f'delta_minutes={delta_minutes} '
+                            'does not fit in 1 byte')
+                    rule['delta_minutes'] = delta_minutes
 
     def _process_eras_stdoff_delta(self, zones_map: ZonesMap) -> None:
         """Convert the STDOFF and RULES/DSTOFF fields of ZoneEraRaw into values
-- 
2.43.0


From 2b649f5f327214e4c02e07f0b91fd5b196e2de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:04 +0000
Subject: [PATCH 08/10] fix: honor the --granularity flag

---
 src/acetimetools/tzcompiler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/acetimetools/tzcompiler.py b/src/acetimetools/tzcompiler.py
index 2fedb3c..20bb61d 100755
--- a/src/acetimetools/tzcompiler.py
+++ b/src/acetimetools/tzcompiler.py
@@ -467,6 +467,10 @@ def main() -> None:
     else:
         raise Exception(f'Unknown scope {args.scope}')
 
+    if args.granularity:
+        args.until_at_granularity = args.granularity
+        args.offset_granularity = args.granularity
+        args.delta_granularity = args.granularity
     if args.until_at_granularity:
         until_at_granularity = args.until_at_granularity
     if args.offset_granularity:
-- 
2.43.0


From cbdb1e2f4ce3bf9442e65d4f5c41bc7bac388781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 09/10] fix: C generator reads fields that the basic and
 extended scopes provide

---
 src/acetimetools/generator/cgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acetimetools/generator/cgenerator.py b/src/acetimetools/generator/cgenerator.py
index d8034e5..456d5a4 100644
--- a/src/acetimetools/generator/cgenerator.py
+++ b/src/acetimetools/generator/cgenerator.py
@@ -302,7 +302,7 @@ extern "C" {{
                 at_time_modifier_comment = \
                     f'{label} + minute={remaining_minutes}'
                 delta_code = rule['delta_code_encoded']
-                delta_minutes = rule['delta_minutes']
+                delta_minutes = rule['delta_seconds_truncated'] // 60
                 delta_code_comment = f"(delta_minutes={delta_minutes})/15 + 4"
 
             if self.generate_tiny_years:
@@ -657,7 +657,7 @@ const AtcZoneInfo k{self.db_namespace}Zone{zone_normalized_name} {progmem} = {{
             offset_code = era['offset_code']
             delta_code = era['delta_code_encoded']
             offset_minute = era['offset_minute']
-            delta_minutes = era['delta_minutes']
+            delta_minutes = era['era_delta_seconds_truncated'] // 60
             delta_code_comment = (
                 f"((offset_minute={offset_minute}) << 4) + "
                 f"((delta_minutes={delta_minutes})/15 + 4)"
-- 
2.43.0


From ac8b25e72c41412a008e074e77e59c5fdcc141bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:05 +0000
Subject: [PATCH 10/10] fix: count a bare Rule, Zone or Link line as invalid
 instead of aborting the parse

A line that is only the keyword (or a Link with one name) made
_parse_zone_file() raise IndexError. Malformed lines are counted as invalid
everywhere else.
---
 src/acetimetools/extractor/extractor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/acetimetools/extractor/extractor.py b/src/acetimetools/extractor/extractor.py
index b3ff2c7..95218bf 100644
--- a/src/acetimetools/extractor/extractor.py
+++ b/src/acetimetools/extractor/extractor.py
@@ -161,16 +161,28 @@ class Extractor:
             tag: str = line[:4]
             if tag == 'Rule':
                 tokens: List[str] = line.split()
+                if len(tokens) < 2:
+                    self.invalid_rule_lines += 1
+                    in_zone_mode = False
+                    continue
                 policy_name: str = tokens[1]
                 _add_item(self.rule_lines, policy_name, line)
                 in_zone_mode = False
             elif tag == 'Link':
                 tokens = line.split()
+                if len(tokens) < 3:
+                    self.invalid_link_lines += 1
+                    in_zone_mode = False
+                    continue
                 link_name: str = tokens[2]
                 _add_item(self.link_lines, link_name, tokens[1])
                 in_zone_mode = False
             elif tag == 'Zone':
                 tokens = line.split()
+                if len(tokens) < 2:
+                    self.invalid_zone_lines += 1
+                    in_zone_mode = False
+                    continue
                 zone_name: str = tokens[1]
                 _add_item(self.zone_lines, zone_name, ' '.join(tokens[2:]))
                 in_zone_mode = True
-- 
2.43.0

