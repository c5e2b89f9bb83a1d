From 8deaede9ce8f86741e382a137cb3c48ba2d525a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 001/173] fix: diff report creation reads through a failed
 allocation

---
 lib/compare.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index be1d66d..16575eb 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -52,10 +52,11 @@ dx_diff_report_create (void)
 
     return report;
 error:
-    if (report->dr_diff_string)
-        free (report->dr_diff_string);
     if (report)
+    {
+        free (report->dr_diff_string);
         free (report);
+    }
 
     return NULL;
 }
-- 
2.43.0


From 97b9da70c860b683aff22cd9db1badfacfba0a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 002/173] fix: compare only looked at the first restriction of
 each queue

---
 lib/compare.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/compare.c b/lib/compare.c
index 16575eb..a910315 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -350,7 +350,8 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
         return DISIR_STATUS_OK;
     }
 
-    return DISIR_STATUS_OK;
+    // recurse to next entry
+    return compare_restriction_queue (lhs->next, rhs->next, report);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From 2cc51b53a3bfc5f5784b12632189d7f9dc5afc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 003/173] fix: compare missed a restriction string present on
 one side only

---
 lib/compare.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/compare.c b/lib/compare.c
index a910315..b2954bd 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -342,6 +342,7 @@ compare_restriction_queue (struct disir_restriction *lhs, struct disir_restricti
     if (lhs->re_value_numeric != rhs->re_value_numeric
         || lhs->re_value_min != rhs->re_value_min
         || lhs->re_value_max != rhs->re_value_max
+        || ((lhs->re_value_string == NULL) != (rhs->re_value_string == NULL))
         || (lhs->re_value_string != NULL
             && rhs->re_value_string != NULL
             && strcmp (lhs->re_value_string, rhs->re_value_string) != 0))
-- 
2.43.0


From 52a6ad7a42889bb4381ee1c86c4f7d41f173885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 004/173] fix: compare dropped a failure met while comparing
 the elements of lhs

---
 lib/compare.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/compare.c b/lib/compare.c
index b2954bd..d165293 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -558,6 +558,11 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         }
     } while (1);
 
+    if (status != DISIR_STATUS_OK)
+    {
+        goto out;
+    }
+
     // Map now contains all entries that exists in lhs.
     // We need to iterate rhs to check if there resides any entries there
     // that is not part of map, e.g., not part of lhs.
-- 
2.43.0


From 396cc5055b2660232e3d31cdae05c4b443085d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 005/173] fix: compare leaked its collections, element and map
 when it failed

---
 lib/compare.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index d165293..c8ea9c0 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -610,6 +610,8 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dx_diff_report_add (report, "rhs contains entry '%s' not present in lhs.", name);
     } while (1);
 
+    // FALL-THROUGH
+out:
     // Cleanup
     if (map)
     {
@@ -629,8 +631,6 @@ compare_all_elements (struct disir_context *lhs, struct disir_context *rhs,
         dc_putcontext (&element);
     }
 
-    // FALL-THROUGH
-out:
     return status;
 }
 
-- 
2.43.0


From 5a755d79219b6ce18e57b2e67ac0e0cfd8473dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:49 +0000
Subject: [PATCH 006/173] fix: dc_compare logged pointers it did not pass

---
 lib/compare.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/compare.c b/lib/compare.c
index c8ea9c0..e9f5c70 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -808,7 +808,7 @@ dc_compare (struct disir_context *lhs, struct disir_context *rhs,
 
     if (lhs == NULL || rhs == NULL)
     {
-        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)");
+        log_debug (0, "invoked with NULL pointer(s). (lhs %p, rhs %p)", lhs, rhs);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 32ae65fdf3ddc0c7dc3b6a9815dadd60977feff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 007/173] fix: stringifying a long string wrote its terminator
 outside the buffer

---
 lib/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.c b/lib/util.c
index 7a98834..dda175f 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -190,7 +190,7 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
         }
 
         memcpy (output, value->dv_string, copy_size);
-        output[size] = '\0';
+        output[copy_size] = '\0';
         break;
     }
     case DISIR_VALUE_TYPE_INTEGER:
-- 
2.43.0


From 64b817d21bfeeda839d4070a648aa89d783a3f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 008/173] fix: stringifying a value of unknown type reported an
 uninitialised size

---
 lib/util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/util.c b/lib/util.c
index dda175f..04192c0 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -171,6 +171,7 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
     enum disir_status status;
     int32_t size;
 
+    size = 0;
     status = DISIR_STATUS_OK;
     switch (value->dv_type)
     {
-- 
2.43.0


From 21591065d959f08dab0f4d1c6475ce79422968dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 009/173] fix: integers and floats that differ could compare
 equal

---
 lib/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 04192c0..4984b4c 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -243,9 +243,9 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
     case DISIR_VALUE_TYPE_STRING:
         return memcmp (v1->dv_string, v2->dv_string, v1->dv_size);
     case DISIR_VALUE_TYPE_INTEGER:
-        return (v1->dv_integer - v2->dv_integer);
+        return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (int)(v1->dv_float - v2->dv_float);
+        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From 57fef5297e5123b13bb4498db91bcac3dbd2cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 010/173] fix: version comparison wrapped around for far apart
 versions

---
 lib/util.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 4984b4c..ea7177c 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -89,11 +89,9 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 {
     int res;
 
-    res = 0;
-
-    res = s1->sv_major - s2->sv_major;
+    res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
-        res = s1->sv_minor - s2->sv_minor;
+        res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
 
     log_debug (8, "s1 (%u.%u) vs s2 (%u.%u) res (%d)",
                     s1->sv_major, s1->sv_minor,
-- 
2.43.0


From 85822844f9c43a529b184b11fbf2e82fbac109a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 011/173] fix: versions outside the representable range were
 accepted and wrapped

---
 lib/util.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index ea7177c..492ce77 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -145,6 +145,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "missing period seperator after major");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT_MAX)
+    {
+        log_debug (6, "major out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_major = parsed_integer;
 
     // Get minor version
@@ -156,6 +161,11 @@ dc_version_convert (const char *input, struct disir_version *version)
         log_debug (6, "no int parsed");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (parsed_integer < 0 || parsed_integer > UINT_MAX)
+    {
+        log_debug (6, "minor out of range");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     version->sv_minor = parsed_integer;
 
     return DISIR_STATUS_OK;
-- 
2.43.0


From c73cb5c749ab2067110c294b11fb1a16fa91440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 012/173] fix: disir_error_copy overran a buffer smaller than
 the error message

---
 lib/error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/error.c b/lib/error.c
index 62e59e0..f5a7177 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -85,7 +85,7 @@ disir_error_copy (struct disir_instance *instance,
     }
     if (buffer_size <= size)
     {
-        size -= 4;
+        size = buffer_size - 4;
         status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
-- 
2.43.0


From dbcacaeb3511ae563a059a22a59462b663fdadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 013/173] fix: disir_error and disir_error_clear read through a
 NULL instance

---
 lib/error.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/error.c b/lib/error.c
index f5a7177..fa36b66 100644
--- a/lib/error.c
+++ b/lib/error.c
@@ -47,6 +47,9 @@ disir_error_set (struct disir_instance *instance, const char *message, ...)
 void
 disir_error_clear (struct disir_instance *instance)
 {
+    if (instance == NULL)
+        return;
+
     if (instance->disir_error_message_size != 0)
     {
         instance->disir_error_message_size = 0;
@@ -104,6 +107,9 @@ disir_error_copy (struct disir_instance *instance,
 const char *
 disir_error (struct disir_instance *instance)
 {
+    if (instance == NULL)
+        return NULL;
+
     return instance->disir_error_message;
 }
 
-- 
2.43.0


From cb6e85f7c0f28394fdb01992e1356939c3efe303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 014/173] fix: dc_set_value read through a NULL value

---
 lib/context_value.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/context_value.c b/lib/context_value.c
index f1d0cfa..7504d9b 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -247,6 +247,13 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
         goto error;
     }
 
+    if (value == NULL)
+    {
+        log_debug (0, "invoked with value NULL pointer");
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto error;
+    }
+
     switch (dc_value_type (context))
     {
     case DISIR_VALUE_TYPE_STRING:
-- 
2.43.0


From 8a37ed257544a649deca22b970d8bd350b5788a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 015/173] fix: dc_set_value terminated the process for an enum
 keyval

---
 lib/context_value.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 7504d9b..7a17b8c 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -322,8 +322,7 @@ dc_set_value (struct disir_context *context, const char *value, int32_t value_si
     }
     case DISIR_VALUE_TYPE_ENUM:
     {
-        // TODO: Implement dc_set_value enum
-        dx_crash_and_burn ("dc_set_value ENUM NOT HANDLED!");
+        status = dc_set_value_enum (context, value, value_size);
         break;
     }
     case DISIR_VALUE_TYPE_UNKNOWN:
-- 
2.43.0


From a94a63e70ea698ecc157b67c97a2a696e1dbb54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 016/173] fix: restriction check compared an uninitialised
 value for enum keyvals

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b5e6680..a8b813d 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1028,7 +1028,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     struct disir_version *config_version;
     int exclusive_fulfilled = 0;
     int restriction_entries_inactive = 0;
-    double value;
+    double value = 0;
 
     char allowed_values[RESTRICTION_ENTRIES_BUFFER_SIZE];
     int allowed_written;
-- 
2.43.0


From 5d2d6491f969aec6ddd463fea1b0a791db7a0ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 017/173] fix: enum restriction check read through a NULL value

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index a8b813d..f759d29 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1186,7 +1186,7 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
                 allowed_written = RESTRICTION_ENTRIES_BUFFER_SIZE;
             }
 
-            if (strcmp (string_value, entry->re_value_string) == 0)
+            if (string_value && strcmp (string_value, entry->re_value_string) == 0)
             {
                 // QUESTION: Check length aswell ?
                 log_debug (6, "Exclusive_restriction fulfilled (Value (%s) == %s)",
-- 
2.43.0


From 2796b7c4507ec9130f01b1c14898227a71133cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 018/173] fix: dc_restriction_string_to_enum read through a
 NULL string

---
 lib/context_restriction.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index f759d29..f644be3 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -78,6 +78,11 @@ dc_restriction_string_to_enum (const char *string)
 {
     int i;
 
+    if (string == NULL)
+    {
+        return DISIR_RESTRICTION_UNKNOWN;
+    }
+
     for (i = 1; i < DISIR_RESTRICTION_UNKNOWN; i++)
     {
         if (strcmp (string, disir_restriction_strings[i]) == 0)
-- 
2.43.0


From d341593eff8f4fa5476aab28e8a0c03c5ed5b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:58 +0000
Subject: [PATCH 019/173] fix: rejecting an unknown context logged an argument
 that was not passed

---
 lib/context_util.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index caf6a22..b3cc9e1 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -289,7 +289,8 @@ dx_context_sp_full_check_log_error (struct disir_context *context, const char *f
 
     if (dx_context_type_sanify(context->cx_type) == DISIR_CONTEXT_UNKNOWN)
     {
-        dx_log_context (context, "%s() invoked on unknown context( %d )", context->cx_type);
+        dx_log_context (context, "%s() invoked on unknown context( %d )",
+                function_name, context->cx_type);
         return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
     }
 
-- 
2.43.0


From ea147a2e30258384a0102def0dfa48ca7d8ca299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 020/173] fix: dc_add_keyval_* read through a NULL name,
 default or documentation

---
 lib/context_keyval.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fbc7240..fdd58ea 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -157,6 +157,17 @@ add_keyval_generic (struct disir_context *parent, const char *name, const char *
 
     keyval = NULL;
 
+    if (name == NULL || doc == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s). name: %p, doc: %p", name, doc);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+    if ((type == DISIR_VALUE_TYPE_STRING || type == DISIR_VALUE_TYPE_ENUM) && string_input == NULL)
+    {
+        log_debug (0, "invoked with NULL default");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &keyval);
     if (status != DISIR_STATUS_OK)
     {
-- 
2.43.0


From c68bfa69ccdec5e9c38bcd8db0b21f24254e4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 021/173] fix: dc_add_keyval_* dropped the wrong reference when
 finalizing failed

---
 lib/context_keyval.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index fdd58ea..74dc20a 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -261,8 +261,7 @@ add_keyval_generic (struct disir_context *parent, const char *name, const char *
         // Already logged
         if (output)
         {
-            dx_context_decref (&keyval);
-            *output = NULL;
+            dc_putcontext (output);
         }
         goto error;
     }
-- 
2.43.0


From 2c2757f0240b16773b628c18e82f696141d0796f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 022/173] fix: dc_add_restriction_value_* dropped the wrong
 reference when finalizing failed

---
 lib/context_restriction.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index f644be3..258f1f1 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -770,8 +770,7 @@ dc_add_restriction_value_range (struct disir_context *parent, double min, double
     {
         if (output)
         {
-            dx_context_decref (&context_restriction);
-            *output = NULL;
+            dc_putcontext (output);
         }
         goto error;
     }
@@ -848,8 +847,7 @@ dc_add_restriction_value_numeric (struct disir_context *parent, double value, co
     {
         if (output)
         {
-            dx_context_decref (&context_restriction);
-            *output = NULL;
+            dc_putcontext (output);
         }
         goto error;
     }
@@ -926,8 +924,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     {
         if (output)
         {
-            dx_context_decref (&context_restriction);
-            *output = NULL;
+            dc_putcontext (output);
         }
         goto error;
     }
-- 
2.43.0


From 5006f5766e5f2896577278b40ce93a74f0886662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 023/173] fix: dc_add_restriction_value_enum destroyed a
 context it never began

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 258f1f1..816e0fd 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -877,7 +877,7 @@ dc_add_restriction_value_enum (struct disir_context *parent, const char *value,
     if (status != DISIR_STATUS_OK)
     {
         // Already logged ?
-        goto error;
+        return status;
     }
 
     status = dc_set_restriction_type (context_restriction, DISIR_RESTRICTION_EXC_VALUE_ENUM);
-- 
2.43.0


From 6907511a4dd971be000097397748af0e89d83e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 024/173] fix: entry restrictions of the wrong version could be
 picked

---
 lib/context_restriction.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 816e0fd..1a42c08 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1266,8 +1266,8 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_restriction **q;
     int min = -1;
     int max = -1;
-    int min_closes_match = INT_MIN;
-    int max_closes_match = INT_MIN;
+    struct disir_version *min_closes_match = NULL;
+    struct disir_version *max_closes_match = NULL;
     int diff;
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
@@ -1360,8 +1360,6 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN ||
             entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX)
         {
-            // XXX: This is severely flawed - the diff does not indicate
-            // how great of a version difference
             diff = dc_version_compare  (&entry->re_introduced, version);
             // entry is newer than target version
             if (diff > 0)
@@ -1370,14 +1368,18 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
                 continue;
             }
 
-            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN && diff > min_closes_match)
+            if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MIN
+                && (min_closes_match == NULL
+                    || dc_version_compare (&entry->re_introduced, min_closes_match) > 0))
             {
-                min_closes_match = diff;
+                min_closes_match = &entry->re_introduced;
                 min = entry->re_value_min;
             }
-            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX && diff > max_closes_match)
+            else if (entry->re_type == DISIR_RESTRICTION_INC_ENTRY_MAX
+                     && (max_closes_match == NULL
+                         || dc_version_compare (&entry->re_introduced, max_closes_match) > 0))
             {
-                max_closes_match = diff;
+                max_closes_match = &entry->re_introduced;
                 max = entry->re_value_max;
             }
         }
-- 
2.43.0


From 8dae863fbe7c1d36548387bb824d5b756b63e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:19 +0000
Subject: [PATCH 025/173] fix: dc_restriction_entries_minimum and _maximum read
 through NULL arguments

---
 lib/context_restriction.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 1a42c08..f850803 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1272,6 +1272,12 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     struct disir_version *element_introduced = NULL;
     struct disir_version *element_deprecated = NULL;
 
+    status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
+    if (status != DISIR_STATUS_OK)
+        return status;
+    if (output == NULL)
+        return DISIR_STATUS_INVALID_ARGUMENT;
+
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_SECTION, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
         return status;
-- 
2.43.0


From dd3763c95fc162f7baae35afd1d1c489c6ed951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 026/173] fix: restrictions of an element without mold
 equivalent were read through NULL

---
 lib/context_restriction.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index f850803..b336631 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1069,6 +1069,11 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     }
     }
 
+    if (context->cx_keyval->kv_mold_equiv == NULL)
+    {
+        return DISIR_STATUS_MOLD_MISSING;
+    }
+
     queue = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
     config_version = &context->cx_root_context->cx_config->cf_version;
 
@@ -1292,6 +1297,9 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
+
             q = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
             element_introduced = &context->cx_section->se_mold_equiv->cx_section->se_introduced;
             element_deprecated = &context->cx_section->se_mold_equiv->cx_section->se_deprecated;
@@ -1309,6 +1317,9 @@ dx_restriction_entries_value (struct disir_context *context, enum disir_restrict
         struct disir_keyval *keyval_mold;
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
+
             q = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
             keyval_mold = context->cx_keyval->kv_mold_equiv->cx_keyval;
         }
@@ -1490,6 +1501,9 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_section->se_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
+
             rcol = &context->cx_section->se_mold_equiv->cx_section->se_restrictions_queue;
         }
         else
@@ -1502,6 +1516,9 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
     {
         if (dc_context_type (context->cx_root_context) == DISIR_CONTEXT_CONFIG)
         {
+            if (context->cx_keyval->kv_mold_equiv == NULL)
+                return DISIR_STATUS_MOLD_MISSING;
+
             rcol = &context->cx_keyval->kv_mold_equiv->cx_keyval->kv_restrictions_queue;
         }
         else
-- 
2.43.0


From 3039f5ed5df12701da679677a0afed2320ed014b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 027/173] fix: naming an out of range restriction type read
 past the name table

---
 lib/context_restriction.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b336631..b3c372e 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -37,7 +37,7 @@ const char *disir_restriction_strings[] = {
 const char *
 dc_restriction_enum_string (enum disir_restriction_type restriction)
 {
-    return disir_restriction_strings[restriction];
+    return disir_restriction_strings[dx_restriction_type_sanify (restriction)];
 }
 
 //! PUBLIC API
-- 
2.43.0


From cf4c4b73843b5d539bfbe1ee7055de44d6859e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 028/173] fix: dc_set_value_type terminated the process for
 contexts without a value

---
 lib/context_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index b3cc9e1..99c6c90 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -492,8 +492,8 @@ dc_set_value_type (struct disir_context *context, enum disir_value_type type)
     }
     default:
     {
-        dx_crash_and_burn ("%s: %s not handled", __func__, dc_context_type_string (context));
-        return DISIR_STATUS_INTERNAL_ERROR; // not reached
+        dx_log_context (context, "cannot set value type to %s", dc_context_type_string (context));
+        return DISIR_STATUS_WRONG_CONTEXT;
     }
     }
 
-- 
2.43.0


From 009cbe213c43962e4adc70d31de7ec945a752702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 029/173] fix: dc_finalize_keep_reference kept an extra
 reference when it failed

---
 lib/context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index 4c0a95d..0f95ac8 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -435,7 +435,7 @@ dc_finalize_keep_reference (struct disir_context *context)
     }
 
     status = dc_finalize (&tmp);
-    if (status == DISIR_STATUS_INVALID_CONTEXT && tmp)
+    if (status != DISIR_STATUS_OK && tmp)
     {
         // decref - we have an additional reference acquired above
         dx_context_decref (&context);
-- 
2.43.0


From 005959f84ac1b86b0b505ee6a59620197af68b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 030/173] fix: renaming an element leaked the reference to its
 previous mold equivalent

---
 lib/context.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 0f95ac8..9d6537f 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -927,10 +927,18 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
 
     if (dc_context_type (context) == DISIR_CONTEXT_SECTION)
     {
+        if (context->cx_section->se_mold_equiv)
+        {
+            dx_context_decref (&context->cx_section->se_mold_equiv);
+        }
         context->cx_section->se_mold_equiv = queried;
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_KEYVAL)
     {
+        if (context->cx_keyval->kv_mold_equiv)
+        {
+            dx_context_decref (&context->cx_keyval->kv_mold_equiv);
+        }
         context->cx_keyval->kv_mold_equiv = queried;
         context->cx_keyval->kv_value.dv_type = queried->cx_keyval->kv_value.dv_type;
     }
-- 
2.43.0


From d9d03b5a0d5cb0c9d01e0595cbe6ed1be1ae1a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:20 +0000
Subject: [PATCH 031/173] fix: the version buffer of documentation conflicts
 was smaller than stated

---
 lib/context.c               | 2 +-
 lib/context_documentation.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 9d6537f..48318aa 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -886,7 +886,7 @@ dx_set_mold_equiv (struct disir_context *context, const char *value, int32_t val
     if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_SECTION &&
         context->cx_parent_context->cx_section->se_mold_equiv == NULL)
     {
-        const char *name;
+        const char *name = NULL;
         dx_value_get_string (&context->cx_parent_context->cx_section->se_name, &name, NULL);
         dx_context_error_set (context, "Parent SECTION '%s' missing mold equivalent.", name);
         return DISIR_STATUS_NOT_EXIST;
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 8a26350..9f3137c 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -28,7 +28,7 @@ dx_documentation_add (struct disir_context *parent, struct disir_documentation *
     struct disir_documentation **doc_queue;
     enum disir_status status;
     int exists;
-    char buffer[32];
+    char buffer[40];
 
     TRACE_ENTER ("parent (%p), doc (%p)", parent, doc);
 
-- 
2.43.0


From 4bada2a06e9c37989f4693039fc9d08b9afe475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 032/173] fix: dc_get_default read through NULL for keyvals
 without mold equivalent or default

---
 lib/context_default.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index d7ae0a0..bf6b2c2 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -543,7 +543,16 @@ dc_get_default (struct disir_context *context, struct disir_version *version,
             return DISIR_STATUS_INTERNAL_ERROR;
         }
 
+        if (keyval == NULL)
+        {
+            return DISIR_STATUS_MOLD_MISSING;
+        }
+
         dx_default_get_active (keyval, version, &def);
+        if (def == NULL)
+        {
+            return DISIR_STATUS_DEFAULT_MISSING;
+        }
     }
     else if (dc_context_type (context) == DISIR_CONTEXT_DEFAULT)
     {
-- 
2.43.0


From 9092f58467a695180d003599bc0ba77142207f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 033/173] fix: dc_get_default_contexts wrote through a NULL
 collection

---
 lib/context_default.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/context_default.c b/lib/context_default.c
index bf6b2c2..9dbe8e9 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -587,6 +587,11 @@ dc_get_default_contexts (struct disir_context *context, struct disir_collection
     {
         return status;
     }
+    if (collection == NULL)
+    {
+        log_debug (0, "invoked with collection NULL pointer.");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
     if (dc_context_type (context->cx_root_context) != DISIR_CONTEXT_MOLD)
     {
         dx_log_context (context, "cannot get defaults for KEYVAL not associated with a mold.");
-- 
2.43.0


From 5590438fa34c326ca61fd6947a19b01d6a77b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 034/173] fix: destroyed defaults stayed in the queue of their
 keyval

---
 lib/context_default.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 9dbe8e9..0f922a8 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -155,7 +155,7 @@ dx_default_destroy (struct disir_default **def)
     if (context && context->cx_parent_context)
     {
         // Don't access parent context type if context is destoyed
-        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED != 0)
+        if (context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
         {
             if (dc_context_type (context->cx_parent_context) == DISIR_CONTEXT_KEYVAL)
             {
-- 
2.43.0


From 8ed98c1b053324d15f6479b71c3374a019860729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 035/173] fix: documentation of an unsupported parent was added
 through a NULL queue

---
 lib/context_documentation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 9f3137c..9f80a89 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -80,7 +80,7 @@ dx_documentation_add (struct disir_context *parent, struct disir_documentation *
     {
         // LOGWARN
         log_debug_context (0, parent, "parent_doc is NULL - we cannot add doc entry");
-        status = DISIR_STATUS_WRONG_CONTEXT;
+        return DISIR_STATUS_WRONG_CONTEXT;
     }
 
     exists = MQ_SIZE_COND (*doc_queue,
-- 
2.43.0


From 40deb3d3f095f5957257df8e5690196f13b361ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 036/173] fix: destroying documentation accessed its already
 destroyed parent

---
 lib/context_documentation.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 9f80a89..5c0739c 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -396,7 +396,9 @@ dx_documentation_destroy (struct disir_documentation **documentation)
         free(tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
-    if (context && context->cx_parent_context)
+    // Don't access the parent queue if the parent is already destroyed
+    if (context && context->cx_parent_context &&
+        context->cx_parent_context->CONTEXT_STATE_DESTROYED == 0)
     {
         context = context->cx_parent_context;
 
-- 
2.43.0


From 4ae98585691c02c5281954af5896a5c70e811d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:34 +0000
Subject: [PATCH 037/173] fix: dc_version_compare read through NULL versions

---
 lib/util.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 492ce77..96710d3 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -89,6 +89,12 @@ dc_version_compare (struct disir_version *s1, struct disir_version *s2)
 {
     int res;
 
+    // A missing version orders before any version
+    if (s1 == NULL || s2 == NULL)
+    {
+        return (s1 != NULL) - (s2 != NULL);
+    }
+
     res = (s1->sv_major > s2->sv_major) - (s1->sv_major < s2->sv_major);
     if (res == 0)
         res = (s1->sv_minor > s2->sv_minor) - (s1->sv_minor < s2->sv_minor);
-- 
2.43.0


From 433a0b5e655b1bcdebc52bf441a7fa7536b3e96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 038/173] fix: unsetting an empty string value leaked its
 buffer

---
 lib/util.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 96710d3..8b21f71 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -449,10 +449,7 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     }
     if (input == NULL)
     {
-        if (value->dv_size > 0)
-        {
-            free (value->dv_string);
-        }
+        free (value->dv_string);
         value->dv_size = 0;
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
-- 
2.43.0


From 8ce6f80061b2539eca8184fdd67a331942cfd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 039/173] fix: storing a string of negative size copied out of
 bounds

---
 lib/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index 8b21f71..9e7ed21 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -454,6 +454,11 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
         value->dv_string = NULL;
         return DISIR_STATUS_OK;
     }
+    if (size < 0)
+    {
+        log_debug (0, "invoked with negative size: %d", size);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
     if (value->dv_string == NULL || value->dv_size - 1 < size)
     {
-- 
2.43.0


From d6a5e170a96942555400e20060819784bc6d61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 040/173] fix: resolving the name of a context nested deeper
 than 20 levels overran its buffers

---
 lib/context.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 48318aa..fbe928b 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -657,8 +657,9 @@ dc_resolve_root_name (struct disir_context *context, char **output)
 {
     enum disir_status status;
     int total_size = 0;
-    const char *reverse_name_index[20];
-    int reverse_name_index_index[20];
+    int depth = 0;
+    const char **reverse_name_index = NULL;
+    int *reverse_name_index_index = NULL;
     int current_name_index = -1;
     struct disir_context *current_context = NULL;
     const char *name = NULL;
@@ -684,6 +685,20 @@ dc_resolve_root_name (struct disir_context *context, char **output)
         goto out;
     }
 
+    // One entry per ancestor. The context itself has a non-root parent.
+    for (current_context = context; current_context != NULL;
+         current_context = current_context->cx_parent_context)
+    {
+        depth += 1;
+    }
+    reverse_name_index = calloc (depth, sizeof (*reverse_name_index));
+    reverse_name_index_index = calloc (depth, sizeof (*reverse_name_index_index));
+    if (reverse_name_index == NULL || reverse_name_index_index == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     current_context = context;
     while (current_context != NULL)
     {
@@ -754,7 +769,10 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     // Allocate buffer for name
     buffer = malloc (total_size);
     if (buffer == NULL)
-        return DISIR_STATUS_NO_MEMORY;
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
 
     int i;
     int written = 0;
@@ -783,6 +801,8 @@ dc_resolve_root_name (struct disir_context *context, char **output)
     *output = buffer;
     status = DISIR_STATUS_OK;
 out:
+    free (reverse_name_index);
+    free (reverse_name_index_index);
     TRACE_EXIT ("%s", disir_status_string (status));
     return status;
 }
-- 
2.43.0


From cbdba1a8e7e48b9f1bb95bf3c2004c8bec1d37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 041/173] fix: a failed collection allocation was not detected
 when fetching elements

---
 lib/element_storage.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/element_storage.c b/lib/element_storage.c
index 1d342d3..af5958f 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -267,7 +267,7 @@ dx_element_storage_get (struct disir_element_storage *storage,
         return DISIR_STATUS_NOT_EXIST;
     }
     col = dc_collection_create ();
-    if (collection == NULL)
+    if (col == NULL)
     {
         status = DISIR_STATUS_NO_MEMORY;
         goto error;
-- 
2.43.0


From b236cb2fff31fb6d61583e4c9899f31e0426ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 042/173] fix: storing an element copied its key to a failed
 allocation

---
 lib/element_storage.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/element_storage.c b/lib/element_storage.c
index af5958f..2d34de8 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -189,6 +189,10 @@ dx_element_storage_add (struct disir_element_storage *storage,
         // key in, so we can safely access the key memory even if the appointed context
         // is destroyed whilst in our storage.
         key = malloc (strlen (name) + 1); // XXX: Is there a more safe way to allocate this memory?
+        if (key == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
         memcpy(key, name, strlen (name) + 1);
     }
 
-- 
2.43.0


From 171554a7c1b4406085a5fdedbf3c97ecb779fbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:35 +0000
Subject: [PATCH 043/173] fix: empty string names and values leaked when their
 context was destroyed

---
 lib/context_default.c       | 2 +-
 lib/context_documentation.c | 3 +--
 lib/context_keyval.c        | 8 ++------
 lib/context_section.c       | 5 +----
 4 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/lib/context_default.c b/lib/context_default.c
index 0f922a8..4c53b5e 100644
--- a/lib/context_default.c
+++ b/lib/context_default.c
@@ -146,7 +146,7 @@ dx_default_destroy (struct disir_default **def)
     tmp = *def;
 
     if (tmp->de_value.dv_type == DISIR_VALUE_TYPE_STRING ||
-        tmp->de_value.dv_size > 0)
+        tmp->de_value.dv_type == DISIR_VALUE_TYPE_ENUM)
     {
         free (tmp->de_value.dv_string);
     }
diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 5c0739c..98a53cf 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -392,8 +392,7 @@ dx_documentation_destroy (struct disir_documentation **documentation)
     tmp = *documentation;
     queue = NULL;
 
-    if (tmp->dd_value.dv_size > 0)
-        free(tmp->dd_value.dv_string);
+    free(tmp->dd_value.dv_string);
 
     context = (*documentation)->dd_context;
     // Don't access the parent queue if the parent is already destroyed
diff --git a/lib/context_keyval.c b/lib/context_keyval.c
index 74dc20a..dcf69a7 100644
--- a/lib/context_keyval.c
+++ b/lib/context_keyval.c
@@ -396,15 +396,11 @@ dx_keyval_destroy (struct disir_keyval **keyval)
     }
 
     // Free allocated name
-    if ((*keyval)->kv_name.dv_size != 0)
-    {
-        free ((*keyval)->kv_name.dv_string);
-    }
+    free ((*keyval)->kv_name.dv_string);
 
     // Free allocated value, if string or enum
-    if (((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
+    if ((*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_STRING
         || (*keyval)->kv_value.dv_type == DISIR_VALUE_TYPE_ENUM)
-           && (*keyval)->kv_value.dv_size != 0)
     {
         free ((*keyval)->kv_value.dv_string);
     }
diff --git a/lib/context_section.c b/lib/context_section.c
index a0de3b5..80b686c 100644
--- a/lib/context_section.c
+++ b/lib/context_section.c
@@ -189,10 +189,7 @@ dx_section_destroy (struct disir_section **section)
     }
 
     // Free allocated name
-    if ((*section)->se_name.dv_size != 0)
-    {
-        free ((*section)->se_name.dv_string);
-    }
+    free ((*section)->se_name.dv_string);
 
     // Decref mold_equiv if set
     if ((*section)->se_mold_equiv)
-- 
2.43.0


From 070608944018c053ed410bd9d4e1067beda8ea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 044/173] fix: generating a config read through the default of
 a keyval without defaults

---
 lib/generate.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/generate.c b/lib/generate.c
index b43d4a2..8756f66 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -38,6 +38,10 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
     int min_entries;
     int i;
 
+    collection = NULL;
+    equiv = NULL;
+    context = NULL;
+
     // Get each element from the element storage of mold_parent
     status = dc_get_elements (mold_parent, &collection);
     if (status != DISIR_STATUS_OK)
@@ -91,6 +95,12 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
                 //
 
                 dx_default_get_active (equiv, version, &def);
+                if (def == NULL)
+                {
+                    log_debug (2, "keyval %s has no default", name);
+                    status = DISIR_STATUS_DEFAULT_MISSING;
+                    goto error;
+                }
 
                 status = dx_value_copy (&context->cx_keyval->kv_value, &def->de_value);
                 if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 56f4f18a9cd63c4a3e21a72579f55cdf5fb02ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:08 +0000
Subject: [PATCH 045/173] fix: a config whose generation failed was handed out
 as if it was complete

---
 lib/generate.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index 8756f66..de25387 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -112,8 +112,13 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             else if (dc_context_type (equiv) == DISIR_CONTEXT_SECTION)
             {
                 // Send down parent and context -
-                generate_config_from_mold_recursive_step (equiv, context, version,
-                                                          generate_zero_min);
+                status = generate_config_from_mold_recursive_step (equiv, context, version,
+                                                                   generate_zero_min);
+                if (status != DISIR_STATUS_OK)
+                {
+                    // Already logged
+                    goto error;
+                }
             }
 
             status = dc_finalize (&context);
@@ -190,7 +195,13 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         return status;
     }
 
-    generate_config_from_mold_recursive_step (mold->mo_context, config_context, &version, 0);
+    status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
+                                                       &version, 0);
+    if (status != DISIR_STATUS_OK)
+    {
+        // Already logged
+        goto error;
+    }
 
     status = dc_config_finalize (&config_context, config);
     if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 85b11eb7c56658d47a7a5daf1d4a4c8bfbf8a24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 046/173] fix: generating a config leaked its contexts when it
 failed

---
 lib/generate.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index de25387..4b4a13e 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -133,6 +133,22 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
 
     status = DISIR_STATUS_OK;
 error:
+    if (context)
+    {
+        if (status == DISIR_STATUS_INVALID_CONTEXT)
+        {
+            // Finalized, but invalid - it belongs to its parent
+            dc_putcontext (&context);
+        }
+        else
+        {
+            dc_destroy (&context);
+        }
+    }
+    if (equiv)
+    {
+        dc_putcontext (&equiv);
+    }
     if (collection)
     {
         dc_collection_finished (&collection);
@@ -176,23 +192,18 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         if (status != DISIR_STATUS_OK)
         {
             // Already logged
-            return status;
+            goto error;
         }
     }
     else
     {
         dc_version_set (&version, config_version);
-        if (status != DISIR_STATUS_OK)
-        {
-            // Already logged ?
-            return status;
-        }
     }
     status = dc_set_version (config_context, &version);
     if (status != DISIR_STATUS_OK)
     {
         // Already logged
-        return status;
+        goto error;
     }
 
     status = generate_config_from_mold_recursive_step (mold->mo_context, config_context,
@@ -206,6 +217,10 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
     status = dc_config_finalize (&config_context, config);
     if (status != DISIR_STATUS_OK)
     {
+        if (status == DISIR_STATUS_INVALID_CONTEXT)
+        {
+            disir_config_finished (config);
+        }
         // Already logged
         goto error;
     }
-- 
2.43.0


From 2d97b111fe44c4ff55be7bb516fad4d668f92a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 047/173] fix: disir_generate_config_from_mold wrote through a
 NULL config

---
 lib/generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/generate.c b/lib/generate.c
index 4b4a13e..75cc6ae 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -175,6 +175,11 @@ disir_generate_config_from_mold (struct disir_mold *mold, struct disir_version *
         log_debug (0, "invoked with mold NULL pointer");
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
+    if (config == NULL)
+    {
+        log_debug (0, "invoked with config NULL pointer");
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
 
     // TODO: Validate integrity of mold first?
 
-- 
2.43.0


From 6eb224b991fc2d33be59d7b8d391136d008043dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 048/173] fix: dc_generate_from_config_root generated from a
 missing mold equivalent

---
 lib/generate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/generate.c b/lib/generate.c
index 75cc6ae..c45708e 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -286,6 +286,10 @@ dc_generate_from_config_root (struct disir_context *context)
     {
         mold_equiv = context->cx_section->se_mold_equiv;
     }
+    if (mold_equiv == NULL)
+    {
+        return DISIR_STATUS_MOLD_MISSING;
+    }
     version = &context->cx_root_context->cx_config->cf_version;
 
     // We do not generate children whose minimum entry count is zero
-- 
2.43.0


From 6bde60e7fcc801b1c718e1a56ffdb150956c0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 049/173] fix: updating a config skipped every element that
 follows its first section

---
 lib/update.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/update.c b/lib/update.c
index 7cf2c1b..43a350d 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -68,6 +68,10 @@ retrieve_all_keyvals_recursively (struct disir_context *current, struct disir_co
     if (context)
         dc_putcontext (&context);
 
+    // Every element is visited
+    if (status == DISIR_STATUS_EXHAUSTED)
+        status = DISIR_STATUS_OK;
+
     return status;
 }
 
@@ -134,7 +138,7 @@ disir_update_config (struct disir_config *config,
     up->up_collection = dc_collection_create();
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
-    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXHAUSTED)
+    if (status != DISIR_STATUS_OK)
         goto error;
 
     up->up_config_old = config;
-- 
2.43.0


From 0aac97f9897812621552290d4a7d8ceb15bc0c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 050/173] fix: resolving an update conflict of a keyval inside
 a section looked at the root

---
 lib/update.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 43a350d..134b3c5 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -288,9 +288,10 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
 {
     enum disir_status status;
     struct disir_context *context_keyval = NULL;
+    char *name = NULL;
 
     TRACE_ENTER ("");
-    if (update == NULL)
+    if (update == NULL || resolve == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -301,8 +302,12 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
         return DISIR_STATUS_NO_CAN_DO;
     }
 
-    status = dc_query_resolve_context (update->up_config_target->cf_context,
-                                       update->up_keyval->kv_name.dv_string, &context_keyval);
+    status = dc_resolve_root_name (update->up_context_keyval, &name);
+    if (status != DISIR_STATUS_OK)
+        goto out;
+
+    status = dc_query_resolve_context (update->up_config_target->cf_context, "%s",
+                                       &context_keyval, name);
     if (status != DISIR_STATUS_OK)
         goto out;
 
@@ -326,6 +331,7 @@ disir_update_resolve (struct disir_update *update, const char *resolve)
     TRACE_EXIT ("");
     // FALL-THROUGH
 out:
+    free (name);
     if (context_keyval)
         dc_putcontext (&context_keyval);
 
-- 
2.43.0


From 408caf20d03acd1b4863fa8fbff7fc5a93fab18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 051/173] fix: updating a config used failed allocations

---
 lib/update.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 134b3c5..5e0208b 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -136,6 +136,11 @@ disir_update_config (struct disir_config *config,
     up->up_config_target = config_at_target;
 
     up->up_collection = dc_collection_create();
+    if (up->up_collection == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
     status = retrieve_all_keyvals_recursively (config->cf_context, up->up_collection);
     if (status != DISIR_STATUS_OK)
@@ -230,13 +235,23 @@ disir_update_continue (struct disir_update *update)
             // Oh-oh - We have a conflict
             // Target default is higher version than config value. Config value differ
             // from config default. Manual resolution is in order.
+            update->up_config_value = malloc (512); // XXX Handle allocation better
+            update->up_mold_value = malloc (512); // XXX: Handle allocation better
+            if (update->up_config_value == NULL || update->up_mold_value == NULL)
+            {
+                free (update->up_config_value);
+                update->up_config_value = NULL;
+                free (update->up_mold_value);
+                update->up_mold_value = NULL;
+                update->up_context_keyval = NULL;
+                dc_putcontext (&config_keyval);
+                return DISIR_STATUS_NO_MEMORY;
+            }
             update->up_keyval = keyval;
 
-            update->up_config_value = malloc (512); // XXX Handle allocation better
             dx_value_stringify (&keyval->kv_value, 512, update->up_config_value, &size);
             // XXX Handle buffer overflow / insufficient buffer
 
-            update->up_mold_value = malloc (512); // XXX: Handle allocation better
             dx_value_stringify (&target_def->de_value, 512, update->up_mold_value, &size);
             // XXX Handle buffer overflow / insufficient buffer
 
-- 
2.43.0


From 92c5a8e54829cffe4506b225423e0b2d27174eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 052/173] fix: updating a config read through NULL for keyvals
 without mold equivalent or default

---
 lib/update.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/update.c b/lib/update.c
index 5e0208b..35b45f7 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -199,7 +199,15 @@ disir_update_continue (struct disir_update *update)
 
         // Get keyval default of target version - if version is less or equal to current
         // Do nothing
+        if (keyval->kv_mold_equiv == NULL)
+        {
+            continue;
+        }
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_target, &target_def);
+        if (target_def == NULL)
+        {
+            continue;
+        }
         res = dc_version_compare (&target_def->de_introduced,
                                   &update->up_config_old->cf_version);
         if (res <= 0)
@@ -221,6 +229,10 @@ disir_update_continue (struct disir_update *update)
         //  * Conflict if default at config version differ from entry in config
         dx_default_get_active (keyval->kv_mold_equiv, &update->up_config_old->cf_version,
                                &config_def);
+        if (config_def == NULL)
+        {
+            continue;
+        }
         res = dx_value_compare (&keyval->kv_value, &config_def->de_value);
         if (res == 0)
         {
-- 
2.43.0


From 346e62093f0a2fe0d26c6dbf16f5966d4ef8ac86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 053/173] fix: disir_update_finished read through a NULL update

---
 lib/update.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/update.c b/lib/update.c
index 35b45f7..4abfb9c 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -372,6 +372,11 @@ disir_update_finished (struct disir_update **update, struct disir_config **confi
 
     TRACE_ENTER ("");
 
+    if (update == NULL || *update == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     up = *update;
 
     if (config)
-- 
2.43.0


From f7bc22db668c613e5d08fb52e0bbf8f73c398cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:18 +0000
Subject: [PATCH 054/173] fix: a failed conflict resolution was retried forever
 or dropped

---
 lib/update.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/update.c b/lib/update.c
index 4abfb9c..e384765 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -435,12 +435,11 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
             goto error;
 
         status = disir_update_resolve (update, keyval);
-        if (status != DISIR_STATUS_OK &&
-            status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
+        if (status == DISIR_STATUS_RESTRICTION_VIOLATED && discard_violations)
         {
             status = disir_update_resolve (update, mold);
         }
-        else if (status != DISIR_STATUS_OK)
+        if (status != DISIR_STATUS_OK)
         {
             goto error;
         }
@@ -449,7 +448,10 @@ dx_update_config_with_changes (struct disir_config **config, int discard_violati
 
     }
     while (1);
-   
+
+    if (status != DISIR_STATUS_OK)
+        goto error;
+
     c = *config;
 
     disir_update_finished (&update, config);
-- 
2.43.0


From 452d677c42c5528bfff25c52f265e22313236ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 055/173] fix: disir_instance_create used an unset config and
 leaked when it failed

---
 lib/disir.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index 6f40b26..2691198 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -212,6 +212,7 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 
     status = DISIR_STATUS_OK;
     libmold = NULL;
+    libconf = NULL;
 
     TRACE_ENTER ("config_filepath: %s, config: %p, instance: %p",
                  config_filepath, config, instance);
@@ -257,11 +258,16 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
         status = disir_generate_config_from_mold (libmold, NULL, &libconf);
 
         // Remove the plugin element from default generated config
-        struct disir_context *plugin;
-        status = dc_find_element (dc_config_getcontext (libconf), "plugin", 0, &plugin);
         if (status == DISIR_STATUS_OK)
         {
-            dc_destroy (&plugin);
+            struct disir_context *plugin = NULL;
+            struct disir_context *libconf_context = dc_config_getcontext (libconf);
+            status = dc_find_element (libconf_context, "plugin", 0, &plugin);
+            if (status == DISIR_STATUS_OK)
+            {
+                dc_destroy (&plugin);
+            }
+            dc_putcontext (&libconf_context);
         }
     }
     // We do not need the libmold definition anymore
@@ -298,7 +304,9 @@ disir_instance_create (const char *config_filepath, struct disir_config *config,
 error:
     if (dis)
     {
-        free (dis);
+        // Releases the plugins that did load. The user keeps a config provided by them.
+        dis->libdisir_config = (config ? NULL : libconf);
+        disir_instance_destroy (&dis);
     }
     if (libmold)
     {
-- 
2.43.0


From 0275fab536e76b4154fbf3754f331a7958cbceed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 056/173] fix: destroying an instance closed library handles of
 plugins that have none

---
 lib/disir.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 2691198..f8cb3a1 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -339,7 +339,11 @@ disir_instance_destroy (struct disir_instance **instance)
             plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
         }
 
-        dlclose (plugin->pi_dl_handler);
+        // Plugins registered by the user are not loaded from disk
+        if (plugin->pi_dl_handler)
+        {
+            dlclose (plugin->pi_dl_handler);
+        }
 
         if (plugin->pi_filepath)
             free (plugin->pi_filepath);
-- 
2.43.0


From eaf31845aba7335ab1441055ecde7b438cbcfb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 057/173] fix: loading a plugin leaked its base ids when it
 failed

---
 lib/disir.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/disir.c b/lib/disir.c
index f8cb3a1..c249ce6 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -31,6 +31,9 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     struct disir_register_plugin_internal *internal;
     plugin_register dio_reg;
 
+    // Populate the plugin object
+    memset (&plugin, 0, sizeof (struct disir_register_plugin));
+
     // Attempt to load the filepath dynamically
     handle = dlopen (plugin_filepath, RTLD_NOW | RTLD_LOCAL);
     if (handle == NULL)
@@ -52,9 +55,6 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
 
-    // Populate the plugin object
-    memset (&plugin, 0, sizeof (struct disir_register_plugin));
-
     if (config_base_id)
         plugin.dp_config_base_id = strndup (config_base_id, 512);
     if (mold_base_id)
@@ -92,6 +92,8 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
 
     return DISIR_STATUS_OK;
 error:
+    free (plugin.dp_config_base_id);
+    free (plugin.dp_mold_base_id);
     if (handle)
     {
         dlclose (handle);
-- 
2.43.0


From 4f479e61729136f23ed299c34881f032f52fc877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 058/173] fix: a failed plugin registration read through NULL
 and freed the strings of its caller

---
 lib/disir_plugin.c | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 5ea240f..20320a4 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -38,18 +38,27 @@ disir_plugin_register (struct disir_instance *instance, struct disir_register_pl
     internal = calloc (1, sizeof (struct disir_register_plugin_internal));
     if (internal == NULL)
     {
-        status = DISIR_STATUS_NO_MEMORY;
-        goto error;
+        return DISIR_STATUS_NO_MEMORY;
     }
 
     // Copy the plugin input structure verbatim to our internal copy.
     memcpy (&internal->pi_plugin, plugin, sizeof (*plugin));
 
+    // Make actual copies of the strings, since we do not own the strings
+    // in the input plugin
+    internal->pi_plugin.dp_name = NULL;
+    internal->pi_plugin.dp_description = NULL;
+    internal->pi_plugin.dp_config_entry_type = NULL;
+    internal->pi_plugin.dp_mold_entry_type = NULL;
+
     internal->pi_io_id = strdup (io_id);
     internal->pi_group_id = strdup (group_id);
+    if (internal->pi_io_id == NULL || internal->pi_group_id == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
-    // Make actual copies of the strings, since we do not own the strings
-    // in the input plugin
     // NOTE: These macros route control flow to error:
     PLUGIN_STRING_MEMBER_COPY (dp_name);
     PLUGIN_STRING_MEMBER_COPY (dp_description);
@@ -84,10 +93,9 @@ error:
     {
         free (internal->pi_plugin.dp_mold_entry_type);
     }
-    if (internal)
-    {
-        free (internal);
-    }
+    free (internal->pi_io_id);
+    free (internal->pi_group_id);
+    free (internal);
 
     return status;
 }
-- 
2.43.0


From 230bb8a053720d068b7c31cad8eb7f236fc86862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:49 +0000
Subject: [PATCH 059/173] fix: disir_plugin_registered reported success for an
 incomplete list

---
 lib/disir_plugin.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/disir_plugin.c b/lib/disir_plugin.c
index 20320a4..1f16bce 100644
--- a/lib/disir_plugin.c
+++ b/lib/disir_plugin.c
@@ -124,14 +124,32 @@ disir_plugin_registered (struct disir_instance *instance, struct disir_plugin **
 
         current = calloc (1, sizeof (struct disir_plugin));
         if (current == NULL)
+        {
             break;
+        }
 
         current->pl_group_id = strdup (internal->pi_group_id);
+        if (current->pl_group_id == NULL)
+        {
+            free (current);
+            break;
+        }
         MQ_ENQUEUE (head, current);
 
         internal = internal->next;
     } while (1);
 
+    if (internal != NULL)
+    {
+        // Ran out of memory before every plugin was copied
+        while ((current = MQ_POP (head)))
+        {
+            disir_plugin_finished (&current);
+        }
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
+
     *plugins = head;
     status = DISIR_STATUS_OK;
 
-- 
2.43.0


From 9dcb410177b76676426281b1cb17a289b8009e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 060/173] fix: a failed plugin query logged a status it did not
 pass

---
 lib/disir_config.c | 2 +-
 lib/disir_mold.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index b22b3fe..6423ba8 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -68,7 +68,7 @@ disir_config_read (struct disir_instance *instance, const char *group_id, const
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 9ccf553..0883a54 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -69,7 +69,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
         {
             log_warn ("Plugin '%s' (id %s) failed to query for entry '%s': %s",
                       entry->pi_io_id, entry->pi_plugin.dp_name,
-                      entry_id), disir_status_string (status);
+                      entry_id, disir_status_string (status));
             entry = entry->next;
             continue;
         }
-- 
2.43.0


From 5ad2be1df55647c613477f4b8687999fa2577ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 061/173] fix: disir_config_remove called a remove operation
 the plugin may not provide

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 6423ba8..c108728 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -214,7 +214,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
 
     if (plugin)
     {
-        if (plugin->pi_plugin.dp_config_write)
+        if (plugin->pi_plugin.dp_config_remove)
         {
             status = plugin->pi_plugin.dp_config_remove (instance, &plugin->pi_plugin,
                                                          entry_id);
@@ -222,7 +222,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
         else
         {
             status = DISIR_STATUS_NO_CAN_DO;
-            log_debug (1, "Plugin '%s' does not implement config_write", plugin->pi_io_id);
+            log_debug (1, "Plugin '%s' does not implement config_remove", plugin->pi_io_id);
         }
     }
     else
-- 
2.43.0


From ae857eae7ec1c74e8e9bd6012f8731b01e2184bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 062/173] fix: an empty entry id was read in front of its first
 character

---
 lib/disir_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index c108728..17a1d71 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -127,7 +127,7 @@ disir_config_write (struct disir_instance *instance, const char *group_id, const
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         // TODO: Add a better status?
         disir_error_set (instance, "cannot write namespace entry: %s", entry_id);
@@ -194,7 +194,7 @@ disir_config_remove (struct disir_instance *instance, const char *group_id,
     disir_error_clear (instance);
 
     entry_id_length = strlen (entry_id);
-    if (entry_id[entry_id_length - 1] == '/')
+    if (entry_id_length == 0 || entry_id[entry_id_length - 1] == '/')
     {
         disir_error_set (instance, "cannot remove namespace entry: %s", entry_id);
         return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 073fcdfbb43bb98ff6317ad5652b138739eb22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 063/173] fix: querying an entry only asked the last plugin of
 the group

---
 lib/disir_config.c | 9 +++++++--
 lib/disir_mold.c   | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/lib/disir_config.c b/lib/disir_config.c
index 17a1d71..37331e8 100644
--- a/lib/disir_config.c
+++ b/lib/disir_config.c
@@ -374,15 +374,20 @@ disir_config_query (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
+        // The first plugin, in order of registration, that holds the entry answers
         plugin = entry;
+        status = entry->pi_plugin.dp_config_query (instance, &entry->pi_plugin,
+                                               entry_id, entry_internal);
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
         // QUESTION: Should this abstraction check if there is a mold available before
         // issuing the config query? Or handle it individually in the plugins?
-        status = plugin->pi_plugin.dp_config_query (instance, &plugin->pi_plugin,
-                                                    entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 0883a54..883822f 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -292,13 +292,18 @@ disir_mold_query (struct disir_instance *instance, const char *group_id,
             continue;
         }
 
+        // The first plugin, in order of registration, that holds the entry answers
         plugin = entry;
+        status = entry->pi_plugin.dp_mold_query (instance, &entry->pi_plugin,
+                                               entry_id, entry_internal);
+        if (status == DISIR_STATUS_EXISTS)
+        {
+            break;
+        }
     }));
 
     if (plugin)
     {
-        status = plugin->pi_plugin.dp_mold_query (instance, &plugin->pi_plugin,
-                                                  entry_id, entry_internal);
         if (status != DISIR_STATUS_EXISTS && status != DISIR_STATUS_NOT_EXIST)
         {
             log_warn ("Plugin '%s' config_query failed with status: %s",
-- 
2.43.0


From 764f9998ad9321f7ef69642fdf7ba426e9362875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 064/173] fix: reading and writing molds compared against a
 NULL group

---
 lib/disir_mold.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 883822f..4139ceb 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -32,7 +32,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
         log_debug (0, "invoked with NULL argument(s)." \
                       " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
@@ -113,10 +113,11 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
 
     plugin = NULL;
 
-    if (instance == NULL || entry_id == NULL || mold == NULL)
+    if (instance == NULL || group_id == NULL || entry_id == NULL || mold == NULL)
     {
-        log_debug (0, "invoked with NULL argument(s). instance (%p), entry_id (%p), mold (%p)",
-                      instance, entry_id, mold);
+        log_debug (0, "invoked with NULL argument(s)." \
+                      " instance (%p), group_id (%p), entry_id (%p), mold (%p)",
+                      instance, group_id, entry_id, mold);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
 
-- 
2.43.0


From 65ad7000fb7d8e1bb305cb977bc72b4e88ee2362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:50 +0000
Subject: [PATCH 065/173] fix: a missing group was reported with a format
 argument that was not passed

---
 lib/disir_mold.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_mold.c b/lib/disir_mold.c
index 4139ceb..2171fcc 100644
--- a/lib/disir_mold.c
+++ b/lib/disir_mold.c
@@ -41,7 +41,7 @@ disir_mold_read (struct disir_instance *instance, const char *group_id,
     }
 
     TRACE_ENTER ("instance (%p) group_id (%s) entry_id (%s) mold (%p)",
-                 instance, group_id, entry_id, mold, mold);
+                 instance, group_id, entry_id, mold);
 
     disir_error_clear (instance);
 
@@ -154,7 +154,7 @@ disir_mold_write (struct disir_instance *instance, const char *group_id,
     }
     else
     {
-        disir_error_set (instance, "No plugin in group '%s' available: '%s'.", group_id);
+        disir_error_set (instance, "No plugin in group '%s' available.", group_id);
         status = DISIR_STATUS_NOT_EXIST;
     }
 
-- 
2.43.0


From c2e9c370347b7275127e9a8b018bf82821e3ab97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 066/173] fix: validate: name the version of the root config
 for elements of a section too

---
 lib/validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 2ab0082..81af1e8 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -142,7 +142,7 @@ validate_inclusive_restrictions (struct disir_context *context)
             dx_log_context (context,
                             "%s is not a valid element for version %s",
                             name, dc_version_string(buffer, 50,
-                                                    &(context)->cx_config->cf_version));
+                                                    target_version));
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
         if (size > max && max > 0)
-- 
2.43.0


From 9bbf33de0d22b70b1080c269a5e8571963810420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 067/173] fix: validate: do not read the mold of a config
 context, size the version buffers as stated

---
 lib/validate.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index 81af1e8..06e9367 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -597,7 +597,7 @@ validate_context_validity (struct disir_context *context)
     {
     case DISIR_CONTEXT_CONFIG:
     {
-        char buffer[30];
+        char buffer[50];
         log_debug(2, "Validating CONFIG for version %s",
                      dc_version_string(buffer, 50, &(context)->cx_config->cf_version));
 
@@ -608,11 +608,15 @@ validate_context_validity (struct disir_context *context)
             break;
         }
     }
+    // FALL-THROUGH
     case DISIR_CONTEXT_MOLD:
     {
-        char buffer[30];
-        log_debug(2, "Validating MOLD for version %s",
-                     dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        if (dc_context_type (context) == DISIR_CONTEXT_MOLD)
+        {
+            char buffer[50];
+            log_debug(2, "Validating MOLD for version %s",
+                         dc_version_string(buffer, 50, &(context)->cx_mold->mo_version));
+        }
         // TODO: Clear error reports
         status = validate_children (context);
         // Update invalid with new state, if non were already present.
-- 
2.43.0


From 8a21d112ff382c3326020592c4e35e4940b7c6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:07 +0000
Subject: [PATCH 068/173] fix: validate: put the mold element when looking up
 its equivalents fails

---
 lib/validate.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/validate.c b/lib/validate.c
index 06e9367..0961141 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -156,6 +156,10 @@ validate_inclusive_restrictions (struct disir_context *context)
             invalid = DISIR_STATUS_RESTRICTION_VIOLATED;
         }
     } while (1);
+    if (element)
+    {
+        dc_putcontext (&element);
+    }
     if (mold_collection)
     {
         dc_collection_finished (&mold_collection);
-- 
2.43.0


From 09f50b41c9a28a614b8cba49e7acb54569cd020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 069/173] fix: validate: no elements collection to release when
 retrieving it failed

---
 lib/validate.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index 0961141..00195b3 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -875,6 +875,9 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
     struct disir_collection *col;
     struct disir_context *element;
 
+    col = NULL;
+    element = NULL;
+
     invalid = (context->CONTEXT_STATE_INVALID == 1 ? DISIR_STATUS_INVALID_CONTEXT
                                                    : DISIR_STATUS_OK);
 
@@ -933,7 +936,10 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
         status = DISIR_STATUS_OK;
     }
 
-    dc_collection_finished (&col);
+    if (col)
+    {
+        dc_collection_finished (&col);
+    }
 
     return (status == DISIR_STATUS_OK ? invalid : status);
 }
-- 
2.43.0


From 39eeb2df92f2b18128d49874ec8e826cd5412424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:08 +0000
Subject: [PATCH 070/173] fix: validate: do not look up siblings of a nameless
 element

---
 lib/validate.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/validate.c b/lib/validate.c
index 00195b3..e44ac5d 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -265,6 +265,12 @@ validate_finalized_parent_constructing_child_violating_max_restriction (struct d
         return DISIR_STATUS_INTERNAL_ERROR;
     }
 
+    // A nameless entry is reported by the name validation
+    if (name == NULL)
+    {
+        return DISIR_STATUS_OK;
+    }
+
     // Query all entries in parent with our name. Check if it is exhausted.
     dx_restriction_entries_value (child, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
     dc_find_elements (child->cx_parent_context, name, &collection);
-- 
2.43.0


From 13274e70a4e3a825a939ae6ab8cbc2d7fea8685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 071/173] fix: validate: a restriction without type added to a
 finalized element aborted the process

---
 lib/validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/validate.c b/lib/validate.c
index e44ac5d..75af03e 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -488,7 +488,7 @@ validate_restriction (struct disir_context *context)
     if (dx_restriction_type_sanify (res->re_type) == DISIR_RESTRICTION_UNKNOWN)
     {
        dx_log_context (context, "Missing type component for restriction.");
-       return DISIR_STATUS_INVALID_CONTEXT;
+       return DISIR_STATUS_WRONG_VALUE_TYPE;
     }
 
     // Validate that the restriction context got a valid type set (belongs to a group)
-- 
2.43.0


From a69e78864a25b841d939e3a30e16e0684b3d383e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:32 +0000
Subject: [PATCH 072/173] fix: log: keep the stored message when it cannot grow

---
 lib/log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 9db4576..2ffdda8 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -214,6 +214,7 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     int message_size;
     int res;
     char dummy[4];
+    char *storage;
     va_list args_copy;
 
     // Make two instances of variadic arguments list
@@ -236,12 +237,13 @@ dx_internal_log_to_storage (char **error_message, int32_t *error_message_size,
     // Allocate sufficiently large buffer, write message
     if (*error_message_size < message_size + 1)
     {
-        *error_message = realloc (*error_message, message_size + 1);
-        if (*error_message == NULL)
+        storage = realloc (*error_message, message_size + 1);
+        if (storage == NULL)
         {
             // What should we do!? Throw a tantrum!?
             return;
         }
+        *error_message = storage;
         *error_message_size = message_size + 1;
     }
 
-- 
2.43.0


From 18f94d8cc1d4a66d7d2ae220ab259178f49f77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 073/173] fix: config query: answer with an error when the
 config has no context

---
 lib/disir_config_query.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index d0320b2..0f95175 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -404,6 +404,7 @@ disir_config_get_keyval_boolean (struct disir_config *config, uint8_t *value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -437,6 +438,7 @@ disir_config_set_keyval_boolean (struct disir_config *config, uint8_t value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -470,6 +472,7 @@ disir_config_get_keyval_integer (struct disir_config *config, int64_t *value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -503,6 +506,7 @@ disir_config_set_keyval_integer (struct disir_config *config, int64_t value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -536,6 +540,7 @@ disir_config_get_keyval_float (struct disir_config *config, double *value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -570,6 +575,7 @@ disir_config_set_keyval_float (struct disir_config *config, double value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -603,6 +609,7 @@ disir_config_get_keyval_string (struct disir_config *config, const char **value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -636,6 +643,7 @@ disir_config_set_keyval_string (struct disir_config *config, const char *value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -669,6 +677,7 @@ disir_config_get_keyval_enum (struct disir_config *config, const char **value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
@@ -702,6 +711,7 @@ disir_config_set_keyval_enum (struct disir_config *config, const char *value,
         goto error;
     }
 
+    status = DISIR_STATUS_INTERNAL_ERROR;
     context = dc_config_getcontext (config);
     if (context != NULL)
     {
-- 
2.43.0


From a5d1364c06ef006c3f13a01d2bb9a6dcfc146533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 074/173] fix: config query: destroy the keyval that could not
 be named

---
 lib/disir_config_query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index 0f95175..0e802cd 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -237,6 +237,7 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
     {
         log_warn ("set_name failed, even though it shouldnt have: %s",
                   disir_status_string (status));
+        dc_destroy (&context);
         return status;
     }
 
-- 
2.43.0


From 77deb8ac77b14fefeb395339abe0e678aad9a27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 075/173] fix: config query: arguments of a debug message

---
 lib/disir_config_query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index 0e802cd..35b5e51 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -289,7 +289,7 @@ config_set_keyval_generic (struct disir_context *parent, enum disir_value_type t
     if (parent == NULL || query == NULL)
     {
         log_debug (0, "invoked with NULL pointer(s) (parent (%p), query (%p)",
-                      parent, value_string, query);
+                      parent, query);
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
     if (value_string == NULL &&
-- 
2.43.0


From 5dc8675b2659f81a53260e29fac3e6713b94781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 076/173] fix: query: refuse a query too long for its buffer
 instead of acting on its beginning

---
 lib/query.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/query.c b/lib/query.c
index 3db7537..8f53bce 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -141,8 +141,15 @@ dx_query_ensure_ancestors (struct disir_context *config,
 
     // Populate a buffer with our query that we can process
     va_copy (args_copy, args);
-    vsnprintf (buffer, 2048, query, args_copy);
+    status = (vsnprintf (buffer, 2048, query, args_copy) >= 2048
+              ? DISIR_STATUS_INSUFFICIENT_RESOURCES : DISIR_STATUS_OK);
     va_end (args_copy);
+    if (status != DISIR_STATUS_OK)
+    {
+        dx_log_context (config, "Insufficient buffer. Name request exceeded 2048 bytes.");
+        TRACE_EXIT ("status: %s", disir_status_string (status));
+        return status;
+    }
 
     resolved[0] = '\0';
     current_element = buffer;
-- 
2.43.0


From fcbf0341f6010285d5c70e58ad1d1ca70367788b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 077/173] fix: query: destroy the created ancestor exactly once
 when the rest of the query fails

---
 lib/query.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index 8f53bce..4414011 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -281,6 +281,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 // TODO: Verify / sanify error message
                 // This should only happend if the variable referenced is a KEYVAL, not a section.
                 dx_context_transfer_logwarn (config, current_context);
+                ancestor_context = (ancestor_context == current_context ? NULL : ancestor_context);
                 dc_destroy (&current_context);
                 break;
             }
@@ -290,6 +291,7 @@ dx_query_ensure_ancestors (struct disir_context *config,
             {
                 // This should NOT happend.
                 log_warn ("TODO: HANDLE ERROR MESSAGE: generate_from_config_root");
+                ancestor_context = (ancestor_context == current_context ? NULL : ancestor_context);
                 dc_destroy (&current_context);
                 break;
             }
@@ -309,6 +311,12 @@ dx_query_ensure_ancestors (struct disir_context *config,
                 }
             }
         }
+        else if (status != DISIR_STATUS_OK)
+        {
+            // internal error
+            log_warn ("unknown error: %s", disir_status_string (status));
+            break;
+        }
         else
         {
             // Check that our current_context is a section
@@ -336,14 +344,10 @@ dx_query_ensure_ancestors (struct disir_context *config,
 
     // If we encounter an error condition, and we have created an ancestor,
     // we need to destroy it.
+    // (the loop above forgets an ancestor it destroys)
     if (status != DISIR_STATUS_OK && ancestor_context)
     {
-        // We should only destroy the ancestor if we havent already destroyed
-        // it in our loop above
-        if (ancestor_context != current_context)
-        {
-            dc_destroy (&ancestor_context);
-        }
+        dc_destroy (&ancestor_context);
     }
 
     // Populate the output parameters
-- 
2.43.0


From f1c6900c8b6ba9aba7da9709b3acb082b71503df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 078/173] fix: query: resolving the parent of a malformed or
 too long name fails

---
 lib/query.c | 40 ++++++++++++++++++++++++----------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/lib/query.c b/lib/query.c
index 4414011..3780971 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -447,8 +447,13 @@ dx_query_resolve_parent_context (struct disir_context *parent, struct disir_cont
     collection = NULL;
 
     va_copy (args_copy, args);
-    vsnprintf (buffer, 2048, query, args_copy);
+    index = vsnprintf (buffer, 2048, query, args_copy);
     va_end (args_copy);
+    if (index >= 2048)
+    {
+        dx_log_context (parent, "Insufficient buffer. Name request exceeded 2048 bytes.");
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
 
     // Find the last key seperator.
     last = strrchr (buffer, '.');
@@ -487,23 +492,26 @@ dx_query_resolve_parent_context (struct disir_context *parent, struct disir_cont
     // We have a section - now we need to seperate name and index
     resolved[0] = '\0';
     status = dx_query_resolve_name (section, keyval_entry, resolved, &next, &index);
-    if (status == DISIR_STATUS_OK)
+    if (status != DISIR_STATUS_OK)
     {
-        // Query section for the collection of entries matching keyval name.
-        // We let the NOT_EXIST go through, so that the collection size == 0 is valid
-        status = dc_find_elements (section, keyval_entry, &collection);
-        if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NOT_EXIST)
-        {
-            goto error;
-        }
+        // Already logged
+        goto error;
+    }
 
-        // If the size equals the index (that is the index is refering to size + 1 th entry
-        // then this is a valid query
-        if (dc_collection_size (collection) != index)
-        {
-            status = DISIR_STATUS_NOT_EXIST;
-            goto error;
-        }
+    // Query section for the collection of entries matching keyval name.
+    // We let the NOT_EXIST go through, so that the collection size == 0 is valid
+    status = dc_find_elements (section, keyval_entry, &collection);
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NOT_EXIST)
+    {
+        goto error;
+    }
+
+    // If the size equals the index (that is the index is refering to size + 1 th entry
+    // then this is a valid query
+    if ((collection ? dc_collection_size (collection) : 0) != index)
+    {
+        status = DISIR_STATUS_NOT_EXIST;
+        goto error;
     }
 
     // Copy the keyval_entry to the output keyval_name buffer
-- 
2.43.0


From 6c23018a52723fa2d94806b79c4f66a6e38fa0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:30 +0000
Subject: [PATCH 079/173] fix: query: refuse a missing name or output location

---
 lib/query.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/query.c b/lib/query.c
index 3780971..b502836 100644
--- a/lib/query.c
+++ b/lib/query.c
@@ -577,6 +577,12 @@ dc_query_resolve_context_va (struct disir_context *parent, const char *name,
         return status;
     }
 
+    if (name == NULL || out == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s) (name (%p), out (%p))", name, out);
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     // Write out the entire name
     if (vsnprintf (buffer, 2048, name, args) >= 2048)
     {
-- 
2.43.0


From fd3fc625ffa969d1c64c7f6d6827685a1237c2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 080/173] fix: documentation: asking for the documentation of a
 config aborted the process

---
 lib/context_documentation.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/context_documentation.c b/lib/context_documentation.c
index 98a53cf..2b39993 100644
--- a/lib/context_documentation.c
+++ b/lib/context_documentation.c
@@ -207,7 +207,6 @@ dc_get_documentation (struct disir_context *context, struct disir_version *versi
         return status;
     }
     status = CONTEXT_TYPE_CHECK (context, DISIR_CONTEXT_KEYVAL,
-                                          DISIR_CONTEXT_CONFIG,
                                           DISIR_CONTEXT_SECTION,
                                           DISIR_CONTEXT_RESTRICTION,
                                           DISIR_CONTEXT_MOLD);
-- 
2.43.0


From 727bff8ff2c36bd44c12547a254a8d290ebde4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 081/173] fix: import: a long info message was terminated past
 its buffer, allocation unchecked

---
 lib/disir_import.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c1b01f..acd1ca1 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -36,10 +36,12 @@ import_info_set (struct disir_import_entry *entry, const char *message, ...)
     msgsize = vsnprintf (buf, 1000, message, args);
     va_end (args);
 
-    entry->ie_info = (char *)malloc (sizeof (char) * msgsize + 1);
-    buf[msgsize] = '\0';
+    if (msgsize < 0)
+    {
+        buf[0] = '\0';
+    }
 
-    strcpy (entry->ie_info, buf);
+    entry->ie_info = strdup (buf);
 }
 
 //! STATIC FUNCTION
-- 
2.43.0


From 6b359062a52ce726abdeb32e8ff470b23b56c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 082/173] fix: import: no plugin when retrieving it is refused

---
 lib/disir_import.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index acd1ca1..e0344ed 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -98,7 +98,7 @@ import_determine_conflict (struct disir_instance *instance,
 {
     enum disir_status status;
     enum disir_status status_version;
-    struct disir_register_plugin *plugin;
+    struct disir_register_plugin *plugin = NULL;
     struct disir_config *existing = NULL;
     struct disir_context *context_existing = NULL;
     struct disir_context *context_imported = NULL;
@@ -199,7 +199,7 @@ read_config_imported (struct disir_instance *instance, const char *filepath, con
                       struct disir_mold *mold, struct disir_config **config)
 {
     enum disir_status status;
-    struct disir_register_plugin *plugin;
+    struct disir_register_plugin *plugin = NULL;
     FILE *file = NULL;
 
     dx_retrieve_plugin_by_group (instance, group_id, &plugin);
-- 
2.43.0


From cfc339c0ac5924283e4d3c6d7c6f8d9c102a54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 083/173] fix: import: release the mold of an entry that cannot
 be imported

---
 lib/disir_import.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index e0344ed..ff5a151 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -244,7 +244,8 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
     if (status != DISIR_STATUS_OK)
     {
         // logged and error set
-        return DISIR_STATUS_NO_CAN_DO;
+        status = DISIR_STATUS_NO_CAN_DO;
+        goto out;
     }
 
     status = read_config_imported (instance, config_path, import->ie_group_id,
-- 
2.43.0


From 2f7836e63edbe8f8cfca2fa94a2e3a354557a328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 084/173] fix: import: version buffers as large as stated

---
 lib/disir_import.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index ff5a151..0c6e3ee 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -102,7 +102,7 @@ import_determine_conflict (struct disir_instance *instance,
     struct disir_config *existing = NULL;
     struct disir_context *context_existing = NULL;
     struct disir_context *context_imported = NULL;
-    char buf[500];
+    char buf[512];
     int res;
 
     dx_retrieve_plugin_by_group (instance, current->ie_group_id, &plugin);
@@ -238,7 +238,7 @@ dx_resolve_config_import_status (struct disir_instance *instance, const char *co
     enum disir_status status;
     struct disir_mold *mold = NULL;
     struct disir_config *config_imported = NULL;
-    char buf[500];
+    char buf[512];
 
     status = verify_mold_support (instance, import, &mold);
     if (status != DISIR_STATUS_OK)
-- 
2.43.0


From a6fb9ca890034ec287e5a9630e5a5f506a6031c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 085/173] fix: import: report destruction keeps the failure
 status, one line per entry, discarded import forgotten

---
 lib/disir_import.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index 0c6e3ee..dfaf343 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -486,7 +486,7 @@ disir_import_report_destroy (struct import_report **report)
     int i;
     struct import_report *rep;
 
-    if (report == NULL)
+    if (report == NULL || *report == NULL)
     {
         return DISIR_STATUS_INVALID_ARGUMENT;
     }
@@ -538,7 +538,9 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
     {
     case DISIR_IMPORT_DISCARD:
     {
-        return dx_import_destroy (*import);
+        status = dx_import_destroy (*import);
+        *import = NULL;
+        return status;
     }
     case DISIR_IMPORT_DO:
     {
@@ -601,15 +603,15 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
                    rep->ir_entry[i] = strdup (buf);
 
                }
-                if (current->ie_status != DISIR_STATUS_NO_CAN_DO &&
-                    current->ie_status != DISIR_STATUS_CONFIG_INVALID &&
-                    current->ie_import == 0)
+                else if (current->ie_status != DISIR_STATUS_NO_CAN_DO &&
+                         current->ie_status != DISIR_STATUS_CONFIG_INVALID &&
+                         current->ie_import == 0)
                 {
                    snprintf (buf, 4096, "Discarded:      %s", current->ie_entry_id);
                    rep->ir_entry[i] = strdup (buf);
                 }
-                if (current->ie_status == DISIR_STATUS_NO_CAN_DO ||
-                    current->ie_status == DISIR_STATUS_CONFIG_INVALID)
+                else if (current->ie_status == DISIR_STATUS_NO_CAN_DO ||
+                         current->ie_status == DISIR_STATUS_CONFIG_INVALID)
                 {
                    snprintf (buf, 4096, "Not importable: %s", current->ie_entry_id);
                    rep->ir_entry[i] = strdup (buf);
@@ -644,7 +646,7 @@ disir_import_finalize (struct disir_instance *instance, enum disir_import_option
 error:
     if (rep)
     {
-        status = disir_import_report_destroy (&rep);
+        disir_import_report_destroy (&rep);
     }
     return status;
 }
-- 
2.43.0


From 4249cb0ad7083864a8a2679fcb195ebbfc6513c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 086/173] fix: import: destroying an import without entries
 read before its entry list

---
 lib/disir_import.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/disir_import.c b/lib/disir_import.c
index dfaf343..9df6a0b 100644
--- a/lib/disir_import.c
+++ b/lib/disir_import.c
@@ -661,16 +661,13 @@ dx_import_destroy (struct disir_import *entry)
     if (entry == NULL)
         return DISIR_STATUS_OK;
 
-    i = entry->di_num_entries - 1;
-
     if (entry->di_entries)
     {
-        do
+        for (i = 0; i < entry->di_num_entries; i++)
         {
             if (entry->di_entries[i] != NULL)
                 dx_import_entry_destroy (entry->di_entries[i]);
         }
-        while (i--);
 
         free (entry->di_entries);
     }
-- 
2.43.0


From 30c0ba52ceb04d1873813a7f669cac8b0687126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 087/173] fix: archive: order entries lexicographically, the
 order of the set was not a strict weak order

---
 lib/include/archive_private.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/include/archive_private.h b/lib/include/archive_private.h
index 70c21b2..2af1fb7 100644
--- a/lib/include/archive_private.h
+++ b/lib/include/archive_private.h
@@ -36,8 +36,11 @@ struct cmp_entry
 {
     bool operator()(const struct disir_archive_entry& a, const struct disir_archive_entry& b)
     {
-        return a.de_backend_id < b.de_backend_id || a.de_group_id < b.de_group_id ||
-               a.de_entry_id < b.de_entry_id;
+        if (a.de_backend_id != b.de_backend_id)
+            return a.de_backend_id < b.de_backend_id;
+        if (a.de_group_id != b.de_group_id)
+            return a.de_group_id < b.de_group_id;
+        return a.de_entry_id < b.de_entry_id;
     }
 };
 
-- 
2.43.0


From 48ec896312d50a756576712a8bb0ab1c2db4f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:55 +0000
Subject: [PATCH 088/173] fix: archive: log messages passed numbers and objects
 where text was announced

---
 lib/disir_archive_util.cc | 13 +++++++------
 lib/disir_export.cc       | 18 ++++++++++--------
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index c0dfdea..3a572c6 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -405,7 +405,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
     auto iter = extract_content.find (backend + "/entries.toml");
     if (iter == extract_content.end())
     {
-        log_error ("cannot find entries.toml for backend '%s' in map", backend);
+        log_error ("cannot find entries.toml for backend '%s' in map", backend.c_str());
         return DISIR_STATUS_NOT_EXIST;
     }
 
@@ -416,7 +416,7 @@ validate_archive_backend_entries (struct disir_archive *archive,
 
     if (!pr.valid())
     {
-        log_error ("unable to parse entries.toml in backend '%s'", backend);
+        log_error ("unable to parse entries.toml in backend '%s'", backend.c_str());
         return DISIR_STATUS_FS_ERROR;
     }
 
@@ -432,13 +432,13 @@ validate_archive_backend_entries (struct disir_archive *archive,
         if (entries_group_table == nullptr)
         {
             log_error ("unable to find the group '%s' in entries.toml, in backend '%s'",
-                        group.as<std::string>(), backend);
+                        group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
         if (entries_group_table->is<toml::Table>() == false)
         {
-            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>(), backend);
+            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_WRONG_VALUE_TYPE;
         }
 
@@ -572,7 +572,8 @@ dx_archive_validate (struct disir_archive *archive,
         auto groups = entry.find (ATTRIBUTE_KEY_GROUPS);
         if (groups == nullptr)
         {
-            log_error ("key 'groups' not present in backend '%s'", id->as<std::string>());
+            log_error ("key 'groups' not present in backend '%s'",
+                       id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -584,7 +585,7 @@ dx_archive_validate (struct disir_archive *archive,
 
         if (groups->empty())
         {
-            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>());
+            log_error ("'groups' array in backend '%s' is empty", id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8193bf1..e146707 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -54,7 +54,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
         auto iter = extract_content.find (id->as<std::string>() + "/entries.toml");
         if (iter == extract_content.end())
         {
-            log_error ("cannot find entries.toml for backend '%s' in map", id->as<std::string>());
+            log_error ("cannot find entries.toml for backend '%s' in map",
+                       id->as<std::string>().c_str());
             return DISIR_STATUS_NOT_EXIST;
         }
 
@@ -65,7 +66,8 @@ copy_metadata (struct disir_archive *archive, std::map<std::string, std::string>
 
         if (!pr.valid())
         {
-            log_error ("unable to parse entries.toml in backend '%s'", id->as<std::string>());
+            log_error ("unable to parse entries.toml in backend '%s'",
+                       id->as<std::string>().c_str());
             return DISIR_STATUS_FS_ERROR;
         }
 
@@ -195,7 +197,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
     if (entry == NULL)
     {
         log_debug (3, "error creating new archive entry: %s",
-                       archive_errno (archive));
+                       archive_error_string (archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -219,7 +221,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
         if (archive_write_data (archive, buf, read) < 0)
         {
-            log_error ("error writing to archive %s", archive_errno (archive));
+            log_error ("error writing to archive %s", archive_error_string (archive));
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
@@ -227,7 +229,7 @@ append_config (struct disir_instance *instance, struct archive *archive,
 
     if (archive_write_finish_entry (archive) != ARCHIVE_OK)
     {
-        log_error ("could not finish archive write entry %s", archive_errno (archive));
+        log_error ("could not finish archive write entry %s", archive_error_string (archive));
         status = DISIR_STATUS_FS_ERROR;
         goto out;
     }
@@ -402,7 +404,7 @@ write_archive_metadata_toml (struct disir_archive *archive)
     if (entry == NULL)
     {
         log_debug (5, "error creating new archive entry: %s",
-                       archive_errno (archive->da_archive));
+                       archive_error_string (archive->da_archive));
         return DISIR_STATUS_NO_MEMORY;
     }
 
@@ -460,7 +462,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (entry == NULL)
         {
             log_error ("error creating new archive entry: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             return DISIR_STATUS_NO_MEMORY;
         }
 
@@ -474,7 +476,7 @@ dx_archive_metadata_write (struct disir_archive *archive)
         if (archive_write_data (archive->da_archive, str.c_str(), str.size()) < 0)
         {
             log_error ("error writing archive metadata.toml: %s",
-                        archive_errno (archive->da_archive));
+                        archive_error_string (archive->da_archive));
             status = DISIR_STATUS_FS_ERROR;
             goto error;
         }
-- 
2.43.0


From 6afa9b651994a457de87043b92b81b3dabf8bf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 089/173] fix: export: a fatal error writing an entry header
 was taken for a warning

---
 lib/disir_export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index e146707..4724ddc 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -157,7 +157,7 @@ populate_archive_entry (struct archive *archive, struct archive_entry *entry,
     archive_entry_set_filetype (entry, AE_IFREG);
     archive_entry_set_perm (entry, 0644);
 
-    ret = archive_write_header (archive, entry) != ARCHIVE_OK;
+    ret = archive_write_header (archive, entry);
     if (ret != ARCHIVE_OK)
     {
         if (ret == ARCHIVE_FATAL)
-- 
2.43.0


From b94d7a3f8b4ca3e84aa31b9c87c7ae88c0f77d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:57 +0000
Subject: [PATCH 090/173] fix: export: report a failure to read the serialized
 entry

---
 lib/disir_export.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 4724ddc..b768a58 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -217,7 +217,15 @@ append_config (struct disir_instance *instance, struct archive *archive,
     {
         read = fread (buf, 1, sizeof (buf), infile);
         if (read == 0)
+        {
+            if (ferror (infile))
+            {
+                log_error ("error reading %s", filepath);
+                status = DISIR_STATUS_FS_ERROR;
+                goto out;
+            }
             break;
+        }
 
         if (archive_write_data (archive, buf, read) < 0)
         {
-- 
2.43.0


From 206b1855728216c080e196850b2e80deb4cb824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 091/173] fix: export: close each temporary entry and release
 the config when an entry fails

---
 lib/disir_export.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index b768a58..612ce50 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -310,6 +310,15 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
         if (status != DISIR_STATUS_OK)
             goto out;
 
+        ret = fclose (entry_file);
+        entry_file = NULL;
+        if (ret != 0)
+        {
+            log_error ("unable to write temp config file: %s", filepath);
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
         status = serialize_entry_index (archive, config, group_id,
                                         current->de_entry_name, plugin->dp_name);
         if (status != DISIR_STATUS_OK)
@@ -348,6 +357,9 @@ out:
     if (entry_file)
         fclose (entry_file);
 
+    if (config)
+        disir_config_finished (&config);
+
     if (filepath[0] != '\0')
     {
         // Ignore failure condition
-- 
2.43.0


From cb981ab452f7d1bca80a65cfe37dae5471679b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:59 +0000
Subject: [PATCH 092/173] fix: export: check allocations

---
 lib/disir_export.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 612ce50..4123e1e 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -99,11 +99,12 @@ serialize_entry_index (struct disir_archive *archive, struct disir_config *confi
     auto it = archive->da_entries->find (plugin_name);
     if (it == archive->da_entries->end())
     {
-        (*archive->da_entries)[plugin_name] = new (std::nothrow) toml::Value (toml::Table());
-        if ((*archive->da_entries)[plugin_name] == nullptr)
+        plugin_entries = new (std::nothrow) toml::Value (toml::Table());
+        if (plugin_entries == nullptr)
         {
             return DISIR_STATUS_NO_MEMORY;
         }
+        (*archive->da_entries)[plugin_name] = plugin_entries;
     }
 
     plugin_entries = (*archive->da_entries)[plugin_name];
@@ -601,6 +602,11 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     }
 
     write_archive->da_existing_path = strdup (archive_path);
+    if (write_archive->da_existing_path == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
     *archive = write_archive;
 
     //FALL-THROUGH
-- 
2.43.0


From 1f3cb91d074cc4bd8eddfd7482330cb3f254491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:01 +0000
Subject: [PATCH 093/173] fix: archive: appending an entry no plugin provides

---
 lib/disir_archive.cc | 2 ++
 lib/disir_export.cc  | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index e6b3811..3bdc118 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -213,6 +213,8 @@ disir_archive_append_entry (struct disir_instance *instance, struct disir_archiv
     status = disir_config_query (instance, group_id, entry_id, &config_entry);
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_EXISTS)
     {
+        if (config_entry)
+            disir_entry_finished (&config_entry);
         return status;
     }
 
diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 4123e1e..f9427b8 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -274,6 +274,13 @@ dx_archive_config_entries_write (struct disir_instance *instance, struct disir_a
     current = config_entry;
     filepath[0] = '\0';
 
+    if (plugin == NULL || config_entry == NULL)
+    {
+        log_debug (0, "invoked with NULL pointer(s) (%p %p)", plugin, config_entry);
+        status = DISIR_STATUS_INVALID_ARGUMENT;
+        goto out;
+    }
+
     if (plugin->dp_config_fd_write == NULL)
     {
         log_error ("plugin %s does not implement config_fd_write", plugin->dp_name);
-- 
2.43.0


From b08782d4511308151dc8534577a057d3c04483b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 094/173] fix: archive: release the entry being imported when
 it fails, check allocations

---
 lib/disir_archive.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 3bdc118..f0a265e 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -88,6 +88,14 @@ archive_import_config_entries (struct disir_instance *instance,
         entry->ie_group_id = strdup (e.de_group_id.c_str());
         entry->ie_backend_id = strdup (e.de_backend_id.c_str());
         entry->ie_version = strdup (e.de_version.c_str());
+        // The import owns the entry from here on
+        (*current++) = entry;
+        if (entry->ie_entry_id == NULL || entry->ie_group_id == NULL ||
+            entry->ie_backend_id == NULL || entry->ie_version == NULL)
+        {
+            status = DISIR_STATUS_NO_MEMORY;
+            goto error;
+        }
 
         status = dx_resolve_config_import_status (instance, e.de_filepath.c_str(), entry);
         if (status != DISIR_STATUS_OK &&
@@ -100,8 +108,6 @@ archive_import_config_entries (struct disir_instance *instance,
         }
 
         entry->ie_status = status;
-
-        (*current++) = entry;
     }
 
     *import = im;
-- 
2.43.0


From 20e91b9368e98a11cf1a26ca1ed72e5227228daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 095/173] fix: archive: no error text of an archive object that
 was just freed

---
 lib/disir_archive.cc      |  4 ++--
 lib/disir_archive_util.cc | 10 ++++------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index f0a265e..86464d4 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -403,10 +403,10 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
 
         if (archive_write_free (ar->da_archive) != ARCHIVE_OK)
         {
-            log_error ("unable to free archive in finalize: %s",
-                        archive_error_string (ar->da_archive));
+            log_error ("unable to free archive in finalize");
             status = DISIR_STATUS_FS_ERROR;
         }
+        ar->da_archive = NULL;
 
         if (status != DISIR_STATUS_OK)
         {
diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 3a572c6..6b73fce 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -196,8 +196,7 @@ out:
 
         if (archive_write_free (write_archive) != ARCHIVE_OK)
         {
-            log_error ("unable to free archive during extraction: %s",
-                        archive_error_string (write_archive));
+            log_error ("unable to free archive during extraction");
             status = DISIR_STATUS_FS_ERROR;
         }
     }
@@ -206,8 +205,7 @@ out:
     {
         if (archive_read_free (read_archive) != ARCHIVE_OK)
         {
-            log_error ("unable to free read archive during extraction: %s",
-                        archive_error_string (read_archive));
+            log_error ("unable to free read archive during extraction");
             status = DISIR_STATUS_FS_ERROR;
         }
     }
@@ -323,7 +321,7 @@ out:
                 log_error ("unable to close archive: %s", archive_error_string (ar));
 
             if (archive_write_free (ar) != ARCHIVE_OK)
-                log_error ("unable to free archive: %s", archive_error_string (ar));
+                log_error ("unable to free archive");
         }
     }
 
@@ -383,7 +381,7 @@ out:
     if (status != DISIR_STATUS_OK)
     {
         if (archive_read_free (ar) != ARCHIVE_OK)
-            log_error ("unable to close read archive: %s", archive_error_string (ar));
+            log_error ("unable to close read archive");
     }
 
     return status;
-- 
2.43.0


From aefbe39417dc53fcb7bd68dd78c4e762cf61eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:05 +0000
Subject: [PATCH 096/173] fix: archive: one temporary path per archive, and a
 missing one is an error

---
 lib/disir_archive_util.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 6b73fce..6694123 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -275,11 +275,6 @@ dx_archive_open_write (struct disir_archive *archive)
         temp_archive_path[0] = '\0';
         snprintf (temp_archive_path, PATH_MAX, "/tmp/arc.%s", random_suffix);
 
-        archive->da_temp_archive_path = strdup (temp_archive_path);
-        if (archive->da_temp_archive_path == NULL)
-        {
-            status = DISIR_STATUS_NO_MEMORY;
-        }
         ret = stat (temp_archive_path, &st);
         if (ret == 0)
         {
@@ -310,6 +305,13 @@ dx_archive_open_write (struct disir_archive *archive)
         goto out;
     }
 
+    archive->da_temp_archive_path = strdup (temp_archive_path);
+    if (archive->da_temp_archive_path == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto out;
+    }
+
     archive->da_archive = ar;
     // FALL-THROUGH
 out:
-- 
2.43.0


From de88f91b7cdb4d36c5e93f393a787a31eaa44593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 097/173] fix: archive: destroying an archive releases all of
 it

---
 lib/disir_archive_util.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 6694123..2818028 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -634,6 +634,7 @@ remove_folder_and_content (const char *fpath, const struct stat *sb,
 enum disir_status
 dx_archive_destroy (struct disir_archive *ar)
 {
+    enum disir_status status = DISIR_STATUS_OK;
     struct stat st;
     int ret;
 
@@ -646,10 +647,16 @@ dx_archive_destroy (struct disir_archive *ar)
         if (ret != 0)
         {
             // Already logged
-            return DISIR_STATUS_FS_ERROR;
+            status = DISIR_STATUS_FS_ERROR;
         }
     }
 
+    if (ar && ar->da_archive && archive_write_free (ar->da_archive) != ARCHIVE_OK)
+    {
+        log_error ("unable to free archive");
+        status = DISIR_STATUS_FS_ERROR;
+    }
+
     if (ar && ar->da_entries)
     {
         for (auto& entry : *ar->da_entries)
@@ -672,7 +679,7 @@ dx_archive_destroy (struct disir_archive *ar)
     if (ar)
         free (ar);
 
-    return DISIR_STATUS_OK;
+    return status;
 }
 
 //! INTERNAL API
-- 
2.43.0


From 8f0ced3d7217c7c1e06b00623010cf2a814494c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:07 +0000
Subject: [PATCH 098/173] fix: archive: an archive could be extracted outside
 of its folder, and failures to extract were ignored

---
 lib/disir_archive_util.cc | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 2818028..525d065 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -106,7 +106,10 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
         return status;
     }
 
-    flags = ARCHIVE_EXTRACT_TIME;
+    // An archive must not write outside of the path it is extracted to
+    flags = ARCHIVE_EXTRACT_SECURE_NODOTDOT;
+    flags |= ARCHIVE_EXTRACT_SECURE_SYMLINKS;
+    flags |= ARCHIVE_EXTRACT_TIME;
     flags |= ARCHIVE_EXTRACT_PERM;
     flags |= ARCHIVE_EXTRACT_ACL;
     flags |= ARCHIVE_EXTRACT_FFLAGS;
@@ -143,12 +146,27 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
     while (archive_read_next_header (read_archive, &entry) == ARCHIVE_OK)
     {
-        snprintf(path, PATH_MAX, "%s/%s", extract_path, archive_entry_pathname (entry));
+        if (archive_entry_pathname (entry) == NULL ||
+            snprintf (path, PATH_MAX, "%s/%s", extract_path,
+                      archive_entry_pathname (entry)) >= PATH_MAX)
+        {
+            log_error ("archive entry has an invalid name");
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
         extract_content.insert (std::make_pair (archive_entry_pathname (entry), path));
         archive_entry_set_pathname (entry, path);
 
-        if (archive_write_header (write_archive, entry) == ARCHIVE_OK &&
-                                  archive_entry_size (entry) > 0)
+        ret = archive_write_header (write_archive, entry);
+        if (ret < ARCHIVE_WARN)
+        {
+            log_error ("could not write archive entry to disk: %s",
+                        archive_error_string (write_archive));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
+
+        if (archive_entry_size (entry) > 0)
         {
             while (1)
             {
-- 
2.43.0


From 7d949da8672dbf35ae0c3b16a7bc2f7149687e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 099/173] fix: archive: report a failure to copy the archive to
 its destination

---
 lib/disir_archive_util.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 525d065..1d1f724 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -767,8 +767,9 @@ copy_file (const char *from, const char *to)
     }
 
     destination << source.rdbuf();
+    destination.close();
 
-    return DISIR_STATUS_OK;
+    return (source.bad() || destination.fail() ? DISIR_STATUS_FS_ERROR : DISIR_STATUS_OK);
 }
 
 //! INTERNAL API
-- 
2.43.0


From 31093e62baf708c36b6da307500dc6e74e14c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 100/173] fix: archive: entries of an unexpected type threw
 exceptions through the C API

---
 lib/disir_archive_util.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 1d1f724..99c9937 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -444,6 +444,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
     // Iterate groups
     for (const auto& group : groups.as<toml::Array>())
     {
+        if (group.is<std::string>() == false)
+        {
+            log_error ("group in backend '%s' is not a string", backend.c_str());
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         // Find group table in entries.toml
         entries_group_table = entries_root.find (group.as<std::string>());
 
@@ -456,7 +462,8 @@ validate_archive_backend_entries (struct disir_archive *archive,
 
         if (entries_group_table->is<toml::Table>() == false)
         {
-            log_error ("group '%s' in '%s' is not a toml table", group.as<std::string>().c_str(), backend.c_str());
+            log_error ("group '%s' in '%s' is not a toml table",
+                        group.as<std::string>().c_str(), backend.c_str());
             return DISIR_STATUS_WRONG_VALUE_TYPE;
         }
 
@@ -478,6 +485,12 @@ validate_archive_backend_entries (struct disir_archive *archive,
                 return DISIR_STATUS_NOT_EXIST;
             }
 
+            if (entry.second.is<std::string>() == false)
+            {
+                log_error ("version of '%s' is not a string", config_entry.c_str());
+                return DISIR_STATUS_WRONG_VALUE_TYPE;
+            }
+
             archive_entry.de_backend_id = backend;
             archive_entry.de_group_id = group.as<std::string>();
             archive_entry.de_entry_id = entry.first;
@@ -573,6 +586,12 @@ dx_archive_validate (struct disir_archive *archive,
 
     for (const auto& entry : backends->as<toml::Array>())
     {
+        if (entry.is<toml::Table>() == false)
+        {
+            log_error ("backend in metadata.toml is not a toml table");
+            return DISIR_STATUS_WRONG_VALUE_TYPE;
+        }
+
         auto id = entry.find (ATTRIBUTE_KEY_ID);
 
         if (id == nullptr)
-- 
2.43.0


From 4047e0fcfd9d13a0471c43ce0bda88967c72f9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 101/173] fix: fslib: fslib_mkdir_p returned an undefined
 status when it created the last folder

---
 lib/fslib/mkdir.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/mkdir.c b/lib/fslib/mkdir.c
index ad6a2bd..2cf5a0d 100644
--- a/lib/fslib/mkdir.c
+++ b/lib/fslib/mkdir.c
@@ -30,7 +30,7 @@ handle_mkdir_errno (struct disir_instance *instance, const char *path, int errsa
 enum disir_status
 fslib_mkdir_p (struct disir_instance *instance, const char *path)
 {
-    enum disir_status status;
+    enum disir_status status = DISIR_STATUS_OK;
     const size_t len = strlen (path);
     char _path[PATH_MAX];
     char *p;
@@ -42,7 +42,7 @@ fslib_mkdir_p (struct disir_instance *instance, const char *path)
     {
         errno = ENAMETOOLONG;
         disir_error_set (instance, "Supplied filepath to ensure recursive directories" \
-                                    " exists exceed PATH_MAX (%d vs %d)", len, PATH_MAX);
+                                    " exists exceed PATH_MAX (%zu vs %d)", len, PATH_MAX);
         return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
     strcpy(_path, path);
-- 
2.43.0


From ca383c417be3cfbf15632e4c0dcc1c8a3f27a6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 102/173] fix: fslib: release the mold of a config that cannot
 be read

---
 lib/fslib/read.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/read.c b/lib/fslib/read.c
index feaae82..4696003 100644
--- a/lib/fslib/read.c
+++ b/lib/fslib/read.c
@@ -16,7 +16,7 @@ fslib_plugin_config_read (struct disir_instance *instance,
     enum disir_status status;
     char filepath[PATH_MAX];
     struct stat statbuf;
-    struct disir_mold *resolved_mold;
+    struct disir_mold *resolved_mold = NULL;
 
     status = fslib_config_resolve_filepath (instance, plugin, entry_id, filepath);
     if (status != DISIR_STATUS_OK)
@@ -36,6 +36,12 @@ fslib_plugin_config_read (struct disir_instance *instance,
     // Locate mold from plugin
     if (mold == NULL)
     {
+        if (plugin->dp_mold_read == NULL)
+        {
+            disir_error_set (instance, "plugin does not implement mold_read");
+            return DISIR_STATUS_NO_CAN_DO;
+        }
+
         status = plugin->dp_mold_read (instance, plugin, entry_id, &resolved_mold);
         if (status != DISIR_STATUS_OK)
         {
@@ -45,6 +51,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
                 status = DISIR_STATUS_MOLD_MISSING;
                 disir_error_set (instance, "mold is not valid. Cannot load config.");
             }
+            if (resolved_mold)
+            {
+                disir_mold_finished (&resolved_mold);
+            }
             return status;
         }
     }
@@ -61,6 +71,10 @@ fslib_plugin_config_read (struct disir_instance *instance,
         // TODO: Check errno and set appropriate error
         // TODO: Use threadsafe strerror, or refactor entirely
         disir_error_set (instance, "opening for reading %s: %s", filepath, strerror (errno));
+        if (mold == NULL)
+        {
+            disir_mold_finished (&resolved_mold);
+        }
         return DISIR_STATUS_FS_ERROR;
     }
 
-- 
2.43.0


From 93fc40d608b71b4e9284c161907ab3b6f7564608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 103/173] fix: fslib: a plugin without mold_query made the
 config operations call NULL

---
 lib/fslib/query.cc | 12 ++++++++++++
 lib/fslib/write.c  | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 3838a12..c5ad341 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -57,6 +57,12 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
     }
     std::string searchdir = sd.str();
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not implement mold_query");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     // Stat if directory exists. If it does not, we try to create it
     status = fslib_stat_filepath (instance, searchdir.c_str(), &statbuf);
     if (status == DISIR_STATUS_NOT_EXIST)
@@ -319,6 +325,12 @@ fslib_plugin_config_query (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct disir_entry *ret = NULL;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not implement mold_query");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, &ret);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index e73d416..cd999ef 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -16,6 +16,12 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not implement mold_query");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
@@ -197,6 +203,12 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     char filepath[PATH_MAX];
     struct stat statbuf;
 
+    if (plugin->dp_mold_query == NULL)
+    {
+        disir_error_set (instance, "plugin does not implement mold_query");
+        return DISIR_STATUS_NO_CAN_DO;
+    }
+
     status = plugin->dp_mold_query (instance, plugin, entry_id, NULL);
     if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From 31682ccd53ca97ad7437945fbc43a57ab557db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 104/173] fix: fslib: report a failure to store or remove an
 entry

---
 lib/fslib/write.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/write.c b/lib/fslib/write.c
index cd999ef..f15d989 100644
--- a/lib/fslib/write.c
+++ b/lib/fslib/write.c
@@ -104,7 +104,11 @@ fslib_plugin_config_write (struct disir_instance *instance, struct disir_registe
     }
 
     status = func_serialize (instance, config, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "writing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
@@ -188,7 +192,11 @@ fslib_plugin_mold_write (struct disir_instance *instance, struct disir_register_
     }
 
     status = func_serialize (instance, mold, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        disir_error_set (instance, "writing %s: %s", filepath, strerror (errno));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
@@ -232,7 +240,11 @@ fslib_plugin_config_remove (struct disir_instance *instance,
     if (status == DISIR_STATUS_OK)
     {
         // Delete the file
-        remove (filepath);
+        if (remove (filepath) != 0)
+        {
+            disir_error_set (instance, "removing %s: %s", filepath, strerror (errno));
+            status = DISIR_STATUS_FS_ERROR;
+        }
     }
     else if (status == DISIR_STATUS_NOT_EXIST)
     {
-- 
2.43.0


From 9bce58373d8b3b00556248e09ecdf71b404a226e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:47 +0000
Subject: [PATCH 105/173] fix: fslib: check the allocation of entries

---
 lib/fslib/query.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index c5ad341..73a2814 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -111,7 +111,17 @@ fslib_config_query_entries (struct disir_instance *instance, struct disir_regist
                 }
 
                 entry = (struct disir_entry *) calloc (1, sizeof (struct disir_entry));
-                entry->de_entry_name = strdup(entry_name.c_str());
+                if (entry)
+                {
+                    entry->de_entry_name = strdup(entry_name.c_str());
+                }
+                if (entry == NULL || entry->de_entry_name == NULL)
+                {
+                    free (entry);
+                    disir_entry_finished (&mold_entry);
+                    closedir (directory);
+                    return DISIR_STATUS_NO_MEMORY;
+                }
                 entry->de_attributes = mold_entry->de_attributes;
                 MQ_ENQUEUE (*entries, entry);
 
@@ -290,7 +300,16 @@ fslib_mold_query_entries (struct disir_instance *instance, struct disir_register
                 }
 
                 entry = (struct disir_entry *) calloc (1, sizeof (struct disir_entry));
-                entry->de_entry_name = strdup(entry_name.c_str());
+                if (entry)
+                {
+                    entry->de_entry_name = strdup(entry_name.c_str());
+                }
+                if (entry == NULL || entry->de_entry_name == NULL)
+                {
+                    free (entry);
+                    closedir (directory);
+                    return DISIR_STATUS_NO_MEMORY;
+                }
                 // TODO: stat entry to get READABLE and WRITABLE
                 entry->flag.DE_READABLE = 1;
                 entry->flag.DE_WRITABLE = 1;
@@ -408,7 +427,15 @@ fslib_plugin_mold_query (struct disir_instance *instance, struct disir_register_
     if (entry != NULL)
     {
         query_entry = (struct disir_entry *) calloc (1, sizeof (struct disir_entry));
-        query_entry->de_entry_name = strdup(entry_id);
+        if (query_entry)
+        {
+            query_entry->de_entry_name = strdup(entry_id);
+        }
+        if (query_entry == NULL || query_entry->de_entry_name == NULL)
+        {
+            free (query_entry);
+            return DISIR_STATUS_NO_MEMORY;
+        }
         // TODO: Get readable and writable from statbuf
         query_entry->flag.DE_READABLE = 1;
         query_entry->flag.DE_WRITABLE = 1;
-- 
2.43.0


From 04c358e74ef2f5c75748a45cbc9e829862484905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:48 +0000
Subject: [PATCH 106/173] fix: fslib: resolving an entry by path depended on an
 undefined status

---
 lib/fslib/query.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 73a2814..6fb0404 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -469,6 +469,9 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     char *sep = NULL;
     char suffix[128];
 
+    // No override entry is found yet
+    override_status = DISIR_STATUS_NOT_EXIST;
+
     strncpy (override_filepath, entry_path, PATH_MAX);
 
     sep = strrchr (override_filepath, '.');
-- 
2.43.0


From 56da9bc39ed8f2b0cac614443c758c8c6ff46a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 107/173] fix: toml: an invalid element leaked its reference, a
 failed one was destroyed before it existed

---
 lib/fslib/toml/toml_unserialize.cc | 42 ++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 8 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 3d62845..dcd6af0 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -63,7 +63,7 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
                                 const toml::Value& value, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_KEYVAL, &context);
     if (status != DISIR_STATUS_OK)
@@ -133,10 +133,23 @@ dio_toml_unserialize_primitive (struct disir_instance *instance, const char *key
         goto error;
     }
 
-    return dc_finalize (&context);
-error:
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context)
+    {
+        // An invalid context is kept by its parent, the reference is ours
+        dc_putcontext (&context);
+    }
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        goto error;
+    }
 
-    dc_destroy (&context);
+    return status;
+error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
     return status;
 }
 
@@ -145,7 +158,7 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
                             const toml::Value& table, struct disir_context *parent)
 {
     enum disir_status status;
-    struct disir_context *context;
+    struct disir_context *context = NULL;
 
     status = dc_begin (parent, DISIR_CONTEXT_SECTION, &context);
     if (status != DISIR_STATUS_OK)
@@ -172,10 +185,23 @@ dio_toml_unserialize_table (struct disir_instance *instance, const char *key,
         goto error;
     }
 
-    return dc_finalize (&context);
-error:
+    status = dc_finalize (&context);
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context)
+    {
+        // An invalid context is kept by its parent, the reference is ours
+        dc_putcontext (&context);
+    }
+    if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
+    {
+        goto error;
+    }
 
-    dc_destroy (&context);
+    return status;
+error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
     return status;
 }
 
-- 
2.43.0


From 93f3ebdf9a5c732c345d055cb8d4ecd65abfe4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 108/173] fix: toml: the text of the config file was used as a
 format string

---
 lib/fslib/toml/toml_unserialize.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index dcd6af0..9460493 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -215,7 +215,7 @@ dio_toml_unserialize_all (struct disir_instance *instance, const char *key,
     {
     case toml::Value::NULL_TYPE:
     {
-        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.");
+        disir_log_user (instance, "TOML: Key '%s' of NULL type. Cannot reasonably handle.", key);
         status = DISIR_STATUS_INTERNAL_ERROR;
         break;
     }
@@ -280,7 +280,7 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
     if (pr.valid() == false)
     {
         disir_log_user (instance, "TOML: Parse error: %s", pr.errorReason.c_str());
-        disir_error_set (instance, pr.errorReason.c_str());
+        disir_error_set (instance, "%s", pr.errorReason.c_str());
         // XXX: Revise error code
         return DISIR_STATUS_FS_ERROR;
     }
-- 
2.43.0


From e9c8b95301d9a9a9fc3f4358f4821022ba7c8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 109/173] fix: toml: a malformed config version was set from an
 undefined one

---
 lib/fslib/toml/toml_unserialize.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index 9460493..d8540a6 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -318,12 +318,15 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                                            ATTRIBUTE_KEY_DISIR_CONFIG_VERSION,
                                            version->as<std::string>().c_str ());
             }
-            status = dc_set_version (context_config, &config_version);
-            if (status != DISIR_STATUS_OK)
+            else
             {
-                // TODO. Determine how to handle this situvation.
-                disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
-                                          disir_status_string (status));
+                status = dc_set_version (context_config, &config_version);
+                if (status != DISIR_STATUS_OK)
+                {
+                    // TODO. Determine how to handle this situvation.
+                    disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
+                                              disir_status_string (status));
+                }
             }
         }
 
-- 
2.43.0


From bbb89d0ddd93d08cf77031bc49d3fe2d03320a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:32 +0000
Subject: [PATCH 110/173] fix: toml: a config that could not be serialized was
 reported as written, references leaked

---
 lib/fslib/toml/toml_serialize.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 82e1238..91f1d1e 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -111,7 +111,7 @@ toml_serialize_inner (struct disir_context *parent,
                       toml::Value* current, const char *name)
 {
     enum disir_status status;
-    struct disir_collection *key_collection;
+    struct disir_collection *key_collection = NULL;
     struct disir_context *key_element;
     toml::Value *table;
 
@@ -238,7 +238,10 @@ toml_serialize_elements (struct disir_context *context, toml::Value* current)
         // Check if this element already exists in the current TOML value.
         // If it does, we have already added it (since there are more than one entry of it.)
         if (current->has (name))
+        {
+            dc_putcontext (&element);
             continue;
+        }
 
         status = toml_serialize_inner (context, current, name);
         if (status != DISIR_STATUS_OK)
@@ -302,6 +305,11 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     // Mjes
     status = toml_serialize_elements (context_config, current);
+    dc_putcontext (&context_config);
+    if (status != DISIR_STATUS_OK)
+    {
+        return status;
+    }
 
     boost::fdostream file(fileno(output));
     root.write (&file);
-- 
2.43.0


From 9042b111c70d19d5cbf3bce4e5b8280cb7c6cd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 111/173] fix: json: serializing a config leaked the section
 that failed

---
 lib/fslib/json/json_serialize_config.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/fslib/json/json_serialize_config.cc b/lib/fslib/json/json_serialize_config.cc
index dff6220..be4e7d9 100644
--- a/lib/fslib/json/json_serialize_config.cc
+++ b/lib/fslib/json/json_serialize_config.cc
@@ -304,7 +304,7 @@ ConfigWriter::serialize_keyval (struct disir_context *context, Json::Value& node
 enum disir_status
 ConfigWriter::_serialize_context (struct disir_context *parent_context, Json::Value& parent)
 {
-    struct disir_collection *collection;
+    struct disir_collection *collection = NULL;
     struct disir_context *child_context;
     enum disir_status status;
 
@@ -344,7 +344,7 @@ ConfigWriter::_serialize_context (struct disir_context *parent_context, Json::Va
                 if (status != DISIR_STATUS_OK)
                 {
                     // logged
-                    return status;
+                    goto end;
                 }
                 break;
             case DISIR_CONTEXT_KEYVAL:
@@ -366,7 +366,10 @@ end:
         dc_putcontext (&child_context);
     }
 
-    dc_collection_finished (&collection);
+    if (collection)
+    {
+        dc_collection_finished (&collection);
+    }
 
     return status;
 }
-- 
2.43.0


From 86d35de96f5255ceaa0225e5ea2f76b9fcee5f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 112/173] fix: json: serializing a mold leaked what it was
 working on when it failed

---
 lib/fslib/json/json_serialize_mold.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index 504ec8a..fbe47ca 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -195,8 +195,8 @@ enum disir_status
 MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::Value& keyval)
 {
     enum disir_status status;
-    struct disir_collection *coll;
-    struct disir_context *context;
+    struct disir_collection *coll = NULL;
+    struct disir_context *context = NULL;
     Json::Value defaults;
 
     status = dc_get_default_contexts (context_keyval, &coll);
@@ -210,7 +210,7 @@ MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::V
     status = serialize_attributes (context_keyval, keyval, DISIR_CONTEXT_KEYVAL);
     if (status != DISIR_STATUS_OK)
     {
-        return status;
+        goto out;
     }
 
     while (dc_collection_next (coll, &context)
@@ -219,7 +219,7 @@ MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::V
         status = serialize_default (context, defaults);
         if (status != DISIR_STATUS_OK)
         {
-            return status;
+            goto out;
         }
 
         dc_putcontext (&context);
@@ -233,7 +233,14 @@ MoldWriter::serialize_mold_keyval (struct disir_context *context_keyval, Json::V
 
     keyval[ATTRIBUTE_KEY_DEFAULTS] = defaults;
 out:
-     dc_collection_finished (&coll);
+     if (context)
+     {
+         dc_putcontext (&context);
+     }
+     if (coll)
+     {
+         dc_collection_finished (&coll);
+     }
 
      return status;
 }
@@ -401,13 +408,13 @@ MoldWriter::_serialize_mold_contexts (struct disir_context *parent_context, Json
                 status = serialize_attributes (context, child, DISIR_CONTEXT_SECTION);
                 if (status != DISIR_STATUS_OK)
                 {
-                    return status;
+                    goto end;
                 }
 
                 status = serialize_restrictions (context, child);
                 if (status != DISIR_STATUS_OK)
                 {
-                    return status;
+                    goto end;
                 }
 
                 status = _serialize_mold_contexts (context, child[ATTRIBUTE_KEY_ELEMENTS]);
-- 
2.43.0


From 7b28a363fc3f8e5ba45fea3d10d53bcb14f2d8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 113/173] fix: json: serializing restrictions leaked the one
 that failed

---
 lib/fslib/json/json_serialize_mold.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize_mold.cc b/lib/fslib/json/json_serialize_mold.cc
index fbe47ca..1d51fa8 100644
--- a/lib/fslib/json/json_serialize_mold.cc
+++ b/lib/fslib/json/json_serialize_mold.cc
@@ -251,7 +251,7 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
     enum disir_status status;
     enum disir_restriction_type rtype;
     struct disir_collection *collection;
-    struct disir_context *restriction;
+    struct disir_context *restriction = NULL;
     enum disir_value_type value_type;
     Json::Value restrictions = Json::arrayValue;
 
@@ -303,7 +303,7 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
             status = dc_restriction_get_numeric (restriction, &value);
             if (status != DISIR_STATUS_OK)
             {
-                return status;
+                goto out;
             }
 
             if (value_type == DISIR_VALUE_TYPE_FLOAT)
@@ -371,6 +371,10 @@ MoldWriter::serialize_restrictions (struct disir_context *context, Json::Value&
 
     current[ATTRIBUTE_KEY_RESTRICTIONS] = restrictions;
 out:
+    if (restriction)
+    {
+        dc_putcontext (&restriction);
+    }
     dc_collection_finished (&collection);
     return status;
 }
-- 
2.43.0


From d96ae8587876282863a5b741feeca354c4e94e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 114/173] fix: json: reading a config leaked the section that
 failed

---
 lib/fslib/json/json_unserialize_config.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_config.cc b/lib/fslib/json/json_unserialize_config.cc
index 6df5a56..74586c5 100644
--- a/lib/fslib/json/json_unserialize_config.cc
+++ b/lib/fslib/json/json_unserialize_config.cc
@@ -269,7 +269,7 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
         if (status != DISIR_STATUS_OK && status != DISIR_STATUS_INVALID_CONTEXT)
         {
             // logged
-            return status;
+            goto error;
         }
 
         status = dc_finalize (&child_context);
@@ -279,11 +279,12 @@ ConfigReader::unserialize_type (struct disir_context *context, Json::Value& valu
             // Reeling us in by only loggin the error
             disir_log_user (m_disir, "Could not finalize context: %s",
                                      disir_status_string (status));
+            goto error;
         }
 
         // If context is invalid we need to
         // get rid of our reference to it.
-        if (status == DISIR_STATUS_INVALID_CONTEXT)
+        if (status == DISIR_STATUS_INVALID_CONTEXT && child_context)
         {
             dc_putcontext (&child_context);
         }
-- 
2.43.0


From 045df192322d585410d382cd94dae91da21932fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 115/173] fix: json: reading a mold leaked the element that
 failed

---
 lib/fslib/json/json_unserialize_mold.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index f60527e..5884f74 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -96,8 +96,7 @@ MoldReader::construct_mold (struct disir_mold **mold)
         status = dc_add_documentation (context_mold, doc.c_str (), doc.size ());
         if (status != DISIR_STATUS_OK)
         {
-
-            return status;
+            goto error;
         }
     }
 
@@ -179,7 +178,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -189,7 +188,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
     if (status != DISIR_STATUS_OK
         && status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
     if (type == DISIR_CONTEXT_SECTION)
@@ -205,7 +204,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     else if  (type == DISIR_CONTEXT_KEYVAL)
@@ -214,7 +213,7 @@ MoldReader::unserialize_context (struct disir_context *parent_context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
-            return status;
+            goto error;
         }
     }
     if (status == DISIR_STATUS_INVALID_CONTEXT)
@@ -225,15 +224,21 @@ finalize:
     if (status != DISIR_STATUS_OK &&
         status != DISIR_STATUS_INVALID_CONTEXT)
     {
-        return status;
+        goto error;
     }
 
-    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    if (status == DISIR_STATUS_INVALID_CONTEXT && context)
     {
         dc_putcontext (&context);
     }
 
     return DISIR_STATUS_OK;
+error:
+    if (context)
+    {
+        dc_destroy (&context);
+    }
+    return status;
 }
 
 //! PRIVATE
@@ -651,6 +656,7 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
@@ -658,10 +664,11 @@ MoldReader::unserialize_restrictions (struct disir_context *context,
         if (status != DISIR_STATUS_OK &&
             status != DISIR_STATUS_INVALID_CONTEXT)
         {
+            dc_destroy (&restriction);
             return status;
         }
 
-        if (status == DISIR_STATUS_INVALID_CONTEXT)
+        if (status == DISIR_STATUS_INVALID_CONTEXT && restriction)
         {
             dc_putcontext (&restriction);
         }
-- 
2.43.0


From ebff0066e63a90e8f3894264904846172a577516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 116/173] fix: disir_libdisir_mold released neither its open
 section nor an invalid mold on failure

---
 lib/instance_mold.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lib/instance_mold.c b/lib/instance_mold.c
index 819feb7..560dff3 100644
--- a/lib/instance_mold.c
+++ b/lib/instance_mold.c
@@ -27,11 +27,20 @@ disir_libdisir_mold (struct disir_mold **mold)
     struct disir_context *context;
     struct disir_context *context_section;
 
+    if (mold == NULL)
+    {
+        return DISIR_STATUS_INVALID_ARGUMENT;
+    }
+
     context = NULL;
+    context_section = NULL;
 
     status = dc_mold_begin (&context);
     if (status != DISIR_STATUS_OK)
+    {
+        *mold = NULL;
         return status;
+    }
 
     status = dc_add_documentation (context,
                                    INTERNAL_MOLD_DOCSTRING,
@@ -88,11 +97,21 @@ disir_libdisir_mold (struct disir_mold **mold)
 
 
     status = dc_mold_finalize (&context, mold);
+    if (status == DISIR_STATUS_INVALID_CONTEXT)
+    {
+        // An invalid mold is still handed out to us.
+        disir_mold_finished (mold);
+        goto error;
+    }
     if (status != DISIR_STATUS_OK)
         goto error;
 
     return DISIR_STATUS_OK;
 error:
+    if (context_section)
+    {
+        dc_destroy (&context_section);
+    }
     if (context)
     {
         dc_destroy (&context);
-- 
2.43.0


From 20935b5fd435f73d80bc57b040ab053c1f35f7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 117/173] fix: disir_entry_finished dereferenced NULL when the
 entry is not reachable from the head

---
 lib/disir_entry.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/disir_entry.c b/lib/disir_entry.c
index 166c86c..991792a 100644
--- a/lib/disir_entry.c
+++ b/lib/disir_entry.c
@@ -32,7 +32,10 @@ disir_entry_finished (struct disir_entry **entry)
             }
             current = current->prev;
         }
-        current->prev = (*entry)->prev;
+        if (current != NULL)
+        {
+            current->prev = (*entry)->prev;
+        }
     }
     if ((*entry)->prev)
     {
-- 
2.43.0


From 54973cc65605b581215435fd14806269431d2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 118/173] fix: documentation difference reported strings that
 were never read

---
 lib/compare.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/compare.c b/lib/compare.c
index e9f5c70..a859a85 100644
--- a/lib/compare.c
+++ b/lib/compare.c
@@ -252,8 +252,8 @@ compare_documentation_queues (struct disir_documentation *lhs, struct disir_docu
     // Check value
     if (dx_value_compare (&lhs->dd_value, &rhs->dd_value) != 0)
     {
-        const char *doc1;
-        const char *doc2;
+        const char *doc1 = "";
+        const char *doc2 = "";
         dx_value_get_string (&lhs->dd_value, &doc1, NULL);
         dx_value_get_string (&rhs->dd_value, &doc2, NULL);
         dx_diff_report_add (report, "Documentation string differ ('%s' vs '%s')", doc1, doc2);
-- 
2.43.0


From b2bf084aae107af123c84c2037900b5ed02793a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 119/173] fix: generate logged an output size that was never
 set

---
 lib/generate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/generate.c b/lib/generate.c
index c45708e..1c21ee3 100644
--- a/lib/generate.c
+++ b/lib/generate.c
@@ -77,8 +77,8 @@ generate_config_from_mold_recursive_step (struct disir_context *mold_parent,
             status = dc_get_name (equiv, &name, &size);
             if (status != DISIR_STATUS_OK)
             {
-                log_debug (2, "failed to get name (%s). output size: %d\n",
-                           disir_status_string (status), size);
+                log_debug (2, "failed to get name (%s)\n",
+                           disir_status_string (status));
                 goto error;
             }
 
-- 
2.43.0


From b5efac4a0258ab7ffdc0781b2ca079fee147c1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 120/173] fix: cli dump released neither the config nor its
 context

---
 cli/command_dump.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cli/command_dump.cc b/cli/command_dump.cc
index b829201..aa3d861 100644
--- a/cli/command_dump.cc
+++ b/cli/command_dump.cc
@@ -71,7 +71,7 @@ CommandDump::handle_command (std::vector<std::string> &args)
     std::cout << std::endl;
 
     enum disir_status status;
-    struct disir_config *config;
+    struct disir_config *config = NULL;
     const auto& entry = args::get (opt_entry);
 
     status = disir_config_read (m_cli->disir(), m_cli->group_id().c_str(),
@@ -87,10 +87,17 @@ CommandDump::handle_command (std::vector<std::string> &args)
         {
             std::cerr << "(no error registered)" << std::endl;
         }
+        if (config)
+        {
+            disir_config_finished (&config);
+        }
         return (-1);
     }
 
-    output_config_context (dc_config_getcontext (config), 2);
+    struct disir_context *context = dc_config_getcontext (config);
+    output_config_context (context, 2);
+    dc_putcontext (&context);
+    disir_config_finished (&config);
 
     return (0);
 }
-- 
2.43.0


From f6b7cd101f7417d3653008cf3918b5f4b854513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 121/173] fix: cli generate used a config pointer that was
 never set

---
 cli/command_generate.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index 367880c..a9e2842 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -207,6 +207,9 @@ CommandGenerate::generate_entries (std::set<std::string>& entries)
 
     for (const auto entry : entries)
     {
+        mold = NULL;
+        config = NULL;
+
         status = disir_mold_read (m_cli->disir(), m_cli->group_id().c_str(),
                                   entry.c_str(), &mold);
         if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 19694f96ccfae9717f02920109e1c2e5114ff22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 122/173] fix: cli generate leaked a mold read as invalid

---
 cli/command_generate.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/command_generate.cc b/cli/command_generate.cc
index a9e2842..ef8fb50 100644
--- a/cli/command_generate.cc
+++ b/cli/command_generate.cc
@@ -224,6 +224,10 @@ CommandGenerate::generate_entries (std::set<std::string>& entries)
             {
                 std::cerr << "(no error registered)" << std::endl;
             }
+            if (mold)
+            {
+                disir_mold_finished (&mold);
+            }
             return (-1);
         }
 
-- 
2.43.0


From 3d553a2d104d8adcd785c4b37ac865e2250587d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 123/173] fix: cli import leaked molds and configs that could
 not be used

---
 cli/command_import.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index aaf1569..052abfa 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -418,7 +418,7 @@ CommandImport::read_config_version (std::string& group_id, std::string& entry_id
                                     std::string& version)
 {
     enum disir_status status;
-    struct disir_config *config;
+    struct disir_config *config = NULL;
     struct disir_version config_version;
     char buf[256];
 
@@ -433,6 +433,11 @@ CommandImport::read_config_version (std::string& group_id, std::string& entry_id
          return (0);
     }
 
+    if (config)
+    {
+        disir_config_finished (&config);
+    }
+
     return (1);
 }
 
@@ -522,6 +527,10 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         {
             std::cerr << "Failed to read mold (" << entry.ai_entry_id
                       << "): " << disir_status_string (status) << std::endl;
+            if (mold)
+            {
+                disir_mold_finished (&mold);
+            }
             return;
         }
 
@@ -530,6 +539,7 @@ CommandImport::entry_import_result_format (struct archive_entry_info& entry,
         {
             std::cerr << "Failed to read mold version: "
                       << disir_status_string (status) << std::endl;
+            disir_mold_finished (&mold);
             return;
         }
         mold_version_string = dc_version_string (buf, 256, &version);
-- 
2.43.0


From a42cdf19f48592017291de2cf56337be8a22cadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 124/173] fix: cli import read past the end of its input line
 and looped forever at end of input

---
 cli/command_import.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 052abfa..3b70154 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -189,7 +189,10 @@ CommandImport::prompt_finalize_yes_no_from_user ()
     do
     {
         std::cout << "\ndo you wish to commit the above changes? (y)es or (n)o ? ";
-        read_stdin (opt, 3);
+        if (read_stdin (opt, 3) < 0)
+        {
+            return DISIR_IMPORT_DISCARD;
+        }
         switch (opt[0])
         {
         case 'y':
@@ -209,18 +212,22 @@ int
 CommandImport::read_stdin (char *opt, unsigned int length)
 {
     std::string input;
-    std::getline (std::cin, input);
 
-    if (input.length() > length)
+    std::fill (opt, opt + length, '\0');
+
+    if (!std::getline (std::cin, input))
     {
-        return(1);
+        // No more input to read
+        return(-1);
     }
 
-    for (auto i = 0u; i < length || i < input.length(); i++)
+    if (input.length() > length)
     {
-        opt[i] = input[i];
+        return(1);
     }
 
+    std::copy (input.begin(), input.end(), opt);
+
     return 0;
 }
 
@@ -233,7 +240,12 @@ CommandImport::read_option (enum disir_import_option& option)
     {
         std::cout << "import entry [a,u,s,i,f,d,?]? ";
 
-        if (read_stdin (&opt, 1))
+        int res = read_stdin (&opt, 1);
+        if (res < 0)
+        {
+            return(1);
+        }
+        if (res)
         {
             opt = 'h';
         }
-- 
2.43.0


From 833a8325990276f01423486cf6cb75a78e53cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 125/173] fix: cli import built strings from pointers that were
 never set

---
 cli/command_import.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 3b70154..5d1714d 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -293,10 +293,10 @@ CommandImport::read_archive_entry (struct disir_import *import, int entry,
                                    struct archive_entry_info& entry_info)
 {
     enum disir_status status;
-    const char *entry_id;
-    const char *group_id;
-    const char *version;
-    const char *info_str;
+    const char *entry_id = "";
+    const char *group_id = "";
+    const char *version = "";
+    const char *info_str = NULL;
 
     status = disir_import_entry_status (import, entry, &entry_id, &group_id, &version, &info_str);
 
-- 
2.43.0


From e59790a8dbcc26bdc123745791bbcb72e175d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 126/173] fix: cli import leaked the import when it could not
 be finalized

---
 cli/command_import.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index 5d1714d..fba35fa 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -155,6 +155,10 @@ CommandImport::handle_command (std::vector<std::string> &args)
             {
                 std::cout << disir_error (m_cli->disir()) << std::endl;
             }
+            if (import)
+            {
+                disir_import_finalize (m_cli->disir(), DISIR_IMPORT_DISCARD, &import, NULL);
+            }
             return(1);
         }
         if (report)
-- 
2.43.0


From 1feb820a48178781113a2d2639c3ec34b3e35137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:17 +0000
Subject: [PATCH 127/173] fix: cli export leaked the archive when it could not
 be finalized

---
 cli/command_export.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/command_export.cc b/cli/command_export.cc
index a1db558..8d04d26 100644
--- a/cli/command_export.cc
+++ b/cli/command_export.cc
@@ -205,6 +205,12 @@ CommandExport::populate_archive (const char *path, const char *dest_path,
         if (error)
             std::cout << error << std::endl;
 
+        if (archive)
+        {
+            // Not written - discard it
+            disir_archive_finalize (m_cli->disir(), NULL, &archive);
+        }
+
         return(1);
     }
 
-- 
2.43.0


From 81b45b3b3afdd8e2ff0b3ff10c47dcf91215974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:18 +0000
Subject: [PATCH 128/173] fix: disir_archive_finalize read before the start of
 an empty archive path

---
 lib/disir_archive.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index 86464d4..f13ca07 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -351,7 +351,8 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     log_info("Finalizing archive to archive_path (%s)", archive_path);
 
     // Make sure archive path is not a directory
-    if (archive_path && archive_path[strlen (archive_path)-1] == '/')
+    if (archive_path && (archive_path[0] == '\0' ||
+                         archive_path[strlen (archive_path)-1] == '/'))
     {
         disir_error_set (instance, "invalid archive path: '%s' is a directory", archive_path);
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 2aeb988f957b7676c11b476fe6c621d84f85af6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 129/173] fix: appending to an archive dropped config entries
 whose name contains entries.toml or metadata.toml

---
 lib/disir_export.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index f9427b8..7dc2bae 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -596,10 +596,12 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     for (const auto& entry : extract_content)
     {
         // Ignore metadata files, they will be re-written in finalize.
-        if (entry.first.find ("entries.toml") != std::string::npos)
+        // The index of a backend is '<backend>/entries.toml', config entries are deeper.
+        auto slash = entry.first.find ('/');
+        if (slash != std::string::npos && entry.first.substr (slash) == "/entries.toml")
             continue;
 
-        if (entry.first.find ("metadata.toml") != std::string::npos)
+        if (entry.first == METADATA_FILENAME)
             continue;
 
         status = append_config (instance, write_archive->da_archive, entry.second.c_str(),
-- 
2.43.0


From be889de37bf52da2c7c17295ef6ce006c59d34e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:53 +0000
Subject: [PATCH 130/173] fix: cli import prompts start from a defined answer

---
 cli/command_import.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cli/command_import.cc b/cli/command_import.cc
index fba35fa..99b83d9 100644
--- a/cli/command_import.cc
+++ b/cli/command_import.cc
@@ -188,7 +188,7 @@ CommandImport::handle_command (std::vector<std::string> &args)
 enum disir_import_option
 CommandImport::prompt_finalize_yes_no_from_user ()
 {
-    char opt[3];
+    char opt[3] = { '\0' };
 
     do
     {
@@ -238,7 +238,7 @@ CommandImport::read_stdin (char *opt, unsigned int length)
 int
 CommandImport::read_option (enum disir_import_option& option)
 {
-    char opt;
+    char opt = '\0';
 
     do
     {
-- 
2.43.0


From cfe01eb82501abb0995edadfa0a17ba6b6b876bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 131/173] fix: restriction string kept when it cannot be copied

---
 lib/context_restriction.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b3c372e..350e9c8 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -468,6 +468,7 @@ enum disir_status
 dc_restriction_set_string (struct disir_context *context, const char *value)
 {
     enum disir_status status;
+    char *copy;
 
     status = CONTEXT_NULL_INVALID_TYPE_CHECK (context);
     if (status != DISIR_STATUS_OK)
@@ -491,11 +492,17 @@ dc_restriction_set_string (struct disir_context *context, const char *value)
     {
     case DISIR_RESTRICTION_EXC_VALUE_ENUM:
     {
+        // The value may be the one held already
+        copy = strdup (value);
+        if (copy == NULL)
+        {
+            return DISIR_STATUS_NO_MEMORY;
+        }
         if (context->cx_restriction->re_value_string)
         {
             free (context->cx_restriction->re_value_string);
         }
-        context->cx_restriction->re_value_string = strdup (value);
+        context->cx_restriction->re_value_string = copy;
         break;
     }
     default:
-- 
2.43.0


From 123340917ec973d8ebb273c8700988f83390c26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:52 +0000
Subject: [PATCH 132/173] fix: a float value that is not a number compared
 equal to every other float

---
 lib/util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/util.c b/lib/util.c
index 9e7ed21..026a491 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -259,7 +259,9 @@ dx_value_compare (struct disir_value *v1, struct disir_value *v2)
     case DISIR_VALUE_TYPE_INTEGER:
         return (v1->dv_integer > v2->dv_integer) - (v1->dv_integer < v2->dv_integer);
     case DISIR_VALUE_TYPE_FLOAT:
-        return (v1->dv_float > v2->dv_float) - (v1->dv_float < v2->dv_float);
+        if (v1->dv_float == v2->dv_float)
+            return 0;
+        return (v1->dv_float < v2->dv_float ? -1 : 1);
     case DISIR_VALUE_TYPE_BOOLEAN:
         return (v1->dv_boolean - v2->dv_boolean);
     default:
-- 
2.43.0


From 26668a078bf2a17c7aba78b4a352361322ec2ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 133/173] fix: name of an overridden keyval interpreted as a
 format

---
 lib/fslib/json/json_mold_namespace_override.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_mold_namespace_override.cc b/lib/fslib/json/json_mold_namespace_override.cc
index 56b0e51..c112867 100644
--- a/lib/fslib/json/json_mold_namespace_override.cc
+++ b/lib/fslib/json/json_mold_namespace_override.cc
@@ -418,7 +418,8 @@ MoldOverride::apply_override (struct disir_context *context_mold, struct mold_en
     struct disir_context *context_keyval = NULL;
     int eq;
 
-    status = dc_query_resolve_context (context_mold, entry->mo_name.c_str(), &context_keyval);
+    status = dc_query_resolve_context (context_mold, "%s", &context_keyval,
+                                       entry->mo_name.c_str());
     if (status != DISIR_STATUS_OK && status != DISIR_STATUS_NOT_EXIST)
     {
         return status;
-- 
2.43.0


From 69bcf71936b61ed06d079bc281f1ed0e5010cff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 134/173] fix: size_t logged as int when growing a collection

---
 lib/collection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index e1fd8a4..d72c668 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -279,11 +279,11 @@ dc_collection_push_context (struct disir_collection *collection, struct disir_co
     {
         reallocated_capacity = collection->cc_capacity + 10;
         reallocated_size = reallocated_capacity * sizeof (struct disir_context*);
-        log_debug (8, "Reallocating collection to new size( %d )", reallocated_size);
+        log_debug (8, "Reallocating collection to new size( %zu )", reallocated_size);
         reallocated_collection = realloc (collection->cc_collection, reallocated_size);
         if (reallocated_collection == NULL)
         {
-            log_warn ("context collection reallocation of size( %d ) failed.", reallocated_size);
+            log_warn ("context collection reallocation of size( %zu ) failed.", reallocated_size);
             return DISIR_STATUS_NO_MEMORY;
         }
         collection->cc_collection = reallocated_collection;
-- 
2.43.0


From b01cba7ad80402a6a32f65f47126b9b18aab8cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 135/173] fix: pointer logged as int in dc_get_name

---
 lib/context.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context.c b/lib/context.c
index fbe928b..6368757 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -594,7 +594,7 @@ dc_get_name (struct disir_context *context, const char **name, int32_t *name_siz
     enum disir_status status;
     struct disir_value *value;
 
-    TRACE_ENTER ("context: %p, name: %p, name_size: %d", context, name, name_size);
+    TRACE_ENTER ("context: %p, name: %p, name_size: %p", context, name, name_size);
 
     value = NULL;
 
-- 
2.43.0


From 485afd4fbbe9405c15e2157036d098fdb49dfcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 136/173] fix: 64-bit restriction values logged as int

---
 lib/context_restriction.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index 350e9c8..b64aad2 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -958,8 +958,8 @@ add_restriction_entries_min_max (struct disir_context *parent, int64_t value,
     enum disir_status status;
     struct disir_context *context_restriction;
 
-    TRACE_ENTER ("parent (%p), value (%d), version (%p), type (%s)",
-                 parent, value, version, dc_restriction_enum_string (type));
+    TRACE_ENTER ("parent (%p), value (%lld), version (%p), type (%s)",
+                 parent, (long long int)value, version, dc_restriction_enum_string (type));
 
     status = dc_begin (parent, DISIR_CONTEXT_RESTRICTION, &context_restriction);
     if (status != DISIR_STATUS_OK)
@@ -1045,8 +1045,8 @@ dx_restriction_exclusive_value_check (struct disir_context *context, int64_t int
     status = DISIR_STATUS_OK;
     allowed_written = 0;
 
-    TRACE_ENTER ("%s(%p), int (%d) float (%f)", dc_context_type_string (context), context,
-                                                integer_value, float_value);
+    TRACE_ENTER ("%s(%p), int (%lld) float (%f)", dc_context_type_string (context), context,
+                                                (long long int)integer_value, float_value);
 
     if (dc_context_type (context->cx_root_context) != DISIR_CONTEXT_CONFIG)
     {
-- 
2.43.0


From 448f51ac1fa5800d1b6f7abe8ff0e4067e8643cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 137/173] fix: 64-bit reference count logged as int

---
 lib/context_util.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index 99c6c90..0a8e6f3 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -155,7 +155,8 @@ dx_context_incref (struct disir_context *context)
 {
     context->cx_refcount++;
     log_debug_context (9, context,
-                       "(%p) increased refcount to: %d", context, context->cx_refcount);
+                       "(%p) increased refcount to: %lld", context,
+                       (long long int)context->cx_refcount);
 }
 
 //! INTERNAL API
@@ -178,8 +179,8 @@ dx_context_decref (struct disir_context **context)
     }
     else
     {
-        log_debug_context (9, *context, "(%p) reduced refcount to: %d",
-                           *context, (*context)->cx_refcount);
+        log_debug_context (9, *context, "(%p) reduced refcount to: %lld",
+                           *context, (long long int)(*context)->cx_refcount);
     }
 }
 
-- 
2.43.0


From 6795fc8b7b669a2f77c6f3a44b205a7f06d7f63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 138/173] fix: message about a context type used as a format

---
 lib/context_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index 0a8e6f3..4b439e5 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -448,7 +448,7 @@ dx_context_type_check_log_error (struct disir_context *context, ...)
         // Do we have anything to write?
         if (buffer != buf)
         {
-            log_error (buffer);
+            log_error ("%s", buffer);
         }
     }
 
-- 
2.43.0


From f4700e8673a315878edff797a85a39d91b55106b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 139/173] fix: 64-bit value logged as int in
 dc_set_value_integer

---
 lib/context_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/context_value.c b/lib/context_value.c
index 7a17b8c..a6b94e3 100644
--- a/lib/context_value.c
+++ b/lib/context_value.c
@@ -560,7 +560,7 @@ dc_set_value_integer (struct disir_context *context, int64_t value)
     enum disir_status invalid;
     struct disir_value *value_storage;
 
-    TRACE_ENTER ("context (%p) value (%d)", context, value);
+    TRACE_ENTER ("context (%p) value (%lld)", context, (long long int)value);
 
     invalid = set_value_input_check (context, DISIR_VALUE_TYPE_INTEGER, &value_storage);
     if (invalid != DISIR_STATUS_OK && invalid != DISIR_STATUS_INVALID_CONTEXT)
-- 
2.43.0


From 642584eef74188790afe3d5153e5050d3a26ae06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 140/173] fix: 64-bit size logged as int in dx_value_set_string

---
 lib/util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 026a491..01ead80 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -488,8 +488,8 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
     // Terminate it with a zero terminator. Just to be safe.
     value->dv_string[size] = '\0';
 
-    log_debug (5, "stored string in disir_value (%p) of size (%d): %s\n",
-               value, value->dv_size, value->dv_string);
+    log_debug (5, "stored string in disir_value (%p) of size (%lld): %s\n",
+               value, (long long int)value->dv_size, value->dv_string);
 
     return DISIR_STATUS_OK;
 }
-- 
2.43.0


From 80f32045b0db1e6539bb0e62d70e77af54a89977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 141/173] fix: log message that does not fit ended the program

---
 lib/log.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/log.c b/lib/log.c
index 2ffdda8..6a72adc 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -141,8 +141,8 @@ dx_log_format (enum disir_log_level dll, int severity, const char *prefix,
     time_written = strftime (buffer, buffer_size, "[%Y-%m-%d %H:%M:%S]", utctime);
     if (time_written >= buffer_size || time_written == 0)
     {
-        dx_crash_and_burn ("strftime returned: %d - not within buffer size: %d",
-            time_written, buffer_size);
+        // Cannot format the timestamp - drop the message
+        return;
     }
 
     // Prepare the log level prefix string
@@ -173,9 +173,8 @@ dx_log_format (enum disir_log_level dll, int severity, const char *prefix,
             );
     if (res >= (int)(buffer_size - time_written) || res < 0)
     {
-        // Buffer not large enough, or encoding error..
-        dx_crash_and_burn ("snprintf() returned res: %d - size: %d",
-            res, buffer_size - time_written);
+        // Buffer not large enough, or encoding error.. - drop the message
+        return;
     }
 
     // Prepare outgoing stream
-- 
2.43.0


From 8f756e5c4e1e3f10b743595bb2b0886553dba290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 142/173] fix: log prefix used although it did not fit its
 buffer

---
 lib/log.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/log.c b/lib/log.c
index 6a72adc..006ea38 100644
--- a/lib/log.c
+++ b/lib/log.c
@@ -346,7 +346,7 @@ dx_log_disir (enum disir_log_level dll,
     {
         //! Prepare the log prefix message.
         res = snprintf (buffer, prefix_size, "Context[%s]", dc_context_type_string (context));
-        if (res > 0 || res < prefix_size)
+        if (res > 0 && res < prefix_size)
         {
             buffer[res] = '\0';
             prefix = buffer;
-- 
2.43.0


From 600bd98af99c3f65f9f1d869253b331b9f4e1b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 143/173] fix: message about a context type that does not fit
 ended the program

---
 lib/context_util.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/context_util.c b/lib/context_util.c
index 4b439e5..371188d 100644
--- a/lib/context_util.c
+++ b/lib/context_util.c
@@ -396,7 +396,6 @@ dx_context_type_check_log_error (struct disir_context *context, ...)
             else
             {
                 // Insufficient buffer
-                dx_crash_and_burn ("TODO: Re-allocate log buffer - too small");
                 status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
             }
         }
@@ -442,7 +441,10 @@ dx_context_type_check_log_error (struct disir_context *context, ...)
             va_end (ap);
 
             // Remove the last comma
-            *(buf - 1) = '\0';
+            if (buf != buffer)
+            {
+                *(buf - 1) = '\0';
+            }
         }
 
         // Do we have anything to write?
-- 
2.43.0


From 0436116ef74ebf1c197f4dae9164fc5f16a55c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 144/173] fix: copying a value of unknown type ended the
 program

---
 lib/util.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/util.c b/lib/util.c
index 01ead80..670a6f2 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -290,12 +290,11 @@ dx_value_copy (struct disir_value *destination, struct disir_value *source)
         return dx_value_set_boolean (destination, source->dv_boolean);
         break;
     case DISIR_VALUE_TYPE_UNKNOWN:
-        dx_crash_and_burn ("%s unhandled", __func__);
         break;
     }
 
-    // Never reached
-    return DISIR_STATUS_INTERNAL_ERROR;
+    log_debug (0, "invoked with value of unknown type (%d)", source->dv_type);
+    return DISIR_STATUS_WRONG_VALUE_TYPE;
 }
 
 // INTERNAL API
-- 
2.43.0


From 82099f7a0a088d3f2bd8ae3c8887aaddfa33a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:31 +0000
Subject: [PATCH 145/173] fix: validating an element in fatal state ended the
 program

---
 lib/validate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index 75af03e..06eed31 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -820,10 +820,10 @@ dx_validate_context (struct disir_context *context)
         && context->cx_parent_context->CONTEXT_STATE_FINALIZED
         && status != DISIR_STATUS_OK)
     {
-        // if status is DISIR_STATUS_INVALID_CONTEXT, we have made a mistake earlier.
+        // An element below us that is still constructing is in fatal state.
         if (status == DISIR_STATUS_INVALID_CONTEXT)
         {
-            dx_crash_and_burn ("VALIDITY CHECK PROGRAMMER ERROR: RETURNED INVALID_CONTEXT");
+            status = DISIR_STATUS_ELEMENTS_INVALID;
         }
 
         // we are returning status as-is.
-- 
2.43.0


From 6fdda9e2188d34ae52592114f63014595e1903cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:23 +0000
Subject: [PATCH 146/173] fix: an archive path longer than PATH_MAX overran a
 stack buffer

---
 lib/disir_archive.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/disir_archive.cc b/lib/disir_archive.cc
index f13ca07..99aa777 100644
--- a/lib/disir_archive.cc
+++ b/lib/disir_archive.cc
@@ -294,7 +294,7 @@ disir_archive_append_group (struct disir_instance *instance, struct disir_archiv
 
 //! STATIC FUNCTION
 static enum disir_status
-get_dirname (const char *archive_path, char *dirpath)
+get_dirname (const char *archive_path, char *dirpath, size_t dirpath_size)
 {
     enum disir_status status;
     char *temp_path = NULL;
@@ -316,7 +316,11 @@ get_dirname (const char *archive_path, char *dirpath)
         status = DISIR_STATUS_FS_ERROR;
     }
 
-    strcpy (dirpath, temp_dirname);
+    if ((size_t) snprintf (dirpath, dirpath_size, "%s", temp_dirname) >= dirpath_size)
+    {
+        log_error ("the directory of given filepath '%s' is too long", archive_path);
+        status = DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
     free (temp_path);
 
     return status;
@@ -361,7 +365,7 @@ disir_archive_finalize (struct disir_instance *instance, const char *archive_pat
     // Get directory path of location to store new archive
     if (archive_path)
     {
-        status = get_dirname (archive_path, extract_folder_path);
+        status = get_dirname (archive_path, extract_folder_path, sizeof (extract_folder_path));
         if (status != DISIR_STATUS_OK)
         {
             goto out;
-- 
2.43.0


From ae427f276902424b445a30300742d7c6ccbf16f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:24 +0000
Subject: [PATCH 147/173] fix: appending the archive extension overran a stack
 buffer for a long path

---
 lib/disir_archive_util.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 99c9937..a593f08 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -802,14 +802,17 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
     char archive_path_with_extension[4096];
     const char *ext = NULL;
 
-    strcpy (archive_path_with_extension, new_archive_path);
     backup_path[0] = '\0';
 
     // Append extension if it doesn't already exists
     ext = strrchr (new_archive_path, '.');
-    if (ext == NULL || strcmp (ext, ".disir") != 0)
+    ret = snprintf (archive_path_with_extension, sizeof (archive_path_with_extension), "%s%s",
+                    new_archive_path,
+                    (ext == NULL || strcmp (ext, ".disir") != 0 ? ".disir" : ""));
+    if (ret < 0 || (size_t) ret >= sizeof (archive_path_with_extension))
     {
-        strcat (archive_path_with_extension, ".disir");
+        log_error ("archive path '%s' is too long", new_archive_path);
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
     // CASE 1: Finalizing a new archive to given location
-- 
2.43.0


From 3ef4bb70757b70edc79673a7c91b2f3c1a1c06c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 148/173] fix: the backup path of a long archive path overran a
 stack buffer

---
 lib/disir_archive_util.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index a593f08..8e7e5b6 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -852,8 +852,12 @@ dx_archive_disk_append (const char *new_archive_path, const char *existing_archi
         (strcmp (existing_archive_path, archive_path_with_extension) == 0))
     {
         // Rename existing archive with backup extension.
-        strncat (backup_path, existing_archive_path, PATH_MAX-1);
-        strncat (backup_path, ".backup", PATH_MAX-1);
+        ret = snprintf (backup_path, sizeof (backup_path), "%s.backup", existing_archive_path);
+        if (ret < 0 || (size_t) ret >= sizeof (backup_path))
+        {
+            log_error ("archive path '%s' is too long", existing_archive_path);
+            return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+        }
         ret = rename (existing_archive_path, backup_path);
         if (ret != 0)
         {
-- 
2.43.0


From e8183cfa37a453540711f41b59a6c4f6308269c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:25 +0000
Subject: [PATCH 149/173] fix: the namespace of an entry longer than PATH_MAX
 overran the caller's buffer

---
 lib/fslib/namespace.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/namespace.cc b/lib/fslib/namespace.cc
index 794ac45..d4814d9 100644
--- a/lib/fslib/namespace.cc
+++ b/lib/fslib/namespace.cc
@@ -1,6 +1,7 @@
 
 #include <disir/fslib/util.h>
 
+#include <limits.h>
 #include <string.h>
 
 // FSLIB API
@@ -12,7 +13,7 @@ fslib_namespace_entry (const char *name, char *namespace_entry)
     // We must check if this covered by a namespace entry
     // Remove everything after the last /
     const char *found = strrchr (name, '/');
-    if (found == NULL)
+    if (found == NULL || found - name + 1 >= PATH_MAX)
         return NULL;
 
     memcpy (namespace_entry, name, found - name + 1);
-- 
2.43.0


From f654f0fb38d6aef776892b073e0b50d4399a8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 150/173] fix: mold and namespace paths close to PATH_MAX
 overran the caller's buffers

---
 lib/fslib/query.cc | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/lib/fslib/query.cc b/lib/fslib/query.cc
index 6fb0404..f25aeb9 100644
--- a/lib/fslib/query.cc
+++ b/lib/fslib/query.cc
@@ -472,34 +472,31 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
     // No override entry is found yet
     override_status = DISIR_STATUS_NOT_EXIST;
 
-    strncpy (override_filepath, entry_path, PATH_MAX);
+    if (snprintf (override_filepath, PATH_MAX, "%s", entry_path) >= PATH_MAX)
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
 
     sep = strrchr (override_filepath, '.');
     if (sep == NULL)
         return DISIR_STATUS_FS_ERROR;
 
-    strncpy (suffix, sep, 128);
+    if ((size_t) snprintf (suffix, sizeof (suffix), "%s", sep) >= sizeof (suffix))
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
 
     // first check if the requested entry is an override entry
-    if (strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
+    if (sep - override_filepath >= (int) strlen (".o")
+        && strncmp (sep - strlen (".o"), ".o", strlen (".o")) == 0)
     {
-        strncpy (filepath, entry_path, PATH_MAX);
-
-        sep = strrchr (filepath, '.');
-        if (sep == NULL)
-            return DISIR_STATUS_FS_ERROR;
-
-        sep -= strlen(".o");
-        *sep = '\0';
-
-        strcat (filepath, suffix);
+        // The path without the marker
+        snprintf (filepath, PATH_MAX, "%.*s%s", (int) (sep - strlen (".o") - override_filepath),
+                  override_filepath, suffix);
 
         override_status = fslib_stat_filepath (instance, override_filepath, statbuf);
     }
     else
     {
         *override_filepath = '\0';
-        strncpy (filepath, entry_path, PATH_MAX);
+        if (snprintf (filepath, PATH_MAX, "%s", entry_path) >= PATH_MAX)
+            return DISIR_STATUS_INSUFFICIENT_RESOURCES;
     }
 
     status = fslib_stat_filepath (instance, filepath, statbuf);
@@ -514,8 +511,11 @@ fslib_mold_resolve_entry_filepath (struct disir_instance *instance, const char *
         return DISIR_STATUS_FS_ERROR;
     }
 
-    strcat (filepath, "/__namespace.");
-    strcat (filepath, suffix);
+    std::string nominal (filepath);
+    if (snprintf (filepath, PATH_MAX, "%s/__namespace.%s", nominal.c_str(), suffix) >= PATH_MAX)
+    {
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
 
     status = fslib_stat_filepath (instance, filepath, statbuf);
     if (status != DISIR_STATUS_OK)
@@ -594,8 +594,13 @@ fslib_mold_resolve_entry_id (struct disir_instance *instance, struct disir_regis
 
     *sep = '\0';
 
-    strcat (filepath, "/__namespace.");
-    strcat (filepath, plugin->dp_mold_entry_type);
+    std::string directory (filepath);
+    if (snprintf (filepath, PATH_MAX, "%s/__namespace.%s", directory.c_str(),
+                  plugin->dp_mold_entry_type) >= PATH_MAX)
+    {
+        *filepath = '\0';
+        return DISIR_STATUS_INSUFFICIENT_RESOURCES;
+    }
 
     // Attempt to find the namespace entry file.
     status = fslib_stat_filepath (instance, filepath, statbuf);
-- 
2.43.0


From 1983873a52cc9a1a838d719b80f02de637fda953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:49 +0000
Subject: [PATCH 151/173] fix: a string value that could not be stored kept the
 size of the one before

---
 lib/util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/util.c b/lib/util.c
index 670a6f2..b303715 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -468,6 +468,7 @@ dx_value_set_string (struct disir_value *value, const char *input, int32_t size)
         {
             free (value->dv_string);
             value->dv_string = NULL;
+            value->dv_size = 0;
         }
 
         // Size of requested string + 1 for NULL terminator
-- 
2.43.0


From c3a19b3f3d3676f99b230a3c45a8a9f0743578de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 152/173] fix: a string value asked for with an empty buffer
 was copied without bound

---
 lib/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/util.c b/lib/util.c
index b303715..c23c9aa 100644
--- a/lib/util.c
+++ b/lib/util.c
@@ -196,6 +196,11 @@ dx_value_stringify (struct disir_value *value, int32_t output_buffer_size,
         size = value->dv_size;
         copy_size = size;
 
+        if (output_buffer_size <= 0)
+        {
+            // Not even room for a terminator - only tell the size
+            break;
+        }
         if (copy_size >= output_buffer_size)
         {
             // Set size to be output_buffer_size - 1,
-- 
2.43.0


From 97f58b282c8ad6a1163ea94198ae20355d5c7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 153/173] fix: a default that could not be read was left out of
 a mold read as complete

---
 lib/fslib/json/json_unserialize_mold.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/json/json_unserialize_mold.cc b/lib/fslib/json/json_unserialize_mold.cc
index 5884f74..d276a79 100644
--- a/lib/fslib/json/json_unserialize_mold.cc
+++ b/lib/fslib/json/json_unserialize_mold.cc
@@ -718,7 +718,7 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
         {
             disir_log_user (m_disir, "dc_begin resulted in error: %s",
                                      disir_status_string (status));
-            continue;
+            return status;
         }
 
         if (def[ATTRIBUTE_KEY_VALUE].isNull ())
@@ -739,6 +739,8 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
             {
                 disir_log_user (m_disir, "Unable to set value on context: %s",
                                        disir_status_string (status));
+                dc_destroy (&context_default);
+                return status;
             }
             else if (status == DISIR_STATUS_WRONG_VALUE_TYPE)
             {
@@ -751,6 +753,14 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
             if (status == DISIR_STATUS_OK)
             {
                 status = unserialize_introduced (context_default, def);
+                // A malformed version is noted on the default itself
+                if (status != DISIR_STATUS_OK &&
+                    status != DISIR_STATUS_INVALID_CONTEXT &&
+                    status != DISIR_STATUS_INVALID_ARGUMENT)
+                {
+                    dc_destroy (&context_default);
+                    return status;
+                }
             }
         }
 
@@ -761,6 +771,7 @@ MoldReader::unserialize_defaults (struct disir_context *context_keyval, Json::Va
              disir_error_set (m_disir, "could not finalize default: %s",
                                         disir_status_string (status));
              dc_destroy(&context_default);
+             return status;
         }
 
         if (status == DISIR_STATUS_INVALID_CONTEXT)
-- 
2.43.0


From ddf102144d925dded30c17fd53122ee327ace403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 154/173] fix: invalid elements that could not be collected
 were left out of the answer

---
 lib/validate.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/validate.c b/lib/validate.c
index 06eed31..245e342 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -892,7 +892,11 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
     {
         if (collection && (invalid == DISIR_STATUS_INVALID_CONTEXT))
         {
-            dc_collection_push_context (collection, context);
+            status = dc_collection_push_context (collection, context);
+            if (status != DISIR_STATUS_OK)
+            {
+                return status;
+            }
         }
     }
 
@@ -921,11 +925,16 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
         status = dc_context_valid (element);
         if (status == DISIR_STATUS_INVALID_CONTEXT)
         {
+            invalid = status;
             if (collection)
             {
-                dc_collection_push_context (collection, element);
+                status = dc_collection_push_context (collection, element);
+                if (status != DISIR_STATUS_OK)
+                {
+                    dc_putcontext (&element);
+                    break;
+                }
             }
-            invalid = status;
         }
 
         // Recurse the sections
@@ -936,6 +945,11 @@ dx_invalid_elements (struct disir_context *context, struct disir_collection *col
             {
                 invalid = status;
             }
+            else if (status != DISIR_STATUS_OK)
+            {
+                dc_putcontext (&element);
+                break;
+            }
         }
 
         dc_putcontext (&element);
-- 
2.43.0


From 432126d51f853a1a67c8d628f6efec7d1762f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 155/173] fix: restrictions that could not be collected were
 left out of the answer

---
 lib/context_restriction.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/context_restriction.c b/lib/context_restriction.c
index b64aad2..979564c 100644
--- a/lib/context_restriction.c
+++ b/lib/context_restriction.c
@@ -1549,7 +1549,12 @@ dc_restriction_collection (struct disir_context *context, struct disir_collectio
 
     MQ_FOREACH (*rcol,
     {
-        dc_collection_push_context (col, entry->re_context);
+        status = dc_collection_push_context (col, entry->re_context);
+        if (status != DISIR_STATUS_OK)
+        {
+            dc_collection_finished (&col);
+            return status;
+        }
     });
 
     if (dc_collection_size(col) == 0)
-- 
2.43.0


From e9124adba543dae5c892a95cbd0e14d33c0c780f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 156/173] fix: libdisir config that could not be written to
 disk was reported as written

---
 lib/instance_mold.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/instance_mold.c b/lib/instance_mold.c
index 560dff3..fb819be 100644
--- a/lib/instance_mold.c
+++ b/lib/instance_mold.c
@@ -165,7 +165,12 @@ disir_libdisir_config_to_disk (struct disir_instance *instance, struct disir_con
     }
 
     status = dio_toml_serialize_config (instance, config, file);
-    fclose (file);
+    if (fclose (file) != 0 && status == DISIR_STATUS_OK)
+    {
+        errsv = errno;
+        log_error ("failed to write libdisir config file: %s", strerror (errsv));
+        status = DISIR_STATUS_FS_ERROR;
+    }
 
     return status;
 }
-- 
2.43.0


From d39e160181c13f9bf7c4bf1e99c7d9bd97bbb9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 157/173] fix: config was marked updated although a new default
 could not be stored

---
 lib/update.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/update.c b/lib/update.c
index e384765..eee1036 100644
--- a/lib/update.c
+++ b/lib/update.c
@@ -238,7 +238,13 @@ disir_update_continue (struct disir_update *update)
         {
             // Config has not changed since its last update value.
             // We can safely update the stored value in config with new default
-            dx_value_copy (&keyval->kv_value, &target_def->de_value);
+            status = dx_value_copy (&keyval->kv_value, &target_def->de_value);
+            if (status != DISIR_STATUS_OK)
+            {
+                update->up_context_keyval = NULL;
+                dc_putcontext (&config_keyval);
+                return status;
+            }
             // TODO: Add update report entry
             update->up_updated++;
         }
-- 
2.43.0


From 9f7996fa422e05d773ed253718ee93578d2e85e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 158/173] fix: damaged archive was extracted up to the damage
 and reported as complete

---
 lib/disir_archive_util.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index 8e7e5b6..fe64457 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -144,7 +144,7 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
 
     status = DISIR_STATUS_OK;
 
-    while (archive_read_next_header (read_archive, &entry) == ARCHIVE_OK)
+    while ((ret = archive_read_next_header (read_archive, &entry)) == ARCHIVE_OK)
     {
         if (archive_entry_pathname (entry) == NULL ||
             snprintf (path, PATH_MAX, "%s/%s", extract_path,
@@ -198,9 +198,15 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
             log_error ("could not finish archive write entry: %s",
                         archive_error_string (read_archive));
             status = DISIR_STATUS_FS_ERROR;
-            break;
+            goto out;
         }
     }
+
+    if (ret != ARCHIVE_EOF)
+    {
+        log_error ("could not read archive entry: %s", archive_error_string (read_archive));
+        status = DISIR_STATUS_FS_ERROR;
+    }
     // FALL-THROUGH
 out:
     if (write_archive)
-- 
2.43.0


From a72f0629ceb9e78741e9d5a9e0f842d8b024bd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:57 +0000
Subject: [PATCH 159/173] fix: archive entry whose header could not be written
 was reported as written

---
 lib/disir_export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 7dc2bae..8aea4be 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -161,7 +161,7 @@ populate_archive_entry (struct archive *archive, struct archive_entry *entry,
     ret = archive_write_header (archive, entry);
     if (ret != ARCHIVE_OK)
     {
-        if (ret == ARCHIVE_FATAL)
+        if (ret < ARCHIVE_WARN)
         {
             log_error ("error writing archive header: %s", archive_error_string (archive));
             return DISIR_STATUS_FS_ERROR;
-- 
2.43.0


From 07c47ccd755446fb9063025fa6dffa93985a09b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 160/173] fix: TOML config of a version its mold does not reach
 was read as another version

---
 lib/fslib/toml/toml_unserialize.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/fslib/toml/toml_unserialize.cc b/lib/fslib/toml/toml_unserialize.cc
index d8540a6..c9b23cd 100644
--- a/lib/fslib/toml/toml_unserialize.cc
+++ b/lib/fslib/toml/toml_unserialize.cc
@@ -323,9 +323,10 @@ dio_toml_unserialize_config (struct disir_instance *instance, FILE *input,
                 status = dc_set_version (context_config, &config_version);
                 if (status != DISIR_STATUS_OK)
                 {
-                    // TODO. Determine how to handle this situvation.
                     disir_log_user (instance, "TOML: Failed to set version on CONTEXT_CONFIG: %s",
                                               disir_status_string (status));
+                    dc_destroy (&context_config);
+                    return status;
                 }
             }
         }
-- 
2.43.0


From f9499daacbebab7793c7cf29328792c414d5d60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 161/173] fix: keyvals that could not be counted were counted
 as none when creating one

---
 lib/disir_config_query.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index 35b5e51..8183855 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -207,6 +207,11 @@ config_ensure_keyval_leaf (struct disir_context *immediate_parent, const char *k
         num_elements = dc_collection_size (collection);
         dc_collection_finished (&collection);
     }
+    else if (status != DISIR_STATUS_NOT_EXIST)
+    {
+        log_warn ("unable to find keyval: %s", disir_status_string (status));
+        return status;
+    }
     if (keyval_index != num_elements)
     {
         dx_context_error_set (immediate_parent,
-- 
2.43.0


From daa41d2ccc1c1d0a5f4401b51f5be58acef8db88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 162/173] fix: elements that could not be counted were counted
 as none against their maximum

---
 lib/context.c  | 14 +++++++++++---
 lib/validate.c |  9 +++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/context.c b/lib/context.c
index 6368757..74a0c8e 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -548,9 +548,17 @@ dc_set_name (struct disir_context *context, const char *name, int32_t name_size)
         {
             // check if number of elements in parent exceed size of restriction
             dx_restriction_entries_value (context, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
-            dc_find_elements (context->cx_parent_context, name, &collection);
-            current_entries_count = dc_collection_size (collection);
-            dc_collection_finished (&collection);
+            current_entries_count = 0;
+            status = dc_find_elements (context->cx_parent_context, name, &collection);
+            if (status == DISIR_STATUS_OK)
+            {
+                current_entries_count = dc_collection_size (collection);
+                dc_collection_finished (&collection);
+            }
+            else if (status != DISIR_STATUS_NOT_EXIST)
+            {
+                return status;
+            }
 
             log_debug (4, "Maximum restriction for entry '%s' = %d (currently at %d",
                           name, max, current_entries_count);
diff --git a/lib/validate.c b/lib/validate.c
index 245e342..1cbc0fa 100644
--- a/lib/validate.c
+++ b/lib/validate.c
@@ -230,6 +230,7 @@ validate_exclusive_restrictions (struct disir_context *context)
 static enum disir_status
 validate_finalized_parent_constructing_child_violating_max_restriction (struct disir_context *child)
 {
+    enum disir_status status;
     int max;
     int current_entries_count;
     struct disir_collection *collection;
@@ -273,12 +274,16 @@ validate_finalized_parent_constructing_child_violating_max_restriction (struct d
 
     // Query all entries in parent with our name. Check if it is exhausted.
     dx_restriction_entries_value (child, DISIR_RESTRICTION_INC_ENTRY_MAX, NULL, &max);
-    dc_find_elements (child->cx_parent_context, name, &collection);
-    if (collection)
+    status = dc_find_elements (child->cx_parent_context, name, &collection);
+    if (status == DISIR_STATUS_OK)
     {
         current_entries_count = dc_collection_size (collection);
         dc_collection_finished (&collection);
     }
+    else if (status != DISIR_STATUS_NOT_EXIST)
+    {
+        return status;
+    }
 
     if (max != 0 && max <= current_entries_count)
     {
-- 
2.43.0


From ec759d1706456aca460ee64a295f04921e4512de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 163/173] fix: keyval that could not be looked up was created
 beside the existing one

---
 lib/disir_config_query.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_config_query.c b/lib/disir_config_query.c
index 8183855..a16a645 100644
--- a/lib/disir_config_query.c
+++ b/lib/disir_config_query.c
@@ -350,7 +350,7 @@ config_set_keyval_generic (struct disir_context *parent, enum disir_value_type t
             }
             dc_putcontext (&context);
         }
-        else
+        else if (status == DISIR_STATUS_NOT_EXIST)
         {
             log_debug (2, "Our keyval doesnt exist (%s)- validate query and create it",
                           disir_status_string (status));
-- 
2.43.0


From 14078bb0ba3a9ab97f3e05ef181e195fe300cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 164/173] fix: plugin was registered without the base ids it
 was configured with

---
 lib/disir.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/disir.c b/lib/disir.c
index c249ce6..4475a2b 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -59,6 +59,12 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         plugin.dp_config_base_id = strndup (config_base_id, 512);
     if (mold_base_id)
         plugin.dp_mold_base_id = strndup (mold_base_id, 512);
+    if ((config_base_id && plugin.dp_config_base_id == NULL) ||
+        (mold_base_id && plugin.dp_mold_base_id == NULL))
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
 
     status = dio_reg (instance, &plugin);
     if (status != DISIR_STATUS_OK)
-- 
2.43.0


From 3603044dbcc5b584a96048bc4fc9c6d5ba9a8bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 165/173] fix: plugin was loaded without its filepath when
 memory ran out

---
 lib/disir.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 4475a2b..463aebd 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -30,6 +30,7 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
     struct disir_register_plugin plugin;
     struct disir_register_plugin_internal *internal;
     plugin_register dio_reg;
+    char *filepath = NULL;
 
     // Populate the plugin object
     memset (&plugin, 0, sizeof (struct disir_register_plugin));
@@ -66,6 +67,13 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
 
+    filepath = strndup (plugin_filepath, 512);
+    if (filepath == NULL)
+    {
+        status = DISIR_STATUS_NO_MEMORY;
+        goto error;
+    }
+
     status = dio_reg (instance, &plugin);
     if (status != DISIR_STATUS_OK)
     {
@@ -94,10 +102,11 @@ load_plugin (struct disir_instance *instance, const char *plugin_filepath, const
         goto error;
     }
     internal->pi_dl_handler = handle;
-    internal->pi_filepath = strndup (plugin_filepath, 512);
+    internal->pi_filepath = filepath;
 
     return DISIR_STATUS_OK;
 error:
+    free (filepath);
     free (plugin.dp_config_base_id);
     free (plugin.dp_mold_base_id);
     if (handle)
-- 
2.43.0


From aefedaa33190b3b622cb38a9de98758b677dc3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 166/173] fix: config or mold that could not be written was
 reported as written

---
 lib/fslib/json/json_serialize.cc | 18 ++++++++++++++++--
 lib/fslib/toml/toml_serialize.cc |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/fslib/json/json_serialize.cc b/lib/fslib/json/json_serialize.cc
index 704d79c..d5e338c 100644
--- a/lib/fslib/json/json_serialize.cc
+++ b/lib/fslib/json/json_serialize.cc
@@ -21,7 +21,14 @@ dio_json_serialize_config (struct disir_instance *instance,
         boost::fdostream file(fileno(output));
         dio::ConfigWriter writer (NULL);
 
-         return writer.serialize (config, file);
+        enum disir_status status = writer.serialize (config, file);
+        if (status == DISIR_STATUS_OK && file.fail ())
+        {
+            disir_error_set (instance, "JSON: failed to write config");
+            status = DISIR_STATUS_FS_ERROR;
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
@@ -41,7 +48,14 @@ dio_json_serialize_mold (struct disir_instance *instance,
         boost::fdostream file(fileno(output));
         dio::MoldWriter writer (instance);
 
-        return writer.serialize (mold, file);
+        enum disir_status status = writer.serialize (mold, file);
+        if (status == DISIR_STATUS_OK && file.fail ())
+        {
+            disir_error_set (instance, "JSON: failed to write mold");
+            status = DISIR_STATUS_FS_ERROR;
+        }
+
+        return status;
     }
     catch (std::exception& e)
     {
diff --git a/lib/fslib/toml/toml_serialize.cc b/lib/fslib/toml/toml_serialize.cc
index 91f1d1e..517bc92 100644
--- a/lib/fslib/toml/toml_serialize.cc
+++ b/lib/fslib/toml/toml_serialize.cc
@@ -313,6 +313,11 @@ dio_toml_serialize_config (struct disir_instance *instance,
 
     boost::fdostream file(fileno(output));
     root.write (&file);
+    if (file.fail ())
+    {
+        disir_error_set (instance, "TOML: failed to write config");
+        return DISIR_STATUS_FS_ERROR;
+    }
 
     disir_log_user (instance, "TRACE EXIT serialize_config");
     return DISIR_STATUS_OK;
-- 
2.43.0


From 8008c2aeeb76310a601131459c4b584859d51e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:56 +0000
Subject: [PATCH 167/173] fix: disir_instance_destroy: hand a plugin its own
 record when it ends, as the signature says

---
 lib/disir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir.c b/lib/disir.c
index 463aebd..45085de 100644
--- a/lib/disir.c
+++ b/lib/disir.c
@@ -353,7 +353,7 @@ disir_instance_destroy (struct disir_instance **instance)
         // Call cleanup method specified by plugin.
         if (plugin->pi_plugin.dp_plugin_finished)
         {
-            plugin->pi_plugin.dp_plugin_finished (*instance, plugin->pi_plugin.dp_storage);
+            plugin->pi_plugin.dp_plugin_finished (*instance, &plugin->pi_plugin);
         }
 
         // Plugins registered by the user are not loaded from disk
-- 
2.43.0


From 233dcad5a6d773ca523d455f4cd0319f7d67d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:33 +0000
Subject: [PATCH 168/173] fix: dx_archive_begin_existing: an empty archive path
 was read before its first character (read out of bounds)

---
 lib/disir_export.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disir_export.cc b/lib/disir_export.cc
index 8aea4be..981f57d 100644
--- a/lib/disir_export.cc
+++ b/lib/disir_export.cc
@@ -540,7 +540,7 @@ dx_archive_begin_existing (struct disir_instance *instance, const char *archive_
     const char *ext = NULL;
 
     // Make sure archive path is not a directory
-    if (archive_path[strlen(archive_path)-1] == '/')
+    if (archive_path[0] == '\0' || archive_path[strlen(archive_path)-1] == '/')
     {
         disir_error_set (instance, "invalid archive path: input path is a directory");
         return DISIR_STATUS_INVALID_ARGUMENT;
-- 
2.43.0


From 258b3b11ae14d00334711c5a7f128f48f090b2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 169/173] fix: dx_element_storage_add: an element that could
 not be added stayed in the map, under a key that was freed

---
 lib/element_storage.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/element_storage.c b/lib/element_storage.c
index 2d34de8..ebe2a60 100644
--- a/lib/element_storage.c
+++ b/lib/element_storage.c
@@ -225,10 +225,8 @@ dx_element_storage_add (struct disir_element_storage *storage,
 
     return DISIR_STATUS_OK;;
 list_error:
-    multimap_remove_value (storage->es_map,
-        (keys_in_map ? name : key),
-        free, // Free's the allocated memory above, if removing last element with this key name.
-        NULL);
+    // The key allocated above is freed below.
+    multimap_remove_value (storage->es_map, name, NULL, context);
 
 map_error:
     if (keys_in_map == 0)
-- 
2.43.0


From 4b5220d5e0f3d9985a4c93e5846d949082a29cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:09 +0000
Subject: [PATCH 170/173] fix: dc_finalize: a context finalized twice was put
 into its parent twice

---
 lib/context.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/context.c b/lib/context.c
index 74a0c8e..bb4a83e 100644
--- a/lib/context.c
+++ b/lib/context.c
@@ -339,6 +339,14 @@ dc_finalize (struct disir_context **context)
         return DISIR_STATUS_WRONG_CONTEXT;
     }
 
+    // A finalized context is already part of its parent
+    if ((*context)->CONTEXT_STATE_FINALIZED)
+    {
+        dx_log_context (*context, "Cannot finalize %s: it is already finalized.",
+                        dc_context_type_string (*context));
+        return DISIR_STATUS_CONTEXT_IN_WRONG_STATE;
+    }
+
     // Call finalize on the actual context type
     switch (dx_context_type_sanify ((*context)->cx_type))
     {
-- 
2.43.0


From ea973c1af32c90b30b1e5c3c267e2fe835e3c627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 171/173] fix: dx_collection_coalesce: contexts destroyed
 behind the iterator made it skip those that follow

---
 lib/collection.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/collection.c b/lib/collection.c
index d72c668..9b47369 100644
--- a/lib/collection.c
+++ b/lib/collection.c
@@ -152,6 +152,13 @@ dx_collection_coalesce (struct disir_collection *collection)
             {
                 dx_context_decref (&context);
                 invalid_entries_count += 1;
+
+                // The iterator has passed this entry - it moves back as the entry is taken out.
+                if ((index - 1) < collection->cc_iterator_index)
+                {
+                    iterator_moveback += 1;
+                }
+
                 context = collection->cc_collection[index - 1] = NULL;
             }
 
@@ -166,13 +173,6 @@ dx_collection_coalesce (struct disir_collection *collection)
                     context = collection->cc_collection[probe];
                     collection->cc_collection[probe] = NULL;
                     collection->cc_collection[index -1] = context;
-
-                    // Move iterator index if its affected.
-                    if (probe >= collection->cc_iterator_index &&
-                        (index -1) < collection->cc_iterator_index)
-                    {
-                        iterator_moveback  += 1;
-                    }
                 }
 
                 probe++;
-- 
2.43.0


From a8315cddb199d7875ffcf0f5d63713fd4718406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:07 +0000
Subject: [PATCH 172/173] fix: print_verify: a name that could not be resolved
 left the previous one, which was freed twice

---
 cli/command.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/command.cc b/cli/command.cc
index 13cc565..833e7b7 100644
--- a/cli/command.cc
+++ b/cli/command.cc
@@ -143,6 +143,7 @@ Command::print_verify (enum disir_status status, const char *entry,
                 if (resolved_name != NULL)
                 {
                     free (resolved_name);
+                    resolved_name = NULL;
                 }
                 dc_putcontext (&context);
             } while (1);
-- 
2.43.0


From 2e8f3f0158cd32714109750bd212a8b6d4c585bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:40 +0000
Subject: [PATCH 173/173] fix: archive: a hard link in an archive could
 overwrite any file

---
 lib/disir_archive_util.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/disir_archive_util.cc b/lib/disir_archive_util.cc
index fe64457..4394186 100644
--- a/lib/disir_archive_util.cc
+++ b/lib/disir_archive_util.cc
@@ -154,6 +154,16 @@ dx_archive_extract (const char *archive_path, std::map<std::string, std::string>
             status = DISIR_STATUS_FS_ERROR;
             goto out;
         }
+        // A link may have its target outside of the path that is extracted to
+        if (archive_entry_hardlink (entry) != NULL ||
+            (archive_entry_filetype (entry) != AE_IFREG &&
+             archive_entry_filetype (entry) != AE_IFDIR))
+        {
+            log_error ("archive entry '%s' is neither a file nor a directory",
+                        archive_entry_pathname (entry));
+            status = DISIR_STATUS_FS_ERROR;
+            goto out;
+        }
         extract_content.insert (std::make_pair (archive_entry_pathname (entry), path));
         archive_entry_set_pathname (entry, path);
 
-- 
2.43.0

