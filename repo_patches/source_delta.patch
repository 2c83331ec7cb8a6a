From 0d4ed2b43bfd07edab60143384850009aa35064f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 01/53] fix: compare 64-bit build ID offsets of core frames
 without truncating the difference

---
 lib/core_frame.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..54ab764 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,9 +166,8 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
-    if (build_id_offset != 0)
-        return build_id_offset;
+    if (frame1->build_id_offset != frame2->build_id_offset)
+        return frame1->build_id_offset > frame2->build_id_offset ? 1 : -1;
 
     /* Function name. */
     int function_name = g_strcmp0(frame1->function_name,
@@ -203,7 +202,8 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = (frame1->build_id_offset > frame2->build_id_offset)
+                          - (frame1->build_id_offset < frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
-- 
2.43.0


From 95ebcd836c6fecf3b0930d87cd52aac0aaa057e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 02/53] fix: compare 64-bit addresses and offsets of koops
 frames without truncating the difference

---
 lib/koops_frame.c | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..3c744d4 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,9 +127,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
-    if (address != 0)
-        return address;
+    if (frame1->address != frame2->address)
+        return frame2->address > frame1->address ? 1 : -1;
 
     /* Reliable. */
     int reliable = (int)frame2->reliable - (int)frame1->reliable;
@@ -144,14 +143,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
-    if (function_offset != 0)
-        return function_offset;
+    if (frame1->function_offset != frame2->function_offset)
+        return frame2->function_offset > frame1->function_offset ? 1 : -1;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
-    if (function_length != 0)
-        return function_length;
+    if (frame1->function_length != frame2->function_length)
+        return frame2->function_length > frame1->function_length ? 1 : -1;
 
     /* Module name. */
     int module_name = g_strcmp0(frame1->module_name,
@@ -161,9 +158,8 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
-    if (from_address != 0)
-        return from_address;
+    if (frame1->from_address != frame2->from_address)
+        return frame2->from_address > frame1->from_address ? 1 : -1;
 
     /* From function name. */
     int from_function_name = g_strcmp0(frame1->from_function_name,
@@ -173,14 +169,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
-    if (from_function_offset != 0)
-        return from_function_offset;
+    if (frame1->from_function_offset != frame2->from_function_offset)
+        return frame2->from_function_offset > frame1->from_function_offset ? 1 : -1;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
-    if (from_function_length != 0)
-        return from_function_length;
+    if (frame1->from_function_length != frame2->from_function_length)
+        return frame2->from_function_length > frame1->from_function_length ? 1 : -1;
 
     /* From module name. */
     int from_module_name = g_strcmp0(frame1->from_module_name,
-- 
2.43.0


From f68712762e442499861f3d5687ee0e2f079d797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 03/53] fix: compare 64-bit install times of packages without
 truncating the difference

---
 lib/rpm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..fd64c13 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,9 +77,8 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
-    if (install_time != 0)
-        return install_time;
+    if (package1->install_time != package2->install_time)
+        return package1->install_time > package2->install_time ? 1 : -1;
 
     /* Consistency. */
     int consistency = sr_rpm_consistency_cmp_recursive(package1->consistency,
-- 
2.43.0


From 129da64b8a62ec3329bce8afa9335db31b4b6c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:34 +0000
Subject: [PATCH 04/53] fix: compare all frames of java threads, not just the
 first

---
 lib/java_thread.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..ab28f78 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,12 +127,21 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
-        return 1;
-    else if (frame2 && !frame1)
-        return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
+    do
+    {
+        if (frame1 && !frame2)
+            return 1;
+        else if (frame2 && !frame1)
+            return -1;
+        else if (frame1 && frame2)
+        {
+            res = sr_java_frame_cmp(frame1, frame2);
+            if (res != 0)
+                return res;
+            frame1 = frame1->next;
+            frame2 = frame2->next;
+        }
+    } while (frame1 || frame2);
 
     return 0;
 }
-- 
2.43.0


From 96f6e16aae00a752de6a34f60db07b3369570d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 05/53] fix: read JSON integers with their full unsigned range

---
 lib/json_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..1dc438b 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -38,8 +38,8 @@
 
 #define NOOP
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, uint64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, NOOP)
 DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
-- 
2.43.0


From 1b8d130052b5f339d65b591081c5856f7282936a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 06/53] fix: escape all control characters in JSON strings

---
 lib/json_utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 1dc438b..0d4d8f9 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,10 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned char)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 69a824c5003c71826a2162ed4149a8255bf72597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 07/53] fix: write valid JSON for a core stacktrace without
 threads

---
 lib/core_stacktrace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..149a61d 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -270,6 +270,9 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
 
     g_string_append(strbuf, ",   \"stacktrace\":\n");
 
+    if (!stacktrace->threads)
+        g_string_append(strbuf, "      [");
+
     struct sr_core_thread *thread = stacktrace->threads;
     while (thread)
     {
-- 
2.43.0


From 92023cd0f51d5f21ca7fff7430f7bba904af3d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 08/53] fix: keep the crash thread mark of a core thread
 without frames in JSON

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..2b6cebb 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true\n}");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From beef7d42a838bf97c343582f6367728b72607c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 09/53] fix: read the user section of a report from the place
 it is written to

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..a19653e 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -378,7 +378,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From 7924c2f191c29e5f4ef525886521a3c5c383bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:59 +0000
Subject: [PATCH 10/53] fix: read the stacktrace of JavaScript reports

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index a19653e..9e88d75 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -401,6 +401,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From 4196e6c337fe0664f4821a8e2624b949cbcf7ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 11/53] fix: read the CPE name of an operating system from JSON

---
 lib/operating_system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..429c4cb 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -137,6 +137,7 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_STRING(root, "name", &result->name) &&
         JSON_READ_STRING(root, "version", &result->version) &&
         JSON_READ_STRING(root, "architecture", &result->architecture) &&
+        JSON_READ_STRING(root, "cpe", &result->cpe) &&
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-- 
2.43.0


From 28d97dfe53e7ab02ab6a6f862604a59bf4ac2311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 12/53] fix: do not report an error when an optional operating
 system attribute is ignored

---
 lib/operating_system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 429c4cb..4983cde 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -141,9 +141,9 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
 
     if (!success)
     {
-- 
2.43.0


From f9414d3f27ca6aee74f3c182ac40d93b6a68d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 13/53] fix: release replaced os-release values

---
 lib/operating_system.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 4983cde..f1cc5b9 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -204,12 +204,15 @@ os_release_callback(char *key, char *value, void *data)
 
     if (0 == strcmp(key, "ID"))
     {
+        g_free(operating_system->name);
         operating_system->name = value;
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
         if (operating_system->version == NULL)
             operating_system->version = value;
+        else
+            g_free(value);
     }
     /* fedora rawhide workaround */
     else if (0 == strcmp(key, "VERSION") && strstr(value, "(Rawhide)"))
@@ -221,10 +224,12 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "CPE_NAME"))
     {
+        g_free(operating_system->cpe);
         operating_system->cpe = value;
     }
     else if (0 == strcmp(key, "VARIANT_ID"))
     {
+        g_free(operating_system->variant);
         operating_system->variant = value;
     }
     else
-- 
2.43.0


From 84eb87b2bcae122f556585b447a330606d6bf416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 14/53] fix: do not accept a report whose stacktrace cannot be
 read

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 9e88d75..c2caead 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -403,6 +403,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From eedfd1f4e3af4e9edcef4e29c9834eb5654bf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 15/53] fix: do not crash when a report without stacktrace is
 written to JSON

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index c2caead..adb2d62 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -196,7 +196,8 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace ? sr_stacktrace_get_reason(report->stacktrace)
+                                    : g_strdup("invalid");
         break;
     }
 
-- 
2.43.0


From b346dd3b7146c941f6ad7dbf81ff5af44f5cc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 16/53] fix: escape the reporter name and version of a report
 in JSON

---
 lib/report.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index adb2d62..435f95b 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -210,9 +210,12 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
+    GString *reporter_buf = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_name);
+    g_string_append(reporter_buf, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_version);
+    g_string_append(reporter_buf, "\n}");
+    char *reporter = g_string_free(reporter_buf, FALSE);
     char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
     g_free(reporter);
     g_string_append_printf(strbuf,
-- 
2.43.0


From 3a91bc153bdc5358bc92e594a07276f69e0bbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:11 +0000
Subject: [PATCH 17/53] fix: initialise the id of a core thread

---
 lib/core_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 2b6cebb..770c745 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -66,6 +66,7 @@ sr_core_thread_new()
 void
 sr_core_thread_init(struct sr_core_thread *thread)
 {
+    thread->id = 0;
     thread->frames = NULL;
     thread->next = NULL;
     thread->type = SR_REPORT_CORE;
-- 
2.43.0


From 452e520ce083931c5ad5cfd40798fd6238805082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:02 +0000
Subject: [PATCH 18/53] fix: do not format a missing file name in the reason of
 a crash

---
 lib/js_stacktrace.c     | 2 +-
 lib/python_stacktrace.c | 2 +-
 lib/ruby_stacktrace.c   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..1981001 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -359,7 +359,7 @@ sr_js_stacktrace_get_reason(struct sr_js_stacktrace *stacktrace)
     struct sr_js_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        file = OR_UNKNOWN(frame->file_name);
         line = frame->file_line;
         column = frame->line_column;
     }
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..2e97b81 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -335,7 +335,7 @@ sr_python_stacktrace_get_reason(struct sr_python_stacktrace *stacktrace)
 
     if (frame)
     {
-        file = frame->file_name;
+        file = OR_UNKNOWN(frame->file_name);
         line = frame->file_line;
     }
 
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..d703e83 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -371,7 +371,7 @@ sr_ruby_stacktrace_get_reason(struct sr_ruby_stacktrace *stacktrace)
     struct sr_ruby_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        file = OR_UNKNOWN(frame->file_name);
         line = frame->file_line;
     }
 
-- 
2.43.0


From 56288c30f9449500abd2854bb7b5e657c16deb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 19/53] fix: do not format a missing build id of a core frame

---
 lib/core_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 54ab764..016246d 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -341,7 +341,7 @@ sr_core_frame_append_to_str(struct sr_core_frame *frame,
     }
     else
     {
-        g_string_append_printf(dest, " %s+%"PRIu64, frame->build_id,
+        g_string_append_printf(dest, " %s+%"PRIu64, OR_UNKNOWN(frame->build_id),
                               frame->build_id_offset);
     }
 }
-- 
2.43.0


From d9d71a923e04b5541e8f3e7c47208f89cfaf60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 20/53] fix: do not format a missing file name of a javascript
 frame

---
 lib/js_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..213baeb 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -470,7 +470,7 @@ sr_js_frame_append_to_str(struct sr_js_frame *frame,
         g_string_append_printf(dest, "%s (", frame->function_name);
 
     g_string_append_printf(dest, "%s:%"PRIu32":%"PRIu32,
-                          frame->file_name,
+                          OR_UNKNOWN(frame->file_name),
                           frame->file_line,
                           frame->line_column);
 
-- 
2.43.0


From e1df13855a1a645ac37645a776d4b5bd8fc03b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:15 +0000
Subject: [PATCH 21/53] fix: do not crash on shared libraries without a name

---
 lib/gdb_thread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..191632b 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -529,7 +529,7 @@ sr_gdb_thread_set_libnames(struct sr_gdb_thread *thread, struct sr_gdb_sharedlib
     {
         struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_find_address(libs,
                                                                      frame->address);
-        if (lib)
+        if (lib && lib->soname)
         {
             char *s1, *s2;
 
-- 
2.43.0


From 93f93fc6c37f0266428a88f3ac40974989807ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 22/53] fix: do not store an error through a missing error
 pointer in the JavaScript platform reader

---
 lib/js_platform.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..c05b0ad 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -201,7 +201,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (engine_str == NULL)
     {
-        *error_message = g_strdup("No 'engine' member");
+        if (error_message)
+            *error_message = g_strdup("No 'engine' member");
         goto fail;
     }
 
@@ -209,7 +210,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(engine_str, "<unknown>") != 0
         && !(engine = sr_js_engine_from_string(engine_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
         goto fail;
     }
 
@@ -218,7 +220,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (runtime_str == NULL)
     {
-        *error_message = g_strdup("No 'runtime' member");
+        if (error_message)
+            *error_message = g_strdup("No 'runtime' member");
         goto fail;
     }
 
@@ -226,7 +229,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(runtime_str, "<unknown>") != 0
         && !(runtime = sr_js_runtime_from_string(runtime_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
         goto fail;
     }
 
-- 
2.43.0


From be055c27101128a4945d53953358c8b948b43f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 23/53] fix: tell a failure to read the platform of a
 JavaScript stacktrace without an error pointer

---
 lib/js_stacktrace.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 1981001..d893531 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,17 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        char *platform_error = NULL;
+
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From 334e74b508ca8421b1e917ce55f67199c2499c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 24/53] fix: do not swap runtime and engine of a JavaScript
 platform read from JSON

---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index c05b0ad..1ccace8 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -235,7 +235,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From 9bc3310ed2334dc68db52f10678fcb1640ad0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 25/53] fix: do not report an error when an authentication
 entry of a report is ignored

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 435f95b..76f0c0c 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -438,7 +438,7 @@ sr_report_from_json(json_object *root, char **error_message)
             child_name = lh_entry_k(entry);
             child_value = lh_entry_v(entry);
 
-            if (!json_check_type(child_value, json_type_string, child_name, error_message))
+            if (!json_check_type(child_value, json_type_string, child_name, NULL))
                 continue;
 
             string = json_object_get_string(child_value);
-- 
2.43.0


From b98a87be97acff1a68e057cb554129adb43d255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:50 +0000
Subject: [PATCH 26/53] fix: report a failure to read a single package from
 JSON

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index fd64c13..a64a97a 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -624,7 +624,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -1;
     }
     else
     {
-- 
2.43.0


From c9bf35e621e29be311b69300666f227a787971f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 27/53] fix: terminate the list of modules of a kernel oops
 while it is read and enlarge it by whole pointers

---
 lib/koops_stacktrace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..f38050d 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -697,6 +697,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
 
         size_t allocated = 128;
         result->modules = g_malloc_n(allocated, sizeof(char*));
+        result->modules[0] = NULL;
 
         for (i = 0; i < array_length; i++)
         {
@@ -714,12 +715,11 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
+            result->modules[i + 1] = NULL;
         }
-
-        result->modules[i] = NULL;
     }
 
     /* Frames. */
-- 
2.43.0


From 070ac395d7d755bcabadf64b9e1e669e13c4858c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 28/53] fix: do not leak the reporter of a report that cannot
 be read

---
 lib/report.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 76f0c0c..e65fabd 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -322,6 +322,8 @@ sr_report_from_json(json_object *root, char **error_message)
         return NULL;
 
     bool success;
+    g_autofree char *reporter_name = NULL;
+    g_autofree char *reporter_version = NULL;
     struct sr_report *report = sr_report_new();
 
     /* Report version. */
@@ -335,8 +337,8 @@ sr_report_from_json(json_object *root, char **error_message)
     {
         success =
             json_check_type(reporter, json_type_object, "reporter", error_message) &&
-            JSON_READ_STRING(reporter, "name", &report->reporter_name) &&
-            JSON_READ_STRING(reporter, "version", &report->reporter_version);
+            JSON_READ_STRING(reporter, "name", &reporter_name) &&
+            JSON_READ_STRING(reporter, "version", &reporter_version);
 
         if (!success)
             goto fail;
@@ -447,6 +449,10 @@ sr_report_from_json(json_object *root, char **error_message)
         }
     }
 
+    /* Both are owned by a report that was read, even when they are the defaults. */
+    report->reporter_name = g_strdup(reporter_name ? reporter_name : report->reporter_name);
+    report->reporter_version = g_strdup(reporter_version ? reporter_version : report->reporter_version);
+
     return report;
 
 fail:
-- 
2.43.0


From 58e1ffc510ec86ccbb6a8cbb95e4fdd16415a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:43 +0000
Subject: [PATCH 29/53] fix: allocate the reporter of a report created in
 Python, its setters release it

---
 python/py_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..d3d96d8 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -400,6 +400,8 @@ sr_py_report_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     {
         report = sr_report_new();
         report->operating_system = sr_operating_system_new();
+        report->reporter_name = g_strdup(report->reporter_name);
+        report->reporter_version = g_strdup(report->reporter_version);
     }
 
     return report_to_python_obj(report);
@@ -423,6 +425,10 @@ sr_py_report_free(PyObject *object)
     this->report->operating_system = NULL;
     this->report->stacktrace = NULL;
 
+    /* always allocated here, and not released with the report */
+    g_free(this->report->reporter_name);
+    g_free(this->report->reporter_version);
+
     sr_report_free(this->report);
     PyObject_Del(object);
 }
-- 
2.43.0


From 065121027d25707b819233ad149f34b74e7d6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:14 +0000
Subject: [PATCH 30/53] fix: let the crash thread of a duplicated core
 stacktrace be one of its own threads

---
 lib/core_stacktrace.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 149a61d..2442e5d 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -114,6 +114,16 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
 
     if (stacktrace->threads)
         result->threads = sr_core_thread_dup(stacktrace->threads, true);
+
+    /* The crash thread is one of the threads. */
+    result->crash_thread = NULL;
+    for (struct sr_core_thread *thread = stacktrace->threads, *copy = result->threads;
+         thread && copy; thread = thread->next, copy = copy->next)
+    {
+        if (thread == stacktrace->crash_thread)
+            result->crash_thread = copy;
+    }
+
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
-- 
2.43.0


From 61fc45cfdf802d8599d52da431d796dce5fc934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 31/53] fix: do not format GDB frames depending on an argument
 that was never passed

---
 lib/gdb_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..2e8f6a6 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -48,9 +48,15 @@ frame_cmp_without_number(struct sr_gdb_frame *frame1, struct sr_gdb_frame *frame
     return sr_gdb_frame_cmp(frame1, frame2, false);
 }
 
+static void
+frame_append_to_str_verbose(struct sr_gdb_frame *frame, GString *str)
+{
+    sr_gdb_frame_append_to_str(frame, str, true);
+}
+
 struct frame_methods gdb_frame_methods =
 {
-    .append_to_str = (append_to_str_fn_t) sr_gdb_frame_append_to_str,
+    .append_to_str = (append_to_str_fn_t) frame_append_to_str_verbose,
     .next = (next_frame_fn_t) gdb_next,
     .set_next = (set_next_frame_fn_t) gdb_set_next,
     .cmp = (frame_cmp_fn_t) frame_cmp_without_number,
-- 
2.43.0


From 71a7bf06b0b035a42744599c4c3b879ffcdcd76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 32/53] fix: sort an empty list of packages

sr_rpm_package_sort() read the first entry of an empty array.
---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index a64a97a..27c4462 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -173,6 +173,9 @@ sr_rpm_package_count(struct sr_rpm_package *packages)
 struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
+    if (!packages)
+        return NULL;
+
     size_t count = sr_rpm_package_count(packages);
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
-- 
2.43.0


From 6a8a902242ca7063f2e46f73a9ab86bd0675eeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:18 +0000
Subject: [PATCH 33/53] fix: keep the input of a failed Python frame and stay
 inside it

sr_python_frame_parse() promises not to modify the input on failure, but it
moved it past an error location line, and past the terminator when that line
was the last one without a newline.
---
 lib/python_frame.c      | 19 +++----------------
 lib/python_stacktrace.c |  5 +++++
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..451bffc 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -220,24 +220,11 @@ sr_python_frame_parse(const char **input,
      *     ~~~~~~~~~~~^^^^^
      * TypeError: 'NoneType' object is not subscriptable
      */
-    bool is_error_location_line = true;
-    const char *tmp_input = local_input;
-    while (*tmp_input != '\n' && *tmp_input != '\0')
-    {
-        if (*tmp_input != ' ' && *tmp_input != '^' && *tmp_input != '~')
-        {
-            is_error_location_line = false;
-            break;
-        }
-        ++tmp_input;
-    }
-
-    if (is_error_location_line)
+    size_t marks = strspn(local_input, " ^~");
+    if (local_input[marks] == '\n')
     {
         /* Skip the error location line */
-        sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
-        *input = local_input;
+        local_input += marks + 1;
     }
 
     if (0 == sr_skip_string(&local_input, "  File \""))
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 2e97b81..2e7956c 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -215,6 +215,11 @@ sr_python_stacktrace_parse(const char **input,
         return NULL;
     }
 
+    /* Skip the error location line of the last frame. */
+    size_t marks = strspn(local_input, " ^~");
+    if (local_input[marks] == '\n')
+        local_input += marks + 1;
+
     /* Parse exception name. */
     if (!sr_parse_char_cspan(&local_input, ":\n", &stacktrace->exception_name))
     {
-- 
2.43.0


From c07e8aa9d4bcfe62b0bc10ff05d10a97def4de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:46 +0000
Subject: [PATCH 34/53] fix: stop at the end of the text after an operator in a
 function name

The terminator was taken for an allowed character, because strchr() finds it
in every string, and the scan went on behind it.
---
 lib/gdb_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 2e8f6a6..5f6e786 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -448,6 +448,9 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
+        if (*local_input == '\0')
+            break;
+
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
             if (!space_allowed || strchr(" ", *local_input) == NULL)
-- 
2.43.0


From f279c9666ec820a7598219bd9e2120b1f3ee58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:46 +0000
Subject: [PATCH 35/53] fix: do not read behind the text when it ends with the
 parenthesis of the arguments

---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 5f6e786..7746f82 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -823,7 +823,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -862,7 +862,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From 3dc7181c62d0c3d2a7e5d7bcee96fff493268178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:46 +0000
Subject: [PATCH 36/53] fix: do not take the end of the text for an allowed
 character

strchr() finds the terminator in every string, so sr_skip_char_limited()
stepped over it at the end of the text.
---
 lib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..272bdd5 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From 097ad2f0f647bada346382031781a01cd857ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 37/53] fix: stay inside the text when the list of GDB shared
 libraries ends it

---
 lib/gdb_sharedlib.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..07fa787 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -244,7 +244,8 @@ sr_gdb_sharedlib_parse(const char *input)
         current->soname = g_string_free(buf, FALSE);
 
         /* we are on '\n' character, jump to next line */
-        ++tmp;
+        if (*tmp == '\n')
+            ++tmp;
     }
 
     return first;
-- 
2.43.0


From 94df745f1880010b7a9845ac2b71227d7c28e9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 38/53] fix: read the frame before moving to the next one in
 sr_core_stacktrace_create()

The loop moved on first, so it left out the first frame and read through NULL
after the last one.
---
 lib/core_stacktrace.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 2442e5d..bf779c0 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -354,8 +354,6 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
@@ -377,6 +375,7 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             }
 
             core_thread->frames = sr_core_frame_append(core_thread->frames, core_frame);
+            gdb_frame = gdb_frame->next;
         }
 
         core_stacktrace->threads =
-- 
2.43.0


From 94d1c5281f3258bfc33ba59156aa64644facc885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 39/53] fix: hand out nothing when the epoch of a NEVRA cannot
 be parsed

The caller was left with pointers to the released release and architecture,
which it released again, and the version was not released.
---
 lib/rpm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 27c4462..5ef4953 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -766,8 +766,10 @@ sr_rpm_package_parse_nevra(const char *text,
         if (failure)
         {
             g_free(epoch_str);
+            g_free(*version);
             g_free(*release);
             g_free(*architecture);
+            *version = *release = *architecture = NULL;
             return false;
         }
 
-- 
2.43.0


From cd7ee1f4209a57a2015aa5393ec63248700dc4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 40/53] fix: move the input behind the GDB stacktrace header
 only when it was parsed

The documentation of sr_gdb_stacktrace_parse_header() says so, but a frame
that cannot be parsed left the input moved.
---
 lib/gdb_stacktrace.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..d7a6107 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -520,7 +520,6 @@ sr_gdb_stacktrace_parse_header(const char **input,
             /* Common case. The crash frame is present in the input
              * before the list of threads begins.
              */
-            *input = first_frame;
             sr_location_add(location, first_frame_line, first_frame_column);
         }
         else
@@ -543,7 +542,6 @@ sr_gdb_stacktrace_parse_header(const char **input,
         /* Degenerate case when the stacktrace contains no thread, but
          * the frame is there.
          */
-        *input = first_frame;
         sr_location_add(location, first_frame_line, first_frame_column);
     }
     else
@@ -556,8 +554,12 @@ sr_gdb_stacktrace_parse_header(const char **input,
     }
 
     /* Parse the frame header. */
-    *frame = sr_gdb_frame_parse(input, location);
-    return *frame;
+    *frame = sr_gdb_frame_parse(&first_frame, location);
+    if (!*frame)
+        return false;
+
+    *input = first_frame;
+    return true;
 }
 
 void
-- 
2.43.0


From 4cd2e84938f7eef87a88877608fe24d0789ce8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 41/53] fix: release all frames of a Java exception that cannot
 be parsed

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..b1bd87d 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -349,7 +349,7 @@ sr_java_frame_parse_exception(const char **input,
 
         if (parsed == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
@@ -397,7 +397,7 @@ parse_inner_exception:
         struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
         if (inner == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
-- 
2.43.0


From 53b46865492f3d981fb835911b58149683805474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 42/53] fix: release the rest of a module name that was split
 by a newline

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index f38050d..26777fb 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -503,6 +503,7 @@ sr_koops_stacktrace_parse_modules(const char **input)
                 }
 
                 char *tmp = g_strdup_printf("%s%s", result[result_offset-1], therest);
+                g_free(therest);
                 g_free(result[result_offset-1]);
                 result[result_offset-1] = tmp;
             }
-- 
2.43.0


From 08e1d93cdf7b15447c186ef2f431886f9be25a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:28 +0000
Subject: [PATCH 43/53] fix: release the previous name of the special stack in
 a kernel oops

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 26777fb..9684c56 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -391,6 +391,7 @@ sr_koops_stacktrace_parse(const char **input,
         char *new_alt_stack = parse_alt_stack_start(&local_input);
         if (new_alt_stack)
         {
+            g_free(alt_stack);
             alt_stack = new_alt_stack;
         }
 
-- 
2.43.0


From 11f3231c82fb24c65e20699346e4a2101cba8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:02:23 +0000
Subject: [PATCH 44/53] fix: do not allocate the messages of Python frame
 errors

The message of a location is documented as not to be released, so each parsed
traceback leaked the message of the frame that ends its list.
---
 lib/python_frame.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index 451bffc..675c1d2 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -229,7 +229,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
-        location->message = g_strdup_printf("Frame header not found.");
+        location->message = "Frame header not found.";
         return NULL;
     }
 
@@ -239,8 +239,8 @@ sr_python_frame_parse(const char **input,
     /* Parse file name */
     if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
-        location->message = g_strdup_printf("Unable to find the '\"' character "
-                "identifying the beginning of file name.");
+        location->message = "Unable to find the '\"' character "
+                "identifying the beginning of file name.";
 
         goto fail;
     }
@@ -262,7 +262,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "\", line "))
     {
-        location->message = g_strdup_printf("Line separator not found.");
+        location->message = "Line separator not found.";
         goto fail;
     }
 
@@ -272,7 +272,7 @@ sr_python_frame_parse(const char **input,
     int length = sr_parse_uint32(&local_input, &frame->file_line);
     if (0 == length)
     {
-        location->message = g_strdup_printf("Line number not found.");
+        location->message = "Line number not found.";
         goto fail;
     }
 
@@ -282,7 +282,7 @@ sr_python_frame_parse(const char **input,
     {
         if (local_input[0] != '\n')
         {
-            location->message = g_strdup_printf("Function name separator not found.");
+            location->message = "Function name separator not found.";
             goto fail;
         }
 
@@ -300,8 +300,8 @@ sr_python_frame_parse(const char **input,
         /* Parse function name */
         if (!sr_parse_char_cspan(&local_input, "\n", &frame->function_name))
         {
-            location->message = g_strdup_printf("Unable to find the newline character "
-                    "identifying the end of function name.");
+            location->message = "Unable to find the newline character "
+                    "identifying the end of function name.";
 
             goto fail;
         }
-- 
2.43.0


From 1adc3d7e467c579628fe33f863ca7f6ea3ebe6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:49 +0000
Subject: [PATCH 45/53] fix: do not lose the messages of Ruby stacktrace errors

The message of a location is documented as not to be released, so nobody
released the allocated ones. The frame parser allocates its message, which the
stacktrace parser dropped or passed on.
---
 lib/ruby_stacktrace.c | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index d703e83..732ad48 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -139,8 +139,12 @@ sr_ruby_stacktrace_parse(const char **input,
     stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
-        location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
-                            location->message ? location->message : "(unknown reason)");
+        char *reason = (char *)location->message;
+        char *message = g_strdup_printf("Topmost stacktrace frame not found: %s",
+                            reason ? reason : "(unknown reason)");
+        location->message = g_intern_string(message);
+        g_free(message);
+        g_free(reason);
         goto fail;
     }
 
@@ -149,7 +153,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_skip_string(&local_input, ": "))
     {
-        location->message = g_strdup("Unable to find the colon after first function name.");
+        location->message = "Unable to find the colon after first function name.";
         goto fail;
     }
     location->column += strlen(": ");
@@ -159,7 +163,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
     {
-        location->message = g_strdup("Unable to find the exception type and message.");
+        location->message = "Unable to find the exception type and message.";
         goto fail;
     }
 
@@ -173,8 +177,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != '\n')
     {
         location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
+        location->message = "Unable to find the new line character after "
+                                      "the end of exception class";
         goto fail;
     }
 
@@ -185,8 +189,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != ')')
     {
         location->column -= 2;
-        location->message = g_strdup("Unable to find the ')' character identifying "
-                                      "the end of exception class");
+        location->message = "Unable to find the ')' character identifying "
+                                      "the end of exception class";
         goto fail;
     }
 
@@ -201,8 +205,8 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (strlen(p) <= 0)
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                                      "the beginning of the exception class";
         goto fail;
     }
     stacktrace->exception_name = g_strdup(p);
@@ -213,8 +217,8 @@ sr_ruby_stacktrace_parse(const char **input,
     p--;
     if (p < message_and_class || *p != '(')
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                                      "the beginning of the exception class";
         goto fail;
     }
 
@@ -237,7 +241,7 @@ sr_ruby_stacktrace_parse(const char **input,
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
-            location->message = g_strdup("Frame header not found.");
+            location->message = "Frame header not found.";
             goto fail;
         }
         location->column += skipped;
@@ -245,14 +249,17 @@ sr_ruby_stacktrace_parse(const char **input,
         last_frame->next = sr_ruby_frame_parse(&local_input, location);
         if (!last_frame->next)
         {
-            /* location->message is already set */
+            /* location->message is already set by the frame parser, allocated */
+            char *reason = (char *)location->message;
+            location->message = g_intern_string(reason);
+            g_free(reason);
             goto fail;
         }
 
         /* Eat newline (except at the end of file). */
         if (!sr_skip_char(&local_input, '\n') && *local_input != '\0')
         {
-            location->message = g_strdup("Expected newline after stacktrace frame.");
+            location->message = "Expected newline after stacktrace frame.";
             goto fail;
         }
         location->column = 0;
-- 
2.43.0


From 260e4dbfe3151be72dff7faa05dc5bafe0d0c291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:13 +0000
Subject: [PATCH 46/53] fix: do not lose the messages about optional files of a
 problem directory

---
 lib/abrt.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..cf32def 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* For files which do not have to be there: no message is left behind. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *error_message = NULL;
+    char *contents = file_contents(directory, file, &error_message);
+
+    g_free(error_message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -341,8 +352,7 @@ rpm_dso_list_from_dir(struct sr_rpm_package *packages,
                       const char *directory,
                       char **error_message)
 {
-    char *dso_list_contents = file_contents(directory, "dso_list",
-                                            error_message);
+    char *dso_list_contents = optional_file_contents(directory, "dso_list");
     if (dso_list_contents)
     {
         struct sr_rpm_package *dso_packages =
@@ -366,8 +376,7 @@ rpm_interpreter_from_dir(struct sr_rpm_package *packages,
                          const char *directory,
                          char **error_message)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -439,7 +448,7 @@ static char *
 desktop_from_dir(const char *directory,
                     char **error_message)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -520,12 +529,12 @@ get_component(const char *directory,
               char **error_message)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -551,7 +560,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -561,8 +570,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
             success = sr_operating_system_parse_etc_system_release(release_contents,
-- 
2.43.0


From d11e8769e0c95963338eacb72043e2c6ce61a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:13 +0000
Subject: [PATCH 47/53] fix: release what os_info told before os_release is
 read instead

---
 lib/abrt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index cf32def..5e26404 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -573,6 +573,11 @@ sr_abrt_operating_system_from_dir(const char *directory,
         char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
+            g_free(os->name);
+            os->name = NULL;
+            g_free(os->version);
+            os->version = NULL;
+
             success = sr_operating_system_parse_etc_system_release(release_contents,
                                                                    &os->name,
                                                                    &os->version);
-- 
2.43.0


From 6fe956ceb19d91db9a339d16b8f39a6cf82880bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:13 +0000
Subject: [PATCH 48/53] fix: release the package of a problem directory whose
 files cannot be read

---
 lib/abrt.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5e26404..5f0d816 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -312,26 +312,28 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     char *epoch_str = file_contents(directory, "pkg_epoch", error_message);
     if (!epoch_str)
     {
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     unsigned long epoch = strtoul(epoch_str, NULL, 10);
     if (epoch == ULONG_MAX)
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
 
 
     packages->epoch = (uint32_t)epoch;
-    packages->name = file_contents(directory, "pkg_name", error_message);
-    packages->version = file_contents(directory, "pkg_version", error_message);
-    packages->release = file_contents(directory, "pkg_release", error_message);
-    packages->architecture = file_contents(directory, "pkg_arch", error_message);
     packages->role = SR_ROLE_AFFECTED;
 
-    if (!(packages->name && packages->version && packages->release &&
-          packages->architecture))
+    /* The first file that cannot be read is the one reported. */
+    if (!(packages->name = file_contents(directory, "pkg_name", error_message)) ||
+        !(packages->version = file_contents(directory, "pkg_version", error_message)) ||
+        !(packages->release = file_contents(directory, "pkg_release", error_message)) ||
+        !(packages->architecture = file_contents(directory, "pkg_arch", error_message)))
     {
         sr_rpm_package_free(packages, false);
         return NULL;
-- 
2.43.0


From 11816ee05789301ec14058875d6d240503390f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:13 +0000
Subject: [PATCH 49/53] fix: release the files of a problem directory which
 lacks another one

---
 lib/abrt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 5f0d816..7982be3 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -717,6 +717,7 @@ sr_abrt_report_from_dir(const char *directory,
         char *backtrace_contents = file_contents(directory, "backtrace", error_message);
         if (!backtrace_contents)
         {
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
@@ -812,6 +813,7 @@ sr_abrt_report_from_dir(const char *directory,
                                                 error_message);
         if (!analyzer_contents)
         {
+            g_free(backtrace_contents);
             sr_report_free(report);
             return NULL;
         }
-- 
2.43.0


From da002392b96f4f6ae8d387afdfdc5d3d4682bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 50/53] fix: say why a dso_list without packages is refused

---
 lib/abrt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 7982be3..74748d2 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -436,7 +436,10 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     {
         *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
         if (!*packages)
+        {
+            *error_message = g_strdup("No package found in dso_list");
             return -2;
+        }
     }
 
     /* attach interpreter as related package if exists */
-- 
2.43.0


From 6e3fd8c35ad5a3c4b39ca404a3252249b16588b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:31 +0000
Subject: [PATCH 51/53] fix: do not take an older error for one of the number
 of occurrences

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 74748d2..c9d40ba 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -493,6 +493,7 @@ occurrences_from_dir(const char *directory,
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From e7ea92c9fd42d616bb01265f44d4b90e66a1956c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:12 +0000
Subject: [PATCH 52/53] fix: release the rpm tag container when a tag is
 missing

---
 lib/rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5ef4953..ff799ca 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -287,7 +287,10 @@ header_get_string(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     const char *str = rpmtdGetString(tag_data);
     *result = (str ? g_strdup(str) : NULL);
@@ -307,7 +310,10 @@ header_get_uint32(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     uint32_t *num = rpmtdGetUint32(tag_data);
     if (num)
-- 
2.43.0


From b4175d572275390ddbe9c5ccf3c6f6ebaca1ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:14 +0000
Subject: [PATCH 53/53] fix: close the core file also when its descriptor is 0

---
 lib/core_unwind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..1799dd6 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -123,7 +123,7 @@ core_handle_free(struct core_handle *ch)
             dwfl_end(ch->dwfl);
         if (ch->eh)
             elf_end(ch->eh);
-        if (ch->fd > 0)
+        if (ch->fd >= 0)
             close(ch->fd);
         g_free(ch);
     }
-- 
2.43.0

