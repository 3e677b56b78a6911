From ab576c0e48cc74f7bb0dc347efdc7d24a53ffe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 01/46] fix: do not report one element for an empty collection
 value

---
 source/core/parsing/execute_callbacks.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/execute_callbacks.c b/source/core/parsing/execute_callbacks.c
index 234e0a6..48d5c60 100644
--- a/source/core/parsing/execute_callbacks.c
+++ b/source/core/parsing/execute_callbacks.c
@@ -38,7 +38,8 @@ int execute_callbacks(argus_t *argus, argus_option_t *option, char *value)
         return (status);
 
     option->is_set = true;
-    if (option->value_count == 0)
+    if (option->value_count == 0 &&
+        !(option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC)))
         option->value_count = 1;
 
     if (option->flags & FLAG_EXIT)
-- 
2.43.0


From b6c947925eb3989d9ae4a760924d533bcd8e26bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:34 +0000
Subject: [PATCH 02/46] fix: reject subcommand nesting beyond
 MAX_SUBCOMMAND_DEPTH

---
 source/core/parsing/option_handle_subcommand.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 630cd08..0cd5f97 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -7,11 +7,21 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include <stdio.h>
+
+#include "argus/errors.h"
 #include "argus/internal/parsing.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
 {
+    if (argus->subcommand_depth >= MAX_SUBCOMMAND_DEPTH) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_STACK_OVERFLOW,
+                            "Too many nested subcommands: '%s' (maximum depth is %d)",
+                            option->name, MAX_SUBCOMMAND_DEPTH);
+        return ARGUS_ERROR_STACK_OVERFLOW;
+    }
+
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
-- 
2.43.0


From 267eaf23dc73c78c08a9166a2eedf7940b2a2df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 03/46] fix: release partially built collections when a later
 element is rejected

---
 source/utils/multi_values.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 0fe8b65..babbdb3 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -453,6 +453,7 @@ void adjust_array_size(argus_option_t *option)
             option->value_capacity = 0;
             return;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
@@ -474,6 +475,7 @@ void adjust_map_size(argus_option_t *option)
             option->value_capacity = 0;
             return;
         }
+        option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
         size_t old_capacity = option->value_capacity;
         option->value_capacity *= 2;
-- 
2.43.0


From e53191d19a45afb84657e63cb61f6fc97037dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 04/46] fix: do not leak map keys on duplicate keys or invalid
 values

---
 source/callbacks/handlers/map_bool_handler.c   | 2 ++
 source/callbacks/handlers/map_float_handler.c  | 2 ++
 source/callbacks/handlers/map_int_handler.c    | 2 ++
 source/callbacks/handlers/map_string_handler.c | 1 +
 4 files changed, 7 insertions(+)

diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 1a2548a..65769d6 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -85,6 +85,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
                             "Invalid boolean value for key '%s': '%s' (expected true/false, "
                             "yes/no, 1/0, on/off, y/n)",
                             key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -93,6 +94,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 2a1bfd8..332be8a 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -48,6 +48,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -56,6 +57,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index 23cd668..a8fb8c3 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -49,6 +49,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     if (*value == '\0' || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
+        free(key);
         return ARGUS_ERROR_INVALID_VALUE;
     }
 
@@ -57,6 +58,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     // Key exists, update value
     if (key_index >= 0) {
+        free(key);
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index cd504ce..e2625ba 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -51,6 +51,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
 
     if (key_index >= 0) {
         // Key exists, update value
+        free(key);
         free(option->value.as_map[key_index].value.as_string);
         option->value.as_map[key_index].value.as_string = value;
     } else {
-- 
2.43.0


From e8dcfe8d101cf736f26d9fdd433ed90842252dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 05/46] fix: reset element count and capacity when a value is
 freed

---
 source/utils/value_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 917a0da..07371ff 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -23,8 +23,10 @@ void free_option_value(argus_option_t *option)
         option->free_handler(option);
     else
         free(option->value.as_ptr);
-    option->is_allocated = false;
-    option->value.as_ptr = NULL;
+    option->is_allocated   = false;
+    option->value.as_ptr   = NULL;
+    option->value_count    = 0;
+    option->value_capacity = 0;
 }
 
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
-- 
2.43.0


From 2d8897255d75e6558cbee1a9eea83d3d6783b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 06/46] fix: environment override replaces collections instead
 of appending and leaking

---
 source/core/parsing/load_env_vars.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index e03c241..8cb48b1 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -14,6 +14,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 /**
@@ -84,13 +85,16 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (!env_value)
             continue;
 
+        // An overriding environment value replaces the collected values
+        if (option->value_type & (VALUE_TYPE_ARRAY | VALUE_TYPE_MAP | VALUE_TYPE_VARIADIC))
+            free_option_value(option);
+
         bool          was_set   = option->is_set;
         argus_value_t old_value = option->value;
 
-        //! possible leak here
         int status = execute_callbacks(argus, option, env_value);
         if (status != ARGUS_SUCCESS) {
-            if (was_set) {
+            if (was_set && !option->is_allocated) {
                 option->is_set = was_set;
                 option->value  = old_value;
             }
-- 
2.43.0


From d52e46e44a761427f1b02cae22fa4dc701e1eec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:23 +0000
Subject: [PATCH 07/46] fix: exact subcommand name wins whatever the
 declaration order

---
 source/core/parsing/parse_args.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index e730c0d..feafdee 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -20,6 +20,14 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
 {
     argus_option_t *subcommand = NULL;
 
+    // An exact match always wins over prefix matches
+    for (int i = 0; options[i].type != TYPE_NONE; ++i) {
+        if (options[i].type == TYPE_SUBCOMMAND && strcmp(name, options[i].name) == 0) {
+            *result = &options[i];
+            return ARGUS_SUCCESS;
+        }
+    }
+
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         if (options[i].type == TYPE_SUBCOMMAND && starts_with(name, options[i].name) != NULL) {
             if (subcommand != NULL) {
@@ -31,10 +39,6 @@ int find_subcommand(argus_t *argus, argus_option_t *options, const char *name,
                                     options[i].help);
                 return ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND;
             }
-            if (subcommand == NULL && strcmp(name, options[i].name) == 0) {
-                *result = &options[i];
-                return ARGUS_SUCCESS;
-            }
             subcommand = &options[i];
         }
     }
-- 
2.43.0


From 109c2c5c0f634329628b8181128d534331d0f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:27 +0000
Subject: [PATCH 08/46] fix: path components must match the active command name
 exactly

---
 source/utils/option_lookup.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index f213dad..5816536 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -123,7 +123,8 @@ argus_option_t *find_option_by_active_path(argus_t argus, const char *option_pat
 
         const char *command          = argus.subcommand_stack[i]->name;
         size_t      component_lenght = next_dot - component;
-        if (strncmp(component, command, component_lenght) != 0)
+        if (strncmp(component, command, component_lenght) != 0 ||
+            command[component_lenght] != '\0')
             return (NULL);
 
         component = next_dot + 1;
-- 
2.43.0


From c31a14216f1078ecfeb031983f616915d962d30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 09/46] fix: environment variables take precedence over default
 values

---
 source/core/parsing/load_env_vars.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/load_env_vars.c b/source/core/parsing/load_env_vars.c
index 8cb48b1..4a40912 100644
--- a/source/core/parsing/load_env_vars.c
+++ b/source/core/parsing/load_env_vars.c
@@ -74,7 +74,9 @@ static int load_env(argus_t *argus, argus_option_t *options)
         if (option->type == TYPE_GROUP || option->type == TYPE_SUBCOMMAND)
             continue;
 
-        if (option->is_set && !(option->flags & FLAG_ENV_OVERRIDE))
+        // A default value is not a command line value: the environment takes precedence over it
+        bool is_default = option->have_default && option->value_count == 0;
+        if (option->is_set && !is_default && !(option->flags & FLAG_ENV_OVERRIDE))
             continue;
 
         const char *env_name = get_env_var_name(argus, option);
-- 
2.43.0


From 621a0b1428def6647f2cc8483d60c02398e68856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:34 +0000
Subject: [PATCH 10/46] fix: enforce FLAG_REQUIRED on options

---
 source/core/parsing/post_parse_validation.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/core/parsing/post_parse_validation.c b/source/core/parsing/post_parse_validation.c
index 5793dab..43ab255 100644
--- a/source/core/parsing/post_parse_validation.c
+++ b/source/core/parsing/post_parse_validation.c
@@ -83,6 +83,12 @@ static int validate_options_set(argus_t *argus, argus_option_t *options)
             return (ARGUS_ERROR_MISSING_REQUIRED);
         }
 
+        if (option->type == TYPE_OPTION && (option->flags & FLAG_REQUIRED) && !option->is_set) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_REQUIRED,
+                                "Required option is missing: '%s'", option->name);
+            return (ARGUS_ERROR_MISSING_REQUIRED);
+        }
+
         if (option->is_set) {
             int status;
 
-- 
2.43.0


From 7f34b19992baa58b7d0aaa445ce06a4dde3525aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:37 +0000
Subject: [PATCH 11/46] fix: honour boolean environment values for flags

---
 source/callbacks/handlers/flag_handler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/callbacks/handlers/flag_handler.c b/source/callbacks/handlers/flag_handler.c
index 0f1c029..cbb6389 100644
--- a/source/callbacks/handlers/flag_handler.c
+++ b/source/callbacks/handlers/flag_handler.c
@@ -9,12 +9,15 @@
 
 #include "argus/errors.h"
 #include "argus/internal/utils.h"
+#include "argus/options.h"
 #include "argus/types.h"
 
 int flag_handler(argus_t *argus, argus_option_t *option, char *arg)
 {
     UNUSED(argus);
-    UNUSED(arg);
+    // Only environment variables give a flag an explicit boolean value
+    if (arg != NULL)
+        return (bool_handler(argus, option, arg));
     option->value.as_bool = true;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 50ea8bc6af951fd17d0ad03dfbf5747288a8d6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:15 +0000
Subject: [PATCH 12/46] fix: reject malformed and out-of-range integers

---
 source/callbacks/handlers/int_handler.c          | 15 ++++++++++++---
 source/callbacks/handlers/map_float_handler.c    |  2 +-
 source/callbacks/handlers/map_int_handler.c      |  7 +++++--
 source/callbacks/handlers/variadic_int_handler.c |  7 +++++--
 4 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/source/callbacks/handlers/int_handler.c b/source/callbacks/handlers/int_handler.c
index 168c266..3b95c76 100644
--- a/source/callbacks/handlers/int_handler.c
+++ b/source/callbacks/handlers/int_handler.c
@@ -8,14 +8,23 @@
  */
 
 #include "argus/errors.h"
-#include "argus/internal/utils.h"
 #include "argus/types.h"
 
+#include <errno.h>
+#include <stdio.h>
 #include <stdlib.h>
 
 int int_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value = (argus_value_t){.as_int64 = strtoll(value, NULL, 10)};
+    char *endptr = NULL;
+
+    errno                  = 0;
+    long long parsed_value = strtoll(value, &endptr, 10);
+    if (endptr == value || *endptr != '\0' || errno == ERANGE) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value = (argus_value_t){.as_int64 = parsed_value};
     return (ARGUS_SUCCESS);
 }
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 332be8a..715896f 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -45,7 +45,7 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     double float_value = strtod(value, &endptr);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (endptr == value || *endptr != '\0') {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid float value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index a8fb8c3..f83d63e 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
@@ -42,11 +43,13 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
     char *value = separator + 1;
 
     // Convert the string value to integer
-    char   *endptr;
+    char *endptr;
+
+    errno             = 0;
     int64_t int_value = strtoll(value, &endptr, 10);
 
     // Check if conversion was successful
-    if (*value == '\0' || *endptr != '\0') {
+    if (endptr == value || *endptr != '\0' || errno == ERANGE) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_VALUE,
                             "Invalid integer value for key '%s': '%s'", key, value);
         free(key);
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 4b675a5..1a8302b 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -10,6 +10,7 @@
 #include <stdint.h>
 #define _GNU_SOURCE  // NOLINT
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
@@ -23,10 +24,12 @@ static int set_int_value(argus_option_t *option, char *value)
     if (option->value_capacity == 0)
         return ARGUS_ERROR_MEMORY;
 
-    char     *endptr;
+    char *endptr;
+
+    errno                  = 0;
     long long parsed_value = strtoll(value, &endptr, 10);
 
-    if (*endptr != '\0' || endptr == value)
+    if (*endptr != '\0' || endptr == value || errno == ERANGE)
         return ARGUS_ERROR_INVALID_VALUE;
 
     option->value.as_array[option->value_count].as_int64 = parsed_value;
-- 
2.43.0


From ffd017e13b0864e7aa34d5648f37bfbf3ca036fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:18 +0000
Subject: [PATCH 13/46] fix: parse floats in double precision and reject
 malformed ones

---
 .../callbacks/handlers/array_float_handler.c  | 32 ++++++++++++++-----
 source/callbacks/handlers/float_handler.c     | 13 ++++++--
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index 4e8d4a0..c46c71e 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -15,28 +15,44 @@
 #include "argus/options.h"
 #include "argus/types.h"
 
-static void set_value(argus_option_t *option, char *value)
+static int set_value(argus_t *argus, argus_option_t *option, char *value)
 {
+    char  *endptr       = NULL;
+    double parsed_value = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT, "Invalid float format: '%s'",
+                            value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+
     adjust_array_size(option);
-    option->value.as_array[option->value_count].as_float = strtof(value, NULL);
+    option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
+    return (ARGUS_SUCCESS);
 }
 
 int array_float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-
     if (strchr(value, ',') != NULL) {
         char **splited_values = split(value, ",");
         if (splited_values == NULL) {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to split string '%s'", value);
             return ARGUS_ERROR_MEMORY;
         }
-        for (size_t i = 0; splited_values[i] != NULL; ++i)
-            set_value(option, splited_values[i]);
+        for (size_t i = 0; splited_values[i] != NULL; ++i) {
+            int status = set_value(argus, option, splited_values[i]);
+            if (status != ARGUS_SUCCESS) {
+                free_split(splited_values);
+                return status;
+            }
+        }
         free_split(splited_values);
-    } else
-        set_value(option, value);
+    } else {
+        int status = set_value(argus, option, value);
+        if (status != ARGUS_SUCCESS)
+            return status;
+    }
 
     apply_array_flags(option);
     option->is_allocated = true;
diff --git a/source/callbacks/handlers/float_handler.c b/source/callbacks/handlers/float_handler.c
index d216444..de6a81d 100644
--- a/source/callbacks/handlers/float_handler.c
+++ b/source/callbacks/handlers/float_handler.c
@@ -7,16 +7,23 @@
  * See LICENSE file in the project root for full license information.
  */
 
+#include <stdio.h>
 #include <stdlib.h>
 
 #include "argus/errors.h"
-#include "argus/internal/utils.h"
 #include "argus/options.h"
 #include "argus/types.h"
 
 int float_handler(argus_t *argus, argus_option_t *option, char *value)
 {
-    UNUSED(argus);
-    option->value.as_float = strtof(value, NULL);
+    char  *endptr       = NULL;
+    double parsed_value = strtod(value, &endptr);
+
+    if (endptr == value || *endptr != '\0') {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_FORMAT,
+                            "Invalid value '%s': expected number", value);
+        return ARGUS_ERROR_INVALID_FORMAT;
+    }
+    option->value.as_float = parsed_value;
     return (ARGUS_SUCCESS);
 }
-- 
2.43.0


From 76551c410fa70180fa6bc4eb94f22da9e19a9a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 14/46] fix: validate integer array elements and keep them
 64-bit

---
 source/callbacks/handlers/array_int_handler.c | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index 6853cff..b59b875 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -8,6 +8,8 @@
  */
 
 #include <ctype.h>
+#include <errno.h>
+#include <stdint.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -30,8 +32,8 @@
  */
 typedef struct
 {
-    int start;
-    int end;
+    int64_t start;
+    int64_t end;
 } int_argus_range_t;
 
 const char *search_range_separator(const char *value, const char *separators)
@@ -58,23 +60,31 @@ const char *search_range_separator(const char *value, const char *separators)
  */
 static int parse_int_range(int_argus_range_t *range, const char *value)
 {
+    char *endptr = NULL;
+
+    errno = 0;
     const char *range_separator = search_range_separator(value, "-:");
     if (range_separator != NULL) {
+        int64_t start = strtoll(value, &endptr, 10);
+        if (endptr != range_separator)
+            return -1;
+
+        int64_t end = strtoll(range_separator + 1, &endptr, 10);
+        if (endptr == range_separator + 1 || *endptr != '\0' || errno == ERANGE)
+            return -1;
+
         // Successfully parsed as a range
         // Normalize range using MIN/MAX
-        int start    = strtol(value, NULL, 10);
-        int end      = strtol(range_separator + 1, NULL, 10);
         range->start = MIN(start, end);
         range->end   = MAX(start, end);
         return 0;
     }
 
     // Not a range, try as a single value
-    char *endptr = NULL;
-    range->start = strtol(value, &endptr, 10);
+    range->start = strtoll(value, &endptr, 10);
 
     // Check if the entire string was a valid integer
-    if (*endptr != '\0')
+    if (endptr == value || *endptr != '\0' || errno == ERANGE)
         return -1;  // Invalid integer format
 
     // Single value case (start = end)
@@ -87,10 +97,12 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
  */
 static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
-    for (int i = range->start; i <= range->end; i++) {
+    for (int64_t i = range->start;; i++) {
         adjust_array_size(option);
-        option->value.as_array[option->value_count].as_int = i;
+        option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
+        if (i == range->end)
+            break;
     }
 }
 
-- 
2.43.0


From 15d156b75b0f986cbaea95988d8e83f5a517671a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 15/46] fix: treat tokens after the first -- as positionals, --
 included

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index feafdee..4e764f4 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -55,7 +55,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
     for (int i = 0; i < argc; ++i) {
         char *arg = argv[i];
 
-        if (strcmp(arg, "--") == 0) {
+        if (!only_positional && strcmp(arg, "--") == 0) {
             only_positional = true;
             continue;
         }
-- 
2.43.0


From e48fdd58860a0023b681f314af4c887f2485a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 16/46] fix: pass a lone dash as a positional argument

---
 source/core/parsing/parse_args.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 4e764f4..120de1f 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -76,7 +76,7 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
         }
 
         char *short_arg = starts_with("-", arg);
-        if (short_arg != NULL) {
+        if (short_arg != NULL && short_arg[0] != '\0') {
             // Checking if this is a negative number or an option
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
-- 
2.43.0


From e15a0dd8d3a397f03349331d32ac2c6c30e9389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:52 +0000
Subject: [PATCH 17/46] fix: accept negative numbers for variadic numeric
 positionals

---
 source/core/parsing/parse_args.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/core/parsing/parse_args.c b/source/core/parsing/parse_args.c
index 120de1f..04cfee7 100644
--- a/source/core/parsing/parse_args.c
+++ b/source/core/parsing/parse_args.c
@@ -81,7 +81,9 @@ int parse_args(argus_t *argus, argus_option_t *options, int argc, char **argv)
             if (isdigit(short_arg[0]) || (short_arg[0] == '.' && isdigit(short_arg[1]))) {
                 argus_option_t *pos_opt = find_positional(options, positional_index);
 
-                if (pos_opt && (pos_opt->value_type & VALUE_TYPE_ANY_NUMERIC)) {
+                if (pos_opt &&
+                    (pos_opt->value_type & (VALUE_TYPE_ANY_NUMERIC | VALUE_TYPE_VARIADIC_INT |
+                                            VALUE_TYPE_VARIADIC_FLOAT))) {
                     status = handle_positional(argus, options, arg, positional_index++);
                     if (status != ARGUS_SUCCESS)
                         return (status);
-- 
2.43.0


From 52ae273eb83029036677b65849a369cb76c78ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 18/46] fix: match long option names of any length

---
 source/core/parsing/option_handle_long.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/source/core/parsing/option_handle_long.c b/source/core/parsing/option_handle_long.c
index b2fe6fc..130ef36 100644
--- a/source/core/parsing/option_handle_long.c
+++ b/source/core/parsing/option_handle_long.c
@@ -8,6 +8,7 @@
  */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include "argus/errors.h"
@@ -19,19 +20,22 @@
 int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char **argv, int argc,
                        int *current_index)
 {
-    char  option_name[64] = {0};
-    char *equal_pos       = strchr(arg, '=');
-    if (equal_pos != NULL) {
-        safe_strncpy(option_name, sizeof(option_name), arg, equal_pos - arg);
-    } else
-        safe_strncpy(option_name, sizeof(option_name), arg, sizeof(option_name) - 1);
+    char *equal_pos   = strchr(arg, '=');
+    char *option_name = equal_pos != NULL ? safe_strndup(arg, equal_pos - arg) : safe_strdup(arg);
+    if (option_name == NULL) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY, "Failed to allocate memory for option '%s'",
+                            arg);
+        return ARGUS_ERROR_MEMORY;
+    }
 
     argus_option_t *option = find_option_by_lname(options, option_name);
     if (option == NULL) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_ARGUMENT, "Unknown option: '--%s'",
                             option_name);
+        free(option_name);
         return ARGUS_ERROR_INVALID_ARGUMENT;
     }
+    free(option_name);
 
     char *value = NULL;
     if (option->value_type != VALUE_TYPE_FLAG) {
@@ -42,7 +46,7 @@ int handle_long_option(argus_t *argus, argus_option_t *options, char *arg, char
             value = argv[*current_index];
         } else {
             ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MISSING_VALUE,
-                                "Missing value for option: '--%s'", option_name);
+                                "Missing value for option: '--%s'", option->lname);
             return ARGUS_ERROR_MISSING_VALUE;
         }
     }
-- 
2.43.0


From 80edc7327c7d5ebad1d489b37b7bd506e89e61ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:50 +0000
Subject: [PATCH 19/46] fix: accept the documented flags on POSITIONAL_MANY in
 debug validation

---
 source/core/validation/validate_arguments.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 5f9b03c..4ec9698 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -143,9 +143,7 @@ int validate_positional(argus_t *argus, argus_option_t *option)
             ARGUS_STRUCT_ERROR(option, "Invalid flags for POSITIONAL_MANY argument");
             status = ARGUS_ERROR_INVALID_FLAG;
         }
-    }
-
-    if (option->flags & ~POSITIONAL_FLAG_MASK) {
+    } else if (option->flags & ~POSITIONAL_FLAG_MASK) {
         ARGUS_STRUCT_ERROR(option, "Invalid flags for positional");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From e953ba429df049f6b53640241b7fc6d9d1236231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 20/46] fix: compare floats as floats in V_RANGE

---
 source/callbacks/validators/range_validator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index b521b20..12c46f3 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -25,6 +25,17 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return ARGUS_ERROR_INVALID_RANGE;
     }
 
+    if (option->value_type == VALUE_TYPE_FLOAT) {
+        double value = option->value.as_float;
+        if (!(value >= (double)data.range.min && value <= (double)data.range.max)) {
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
+                                "Value %g is out of range %" PRId64 "-%" PRId64, value,
+                                data.range.min, data.range.max);
+            return ARGUS_ERROR_INVALID_RANGE;
+        }
+        return (ARGUS_SUCCESS);
+    }
+
     if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
                             "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
-- 
2.43.0


From 19c560fbf0c8ce30f69988bdf2a007f100cb0d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 21/46] fix: do not truncate 64-bit integers in V_RANGE and
 V_CHOICE_INT

---
 source/callbacks/validators/choices_validator.c | 8 ++++----
 source/callbacks/validators/range_validator.c   | 8 ++++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index a276015..6d2b7cb 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -46,18 +46,18 @@ int choices_int_validator(argus_t *argus, void *option_ptr, validator_data_t dat
     choices_data_t *choices = &data.choices;
 
     for (size_t i = 0; i < choices->count; i++) {
-        if (option->value.as_int == choices->as_ints[i])
+        if (option->value.as_int64 == choices->as_ints[i])
             return ARGUS_SUCCESS;
     }
 
     char *choices_formatted = format_choices_validator(data);
     if (choices_formatted) {
-        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%d' is not one of [%s]",
-                            option->value.as_int, choices_formatted);
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE, "Value '%" PRId64 "' is not one of [%s]",
+                            option->value.as_int64, choices_formatted);
         free(choices_formatted);
     } else {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_CHOICE,
-                            "Value '%d' is not one of the choices", option->value.as_int);
+                            "Value '%" PRId64 "' is not one of the choices", option->value.as_int64);
     }
     return ARGUS_ERROR_INVALID_CHOICE;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index 12c46f3..d1ccd0e 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -36,9 +36,13 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
         return (ARGUS_SUCCESS);
     }
 
-    if (option->value.as_int < data.range.min || option->value.as_int > data.range.max) {
+    // Parsed integers are 64-bit: do not compare a truncated value
+    int64_t value =
+        option->value_type == VALUE_TYPE_INT ? option->value.as_int64 : option->value.as_int;
+
+    if (value < data.range.min || value > data.range.max) {
         ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_INVALID_RANGE,
-                            "Value %d is out of range %" PRId64 "-%" PRId64, option->value.as_int,
+                            "Value %" PRId64 " is out of range %" PRId64 "-%" PRId64, value,
                             data.range.min, data.range.max);
         return ARGUS_ERROR_INVALID_RANGE;
     }
-- 
2.43.0


From 4cb46f0390cb7d98aa18ab190d2f915c750fa633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:00 +0000
Subject: [PATCH 22/46] fix: sort and deduplicate integer map values on their
 full 64-bit value

---
 source/utils/multi_values.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index babbdb3..863a631 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -72,9 +72,9 @@ static int compare_map_int_values(const void *a, const void *b)
     const argus_pair_t *pa = (const argus_pair_t *)a;
     const argus_pair_t *pb = (const argus_pair_t *)b;
 
-    if (pa->value.as_int < pb->value.as_int)
+    if (pa->value.as_int64 < pb->value.as_int64)
         return -1;
-    if (pa->value.as_int > pb->value.as_int)
+    if (pa->value.as_int64 > pb->value.as_int64)
         return 1;
     return 0;
 }
@@ -287,7 +287,7 @@ size_t make_map_values_unique(argus_pair_t *map, size_t count, argus_valtype_t t
             switch (type) {
                 case VALUE_TYPE_INT:
                 case VALUE_TYPE_MAP_INT:
-                    is_duplicate = (map[i].value.as_int == map[j].value.as_int);
+                    is_duplicate = (map[i].value.as_int64 == map[j].value.as_int64);
                     break;
 
                 case VALUE_TYPE_STRING:
-- 
2.43.0


From 8c79f1bf83ad1a93f54a8abd97f09522052c6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:55 +0000
Subject: [PATCH 23/46] fix: hide FLAG_HIDDEN subcommands from help and command
 listings

---
 source/display/command_display.c     | 10 ++++++----
 source/display/help/help_organizer.c |  3 +++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/source/display/command_display.c b/source/display/command_display.c
index 4c4e5a7..f26fae7 100644
--- a/source/display/command_display.c
+++ b/source/display/command_display.c
@@ -48,7 +48,7 @@ static void print_subcommand_paths(const argus_option_t *options, const char *ba
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &options[i];
 
-        if (option->type != TYPE_SUBCOMMAND)
+        if (option->type != TYPE_SUBCOMMAND || (option->flags & FLAG_HIDDEN))
             continue;
 
         if (!current_group_started && !*first_in_group)
@@ -114,7 +114,7 @@ static bool print_simple_commands_group(argus_t *argus)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (is_effectively_simple_command(option)) {
+        if (is_effectively_simple_command(option) && !(option->flags & FLAG_HIDDEN)) {
             char command_path[COMMAND_BUFFER_SIZE];
             snprintf(command_path, sizeof(command_path), "%s %s", argus->program_name,
                      option->name);
@@ -133,7 +133,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
     for (int i = 0; argus->options[i].type != TYPE_NONE; ++i) {
         const argus_option_t *option = &argus->options[i];
 
-        if (option->type != TYPE_SUBCOMMAND || !has_executable_subcommands(option))
+        if (option->type != TYPE_SUBCOMMAND || (option->flags & FLAG_HIDDEN) ||
+            !has_executable_subcommands(option))
             continue;
 
         if (printed_simple_commands || !first_family)
@@ -151,7 +152,8 @@ static void print_command_families(argus_t *argus, bool printed_simple_commands)
         for (int j = 0; option->sub_options[j].type != TYPE_NONE; ++j) {
             const argus_option_t *sub_option = &option->sub_options[j];
 
-            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL)
+            if (sub_option->type != TYPE_SUBCOMMAND || sub_option->action == NULL ||
+                (sub_option->flags & FLAG_HIDDEN))
                 continue;
 
             char full_command_path[FULL_PATH_BUFFER_SIZE];
diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 2f34084..4962a4f 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -103,6 +103,9 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 break;
 
             case TYPE_SUBCOMMAND:
+                if (option->flags & FLAG_HIDDEN)
+                    continue;
+
                 add_option_to_list(&data->subcommands, option);
                 break;
 
-- 
2.43.0


From 23989a7f3aa1b2e449e06d5653d8cb001704b8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 24/46] fix: do not drop attributes of options with several of
 them in help

---
 source/display/help/help_formatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 3762515..fc7802d 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -373,7 +373,7 @@ static char *append_flag_info(char *description, const argus_option_t *option)
     if (!(option->flags & (FLAG_EXIT | FLAG_REQUIRED | FLAG_DEPRECATED | FLAG_EXPERIMENTAL)))
         return description;
 
-    char attrs_buf[32] = {0};
+    char attrs_buf[64] = {0};
 
     if (option->flags & FLAG_EXIT)
         safe_strcat(attrs_buf, sizeof(attrs_buf), " (exit)");
-- 
2.43.0


From 39d920d623fc882377ac7516fa5a59ad1e1da83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:03 +0000
Subject: [PATCH 25/46] fix: do not loop forever when the help layout leaves no
 room for text

---
 source/display/help/help_formatter.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index fc7802d..742abff 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -160,12 +160,18 @@ static const char *get_env_var_name_for_display(argus_t *argus, const argus_opti
     return NULL;
 }
 
+#define MIN_TEXT_WIDTH 10
+
 void print_wrapped_text(const char *text, size_t indent, size_t line_width)
 {
     // NOLINTNEXTLINE(clang-analyzer-core.uninitialized.Branch)
     if (!text || !*text)
         return;
 
+    // Always leave room for some text, whatever the configured layout
+    if (line_width < indent + 2 + MIN_TEXT_WIDTH)
+        line_width = indent + 2 + MIN_TEXT_WIDTH;
+
     size_t text_len    = strlen(text);
     size_t line_start  = 0;
     size_t current_pos = 0;
-- 
2.43.0


From 9a3be85c0f5071a1571ed732d9e00d8e1f90d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 26/46] fix: describe every error code in argus_strerror

---
 source/core/error.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/source/core/error.c b/source/core/error.c
index 28921ae..f8f798a 100644
--- a/source/core/error.c
+++ b/source/core/error.c
@@ -16,6 +16,8 @@ const char *argus_strerror(argus_error_type_t error)
             return "Success";
         case ARGUS_SHOULD_EXIT:
             return "Should exit";
+        case ARGUS_STRUCT_ERROR:
+            return "Invalid option structure";
         case ARGUS_ERROR_DUPLICATE_OPTION:
             return "Duplicate option";
         case ARGUS_ERROR_INVALID_HANDLER:
@@ -46,8 +48,24 @@ const char *argus_strerror(argus_error_type_t error)
             return "Invalid choice";
         case ARGUS_ERROR_INVALID_RANGE:
             return "Invalid range";
+        case ARGUS_ERROR_AMBIGUOUS_SUBCOMMAND:
+            return "Ambiguous subcommand";
         case ARGUS_ERROR_NO_COMMAND:
             return "No command";
+        case ARGUS_ERROR_NO_VALUE:
+            return "No value";
+        case ARGUS_ERROR_INVALID_TYPE:
+            return "Invalid type";
+        case ARGUS_ERROR_INVALID_INDEX:
+            return "Invalid index";
+        case ARGUS_ERROR_INVALID_KEY:
+            return "Invalid key";
+        case ARGUS_ERROR_MEMORY:
+            return "Memory allocation failed";
+        case ARGUS_ERROR_INTERNAL:
+            return "Internal error";
+        case ARGUS_ERROR_UNSUPPORTED:
+            return "Unsupported";
         case ARGUS_ERROR_INVALID_VALUE:
             return "Invalid value";
         case ARGUS_ERROR_MALFORMED_OPTION:
-- 
2.43.0


From 7c802915c970f8180fb46da588749974f3702f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 27/46] fix: report allocation failures of collections instead
 of writing out of bounds

---
 includes/argus/internal/utils.h                    |  4 ++--
 source/callbacks/handlers/array_float_handler.c    |  6 +++++-
 source/callbacks/handlers/array_int_handler.c      | 13 +++++++++----
 source/callbacks/handlers/array_string_handler.c   |  3 +--
 source/callbacks/handlers/map_bool_handler.c       |  7 ++++++-
 source/callbacks/handlers/map_float_handler.c      |  7 ++++++-
 source/callbacks/handlers/map_int_handler.c        |  7 ++++++-
 source/callbacks/handlers/map_string_handler.c     |  9 +++++++--
 source/callbacks/handlers/variadic_float_handler.c |  3 +--
 source/callbacks/handlers/variadic_int_handler.c   |  3 +--
 .../callbacks/handlers/variadic_string_handler.c   |  3 +--
 source/utils/multi_values.c                        | 14 ++++++++------
 12 files changed, 53 insertions(+), 26 deletions(-)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index c84d768..08a3314 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -62,8 +62,8 @@ int    putnchar(char c, size_t n);
  * Multi_value utility functions
  */
 #define MULTI_VALUE_INITIAL_CAPACITY 8
-void adjust_array_size(argus_option_t *option);
-void adjust_map_size(argus_option_t *option);
+bool adjust_array_size(argus_option_t *option);
+bool adjust_map_size(argus_option_t *option);
 int  map_find_key(argus_option_t *option, const char *key);
 void apply_array_flags(argus_option_t *option);
 void apply_map_flags(argus_option_t *option);
diff --git a/source/callbacks/handlers/array_float_handler.c b/source/callbacks/handlers/array_float_handler.c
index c46c71e..1380a9a 100644
--- a/source/callbacks/handlers/array_float_handler.c
+++ b/source/callbacks/handlers/array_float_handler.c
@@ -26,7 +26,11 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
         return ARGUS_ERROR_INVALID_FORMAT;
     }
 
-    adjust_array_size(option);
+    if (!adjust_array_size(option)) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                            "Failed to allocate memory for '%s'", option->name);
+        return ARGUS_ERROR_MEMORY;
+    }
     option->value.as_array[option->value_count].as_float = parsed_value;
     option->value_count++;
     return (ARGUS_SUCCESS);
diff --git a/source/callbacks/handlers/array_int_handler.c b/source/callbacks/handlers/array_int_handler.c
index b59b875..962f1be 100644
--- a/source/callbacks/handlers/array_int_handler.c
+++ b/source/callbacks/handlers/array_int_handler.c
@@ -95,14 +95,15 @@ static int parse_int_range(int_argus_range_t *range, const char *value)
 /**
  * Add a range of integers to the option's value array
  */
-static void add_range_values(argus_option_t *option, const int_argus_range_t *range)
+static int add_range_values(argus_option_t *option, const int_argus_range_t *range)
 {
     for (int64_t i = range->start;; i++) {
-        adjust_array_size(option);
+        if (!adjust_array_size(option))
+            return ARGUS_ERROR_MEMORY;
         option->value.as_array[option->value_count].as_int64 = i;
         option->value_count++;
         if (i == range->end)
-            break;
+            return (ARGUS_SUCCESS);
     }
 }
 
@@ -118,7 +119,11 @@ static int set_value(argus_t *argus, argus_option_t *option, char *value)
                             "Invalid integer or range format: '%s'", value);
         return ARGUS_ERROR_INVALID_FORMAT;
     }
-    add_range_values(option, &range);
+    if (add_range_values(option, &range) != ARGUS_SUCCESS) {
+        ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                            "Failed to allocate memory for '%s'", option->name);
+        return ARGUS_ERROR_MEMORY;
+    }
     return (ARGUS_SUCCESS);
 }
 
diff --git a/source/callbacks/handlers/array_string_handler.c b/source/callbacks/handlers/array_string_handler.c
index 02b7222..2fd15f8 100644
--- a/source/callbacks/handlers/array_string_handler.c
+++ b/source/callbacks/handlers/array_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)  // adjust_array_size failed
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/callbacks/handlers/map_bool_handler.c b/source/callbacks/handlers/map_bool_handler.c
index 65769d6..04455cb 100644
--- a/source/callbacks/handlers/map_bool_handler.c
+++ b/source/callbacks/handlers/map_bool_handler.c
@@ -98,7 +98,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_bool = (bool)bool_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            free(key);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for '%s'", option->name);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key           = key;
         option->value.as_map[option->value_count].value.as_bool = (bool)bool_value;
diff --git a/source/callbacks/handlers/map_float_handler.c b/source/callbacks/handlers/map_float_handler.c
index 715896f..82c91c6 100644
--- a/source/callbacks/handlers/map_float_handler.c
+++ b/source/callbacks/handlers/map_float_handler.c
@@ -61,7 +61,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_float = float_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            free(key);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for '%s'", option->name);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_float = float_value;
diff --git a/source/callbacks/handlers/map_int_handler.c b/source/callbacks/handlers/map_int_handler.c
index f83d63e..9bfa1f2 100644
--- a/source/callbacks/handlers/map_int_handler.c
+++ b/source/callbacks/handlers/map_int_handler.c
@@ -65,7 +65,12 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_int64 = int_value;
     } else {
         // Key doesn't exist, add new entry
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            free(key);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for '%s'", option->name);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key            = key;
         option->value.as_map[option->value_count].value.as_int64 = int_value;
diff --git a/source/callbacks/handlers/map_string_handler.c b/source/callbacks/handlers/map_string_handler.c
index e2625ba..3fa0ab6 100644
--- a/source/callbacks/handlers/map_string_handler.c
+++ b/source/callbacks/handlers/map_string_handler.c
@@ -56,8 +56,13 @@ static int set_kv_pair(argus_t *argus, argus_option_t *option, char *pair)
         option->value.as_map[key_index].value.as_string = value;
     } else {
         // Key doesn't exist, add new entry
-
-        adjust_map_size(option);
+        if (!adjust_map_size(option)) {
+            free(key);
+            free(value);
+            ARGUS_PARSING_ERROR(argus, ARGUS_ERROR_MEMORY,
+                                "Failed to allocate memory for '%s'", option->name);
+            return ARGUS_ERROR_MEMORY;
+        }
 
         option->value.as_map[option->value_count].key             = key;
         option->value.as_map[option->value_count].value.as_string = value;
diff --git a/source/callbacks/handlers/variadic_float_handler.c b/source/callbacks/handlers/variadic_float_handler.c
index b054858..c847909 100644
--- a/source/callbacks/handlers/variadic_float_handler.c
+++ b/source/callbacks/handlers/variadic_float_handler.c
@@ -18,8 +18,7 @@
 
 static int set_float_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char  *endptr;
diff --git a/source/callbacks/handlers/variadic_int_handler.c b/source/callbacks/handlers/variadic_int_handler.c
index 1a8302b..23e53a2 100644
--- a/source/callbacks/handlers/variadic_int_handler.c
+++ b/source/callbacks/handlers/variadic_int_handler.c
@@ -20,8 +20,7 @@
 
 static int set_int_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char *endptr;
diff --git a/source/callbacks/handlers/variadic_string_handler.c b/source/callbacks/handlers/variadic_string_handler.c
index e13b314..a023e79 100644
--- a/source/callbacks/handlers/variadic_string_handler.c
+++ b/source/callbacks/handlers/variadic_string_handler.c
@@ -20,8 +20,7 @@
 
 static int set_string_value(argus_option_t *option, char *value)
 {
-    adjust_array_size(option);
-    if (option->value_capacity == 0)
+    if (!adjust_array_size(option))
         return ARGUS_ERROR_MEMORY;
 
     char *dup_value = safe_strdup(value);
diff --git a/source/utils/multi_values.c b/source/utils/multi_values.c
index 863a631..17cdbb8 100644
--- a/source/utils/multi_values.c
+++ b/source/utils/multi_values.c
@@ -444,14 +444,14 @@ void apply_map_flags(argus_option_t *option)
     }
 }
 
-void adjust_array_size(argus_option_t *option)
+bool adjust_array_size(argus_option_t *option)
 {
     if (option->value.as_array == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_array = malloc(option->value_capacity * sizeof(argus_value_t));
         if (option->value.as_array == NULL) {
             option->value_capacity = 0;
-            return;
+            return false;
         }
         option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
@@ -460,20 +460,21 @@ void adjust_array_size(argus_option_t *option)
         void *new = realloc(option->value.as_array, option->value_capacity * sizeof(argus_value_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return false;
         }
         option->value.as_array = new;
     }
+    return true;
 }
 
-void adjust_map_size(argus_option_t *option)
+bool adjust_map_size(argus_option_t *option)
 {
     if (option->value.as_map == NULL) {
         option->value_capacity = MULTI_VALUE_INITIAL_CAPACITY;
         option->value.as_map   = malloc(option->value_capacity * sizeof(argus_pair_t));
         if (option->value.as_map == NULL) {
             option->value_capacity = 0;
-            return;
+            return false;
         }
         option->is_allocated = true;
     } else if (option->value_count >= option->value_capacity) {
@@ -482,10 +483,11 @@ void adjust_map_size(argus_option_t *option)
         void *new = realloc(option->value.as_map, option->value_capacity * sizeof(argus_pair_t));
         if (new == NULL) {
             option->value_capacity = old_capacity;
-            return;
+            return false;
         }
         option->value.as_map = new;
     }
+    return true;
 }
 
 int map_find_key(argus_option_t *option, const char *key)
-- 
2.43.0


From 330710f49bcb440d2c4d1ff37d091a46bcb5a2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 28/46] fix: keep floating point values given to DEFAULT

---
 includes/argus/options.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/includes/argus/options.h b/includes/argus/options.h
index af3565c..e3381ff 100644
--- a/includes/argus/options.h
+++ b/includes/argus/options.h
@@ -72,8 +72,14 @@ ARGUS_API char *format_choices_validator(validator_data_t data);
 # define ARGUS_DEBUG_INFO            .line = 0, .file = NULL
 #endif /* ARGUS_DEBUG */
 #define DEFINE_NAME(lname, sname) ((lname) ? (lname) : CHAR_TO_STRING(sname))
-#define DEFAULT(val)            .value = (argus_value_t){ .raw = (uintptr_t)(val) },         \
-                                .default_value = (argus_value_t){ .raw = (uintptr_t)(val) }, \
+#define _DEFAULT_RAW_(val)      _Generic((val), float: 0, double: 0, default: (val))
+#define _DEFAULT_FLOAT_(val)    _Generic((val), float: (val), double: (val), default: 0)
+#define _DEFAULT_VALUE_(val)    _Generic((val),                                                        \
+                                    float:   (argus_value_t){ .as_float = _DEFAULT_FLOAT_(val) },  \
+                                    double:  (argus_value_t){ .as_float = _DEFAULT_FLOAT_(val) },  \
+                                    default: (argus_value_t){ .raw = (uintptr_t)_DEFAULT_RAW_(val) })
+#define DEFAULT(val)            .value = _DEFAULT_VALUE_(val),                               \
+                                .default_value = _DEFAULT_VALUE_(val),                       \
                                 .is_set = true, \
                                 .have_default = true
 #define HANDLER(fn)             .handler = (argus_handler_t)(fn)
-- 
2.43.0


From 8e0e41bc4d62c6428558a5e72442b99bb1380dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 29/46] fix: show 64-bit integer defaults in help

---
 source/display/help/help_formatter.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 742abff..6bab0dc 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -9,6 +9,7 @@
 
 #define _GNU_SOURCE  // NOLINT
 
+#include <inttypes.h>
 #include <stdbool.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -275,8 +276,8 @@ static char *append_default_info(char *description, const argus_option_t *option
 
     switch (option->value_type) {
         case VALUE_TYPE_INT:
-            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%d)",
-                     option->default_value.as_int);
+            snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "%" PRId64 ")",
+                     option->default_value.as_int64);
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-- 
2.43.0


From 6993ad174f642457a7bea570806a3faed3aa0ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 30/46] fix: anchor the predefined IPv4 pattern at the end of
 the value

---
 includes/argus/regex.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/includes/argus/regex.h b/includes/argus/regex.h
index e756311..088c008 100644
--- a/includes/argus/regex.h
+++ b/includes/argus/regex.h
@@ -97,7 +97,7 @@
     /* IPv4 address: 0-255.0-255.0-255.0-255 */
     #define ARGUS_RE_IPV4                                                                          \
         MAKE_REGEX("^((25[0-5]|2[0-4][0-9]|[01]?[0-9][0-9]?)\\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-"  \
-                   "9][0-9]?)",                                                                    \
+                   "9][0-9]?)$",                                                                   \
                    "IPv4")
 
     /* Simplified IPv6 pattern */
-- 
2.43.0


From 19bb3f5219c9f72d7b1af5072463f84e42b74758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:00 +0000
Subject: [PATCH 31/46] fix: record failures of environment values and
 validation in error_code

---
 source/api/argus_parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 35da575..6618403 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -39,11 +39,13 @@ int argus_parse(argus_t *argus, int argc, char **argv)
 
     status = load_env_vars(argus);
     if (status != ARGUS_SUCCESS) {
+        argus->error_code = status;
         argus_free(argus);
         return (status);
     }
 
-    status = post_parse_validation(argus);
+    status            = post_parse_validation(argus);
+    argus->error_code = status;
     if (status != ARGUS_SUCCESS)
         argus_free(argus);
     return (status);
-- 
2.43.0


From 8046a0589f392cbf24cfb0e06fb8df65909b1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 32/46] fix: show the validator of a positional argument in
 help

---
 source/display/help/help_formatter.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 6bab0dc..2439e26 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -308,8 +308,10 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
     if (!option->validators)
         return description;
 
+    // Only options display a value hint
     bool validator_used_in_hint = false;
-    if (has_single_validator(option) && !option->hint && option->validators[0]->formatter) {
+    if (option->type == TYPE_OPTION && has_single_validator(option) && !option->hint &&
+        option->validators[0]->formatter) {
         char *validator_hint = option->validators[0]->formatter(option->validators[0]->data);
         if (validator_hint && is_short_hint(argus, validator_hint))
             validator_used_in_hint = true;
-- 
2.43.0


From 30526a0f1fb8fcb3882d89342339df9bd548d1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 33/46] fix: show 64-bit validator bounds in full in help

---
 source/callbacks/validators/count_validator.c  | 4 ++--
 source/callbacks/validators/length_validator.c | 4 ++--
 source/callbacks/validators/range_validator.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/callbacks/validators/count_validator.c b/source/callbacks/validators/count_validator.c
index fc44cc1..d60514a 100644
--- a/source/callbacks/validators/count_validator.c
+++ b/source/callbacks/validators/count_validator.c
@@ -43,10 +43,10 @@ int count_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_count_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/length_validator.c b/source/callbacks/validators/length_validator.c
index bea096a..013cbdf 100644
--- a/source/callbacks/validators/length_validator.c
+++ b/source/callbacks/validators/length_validator.c
@@ -48,10 +48,10 @@ int length_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_length_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64 " chars", data.range.min, data.range.max);
     return result;
 }
diff --git a/source/callbacks/validators/range_validator.c b/source/callbacks/validators/range_validator.c
index d1ccd0e..062e57c 100644
--- a/source/callbacks/validators/range_validator.c
+++ b/source/callbacks/validators/range_validator.c
@@ -51,10 +51,10 @@ int range_validator(argus_t *argus, void *option_ptr, validator_data_t data)
 
 char *format_range_validator(validator_data_t data)
 {
-    char *result = malloc(32);
+    char *result = malloc(64);
     if (!result)
         return NULL;
 
-    snprintf(result, 32, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
+    snprintf(result, 64, "%" PRId64 "-%" PRId64, data.range.min, data.range.max);
     return result;
 }
-- 
2.43.0


From ba438cd8237e9f53ed879c93f210cc7c385f5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:10 +0000
Subject: [PATCH 34/46] fix: show float choices with more than two digits in
 help and messages

---
 source/callbacks/validators/choices_validator.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/callbacks/validators/choices_validator.c b/source/callbacks/validators/choices_validator.c
index 6d2b7cb..d27663d 100644
--- a/source/callbacks/validators/choices_validator.c
+++ b/source/callbacks/validators/choices_validator.c
@@ -125,7 +125,7 @@ char *format_choices_validator(validator_data_t data)
                 safe_strcat(result, total_length + 1, item);
                 break;
             case VALUE_TYPE_FLOAT:
-                snprintf(item, sizeof(item), "%.2g", choices->as_floats[i]);
+                snprintf(item, sizeof(item), "%g", choices->as_floats[i]);
                 safe_strcat(result, total_length + 1, item);
                 break;
             default:
-- 
2.43.0


From 5da88b0756e79aa52c8c9103d71313c1a6d9f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:49 +0000
Subject: [PATCH 35/46] fix: reject flags that are illegal for an option's
 value type

---
 includes/argus/types.h                      | 10 ++++++----
 source/core/validation/validate_arguments.c |  7 ++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/includes/argus/types.h b/includes/argus/types.h
index 3a5d34b..175329a 100644
--- a/includes/argus/types.h
+++ b/includes/argus/types.h
@@ -107,13 +107,15 @@ typedef enum argus_optflags_e
 /* Flag masks for validation */
 #define VERSIONING_FLAG_MASK (FLAG_DEPRECATED | FLAG_EXPERIMENTAL)
 #define OPTION_FLAG_MASK                                                                           \
-    (FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | VERSIONING_FLAG_MASK)
-#define OPTION_ARRAY_FLAG_MASK (FLAG_SORTED | FLAG_UNIQUE | VERSIONING_FLAG_MASK)
+    (FLAG_REQUIRED | FLAG_HIDDEN | FLAG_ADVANCED | FLAG_EXIT | FLAG_ENV_OVERRIDE | FLAG_AUTO_ENV | \
+     FLAG_NO_ENV_PREFIX | VERSIONING_FLAG_MASK)
+#define OPTION_ARRAY_FLAG_MASK (OPTION_FLAG_MASK | FLAG_SORTED | FLAG_UNIQUE)
 #define OPTION_MAP_FLAG_MASK                                                                       \
-    (FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE | VERSIONING_FLAG_MASK)
+    (OPTION_FLAG_MASK | FLAG_SORTED_VALUE | FLAG_SORTED_KEY | FLAG_UNIQUE_VALUE)
 #define GROUP_FLAG_MASK           (FLAG_EXCLUSIVE)
 #define POSITIONAL_FLAG_MASK      (FLAG_REQUIRED)
-#define POSITIONAL_MANY_FLAG_MASK (OPTION_ARRAY_FLAG_MASK | FLAG_REQUIRED | FLAG_OPTIONAL)
+#define POSITIONAL_MANY_FLAG_MASK                                                                  \
+    (FLAG_SORTED | FLAG_UNIQUE | VERSIONING_FLAG_MASK | FLAG_REQUIRED | FLAG_OPTIONAL)
 #define SUBCOMMAND_FLAG_MASK      (FLAG_HIDDEN | FLAG_ADVANCED | VERSIONING_FLAG_MASK)
 
 /**
diff --git a/source/core/validation/validate_arguments.c b/source/core/validation/validate_arguments.c
index 4ec9698..6ce4f8b 100644
--- a/source/core/validation/validate_arguments.c
+++ b/source/core/validation/validate_arguments.c
@@ -98,9 +98,10 @@ int validate_option(argus_t *argus, argus_option_t *options, argus_option_t *opt
         ARGUS_STRUCT_ERROR(option, "Option must have a short name or a long name");
         status = ARGUS_ERROR_MALFORMED_OPTION;
     }
-    if ((option->value_type == VALUE_TYPE_PRIMITIVE && option->flags & ~OPTION_FLAG_MASK) ||
-        (option->value_type == VALUE_TYPE_ARRAY && option->flags & ~OPTION_ARRAY_FLAG_MASK) ||
-        (option->value_type == VALUE_TYPE_MAP && option->flags & ~OPTION_MAP_FLAG_MASK)) {
+    if ((option->value_type & (VALUE_TYPE_PRIMITIVE | VALUE_TYPE_FLAG) &&
+         option->flags & ~OPTION_FLAG_MASK) ||
+        (option->value_type & VALUE_TYPE_ARRAY && option->flags & ~OPTION_ARRAY_FLAG_MASK) ||
+        (option->value_type & VALUE_TYPE_MAP && option->flags & ~OPTION_MAP_FLAG_MASK)) {
         ARGUS_STRUCT_ERROR(option, "Option has invalid flags for its value type");
         status = ARGUS_ERROR_INVALID_FLAG;
     }
-- 
2.43.0


From a8d07e8a1e31649aa312862905bbe10e6b9d24a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 36/46] fix: apply the placement rules to optional multi-value
 positionals

---
 source/core/validation/validate_structure.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index acb8db8..4be2a3d 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -31,21 +31,22 @@ int validate_placement(argus_option_t *options)
 
         if (option->type == TYPE_SUBCOMMAND)
             has_subcommands = true;
-        if (option->type == TYPE_POSITIONAL && !(option->flags & FLAG_REQUIRED))
-            has_optional_positional = true;
-        else if (option->type == TYPE_POSITIONAL && (option->value_type & VALUE_TYPE_VARIADIC)) {
+        if (option->type == TYPE_POSITIONAL)
+            has_positional = true;
+        if (option->type == TYPE_POSITIONAL && (option->value_type & VALUE_TYPE_VARIADIC)) {
             if (has_positional_many == true) {
                 ARGUS_STRUCT_ERROR(option, "Only one POSITIONAL_MANY argument is allowed");
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             }
             has_positional_many = true;
         } else if (option->type == TYPE_POSITIONAL) {
+            if (!(option->flags & FLAG_REQUIRED))
+                has_optional_positional = true;
             if (has_positional_many == true) {
                 ARGUS_STRUCT_ERROR(
                     option, "POSITIONAL argument must be placed before POSITIONAL_MANY argument");
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             }
-            has_positional = true;
         }
         if (option->type == TYPE_OPTION && option->name && strcmp(option->name, "help") == 0)
             has_helper = true;
-- 
2.43.0


From e4fdb8a4eb5e7ea3f74662b97a033098d34a7cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 37/46] fix: detect duplicate names of any kind, in either
 order

---
 source/core/validation/validate_structure.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index 4be2a3d..f680513 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -80,20 +80,25 @@ int validate_placement(argus_option_t *options)
     return (status);
 }
 
-static int lname_is_unique(argus_option_t *options, int i)
+static bool same_name(const char *a, const char *b)
 {
-    int status = ARGUS_SUCCESS;
+    return (a != NULL && b != NULL && strcmp(a, b) == 0);
+}
 
-    if (options[i].lname == NULL)
-        return status;
+static int names_are_unique(argus_option_t *options, int i)
+{
+    int status = ARGUS_SUCCESS;
 
     for (int j = i + 1; options[j].type != TYPE_NONE; ++j) {
-        if (options[i].lname && options[j].name && strcmp(options[i].lname, options[j].name) == 0) {
+        bool both_groups = options[i].type == TYPE_GROUP && options[j].type == TYPE_GROUP;
+
+        if (same_name(options[i].lname, options[j].name) ||
+            same_name(options[i].name, options[j].lname) ||
+            (same_name(options[i].name, options[j].name) && !both_groups)) {
             ARGUS_STRUCT_ERROR(&options[i], "Name conflict with option line: %d", options[j].line);
             status = ARGUS_ERROR_DUPLICATE_OPTION;
         }
-        if (options[i].lname && options[j].lname &&
-            strcmp(options[i].lname, options[j].lname) == 0) {
+        if (same_name(options[i].lname, options[j].lname)) {
             ARGUS_STRUCT_ERROR(&options[i], "Long name conflict with option line: %d",
                                options[j].line);
             status = ARGUS_ERROR_DUPLICATE_OPTION;
@@ -149,7 +154,7 @@ int validate_naming(argus_option_t *options)
             ARGUS_STRUCT_ERROR(option, "Long name cannot be empty");
             status = ARGUS_ERROR_MALFORMED_OPTION;
         }
-        if (lname_is_unique(options, i) != ARGUS_SUCCESS)
+        if (names_are_unique(options, i) != ARGUS_SUCCESS)
             status = ARGUS_ERROR_MALFORMED_OPTION;
     }
     return (status);
-- 
2.43.0


From 48b4ea1895d1692a069660bb7507354f2dedd7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:02 +0000
Subject: [PATCH 38/46] fix: stop descending once the command nesting limit is
 exceeded

---
 source/core/validation/validate_structure.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/core/validation/validate_structure.c b/source/core/validation/validate_structure.c
index f680513..0d3cfa9 100644
--- a/source/core/validation/validate_structure.c
+++ b/source/core/validation/validate_structure.c
@@ -212,8 +212,7 @@ int validate_structure(argus_t *argus, argus_option_t *options)
                 ARGUS_STRUCT_ERROR(option, "Subcommand depth exceeds maximum allowed (%d)",
                                    MAX_SUBCOMMAND_DEPTH);
                 status = ARGUS_ERROR_MALFORMED_OPTION;
-            }
-            if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
+            } else if (validate_structure(argus, option->sub_options) != ARGUS_SUCCESS)
                 status = ARGUS_ERROR_MALFORMED_OPTION;
             subcommand_depth--;
         }
-- 
2.43.0


From 04544dbb3d8e1aa10dee16d276ab8abcf5ef32ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:29 +0000
Subject: [PATCH 39/46] fix: a later parse keeps the commands selected by an
 earlier one

---
 source/api/argus_parse.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index 6618403..dc5d0a7 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -14,12 +14,26 @@
 #include "argus/errors.h"
 #include "argus/internal/display.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 void argus_free(argus_t *argus);
 
+// Commands selected by an earlier parse are not selected anymore
+static void leave_commands(argus_t *argus)
+{
+    for (size_t i = 0; i < argus->subcommand_depth; ++i) {
+        argus_option_t *options = argus->subcommand_stack[i]->sub_options;
+        for (argus_option_t *option = options; option->type != TYPE_NONE; ++option)
+            free_option_value(option);
+    }
+    argus->subcommand_depth = 0;
+}
+
 int argus_parse(argus_t *argus, int argc, char **argv)
 {
+    leave_commands(argus);
+
     int status        = parse_args(argus, argus->options, argc - 1, &argv[1]);
     argus->error_code = status;
     if (status == ARGUS_SHOULD_EXIT) {
-- 
2.43.0


From d3b86fb0897a2e24c09d8e53e6c6b04bc38bda69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 40/46] fix: values of an earlier parse are taken for values of
 the next one

---
 includes/argus/internal/utils.h                |  1 +
 source/api/argus_parse.c                       |  1 +
 source/core/parsing/option_handle_subcommand.c |  2 ++
 source/utils/value_utils.c                     | 10 ++++++++++
 4 files changed, 14 insertions(+)

diff --git a/includes/argus/internal/utils.h b/includes/argus/internal/utils.h
index 08a3314..f825e43 100644
--- a/includes/argus/internal/utils.h
+++ b/includes/argus/internal/utils.h
@@ -75,6 +75,7 @@ int           cmp_value(argus_valtype_t type, argus_value_t a, argus_value_t b);
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
                                size_t index);
 void          free_option_value(argus_option_t *option);
+void          reset_options(argus_option_t *options);
 void          print_value(FILE *stream, argus_valtype_t type, argus_value_t value);
 void print_value_array(FILE *stream, argus_valtype_t type, argus_value_t *values, size_t count);
 
diff --git a/source/api/argus_parse.c b/source/api/argus_parse.c
index dc5d0a7..e636a41 100644
--- a/source/api/argus_parse.c
+++ b/source/api/argus_parse.c
@@ -33,6 +33,7 @@ static void leave_commands(argus_t *argus)
 int argus_parse(argus_t *argus, int argc, char **argv)
 {
     leave_commands(argus);
+    reset_options(argus->options);
 
     int status        = parse_args(argus, argus->options, argc - 1, &argv[1]);
     argus->error_code = status;
diff --git a/source/core/parsing/option_handle_subcommand.c b/source/core/parsing/option_handle_subcommand.c
index 0cd5f97..4113f76 100644
--- a/source/core/parsing/option_handle_subcommand.c
+++ b/source/core/parsing/option_handle_subcommand.c
@@ -11,6 +11,7 @@
 
 #include "argus/errors.h"
 #include "argus/internal/parsing.h"
+#include "argus/internal/utils.h"
 #include "argus/types.h"
 
 int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **argv)
@@ -25,5 +26,6 @@ int handle_subcommand(argus_t *argus, argus_option_t *option, int argc, char **a
     option->is_set                                   = true;
     argus->subcommand_stack[argus->subcommand_depth] = option;
     argus->subcommand_depth++;
+    reset_options(option->sub_options);
     return parse_args(argus, option->sub_options, argc, argv);
 }
diff --git a/source/utils/value_utils.c b/source/utils/value_utils.c
index 07371ff..38edca4 100644
--- a/source/utils/value_utils.c
+++ b/source/utils/value_utils.c
@@ -29,6 +29,16 @@ void free_option_value(argus_option_t *option)
     option->value_capacity = 0;
 }
 
+void reset_options(argus_option_t *options)
+{
+    for (argus_option_t *option = options; option->type != TYPE_NONE; ++option) {
+        free_option_value(option);
+        option->is_set      = option->have_default;
+        option->value       = option->default_value;
+        option->value_count = 0;
+    }
+}
+
 argus_value_t choices_to_value(argus_valtype_t type, argus_value_t choices, size_t choices_count,
                                size_t index)
 {
-- 
2.43.0


From 16489face924b88446df5809c6941416b212c9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 41/46] fix: long value hints of collections are cut in the
 help

---
 includes/argus/internal/help.h       |  2 +-
 source/display/help/help_formatter.c | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/includes/argus/internal/help.h b/includes/argus/internal/help.h
index e44b47a..d78bfe7 100644
--- a/includes/argus/internal/help.h
+++ b/includes/argus/internal/help.h
@@ -127,7 +127,7 @@ const char *get_collection_format(argus_valtype_t type);
  *
  * @param format     Format pattern
  * @param type_name  Base type name
- * @return           Formatted hint string (static buffer)
+ * @return           Formatted hint string (must be freed) or NULL on failure
  */
 char *format_collection_hint(const char *format, const char *type_name);
 
diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 2439e26..2635b66 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -64,10 +64,12 @@ const char *get_collection_format(argus_valtype_t type)
 
 char *format_collection_hint(const char *format, const char *type_name)
 {
-    static char buffer[64];
+    int   length = snprintf(NULL, 0, format, type_name);
+    char *result = malloc((size_t)length + 1);
 
-    snprintf(buffer, sizeof(buffer), format, type_name);
-    return buffer;
+    if (result)
+        snprintf(result, (size_t)length + 1, format, type_name);
+    return result;
 }
 
 bool is_short_hint(argus_t *argus, const char *hint)
@@ -234,8 +236,10 @@ size_t print_option_name(argus_t *argus, const argus_option_t *option, size_t in
             const char *collection_format = get_collection_format(option->value_type);
 
             if (collection_format) {
-                const char *format_str = format_collection_hint(collection_format, smart_hint);
-                name_len += printf(" <%s>", format_str);
+                char *format_str = format_collection_hint(collection_format, smart_hint);
+                if (format_str)
+                    name_len += printf(" <%s>", format_str);
+                free(format_str);
             } else
                 name_len += printf(" <%s>", smart_hint);
             free(smart_hint);
-- 
2.43.0


From 62fb5f4c12ccd90f4d1288a8af174c62d11a6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:09 +0000
Subject: [PATCH 42/46] fix: long default values are cut in the help

---
 source/display/help/help_formatter.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index 2635b66..cd3ee6e 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -274,7 +274,7 @@ static char *append_default_info(char *description, const argus_option_t *option
     if (!option->have_default || option->value_type == VALUE_TYPE_FLAG)
         return description;
 
-    char default_buf[128] = {0};
+    char default_buf[384] = {0};  // "%.2f" may need more than 300 characters
     snprintf(default_buf, sizeof(default_buf), " (default: ");
     size_t default_len = strlen(default_buf);
 
@@ -285,8 +285,9 @@ static char *append_default_info(char *description, const argus_option_t *option
             break;
         case VALUE_TYPE_STRING:
             if (option->default_value.as_string) {
-                snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "\"%s\")",
-                         option->default_value.as_string);
+                description = append_to_description(description, " (default: \"");
+                description = append_to_description(description, option->default_value.as_string);
+                return append_to_description(description, "\")");
             } else
                 snprintf(default_buf + default_len, sizeof(default_buf) - default_len, "null)");
             break;
-- 
2.43.0


From 18d20850bdd8a7b90de5c5a2e9b3c6e27cca19be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:13 +0000
Subject: [PATCH 43/46] fix: long lists of choices are cut in the help

---
 source/display/help/help_formatter.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/source/display/help/help_formatter.c b/source/display/help/help_formatter.c
index cd3ee6e..176d6a8 100644
--- a/source/display/help/help_formatter.c
+++ b/source/display/help/help_formatter.c
@@ -330,27 +330,28 @@ static char *append_validator_info(char *description, argus_t *argus, const argu
             if (validator->formatter) {
                 char *validator_desc = validator->formatter(validator->data);
                 if (validator_desc) {
-                    char validator_info[256] = {0};
+                    const char *before = NULL;
+                    const char *after  = ")";
 
                     if (validator->func == regex_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (pattern: %s)",
-                                 validator_desc);
+                        before = " (pattern: ";
                     } else if (validator->func == choices_string_validator ||
                                validator->func == choices_int_validator ||
                                validator->func == choices_float_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " [%s]", validator_desc);
+                        before = " [";
+                        after  = "]";
                     } else if (validator->func == length_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (%s)", validator_desc);
+                        before = " (";
                     } else if (validator->func == range_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (range: %s)",
-                                 validator_desc);
+                        before = " (range: ";
                     } else if (validator->func == count_validator) {
-                        snprintf(validator_info, sizeof(validator_info), " (count: %s)",
-                                 validator_desc);
+                        before = " (count: ";
                     }
 
-                    if (validator_info[0] != '\0') {
-                        description = append_to_description(description, validator_info);
+                    if (before != NULL) {
+                        description = append_to_description(description, before);
+                        description = append_to_description(description, validator_desc);
+                        description = append_to_description(description, after);
                     }
 
                     free(validator_desc);
-- 
2.43.0


From 8427fb64a8af08740ac6c7899155b80a5de72e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 44/46] fix: the title of a group hides options of the same
 name

---
 source/utils/option_lookup.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index 5816536..3ffe625 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -51,7 +51,9 @@ argus_option_t *find_positional(argus_option_t *options, int position)
 argus_option_t *find_option_by_name(argus_option_t *options, const char *name)
 {
     for (int i = 0; options[i].type != TYPE_NONE; ++i) {
-        if (options[i].name && strcmp(options[i].name, name) == 0) {
+        // The title of a group is not a name
+        if (options[i].type != TYPE_GROUP && options[i].name &&
+            strcmp(options[i].name, name) == 0) {
             return (&options[i]);
         }
     }
-- 
2.43.0


From fc1681168c4b3cc64bfae9ea3c437322d930d895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:26 +0000
Subject: [PATCH 45/46] fix: a command hides the option of the same name of an
 outer level

---
 source/utils/option_lookup.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/utils/option_lookup.c b/source/utils/option_lookup.c
index 3ffe625..d5e5dd4 100644
--- a/source/utils/option_lookup.c
+++ b/source/utils/option_lookup.c
@@ -72,6 +72,8 @@ const argus_option_t *get_active_options(argus_t *argus)
 
 static argus_option_t *find_from_relative_path(argus_t *argus, const char *option_name)
 {
+    argus_option_t *command = NULL;
+
     for (int i = (int)argus->subcommand_depth; i >= 0; --i) {
         argus_option_t *options;
 
@@ -81,10 +83,13 @@ static argus_option_t *find_from_relative_path(argus_t *argus, const char *optio
             options = argus->subcommand_stack[i - 1]->sub_options;
 
         argus_option_t *option = find_option_by_name(options, option_name);
-        if (option != NULL)
+        // A command does not hide an option of an outer level
+        if (option != NULL && option->type != TYPE_SUBCOMMAND)
             return (option);
+        if (command == NULL)
+            command = option;
     }
-    return (NULL);
+    return (command);
 }
 
 static size_t count_components(const char *path)
-- 
2.43.0


From a2f31847e468ff8213ad85eb9ea2cc83404e1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:39 +0000
Subject: [PATCH 46/46] fix: the help crashes when the memory for a group is
 not available

---
 source/display/help/help_organizer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/display/help/help_organizer.c b/source/display/help/help_organizer.c
index 4962a4f..013179c 100644
--- a/source/display/help/help_organizer.c
+++ b/source/display/help/help_organizer.c
@@ -93,7 +93,8 @@ void organize_options(const argus_option_t *options, help_data_t *data)
                 if (current_group != NULL) {
                     if (group == NULL)
                         group = find_or_create_group(data, current_group);
-                    add_option_to_list(&group->options, option);
+                    // Without memory for the group, the option is listed with the ungrouped ones
+                    add_option_to_list(group != NULL ? &group->options : &data->ungrouped, option);
                 } else
                     add_option_to_list(&data->ungrouped, option);
                 break;
-- 
2.43.0

