From cc2117e8feaa6812aca64c17558742a3b2f5b1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 01/33] fix: string map lookup by key length reads beyond the
 given length

---
 src/string_map.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/string_map.c b/src/string_map.c
index 47688e0..34cea49 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -255,11 +255,9 @@ __get_index_of_key_if_exists(
     if (NULL == string_map_impl->key_value_pairs[i].key) {
       continue;
     }
-    size_t cmp_count = strlen(string_map_impl->key_value_pairs[i].key);
-    if (key_length > cmp_count) {
-      cmp_count = key_length;
-    }
-    if (strncmp(key, string_map_impl->key_value_pairs[i].key, cmp_count) == 0) {
+    const char * stored_key = string_map_impl->key_value_pairs[i].key;
+    // only the first key_length bytes of the given key may be read
+    if (strlen(stored_key) == key_length && strncmp(key, stored_key, key_length) == 0) {
       *index = i;
       return true;
     }
-- 
2.43.0


From bdaf0eca940cb4c1cef9d716055b88d8f9372c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 02/33] fix: shrinking a string map with gaps loses the pairs
 stored beyond the new capacity

---
 src/string_map.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/string_map.c b/src/string_map.c
index 34cea49..b335457 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -180,6 +180,21 @@ rcutils_string_map_reserve(rcutils_string_map_t * string_map, size_t capacity)
       return RCUTILS_RET_BAD_ALLOC;
     }
 
+    // when shrinking, move the pairs that would be cut off into free slots, which exist because the
+    // requested capacity is at least the size
+    size_t free_index = 0;
+    for (size_t i = capacity; i < string_map->impl->capacity; ++i) {
+      if (NULL == string_map->impl->key_value_pairs[i].key) {
+        continue;
+      }
+      while (NULL != string_map->impl->key_value_pairs[free_index].key) {
+        ++free_index;
+      }
+      string_map->impl->key_value_pairs[free_index] = string_map->impl->key_value_pairs[i];
+      string_map->impl->key_value_pairs[i].key = NULL;
+      string_map->impl->key_value_pairs[i].value = NULL;
+    }
+
     // resize the keys and values, assigning the result only if it succeeds
     key_value_pair_t * new_key_value_pairs = allocator.reallocate(
       string_map->impl->key_value_pairs, capacity * sizeof(key_value_pair_t), allocator.state);
-- 
2.43.0


From 70fd8f7c71776f973b3fb90c5263c2368f79468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 03/33] fix: char array keeps a dangling buffer when growing
 fails

---
 src/char_array.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 76743d1..ae71676 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -106,6 +106,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
     RCUTILS_CHECK_FOR_NULL_WITH_MSG(
       new_buf,
       "failed to reallocate memory for char array",
+      // the old buffer was freed by rcutils_reallocf()
+      char_array->buffer = NULL;
+      char_array->buffer_capacity = 0lu;
+      char_array->buffer_length = 0lu;
       return RCUTILS_RET_BAD_ALLOC);
     char_array->buffer = new_buf;
   } else {  // we don't realloc memory we don't own. instead, we alloc some new space
-- 
2.43.0


From 457653e70642033c34375e5a99c1f9840f309066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 04/33] fix: resizing an empty unowned char array writes before
 the buffer

---
 src/char_array.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/char_array.c b/src/char_array.c
index ae71676..86a0f5f 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -118,8 +118,10 @@ rcutils_char_array_resize(rcutils_char_array_t * char_array, size_t new_size)
       return ret;
     }
     size_t n = MIN(new_size, old_size);
-    memcpy(char_array->buffer, old_buf, n);
-    char_array->buffer[n - 1] = '\0';  // always have an ending
+    if (n > 0lu) {
+      memcpy(char_array->buffer, old_buf, n);
+      char_array->buffer[n - 1] = '\0';  // always have an ending
+    }
   }
 
   char_array->buffer_capacity = new_size;
-- 
2.43.0


From b05f2665b459f30df5aa0fc927d514666f227557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 05/33] fix: char array strncat reads beyond the end of the
 source string

---
 src/char_array.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/char_array.c b/src/char_array.c
index 86a0f5f..3286e86 100644
--- a/src/char_array.c
+++ b/src/char_array.c
@@ -226,6 +226,8 @@ rcutils_char_array_strncat(rcutils_char_array_t * char_array, const char * src,
     // The buffer length always contains the trailing \0, so the strlen is one less than that.
     current_strlen = char_array->buffer_length - 1;
   }
+  // like strncat(), append at most n bytes and stop at the end of the source string
+  n = strnlen(src, n);
   size_t new_length = current_strlen + n + 1;
   rcutils_ret_t ret = rcutils_char_array_expand_as_needed(char_array, new_length);
   if (ret != RCUTILS_RET_OK) {
-- 
2.43.0


From df6dc7922c53b7d3fbccb350a35bf9d0a5b1ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:27 +0000
Subject: [PATCH 06/33] fix: rcutils_reallocf to a size of zero frees the
 memory twice

---
 src/allocator.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/allocator.c b/src/allocator.c
index d364bde..1db59e2 100644
--- a/src/allocator.c
+++ b/src/allocator.c
@@ -110,7 +110,8 @@ rcutils_reallocf(void * pointer, size_t size, rcutils_allocator_t * allocator)
     return NULL;
   }
   void * new_pointer = allocator->reallocate(pointer, size, allocator->state);
-  if (NULL == new_pointer) {
+  // reallocating to a size of zero releases the memory, it must not be released again
+  if (NULL == new_pointer && 0 != size) {
     allocator->deallocate(pointer, allocator->state);
   }
   return new_pointer;
-- 
2.43.0


From 035933ff187eef90a879a659916ac2510fda40e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 07/33] fix: array list init allocates too little when the
 requested size overflows

---
 src/array_list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/array_list.c b/src/array_list.c
index 8761cec..eb05274 100644
--- a/src/array_list.c
+++ b/src/array_list.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 
 #include "rcutils/allocator.h"
@@ -66,6 +67,9 @@ rcutils_array_list_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / data_size) {
+    RCUTILS_SET_ERROR_MSG("requested capacity for array_list too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   array_list->impl = allocator->allocate(sizeof(rcutils_array_list_impl_t), allocator->state);
-- 
2.43.0


From 4c4108d734a8f0870a68915884328fbdaff01be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 08/33] fix: hash map init gives a too small map when the
 requested capacity overflows

---
 src/hash_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hash_map.c b/src/hash_map.c
index 28748d6..2fe31c9 100644
--- a/src/hash_map.c
+++ b/src/hash_map.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <string.h>
 #include <stdio.h>
 
@@ -266,6 +267,10 @@ rcutils_hash_map_init(
   } else if (1 > data_size) {
     RCUTILS_SET_ERROR_MSG("data_size cannot be less than 1");
     return RCUTILS_RET_INVALID_ARGUMENT;
+  } else if (initial_capacity > SIZE_MAX / 2 / sizeof(rcutils_hash_map_impl_t)) {
+    // rounding up to a power of two or calculating the allocation size would overflow
+    RCUTILS_SET_ERROR_MSG("requested capacity for hash_map too large");
+    return RCUTILS_RET_BAD_ALLOC;
   }
 
   // Due to an optimization we use during lookup, the capacity must be a power-of-two.
-- 
2.43.0


From feb2b09d26fcd6c452cba2a12d96760f009e4dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 09/33] fix: string array resize writes out of bounds when the
 requested size overflows

---
 src/string_array.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/string_array.c b/src/string_array.c
index e279a37..db3ce98 100644
--- a/src/string_array.c
+++ b/src/string_array.c
@@ -17,6 +17,7 @@ extern "C"
 {
 #endif
 
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 
@@ -154,6 +155,12 @@ rcutils_string_array_resize(
   RCUTILS_CHECK_ALLOCATOR_WITH_MSG(
     allocator, "allocator is invalid", return RCUTILS_RET_INVALID_ARGUMENT);
 
+  // ensure that reallocate won't overflow SIZE_MAX
+  if (new_size > SIZE_MAX / sizeof(char *)) {
+    RCUTILS_SET_ERROR_MSG("requested size for string_array too large");
+    return RCUTILS_RET_BAD_ALLOC;
+  }
+
   // Stash entries being removed
   rcutils_string_array_t to_reclaim = rcutils_get_zero_initialized_string_array();
   if (new_size < string_array->size) {
-- 
2.43.0


From 4eaf7fe7641a055abeb6ac142cd8864be85ba8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 10/33] fix: split_last returns delimiters or uninitialized
 memory for repeated or trailing delimiters

---
 src/split.c | 62 +++++++++++++++++++++++------------------------------
 1 file changed, 27 insertions(+), 35 deletions(-)

diff --git a/src/split.c b/src/split.c
index 98c4783..0df9926 100644
--- a/src/split.c
+++ b/src/split.c
@@ -133,41 +133,40 @@ rcutils_split_last(
     return RCUTILS_RET_OK;
   }
 
-  size_t string_size = strlen(str);
-
-  // does it start with a delimiter?
-  size_t lhs_offset = 0;
-  if (str[0] == delimiter) {
-    lhs_offset = 1;
+  // ignore all delimiters at the start and at the end
+  size_t lhs = 0;
+  size_t rhs = strlen(str);
+  while (lhs < rhs && str[lhs] == delimiter) {
+    ++lhs;
   }
-
-  // does it end with a delimiter?
-  size_t rhs_offset = 0;
-  if (str[string_size - 1] == delimiter) {
-    rhs_offset = 1;
+  while (rhs > lhs && str[rhs - 1] == delimiter) {
+    --rhs;
+  }
+  if (lhs == rhs) {
+    *string_array = rcutils_get_zero_initialized_string_array();
+    return RCUTILS_RET_OK;
   }
 
-  size_t found_last = string_size;
-  for (size_t i = lhs_offset; i < string_size - rhs_offset; ++i) {
+  size_t found_last = rhs;
+  for (size_t i = lhs; i < rhs; ++i) {
     if (str[i] == delimiter) {
       found_last = i;
     }
   }
 
   rcutils_ret_t result_error;
-  if (found_last == string_size) {
+  if (found_last == rhs) {
     rcutils_ret_t ret = rcutils_string_array_init(string_array, 1, &allocator);
     if (ret != RCUTILS_RET_OK) {
       result_error = ret;
       goto fail;
     }
-    string_array->data[0] =
-      allocator.allocate((found_last - lhs_offset + 2) * sizeof(char), allocator.state);
+    string_array->data[0] = allocator.allocate((rhs - lhs + 1) * sizeof(char), allocator.state);
     if (NULL == string_array->data[0]) {
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(string_array->data[0], found_last - lhs_offset + 1, "%s", str + lhs_offset);
+    snprintf(string_array->data[0], rhs - lhs + 1, "%s", str + lhs);
   } else {
     rcutils_ret_t ret = rcutils_string_array_init(string_array, 2, &allocator);
     if (ret != RCUTILS_RET_OK) {
@@ -175,33 +174,26 @@ rcutils_split_last(
       goto fail;
     }
 
-    /*
-     * The extra +1 after 'found_last' is to compensate its position
-     * found_last is the index of the the last position the delimiter was found
-     * and not the actual position in terms of counting from 1
-     */
-    size_t inner_rhs_offset = (str[found_last - 1] == delimiter) ? 1 : 0;
-    string_array->data[0] = allocator.allocate(
-      (found_last + 1 - lhs_offset - inner_rhs_offset + 1) * sizeof(char),
-      allocator.state);
+    // the first token ends before the first of the consecutive delimiters found last
+    size_t first_end = found_last;
+    while (str[first_end - 1] == delimiter) {
+      --first_end;
+    }
+    string_array->data[0] =
+      allocator.allocate((first_end - lhs + 1) * sizeof(char), allocator.state);
     if (NULL == string_array->data[0]) {
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(
-      string_array->data[0], found_last + 1 - lhs_offset - inner_rhs_offset,
-      "%s", str + lhs_offset);
+    snprintf(string_array->data[0], first_end - lhs + 1, "%s", str + lhs);
 
-    string_array->data[1] = allocator.allocate(
-      (string_size - found_last - rhs_offset + 1) * sizeof(char),
-      allocator.state);
+    string_array->data[1] =
+      allocator.allocate((rhs - found_last) * sizeof(char), allocator.state);
     if (NULL == string_array->data[1]) {
       result_error = RCUTILS_RET_BAD_ALLOC;
       goto fail;
     }
-    snprintf(
-      string_array->data[1], string_size - found_last - rhs_offset, "%s",
-      str + found_last + 1);
+    snprintf(string_array->data[1], rhs - found_last, "%s", str + found_last + 1);
   }
 
   return RCUTILS_RET_OK;
-- 
2.43.0


From 67931bd7ab6575805e36085f2878c4211413dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 11/33] fix: rcutils_join_path silently truncates long paths

---
 src/filesystem.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 25c71d7..0b734e1 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -182,8 +182,10 @@ rcutils_join_path(
     return NULL;
   }
 
-  return rcutils_format_string(
+  // rcutils_format_string() would truncate long paths
+  return rcutils_format_string_limit(
     allocator,
+    strlen(left_hand_path) + strlen(RCUTILS_PATH_DELIMITER) + strlen(right_hand_path) + 1,
     "%s%s%s",
     left_hand_path, RCUTILS_PATH_DELIMITER, right_hand_path);
 }
-- 
2.43.0


From ccc484468d0d991ff8003c10d23d74cc807b6361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 12/33] fix: rcutils_dir_iter_next dereferences the null state
 it checks for

---
 src/filesystem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 0b734e1..924492c 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -477,7 +477,7 @@ bool
 rcutils_dir_iter_next(rcutils_dir_iter_t * iter)
 {
   RCUTILS_CHECK_ARGUMENT_FOR_NULL(iter, false);
-  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", false);
+  RCUTILS_CHECK_FOR_NULL_WITH_MSG(iter->state, "iter is invalid", return false);
 
 #ifdef _WIN32
   if (FindNextFile(iter->state->handle, &iter->state->data)) {
-- 
2.43.0


From 98507afd251452ae33146278fc4d511bed3c2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 13/33] fix: calculating the size of a directory without
 entries dereferences a null name

---
 src/filesystem.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index 924492c..5dfd268 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -388,12 +388,16 @@ rcutils_calculate_directory_size_with_recursion(
       goto fail;
     }
 
-    do {
+    // a directory that was removed meanwhile has no entry at all
+    while (NULL != iter->entry_name) {
       ret = check_and_calculate_size(iter->entry_name, size, max_depth, dir_list, allocator);
       if (RCUTILS_RET_OK != ret) {
         goto fail;
       }
-    } while (rcutils_dir_iter_next(iter));
+      if (!rcutils_dir_iter_next(iter)) {
+        break;
+      }
+    }
 
     rcutils_dir_iter_end(iter);
 
-- 
2.43.0


From a276f56705baad526439a05e1076872a22e2cd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:32 +0000
Subject: [PATCH 14/33] fix: directory size calculation follows symbolic links
 despite its documentation

---
 src/filesystem.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/filesystem.c b/src/filesystem.c
index 5dfd268..dd177de 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -310,6 +310,15 @@ static rcutils_ret_t check_and_calculate_size(
     return RCUTILS_RET_BAD_ALLOC;
   }
 
+#ifndef _WIN32
+  // symbolic links are not followed
+  struct stat link_stat;
+  if (lstat(file_path, &link_stat) == 0 && S_ISLNK(link_stat.st_mode)) {
+    allocator.deallocate(file_path, allocator.state);
+    return RCUTILS_RET_OK;
+  }
+#endif
+
   if (rcutils_is_directory(file_path)) {
     if ((max_depth == 0) || ((dir_list->depth + 1) <= max_depth)) {
       // Add new directory to dir_list
-- 
2.43.0


From 5a68b6177df353f7bd4d3e54f1734ae1a49c5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 15/33] fix: rcutils_cli_get_option returns the value of
 another option that has the option as a prefix

---
 src/cmdline_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index 148c26f..fb15f35 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -32,7 +32,7 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
   size_t idx = 0;
   size_t end_idx = (size_t)(end - begin);
   for (; idx < end_idx; ++idx) {
-    if (strncmp(begin[idx], option, strlen(option)) == 0) {
+    if (strcmp(begin[idx], option) == 0) {
       break;
     }
   }
-- 
2.43.0


From 68b8342b1d580a248ed99bf8b7acb0f4bdb7f8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 16/33] fix: rcutils_cli_get_option reads beyond an empty range

---
 src/cmdline_parser.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmdline_parser.c b/src/cmdline_parser.c
index fb15f35..d1e497b 100644
--- a/src/cmdline_parser.c
+++ b/src/cmdline_parser.c
@@ -37,8 +37,8 @@ char * rcutils_cli_get_option(char ** begin, char ** end, const char * option)
     }
   }
 
-  if (idx < end_idx - 1 && begin[idx++] != NULL) {
-    return begin[idx];
+  if (idx + 1 < end_idx) {
+    return begin[idx + 1];
   }
 
   return NULL;
-- 
2.43.0


From a08cbd2bac04c51af284925aefa5ba71b3c2e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 17/33] fix: date string shows wrong milliseconds when the
 nanoseconds have fewer than nine digits

---
 src/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index 882c9d9..47be937 100644
--- a/src/time.c
+++ b/src/time.c
@@ -66,7 +66,7 @@ rcutils_time_point_value_as_date_string(
   // Make sure the buffer is large enough to hold the largest possible uint64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRIu64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 4d8110399857af4a0e4e51a55e6f182f46f23486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 18/33] fix: date string is rejected instead of truncated when
 the buffer is too small

---
 src/time.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/time.c b/src/time.c
index 47be937..d7492cb 100644
--- a/src/time.c
+++ b/src/time.c
@@ -85,15 +85,12 @@ rcutils_time_point_value_as_date_string(
   }
 #endif
 
-  if (str_size < 32 || strftime(str, 32, "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
+  char date_str[32];
+  if (strftime(date_str, sizeof(date_str), "%Y-%m-%d %H:%M:%S", &ptm) == 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as iso8601_date");
     return RCUTILS_RET_ERROR;
   }
-  static const int date_end_position = 19;
-  if (rcutils_snprintf(
-      &str[date_end_position], str_size - date_end_position, ".%.3s",
-      nanoseconds_str) < 0)
-  {
+  if (rcutils_snprintf(str, str_size, "%s.%.3s", date_str, nanoseconds_str) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point into string as date_time_with_ms");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 140586c83b80bb9fa71a8f373305f83102bca2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 19/33] fix: date string of a time point before the epoch shows
 the date of its absolute value

---
 src/time.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/time.c b/src/time.c
index d7492cb..a605487 100644
--- a/src/time.c
+++ b/src/time.c
@@ -57,16 +57,18 @@ rcutils_time_point_value_as_date_string(
   if (0 == str_size) {
     return RCUTILS_RET_OK;
   }
-  // best to abs it to avoid issues with negative values in C89, see:
-  //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
   // break into two parts to avoid floating point error
-  uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
-  uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-  // Make sure the buffer is large enough to hold the largest possible uint64_t
+  int64_t seconds = *time_point / (1000 * 1000 * 1000);
+  int64_t nanoseconds = *time_point % (1000 * 1000 * 1000);
+  if (nanoseconds < 0) {
+    // before the epoch, round the seconds down
+    nanoseconds += 1000 * 1000 * 1000;
+    seconds -= 1;
+  }
+  // Make sure the buffer is large enough to hold the largest possible int64_t
   char nanoseconds_str[21];
 
-  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRIu64, nanoseconds) < 0) {
+  if (rcutils_snprintf(nanoseconds_str, sizeof(nanoseconds_str), "%.9" PRId64, nanoseconds) < 0) {
     RCUTILS_SET_ERROR_MSG("failed to format time point nanoseconds into string");
     return RCUTILS_RET_ERROR;
   }
-- 
2.43.0


From 26058066c0b3219d01494f4cd062083ae8b02820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:52 +0000
Subject: [PATCH 20/33] fix: rcutils_strerror writes before a buffer of size
 zero

---
 src/strerror.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/strerror.c b/src/strerror.c
index a425010..34a13f9 100644
--- a/src/strerror.c
+++ b/src/strerror.c
@@ -25,6 +25,9 @@ extern "C"
 void
 rcutils_strerror(char * buffer, size_t buffer_length)
 {
+  if (0 == buffer_length) {
+    return;
+  }
 #if defined(_WIN32)
   strerror_s(buffer, buffer_length, errno);
 #elif defined(_GNU_SOURCE) && (!defined(ANDROID) || __ANDROID_API__ >= 23) && !defined(__QNXNTO__)
-- 
2.43.0


From ea0d1c0e57032f4481c5e9b9671d7ad4418a65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 21/33] fix: executable name of an empty invocation name
 overflows its buffer

---
 src/process.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.c b/src/process.c
index b93ed9f..52f70d6 100644
--- a/src/process.c
+++ b/src/process.c
@@ -79,7 +79,8 @@ char * rcutils_get_executable_name(rcutils_allocator_t allocator)
 
   // Since the above memory may be static, and the caller may want to modify
   // the argument, make and return a copy here.
-  char * executable_name = allocator.allocate(applen + 1, allocator.state);
+  // One more byte than the name and its terminator need, as the base name of an empty name is ".".
+  char * executable_name = allocator.allocate(applen + 2, allocator.state);
   if (NULL == executable_name) {
     return NULL;
   }
-- 
2.43.0


From c82aa17608dedf850a7411c0e475881e586d6532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:19 +0000
Subject: [PATCH 22/33] fix: signed overflow for the earliest time point in
 seconds string

---
 src/time.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/time.c b/src/time.c
index a605487..3351ee5 100644
--- a/src/time.c
+++ b/src/time.c
@@ -113,7 +113,8 @@ rcutils_time_point_value_as_seconds_string(
   }
   // best to abs it to avoid issues with negative values in C89, see:
   //   https://stackoverflow.com/a/3604984/671658
-  uint64_t abs_time_point = (uint64_t)llabs(*time_point);
+  // and negate it as an unsigned value, since the smallest value has no signed negation
+  uint64_t abs_time_point = *time_point < 0 ? 0u - (uint64_t)*time_point : (uint64_t)*time_point;
   // break into two parts to avoid floating point error
   uint64_t seconds = abs_time_point / (1000u * 1000u * 1000u);
   uint64_t nanoseconds = abs_time_point % (1000u * 1000u * 1000u);
-- 
2.43.0


From dae99c432627fc2812e9875921f21b45fedbe9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 23/33] fix: output format string loses text around unknown
 escapes and keeps old text

A format containing a backslash which does not start a known escape sequence
lost or duplicated text, a trailing backslash dropped everything before it, and
a format shorter than the one of an earlier initialization was not terminated.
---
 src/logging.c | 78 ++++++++++++++++++---------------------------------
 1 file changed, 27 insertions(+), 51 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 7aac274..561bd9d 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -460,9 +460,6 @@ static void create_format_string(
   const char * logging_output_format_string)
 {
   size_t dest_buffer_index = 0;
-  size_t start_offset = 0;
-  size_t start_offset_previous_not_copy = 0;
-  size_t back_slash_index = 0;
 
   size_t length = strlen(logging_output_format_string);
   if (length > RCUTILS_LOGGING_MAX_OUTPUT_FORMAT_LEN - 1) {
@@ -470,64 +467,43 @@ static void create_format_string(
   }
 
   for (size_t i = 0; i < length; ) {
-    back_slash_index = rcutils_findn(
-      logging_output_format_string + i, RCUTILS_LOGGING_BACKSLASH_CHAR, length - i);
-    if (back_slash_index == SIZE_MAX) {
-      memcpy(
-        g_rcutils_logging_output_format_string + dest_buffer_index,
-        logging_output_format_string + start_offset - start_offset_previous_not_copy,
-        length - start_offset + start_offset_previous_not_copy);
-      break;
-    } else {
-      const char * expected_char = NULL;
-      int skip_chars = 0;
-
-      if (logging_output_format_string[i + back_slash_index + 1] == 'x' &&
-        logging_output_format_string[i + back_slash_index + 2] == '1' &&
-        logging_output_format_string[i + back_slash_index + 3] == 'b')
-      {
+    const char * remaining = logging_output_format_string + i;
+    char decoded_char = '\0';
+    // number of characters of the format string which are consumed in this iteration
+    size_t consumed = 1;
+
+    if (RCUTILS_LOGGING_BACKSLASH_CHAR == remaining[0] && length - i > 1) {
+      consumed = 2;
+      if (length - i >= 4 && strncmp(remaining, "\\x1b", 4) == 0) {
         // detect escape sequence
         ACTIVATE_VIRTUAL_TERMINAL_PROCESSING();
-        expected_char = "\x1b";
-        // the 4 char long "\x1b" string literal will become a 2 char long \x1b escape sequence
-        // therefore we need to skip forward in parsing the output format string
-        skip_chars = 2;
+        decoded_char = '\x1b';
+        consumed = 4;
       } else {
-        switch (logging_output_format_string[i + back_slash_index + 1]) {
-          case 'a':  expected_char = "\a"; break;  // alert
-          case 'b':  expected_char = "\b"; break;  // backspace
-          case 'n':  expected_char = "\n"; break;  // new line
-          case 'r':  expected_char = "\r"; break;  // carriage return
-          case 't':  expected_char = "\t"; break;  // horizontal tab
+        switch (remaining[1]) {
+          case 'a':  decoded_char = '\a'; break;  // alert
+          case 'b':  decoded_char = '\b'; break;  // backspace
+          case 'n':  decoded_char = '\n'; break;  // new line
+          case 'r':  decoded_char = '\r'; break;  // carriage return
+          case 't':  decoded_char = '\t'; break;  // horizontal tab
           default:
             break;
         }
       }
+    }
 
-      if (expected_char) {
-        if (back_slash_index > 0) {
-          // copy previous buffer first
-          size_t len = back_slash_index + start_offset_previous_not_copy;
-          memcpy(
-            g_rcutils_logging_output_format_string + dest_buffer_index,
-            logging_output_format_string + start_offset,
-            len);
-          dest_buffer_index += len;
-          start_offset += len;
-          start_offset_previous_not_copy = 0;
-        }
-
-        // copy the decoded character
-        g_rcutils_logging_output_format_string[dest_buffer_index] = expected_char[0];
-        dest_buffer_index += 1;
-        start_offset += 2 + skip_chars;
-      } else {
-        start_offset_previous_not_copy += (back_slash_index + 2);
-      }
-
-      i += (back_slash_index + 2 + skip_chars);
+    if ('\0' != decoded_char) {
+      g_rcutils_logging_output_format_string[dest_buffer_index++] = decoded_char;
+    } else {
+      // not a known escape sequence, copy it unchanged
+      memcpy(g_rcutils_logging_output_format_string + dest_buffer_index, remaining, consumed);
+      dest_buffer_index += consumed;
     }
+    i += consumed;
   }
+
+  // Terminate the string, the buffer may still contain the format of a previous initialization.
+  g_rcutils_logging_output_format_string[dest_buffer_index] = '\0';
 }
 
 static bool add_handler(token_handler handler, size_t start_offset, size_t end_offset)
-- 
2.43.0


From 0d567dce38742d7b2f8f739115e65ef282d25c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:14 +0000
Subject: [PATCH 24/33] fix: logger name leaked when storing its severity level
 fails

---
 src/logging.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index 561bd9d..8aaad43 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -890,6 +890,11 @@ static rcutils_ret_t add_key_to_hash_map(const char * name, int level, bool set_
   rcutils_ret_t hash_map_ret =
     rcutils_hash_map_set(&g_rcutils_logging_severities_map, &copy_name, &level);
   if (hash_map_ret != RCUTILS_RET_OK) {
+    if (!already_exists) {
+      // The hash map did not take over the copied name.
+      g_rcutils_logging_allocator.deallocate(
+        (char *)copy_name, g_rcutils_logging_allocator.state);
+    }
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(
       "Error setting severity level for logger named '%s': %s",
       name, rcutils_get_error_string().str);
-- 
2.43.0


From 936856ac75ade35ab2deeae60c4d6f0d16a3a408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:40 +0000
Subject: [PATCH 25/33] fix: logger loses its severity level when setting a new
 one fails

---
 src/logging.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/logging.c b/src/logging.c
index 8aaad43..ee66fb6 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1103,16 +1103,11 @@ rcutils_ret_t rcutils_logging_set_logger_level(const char * name, int level)
       char * previous_key = key;
       bool free_current_key = false;
       if (key != NULL && strncmp(name, key, name_length) == 0) {
-        // If this is the key we are replacing, unconditionally remove it from the hash map;
-        // we'll be adding it back as a user-set level anyway
-        if (key[name_length] == '\0') {
+        // The key we are replacing stays in the hash map: its level is overwritten below, which
+        // cannot fail and lose the old level.  Any other match is a descendant; only remove it from
+        // the hash map if we cached it (the user didn't explicitly set it).
+        if (key[name_length] != '\0' && !(tmp_level & 0x1)) {
           free_current_key = true;
-        } else {
-          // Otherwise, this is a descendant; only remove it from the hash map
-          // if we cached it (the user didn't explicitly set it).
-          if (!(tmp_level & 0x1)) {
-            free_current_key = true;
-          }
         }
       }
 
-- 
2.43.0


From 1f9aa6bedd4f9335ad69e11663032f191d6f0592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:57 +0000
Subject: [PATCH 26/33] fix: formatting a message fails or is not terminated
 when tokens expand to nothing

---
 src/logging.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/logging.c b/src/logging.c
index ee66fb6..eaa9242 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -1226,6 +1226,11 @@ rcutils_ret_t rcutils_logging_format_message(
     .msg = msg
   };
 
+  // Make sure that the output is a terminated string even if every token expands to nothing.
+  if (rcutils_char_array_strcat(logging_output, "") != RCUTILS_RET_OK) {
+    return RCUTILS_RET_ERROR;
+  }
+
   for (size_t i = 0; i < g_num_log_msg_handlers; ++i) {
     if (g_handlers[i].handler(
         &logging_input, logging_output,
-- 
2.43.0


From 4d1bd0d39f68886a3986053c5f9770de7d60cd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 27/33] fix: rcutils_get_error_state returns NULL without an
 error, as documented

---
 src/error_handling.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/error_handling.c b/src/error_handling.c
index a060537..c0bbbcf 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -230,6 +230,9 @@ rcutils_error_is_set(void)
 const rcutils_error_state_t *
 rcutils_get_error_state(void)
 {
+  if (!gtls_rcutils_error_is_set) {
+    return NULL;
+  }
   return &gtls_rcutils_error_state;
 }
 
-- 
2.43.0


From 05e1fcca68e5bf471bdbdf72fb6720dfcdd58922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 28/33] fix: appending a previous error without one behaves as
 documented

---
 include/rcutils/error_handling.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index ee5667a..801f77b 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -321,6 +321,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_AND_APPEND_PREV_ERROR(msg) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SET_ERROR_MSG(msg); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
@@ -341,6 +345,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
@@ -355,6 +363,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_AND_APPEND_PREV_ERROR(msg) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
@@ -377,6 +389,10 @@ rcutils_reset_error(void);
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING_AND_APPEND_PREV_ERROR(format_string, ...) \
   do { \
+    if (!rcutils_error_is_set()) { \
+      RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
+      break; \
+    } \
     rcutils_error_string_t error_string = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-- 
2.43.0


From 25d0efe3396c35be4c82dc7fa9d7635f33926786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 29/33] fix: RCUTILS_CHECK_FOR_NULL_WITH_MSG tests the whole
 expression it is given

---
 include/rcutils/error_handling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 801f77b..4d9d465 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -217,7 +217,7 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_CHECK_FOR_NULL_WITH_MSG(value, msg, error_statement) \
   do { \
-    if (NULL == value) { \
+    if (NULL == (value)) { \
       RCUTILS_SET_ERROR_MSG(msg); \
       error_statement; \
     } \
-- 
2.43.0


From 243ff7c595aaab21cfd6482ca16ec871f5054638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:35 +0000
Subject: [PATCH 30/33] fix: replacing an error by a prefix of itself is
 reported like any other replacement

---
 src/error_handling.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/error_handling.c b/src/error_handling.c
index c0bbbcf..ac33c80 100644
--- a/src/error_handling.c
+++ b/src/error_handling.c
@@ -198,14 +198,16 @@ rcutils_set_error_state(
   error_state.line_number = line_number;
 #if RCUTILS_REPORT_ERROR_HANDLING_ERRORS
   // Only warn of overwritting if the new error is different from the old ones.
-  size_t characters_to_compare = strnlen(error_string, RCUTILS_ERROR_MESSAGE_MAX_LENGTH);
+  // The terminating null is compared too, so that a prefix of the old error counts as different.
+  size_t characters_to_compare = strnlen(error_string, RCUTILS_ERROR_MESSAGE_MAX_LENGTH) + 1;
   // assumption is that message length is <= max error string length
   static_assert(
     sizeof(gtls_rcutils_error_state.message) <= sizeof(gtls_rcutils_error_string.str),
     "expected error state's max message length to be less than or equal to error string max");
   if (
     gtls_rcutils_error_is_set &&
-    !__same_string(error_string, gtls_rcutils_error_string.str, characters_to_compare) &&
+    !(gtls_rcutils_error_string_is_formatted &&
+    __same_string(error_string, gtls_rcutils_error_string.str, characters_to_compare)) &&
     !__same_string(error_string, gtls_rcutils_error_state.message, characters_to_compare))
   {
     char output_buffer[4096];
-- 
2.43.0


From f13464d3b23910ee912749590023ad247ec944b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 31/33] fix: formatting error macros do not capture arguments
 named like their own variables

An argument named ret (or output_msg, error_string) was replaced by the
uninitialized variable of that name inside the macro.
---
 include/rcutils/error_handling.h | 34 +++++++++++++++++---------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/rcutils/error_handling.h b/include/rcutils/error_handling.h
index 4d9d465..055bf67 100644
--- a/include/rcutils/error_handling.h
+++ b/include/rcutils/error_handling.h
@@ -65,12 +65,13 @@ extern "C"
  */
 #define RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char rcutils_output_msg_[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int rcutils_output_ret_ = rcutils_snprintf( \
+      rcutils_output_msg_, sizeof(rcutils_output_msg_), format_string, __VA_ARGS__); \
+    if (rcutils_output_ret_ < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SAFE_FWRITE_TO_STDERR(output_msg); \
+      RCUTILS_SAFE_FWRITE_TO_STDERR(rcutils_output_msg_); \
     } \
   } while (0)
 
@@ -247,12 +248,13 @@ rcutils_set_error_state(const char * error_string, const char * file, size_t lin
  */
 #define RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, ...) \
   do { \
-    char output_msg[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
-    int ret = rcutils_snprintf(output_msg, sizeof(output_msg), format_string, __VA_ARGS__); \
-    if (ret < 0) { \
+    char rcutils_output_msg_[RCUTILS_ERROR_MESSAGE_MAX_LENGTH]; \
+    int rcutils_output_ret_ = rcutils_snprintf( \
+      rcutils_output_msg_, sizeof(rcutils_output_msg_), format_string, __VA_ARGS__); \
+    if (rcutils_output_ret_ < 0) { \
       RCUTILS_SAFE_FWRITE_TO_STDERR("Failed to call snprintf for error message formatting\n"); \
     } else { \
-      RCUTILS_SET_ERROR_MSG(output_msg); \
+      RCUTILS_SET_ERROR_MSG(rcutils_output_msg_); \
     } \
   } while (0)
 
@@ -325,10 +327,10 @@ rcutils_reset_error(void);
       RCUTILS_SET_ERROR_MSG(msg); \
       break; \
     } \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t rcutils_prev_error_string_ = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(msg ": %s"), error_string.str); \
+      RCUTILS_EXPAND(msg ": %s"), rcutils_prev_error_string_.str); \
   } while (0)
 
 /// Set the error message with RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING and append the previous
@@ -349,10 +351,10 @@ rcutils_reset_error(void);
       RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
       break; \
     } \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t rcutils_prev_error_string_ = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SET_ERROR_MSG_WITH_FORMAT_STRING( \
-      RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, error_string.str); \
+      RCUTILS_EXPAND(format_string ": %s"), __VA_ARGS__, rcutils_prev_error_string_.str); \
   } while (0)
 
 /// Write the given msg out to stderr, limiting the buffer size in the `fwrite`, appending the
@@ -367,10 +369,10 @@ rcutils_reset_error(void);
       RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
       break; \
     } \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t rcutils_prev_error_string_ = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR(msg); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", rcutils_prev_error_string_.str); \
   } while (0)
 
 /// Set the error message to stderr using a format string and format arguments, appending the
@@ -393,10 +395,10 @@ rcutils_reset_error(void);
       RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
       break; \
     } \
-    rcutils_error_string_t error_string = rcutils_get_error_string(); \
+    rcutils_error_string_t rcutils_prev_error_string_ = rcutils_get_error_string(); \
     rcutils_reset_error(); \
     RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(format_string, __VA_ARGS__); \
-    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", error_string.str); \
+    RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(": %s", rcutils_prev_error_string_.str); \
   } while (0)
 
 #ifdef __cplusplus
-- 
2.43.0


From 8f435ac203080bfc780a40d76609039be0ae0bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 32/33] fix: rcutils_get_file_size returned the size of
 something else for a path that stops being a file between its two stat calls

---
 src/filesystem.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/filesystem.c b/src/filesystem.c
index dd177de..502a8c6 100644
--- a/src/filesystem.c
+++ b/src/filesystem.c
@@ -92,20 +92,25 @@ rcutils_is_directory(const char * abs_path)
 #endif  // _WIN32
 }
 
-bool
-rcutils_is_file(const char * abs_path)
+static bool stat_file(const char * abs_path, struct stat * buf)
 {
-  struct stat buf;
-  if (stat(abs_path, &buf) < 0) {
+  if (stat(abs_path, buf) < 0) {
     return false;
   }
 #ifdef _WIN32
-  return (buf.st_mode & S_IFREG) == S_IFREG;
+  return (buf->st_mode & S_IFREG) == S_IFREG;
 #else
-  return S_ISREG(buf.st_mode);
+  return S_ISREG(buf->st_mode);
 #endif  // _WIN32
 }
 
+bool
+rcutils_is_file(const char * abs_path)
+{
+  struct stat buf;
+  return stat_file(abs_path, &buf);
+}
+
 bool
 rcutils_exists(const char * abs_path)
 {
@@ -538,13 +543,13 @@ rcutils_dir_iter_end(rcutils_dir_iter_t * iter)
 size_t
 rcutils_get_file_size(const char * file_path)
 {
-  if (!rcutils_is_file(file_path)) {
+  // a single call, so that the size is that of the file that was checked
+  struct stat stat_buffer;
+  if (!stat_file(file_path, &stat_buffer)) {
     RCUTILS_SAFE_FWRITE_TO_STDERR_WITH_FORMAT_STRING(
       "Path is not a file: %s\n", file_path);
     return 0;
   }
 
-  struct stat stat_buffer;
-  int rc = stat(file_path, &stat_buffer);
-  return rc == 0 ? (size_t)(stat_buffer.st_size) : 0;
+  return (size_t)(stat_buffer.st_size);
 }
-- 
2.43.0


From 1466f713ed2751d382ce74eed7d6373da979316c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 33/33] fix: growing a string map in rcutils_string_map_set
 does not discard the caller's error

rcutils_string_map_set_no_resize sets no error when it returns
RCUTILS_RET_NOT_ENOUGH_SPACE, so there is nothing to reset before growing;
the reset only discarded an unrelated error set earlier by the caller.
---
 src/string_map.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/string_map.c b/src/string_map.c
index b335457..b7b6d3e 100644
--- a/src/string_map.c
+++ b/src/string_map.c
@@ -244,7 +244,6 @@ rcutils_string_map_set(rcutils_string_map_t * string_map, const char * key, cons
   rcutils_ret_t ret = rcutils_string_map_set_no_resize(string_map, key, value);
   // if it fails due to not enough space, resize and try again
   if (ret == RCUTILS_RET_NOT_ENOUGH_SPACE) {
-    rcutils_reset_error();
     // default to doubling the size of the map's capacity
     size_t new_capacity = (string_map->impl->capacity) ? 2 * string_map->impl->capacity : 1;
     ret = rcutils_string_map_reserve(string_map, new_capacity);
-- 
2.43.0

