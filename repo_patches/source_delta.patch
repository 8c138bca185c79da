From 8721a129ae21028f46d5a95be1c543e62c879094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:18 +0000
Subject: [PATCH 01/17] fix: Caesar decryption of letters that wrap below 'A'

The difference of two unsigned values went below zero and was reduced
modulo 26 only after wrapping modulo 2^32, so e.g. 'Z' encrypted with
shift 6 ('F') was decrypted to 'V'. Add the complementary shift instead.
---
 Src/crypto/caesar_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/crypto/caesar_cipher.c b/Src/crypto/caesar_cipher.c
index baff723..1cc34b9 100644
--- a/Src/crypto/caesar_cipher.c
+++ b/Src/crypto/caesar_cipher.c
@@ -66,7 +66,7 @@ CaesarCipher_decrypt(char* msg, uint8_t shift) {
             if (Utils_isUpperChar(msg[i])) {
                 ascii_val = UPPER_A_ASCII;
             }
-            uint8_t decrypted_char = (((uint8_t)msg[i] - shift - ascii_val) % MAX_SHIFT) + ascii_val;
+            uint8_t decrypted_char = (((uint8_t)msg[i] - ascii_val + (MAX_SHIFT - (shift % MAX_SHIFT))) % MAX_SHIFT) + ascii_val;
             msg[i] = (char)decrypted_char;
         }
     }
-- 
2.43.0


From 2a05d7d0304bb41006eda749c741b514ccb9a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:31 +0000
Subject: [PATCH 02/17] fix: Vernam round trip for key bytes that are not
 letters

A key byte outside the alphabet could give a negative remainder (or, when
decrypting, an offset beyond one alphabet), so the encrypted byte was no
letter and decryption did not restore the message ('A' with key '1' gave
'1' and stayed '1'). Normalise the offset to 0..25 in both directions.
---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 71edb76..9f495c3 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -60,7 +60,7 @@ VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
                 }
 
                 int32_t temp = (((int8_t)msg[i] - ascii_val + (int8_t)key[i] - c) % NUM_OF_ALPHA);
-                int32_t cipher = temp + ascii_val;
+                int32_t cipher = (temp < 0) ? (temp + NUM_OF_ALPHA + ascii_val) : (temp + ascii_val);
                 msg[i] = (char)cipher;
             }
         }
@@ -86,7 +86,7 @@ VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
                     ascii_val = UPPER_A_ASCII;
                 }
 
-                int32_t cipher = ((msg[i] - ascii_val) - (key[i] - c));
+                int32_t cipher = (((int8_t)msg[i] - ascii_val) - ((int8_t)key[i] - c)) % NUM_OF_ALPHA;
                 cipher = (cipher < 0) ? (cipher + NUM_OF_ALPHA + ascii_val) : (cipher + ascii_val);
                 msg[i] = (char)cipher;
             }
-- 
2.43.0


From 60023a8cf0d21398724993a72b7a702332e45d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 03/17] fix: Base64 encoder writes its terminator past the
 result buffer

Only the encoded characters were checked against max_result_length, so
with an exact fit (and on the failure path) the terminating null
character was written one byte past the buffer. Require room for it.
---
 Src/base64.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Src/base64.c b/Src/base64.c
index 53ef892..dfce7ed 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -45,7 +45,8 @@ Base64_encode(const char* data, size_t data_length, char* result, size_t max_res
 
     size_t len = 4U * ((data_length + 2U) / 3U);
 
-    if (len < data_length) {
+    /* The terminating null character needs one more place in the result. */
+    if ((len < data_length) || (len >= max_result_length)) {
         success = 1;
     }
 
-- 
2.43.0


From 3ec1d3ed3218c0eeb75e144da6afaf3a17d98b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:46 +0000
Subject: [PATCH 04/17] fix: Base64 decoder rejects one padded quantum and
 reads past its input

A text of a single padded or unpadded quantum ("TQ==", "TWE") has no
full quantum, which was taken for empty input and refused. With one
character left over the decoder also read one byte past the input.
---
 Src/base64.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Src/base64.c b/Src/base64.c
index dfce7ed..f6433e8 100644
--- a/Src/base64.c
+++ b/Src/base64.c
@@ -138,7 +138,7 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
         success = 1;
     }
 
-    if (len == 0U) {
+    if (in_len == 0U) {
         success = 1;
     }
 
@@ -155,7 +155,10 @@ Base64_decode(const char* in, size_t in_len, uint8_t* out, size_t max_out_len) {
             ++j;
         }
         if (pad_bool) {
-            uint32_t n = (base64_index[in_data_uchar[len]] << 18U) | (base64_index[in_data_uchar[len + 1U]] << 12U);
+            uint32_t n = base64_index[in_data_uchar[len]] << 18U;
+            if (in_len > (len + 1U)) {
+                n |= base64_index[in_data_uchar[len + 1U]] << 12U;
+            }
             out[out_len - 1U] = (uint8_t)(n >> 16U);
 
             if ((in_len > (len + 2U)) && (in_data_uchar[len + 2U] != (uint8_t)'=')) {
-- 
2.43.0


From 77d72ab24046f40c9165af1786804312c6bf99ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 05/17] fix: JSON builder writes the separator before checking
 the room

A refused pair left a trailing comma behind (and its null character
possibly one byte past the buffer), and on an empty buffer the byte
before the buffer was read. Decide on the separator first, write it only
if the whole pair fits.
---
 Src/json.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 24c84b2..7577706 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -58,13 +58,18 @@ Json_addData(char* buffer, size_t buffer_size, const char* key, const char* valu
     size_t index = strlen(buffer);
     size_t total_size = strlen("\"\":\"\"") + strlen(key) + strlen(value) + 1U;
 
-    if (0 == strcmp(&buffer[index - 1U], "\"")) {
-        // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
-        strcpy(&buffer[index], ",");
-        ++index;
+    bool add_separator = ((index != 0U) && (buffer[index - 1U] == '"'));
+
+    if (add_separator) {
+        total_size += strlen(",");
     }
 
     if ((total_size + index) <= buffer_size) {
+        if (add_separator) {
+            // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
+            strcpy(&buffer[index], ",");
+            ++index;
+        }
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case, therefore it is not used
         strcpy(&buffer[index], "\"");
         index += strlen("\"");
-- 
2.43.0


From 6d12cea684c06b252fb62e11ad65b3ccd011ee32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:09 +0000
Subject: [PATCH 06/17] fix: heap sort compares children that do not exist

The comparator was called before the index was checked, i.e. with
pointers past the end of the array.
---
 Src/sort/heap_sort.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cf99e9a..cd3aa7e 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,17 +48,16 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t left = (2 * index) + 1;
         int32_t right = (2 * index) + 2;
 
-        bool compare_ret_value = compareFun(&elements[left * element_size],
-                                            &elements[largest * element_size]);
-
-        if ((left < n) && (compare_ret_value)) {
-            largest = left;
+        if (left < n) {
+            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+                largest = left;
+            }
         }
 
-        compare_ret_value = compareFun(&elements[right * element_size], &elements[largest * element_size]);
-
-        if ((right < n) && (compare_ret_value)) {
-            largest = right;
+        if (right < n) {
+            if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+                largest = right;
+            }
         }
 
         if (largest != index) {
-- 
2.43.0


From 32b440fb6abc304444ee295ac0ba8629b6b0df55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 07/17] fix: insertion sort compares the element before the
 array

When the inserted element is smaller than all others the comparator was
called with a pointer before the start of the array.
---
 Src/sort/insertion_sort.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 8bd4dcc..10594c6 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -59,7 +59,9 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
             memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
             --j;
-            compare = compareFun(&elements[j * element_size], element);
+            if (j >= 0) {
+                compare = compareFun(&elements[j * element_size], element);
+            }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
-- 
2.43.0


From 615daaae27d467dd5cfb8af31386179500869f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 08/17] fix: insertion sort is not re-entrant

The element being inserted was kept in a static buffer, so a sort
interrupted by another one (or nested in a comparator) lost elements.
---
 Src/sort/insertion_sort.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 10594c6..783e178 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,7 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
-    static byte_t max_element[MAX_ELEMENT_SIZE];
+    byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
     for (int32_t i = 1; i < number_of_elements; ++i) {
-- 
2.43.0


From 6b6628d041cf93983e853815b9d801738299a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:10 +0000
Subject: [PATCH 09/17] fix: rotation by 0 or 32 shifts by the width of the
 type

Shifting a 32-bit value by 32 is undefined; depending on the compiler
the result of rotating by 0 or 32 was 0. Mask the shift counts.
---
 Src/bit_manipulation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/bit_manipulation.c b/Src/bit_manipulation.c
index 34e3ff1..e94c388 100644
--- a/Src/bit_manipulation.c
+++ b/Src/bit_manipulation.c
@@ -107,6 +107,6 @@ BitManipulation_toggleBit(uint32_t data, uint8_t n, uint32_t* out) {
 uint32_t
 BitManipulation_rotl32(uint32_t data, uint32_t n_bits) {
 
-    /* -E> hide MC3R1.R12.2 1 To optimize efficiency, we do not verify whether n_bits is between 0 and 31. */
-    return ((data << n_bits) ^ (data >> (32U - n_bits)));
+    /* -E> compliant MC3R1.R12.2 1 The shift counts are between 0 and 31 due to bit masking. */
+    return ((data << (0x1FU & n_bits)) | (data >> (0x1FU & (32U - n_bits))));
 }
-- 
2.43.0


From 67cc9742acf2344ce8454420b768685f079e91e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/17] fix: JSON lookup confuses keys with other text

The first textual occurrence of the key decided: a key that is a prefix
of an earlier one was not found, a suffix of another key or text inside a
value matched, a member whose value is no string yielded a later key, and
bytes after the terminating null character were searched. Compare only
complete strings that are followed by a colon.
---
 Src/json.c | 74 ++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/Src/json.c b/Src/json.c
index 7577706..e87f369 100644
--- a/Src/json.c
+++ b/Src/json.c
@@ -38,6 +38,25 @@
 
 #define MINIMAL_SIZE 2U // size of '{' or '}' + '\0'
 
+static size_t
+FindChar(const char* buffer, size_t buffer_size, size_t start, char character) {
+    size_t index = start;
+    while ((index < buffer_size) && (buffer[index] != character)) {
+        ++index;
+    }
+    return index;
+}
+
+static size_t
+SkipWhitespace(const char* buffer, size_t buffer_size, size_t start) {
+    size_t index = start;
+    while ((index < buffer_size) && ((buffer[index] == ' ') || (buffer[index] == '\t') ||
+                                     (buffer[index] == '\n') || (buffer[index] == '\r'))) {
+        ++index;
+    }
+    return index;
+}
+
 bool
 Json_startString(char* buffer, size_t buffer_size) {
     bool success = false;
@@ -112,41 +131,42 @@ Json_findByKey(const char* buffer, size_t buffer_size, const char* key, char* va
     bool success = false;
 
     size_t key_size = strlen(key);
-    uint32_t max_search_size = 0U;
-    uint32_t index;
-
-    if (buffer_size > key_size) {
-        max_search_size = (uint32_t)(buffer_size - key_size);
-    }
-
-    for (index = 0U; index < max_search_size; ++index) {
-
-        /* -E> compliant MC3R1.R21.18 2 strncmp is guarded in for loop condition to not go out of buffer boundaries
-        by calculating max_search_size from buffer size and key size */
-        if (0 == strncmp(&buffer[index], key, key_size)) {
-
-            if (buffer[index + key_size] == '"') {
-                success = true;
+    size_t text_size = FindChar(buffer, buffer_size, 0U, '\0');
+    size_t index = 0U;
+    bool found = false;
+
+    while ((index < text_size) && (!found)) {
+
+        if (buffer[index] == '"') {
+            size_t start = index + 1U;
+            size_t end = FindChar(buffer, text_size, start, '"');
+            index = SkipWhitespace(buffer, text_size, end + 1U);
+
+            /* Only a string that is followed by a colon is a key. */
+            if ((index < text_size) && (buffer[index] == ':')) {
+                index = SkipWhitespace(buffer, text_size, index + 1U);
+
+                /* -E> compliant MC3R1.R21.18 1 strncmp is guarded by comparing size of the string in buffer with key size */
+                if (((end - start) == key_size) && (0 == strncmp(&buffer[start], key, key_size))) {
+                    found = true;
+                } else if ((index < text_size) && (buffer[index] == '"')) {
+                    /* String value of another key. */
+                    index = FindChar(buffer, text_size, index + 1U, '"') + 1U;
+                } else {
+                    /* Value of another key that is not a string, continue with the search. */
+                }
             }
-
-            break;
+        } else {
+            ++index;
         }
     }
 
-    if (success) {
-
-        success = false;
-        for (index += (uint32_t)(key_size + 1U); index < buffer_size; ++index) {
-
-            if (buffer[index] == '"') {
-                break;
-            }
-        }
+    if (found && (index < text_size) && (buffer[index] == '"')) {
 
         size_t value_size = 0;
         ++index;
 
-        while ((index < buffer_size) && (value_size < max_value_size)) {
+        while ((index < text_size) && (value_size < max_value_size)) {
             value[value_size] = buffer[index];
 
             if (buffer[index] == '"') {
-- 
2.43.0


From d8ce5474024ff11b378945404d1e9c5d8786d1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 11/17] fix: little-endian blobs above 2 GiB are not copied

The size was converted to a signed 32-bit counter, so sizes above INT32_MAX
copied nothing.
---
 Src/utils.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Src/utils.c b/Src/utils.c
index 6f32933..6a4c8d4 100644
--- a/Src/utils.c
+++ b/Src/utils.c
@@ -217,10 +217,8 @@ Utils_serialize32LE(byte_t* buf, uint32_t value) {
 
 void
 Utils_serializeBlobLE(byte_t* buf, const byte_t* src, uint32_t size) {
-    int32_t j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        buf[j] = src[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        buf[i] = src[size - 1U - i];
     }
 }
 
@@ -253,10 +251,8 @@ Utils_deserialize32LE(const byte_t* buf) {
 
 void
 Utils_deserializeBlobLE(const byte_t* buf, byte_t* dst, uint32_t size) {
-    int32_t  j = 0;
-    for (int32_t i = ((int32_t)size - 1); i >= 0; --i) {
-        dst[j] = buf[i];
-        ++j;
+    for (uint32_t i = 0; i < size; i++) {
+        dst[i] = buf[size - 1U - i];
     }
 }
 
-- 
2.43.0


From 35fa2e66f6b0f06b90ce2833db2d36f1032f924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 12/17] fix: queue elements beyond 4 GiB of storage overwrite
 the first ones

The offset of an element was computed in 32 bits.
---
 Src/queue.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Src/queue.c b/Src/queue.c
index 8f4d7f5..191db5e 100644
--- a/Src/queue.c
+++ b/Src/queue.c
@@ -71,7 +71,7 @@ Queue_enqueue(Queue_t* queue, const uint8_t* element) {
              * in buffer, and their size is stored in element_size member. Also, there is a guard that checks that
              * queue is not full. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
+            memcpy(&buffer[(size_t)((queue->rear + 1U) % queue->capacity) * queue->element_size], element, queue->element_size);
             queue->rear = (queue->rear + 1U) % queue->capacity;
             queue->size = queue->size + 1U;
             status = true;
@@ -89,7 +89,7 @@ Queue_dequeue(Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             queue->front = (queue->front + 1U) % queue->capacity;
             queue->size = queue->size - 1U;
             status = true;
@@ -107,7 +107,7 @@ Queue_front(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->front * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->front * queue->element_size], queue->element_size);
             status = true;
         }
     }
@@ -123,7 +123,7 @@ Queue_rear(const Queue_t* queue, uint8_t* element) {
             /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
              * in buffer, and their size is stored in element_size member. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(element, &buffer[queue->rear * queue->element_size], queue->element_size);
+            memcpy(element, &buffer[(size_t)queue->rear * queue->element_size], queue->element_size);
             status = true;
         }
     }
-- 
2.43.0


From 94d48eed94c806d9c89c0ba5845ccf9d97e3502b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 13/17] fix: priority queue elements beyond 4 GiB of storage
 overwrite the first ones

The offset of an element was computed in 32 bits.
---
 Src/priority_queue.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/priority_queue.c b/Src/priority_queue.c
index 0b5ddd5..3ebba87 100644
--- a/Src/priority_queue.c
+++ b/Src/priority_queue.c
@@ -99,7 +99,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, there is a guard that checks that priority
          * queue is not full. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+        memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
         queue->priority_array[queue->size] = *(item->priority);
         queue->size = queue->size + 1U;
         status = true;
@@ -115,7 +115,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
                  * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
                  * memcpy function is placed in current size + 1. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+                memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                        queue->element_size);
                 queue->priority_array[i] = queue->priority_array[i + 1U];
             }
@@ -123,7 +123,7 @@ PriorityQueue_enqueue(PriorityQueue_t* queue, const PriorityQueueItem_t* item) {
              * insert a new element because of removing element with the lowest priority (performed in the above code,
              * in the same function). */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[queue->size * queue->element_size], item->element, queue->element_size);
+            memcpy(&buffer[(size_t)queue->size * queue->element_size], item->element, queue->element_size);
             queue->priority_array[queue->size] = *(item->priority);
             queue->size = queue->size + 1U;
         }
@@ -141,7 +141,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
         /* -E> compliant MC3R1.R21.18 3 Buffer overflow will not happen, element has same size as one element
          * in buffer, and their size is stored in element_size member. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &buffer[highest_priority_index * queue->element_size], queue->element_size);
+        memcpy(element, &buffer[(size_t)highest_priority_index * queue->element_size], queue->element_size);
         queue->size = queue->size - 1U;
         const uint32_t current_size = queue->size;
         for (uint32_t i = highest_priority_index; i < current_size; ++i) {
@@ -149,7 +149,7 @@ PriorityQueue_dequeue(PriorityQueue_t* queue, uint8_t* element) {
              * queue size is reached which is previous size - 1. Therefore, last valid element that will be used in
              * memcpy function is placed in current size + 1. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&buffer[i * queue->element_size], &buffer[(i * queue->element_size) + queue->element_size],
+            memcpy(&buffer[(size_t)i * queue->element_size], &buffer[((size_t)i * queue->element_size) + queue->element_size],
                    queue->element_size);
             queue->priority_array[i] = queue->priority_array[i + 1U];
         }
-- 
2.43.0


From 105cf721cf05fcc8de3ea27330d0a3bb702a7e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 14/17] fix: map entries beyond 2 GiB of keys or values lie
 outside the storage

The offset of an entry overflowed a signed 32-bit integer.
---
 Src/map.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Src/map.c b/Src/map.c
index ce59322..ec03dd8 100644
--- a/Src/map.c
+++ b/Src/map.c
@@ -43,7 +43,7 @@ GetIndex(const Map_t* map, const byte_t* key, int32_t size) {
     int32_t index = INDEX_NOT_FOUND;
     for (int32_t i = 0; i < size; ++i) {
         /* -E> compliant MC3R1.R21.18 1 map->key_size is a size of the key in the map and it has appropriate value. */
-        if (memcmp(&map->keys[i * map->key_size], key, (size_t)map->key_size) == 0) {
+        if (memcmp(&map->keys[(size_t)i * (size_t)map->key_size], key, (size_t)map->key_size) == 0) {
             index = i;
             break;
         }
@@ -78,12 +78,12 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->keys[map->current_size * map->key_size], key, (size_t)map->key_size);
+                memcpy(&map->keys[(size_t)map->current_size * (size_t)map->key_size], key, (size_t)map->key_size);
                 /* -E> compliant MC3R1.R21.18 4 map->value_size is a size of the value in the map and it has appropriate value. */
                 /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because there is a check if current map size reached
                  * max map size. */
                 // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-                memcpy(&map->values[map->current_size * map->value_size], value, (size_t)map->value_size);
+                memcpy(&map->values[(size_t)map->current_size * (size_t)map->value_size], value, (size_t)map->value_size);
                 ++map->current_size;
                 status = true;
             }
@@ -92,7 +92,7 @@ Map_insert(Map_t* map, const byte_t* key, const byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen since the current key is the same as the key that is
              * previously inserted in the map. Therefore, new value will be mapped to that key. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&map->values[index * map->value_size], value, (size_t)map->value_size);
+            memcpy(&map->values[(size_t)index * (size_t)map->value_size], value, (size_t)map->value_size);
             status = true;
         }
     }
@@ -109,7 +109,7 @@ Map_getValue(const Map_t* map, const byte_t* key, byte_t* value) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen because the map->value_size is the size of the value
              * and every element in map->values has that size */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(value, &map->values[index * map->value_size], (size_t)map->value_size);
+            memcpy(value, &map->values[(size_t)index * (size_t)map->value_size], (size_t)map->value_size);
             status = true;
         }
     }
-- 
2.43.0


From 2a95300760c317d76531a0ae1ead528992c0aedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 15/17] fix: sorts of arrays above 2 GiB reach outside the
 array

The offset of an element overflowed a signed 32-bit integer.
---
 Src/sort/bubble_sort.c    |  7 +++++--
 Src/sort/heap_sort.c      | 11 +++++++----
 Src/sort/insertion_sort.c | 11 ++++++-----
 Src/sort/selection_sort.c |  7 +++++--
 4 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/Src/sort/bubble_sort.c b/Src/sort/bubble_sort.c
index 0012402..987cb32 100644
--- a/Src/sort/bubble_sort.c
+++ b/Src/sort/bubble_sort.c
@@ -36,17 +36,20 @@
 
 #include "utils.h"
 
+#include <stddef.h>
+
 void
 BubbleSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                 bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
+    const size_t size = (size_t)element_size;
     bool swapped = true;
     int32_t i = 0;
     while (swapped) {
         swapped = false;
         for (int32_t j = 0; j < (number_of_elements - i - 1); ++j) {
-            if (compareFun(&elements[j * element_size], &elements[(j + 1) * element_size])) {
-                Utils_swapElements(&elements[j * element_size], &elements[(j + 1) * element_size], (uint32_t)element_size);
+            if (compareFun(&elements[(size_t)j * size], &elements[((size_t)j + 1U) * size])) {
+                Utils_swapElements(&elements[(size_t)j * size], &elements[((size_t)j + 1U) * size], (uint32_t)element_size);
                 swapped = true;
             }
         }
diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index cd3aa7e..d8a0857 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -36,12 +36,15 @@
 
 #include "utils.h"
 
+#include <stddef.h>
+
 static void
 Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         bool (*compareFun)(void* first, void* second)) {
     bool continue_iterating = true;
     int32_t index = i;
     byte_t* elements = buffer;
+    const size_t size = (size_t)element_size;
 
     while (continue_iterating) {
         int32_t largest = index;
@@ -49,19 +52,19 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
         int32_t right = (2 * index) + 2;
 
         if (left < n) {
-            if (compareFun(&elements[left * element_size], &elements[largest * element_size])) {
+            if (compareFun(&elements[(size_t)left * size], &elements[(size_t)largest * size])) {
                 largest = left;
             }
         }
 
         if (right < n) {
-            if (compareFun(&elements[right * element_size], &elements[largest * element_size])) {
+            if (compareFun(&elements[(size_t)right * size], &elements[(size_t)largest * size])) {
                 largest = right;
             }
         }
 
         if (largest != index) {
-            Utils_swapElements(&elements[index * element_size], &elements[largest * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[(size_t)index * size], &elements[(size_t)largest * size], (uint32_t)element_size);
             index = largest;
         } else {
             continue_iterating = false;
@@ -79,7 +82,7 @@ HeapSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
     }
 
     for (i = number_of_elements - 1; i >= 0; --i) {
-        Utils_swapElements(&elements[0], &elements[i * element_size], (uint32_t)element_size);
+        Utils_swapElements(&elements[0], &elements[(size_t)i * (size_t)element_size], (uint32_t)element_size);
         Heapify(elements, i, 0, element_size, compareFun);
     }
 }
diff --git a/Src/sort/insertion_sort.c b/Src/sort/insertion_sort.c
index 783e178..248e6d1 100644
--- a/Src/sort/insertion_sort.c
+++ b/Src/sort/insertion_sort.c
@@ -40,6 +40,7 @@ void
 InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
+    const size_t size = (size_t)element_size;
     byte_t max_element[MAX_ELEMENT_SIZE];
     byte_t* element = &max_element[0];
 
@@ -48,25 +49,25 @@ InsertionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_s
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(element, &elements[i * element_size], (size_t)element_size);
+        memcpy(element, &elements[(size_t)i * size], size);
 
         int32_t j = i - 1;
-        bool compare = compareFun(&elements[j * element_size], element);
+        bool compare = compareFun(&elements[(size_t)j * size], element);
 
         while ((j >= 0) && compare) {
             /* -E> compliant MC3R1.R19.1 3 Overlap will not happen, all elements in buffer
              * have same size, and their size is stored in element_size variable. */
             // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-            memcpy(&elements[(j + 1) * element_size], &elements[j * element_size], (size_t)element_size);
+            memcpy(&elements[((size_t)j + 1U) * size], &elements[(size_t)j * size], size);
             --j;
             if (j >= 0) {
-                compare = compareFun(&elements[j * element_size], element);
+                compare = compareFun(&elements[(size_t)j * size], element);
             }
         }
         /* -E> compliant MC3R1.R21.18 4 Buffer overflow will not happen, all elements in buffer
          * have same size, and their size is stored in element_size variable. Precondition is that
          * element_size must be less than or equal to MAX_ELEMENT_SIZE. */
         // cppcheck-suppress misra-c2012-17.7; return value is not needed in this case
-        memcpy(&elements[(j + 1) * element_size], element, (size_t)element_size);
+        memcpy(&elements[(size_t)(j + 1) * size], element, size);
     }
 }
diff --git a/Src/sort/selection_sort.c b/Src/sort/selection_sort.c
index 21cd5d9..fd56e4c 100644
--- a/Src/sort/selection_sort.c
+++ b/Src/sort/selection_sort.c
@@ -36,22 +36,25 @@
 
 #include "utils.h"
 
+#include <stddef.h>
+
 void
 SelectionSort_sort(byte_t* buffer, int32_t number_of_elements, int32_t element_size,
                    bool (*compareFun)(void* first, void* second)) {
     byte_t* elements = buffer;
+    const size_t size = (size_t)element_size;
     int32_t j;
 
     for (int32_t i = 0; i < (number_of_elements - 1); ++i) {
         int32_t min_index = i;
         for (j = i + 1; j < number_of_elements; ++j) {
-            if (compareFun(&elements[min_index * element_size], &elements[j * element_size])) {
+            if (compareFun(&elements[(size_t)min_index * size], &elements[(size_t)j * size])) {
                 min_index = j;
             }
         }
 
         if (min_index != i) {
-            Utils_swapElements(&elements[min_index * element_size], &elements[i * element_size], (uint32_t)element_size);
+            Utils_swapElements(&elements[(size_t)min_index * size], &elements[(size_t)i * size], (uint32_t)element_size);
         }
     }
 }
-- 
2.43.0


From 8bdbb90b6a59b86b42c6c8a7091787223497f3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:29 +0000
Subject: [PATCH 16/17] fix: heap sort of more than 2^30 elements computes
 negative positions

The position of the children of a leaf overflowed a signed 32-bit integer.
---
 Src/sort/heap_sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Src/sort/heap_sort.c b/Src/sort/heap_sort.c
index d8a0857..b3d40ba 100644
--- a/Src/sort/heap_sort.c
+++ b/Src/sort/heap_sort.c
@@ -48,18 +48,18 @@ Heapify(byte_t* buffer, int32_t n, int32_t i, int32_t element_size,
 
     while (continue_iterating) {
         int32_t largest = index;
-        int32_t left = (2 * index) + 1;
-        int32_t right = (2 * index) + 2;
+        uint32_t left = (2U * (uint32_t)index) + 1U;
+        uint32_t right = (2U * (uint32_t)index) + 2U;
 
-        if (left < n) {
+        if (left < (uint32_t)n) {
             if (compareFun(&elements[(size_t)left * size], &elements[(size_t)largest * size])) {
-                largest = left;
+                largest = (int32_t)left;
             }
         }
 
-        if (right < n) {
+        if (right < (uint32_t)n) {
             if (compareFun(&elements[(size_t)right * size], &elements[(size_t)largest * size])) {
-                largest = right;
+                largest = (int32_t)right;
             }
         }
 
-- 
2.43.0


From 8aca8df5d8459c62aedcb1bb1280c701cf6b9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:06 +0000
Subject: [PATCH 17/17] fix: Vernam cipher accepts a key whose length differs
 from the message's by a multiple of 2^32

---
 Src/crypto/vernam_cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Src/crypto/vernam_cipher.c b/Src/crypto/vernam_cipher.c
index 9f495c3..d9c8b27 100644
--- a/Src/crypto/vernam_cipher.c
+++ b/Src/crypto/vernam_cipher.c
@@ -46,7 +46,7 @@ bool
 VernamCipher_encrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
@@ -73,7 +73,7 @@ bool
 VernamCipher_decrypt(char* msg, const char* key, int32_t key_length) {
     bool status = false;
     const size_t msg_length = strlen(msg);
-    if ((int32_t)msg_length == key_length) {
+    if ((key_length >= 0) && (msg_length == (size_t)key_length)) {
         for (int32_t i = 0; i < key_length; ++i) {
             if (Utils_isAlpha(msg[i])) {
                 int8_t c = UPPER_A_ASCII;
-- 
2.43.0

