From dfb39c81b4042cf18d091da4a0b52ef5432be97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:39 +0000
Subject: [PATCH 01/68] fix: keep the data when a matrix is assigned to itself

---
 inc/susa/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..be23457 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1292,6 +1292,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
+    if (this == &mat_arg) return *this;
+
     if (sizet_objects != 0 && _matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
-- 
2.43.0


From 404aad584ad2da4bd061b468c1d74a45358ba9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 02/68] fix: let a copy of an empty matrix own no memory, so
 that it can be reassigned

---
 inc/susa/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index be23457..e14fbfc 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1473,6 +1473,7 @@ template <typename T, typename Allocator>
 bool matrix <T, Allocator>::allocate(size_t sz_objects)
 {
     SUSA_ASSERT_MESSAGE(_matrix == nullptr, "not deallocated and may cause memory leak");
+    if (sz_objects == 0) return false; // an empty matrix owns no memory
     try
     {
         _matrix = alloc.allocate(sz_objects);
-- 
2.43.0


From 074b098baf3b6055d642248424e4a2f9b11eca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 03/68] fix: leave a moved-from matrix empty, so that it can be
 reused

---
 inc/susa/matrix.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index e14fbfc..42c9fff 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -498,6 +498,9 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
     _matrix             = mat_arg._matrix;
     mat_arg.T_default      = nullptr;
     mat_arg._matrix     = nullptr;
+    mat_arg.sizet_rows    = 0;
+    mat_arg.sizet_cols    = 0;
+    mat_arg.sizet_objects = 0;
 }
 
 
-- 
2.43.0


From 7447ea311178d57c09d17f38a9460ceb959057c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:49 +0000
Subject: [PATCH 04/68] fix: reject out-of-range indices and short operands in
 set_row and set_col

---
 inc/susa/matrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 42c9fff..5b79a66 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -622,8 +622,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -635,8 +635,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
-- 
2.43.0


From ece313621fb220e59ec4fb53ace8ca4c54b1b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:53 +0000
Subject: [PATCH 05/68] fix: return the last elements from right() of a vector

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 5b79a66..c36ce6e 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -829,7 +829,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
-- 
2.43.0


From dfb930fd7b19efa68b0e166e437928c96995ca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:00 +0000
Subject: [PATCH 06/68] fix: drop all trailing blanks of short matrix texts,
 and do not read before an empty one

---
 src/matrix.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index b71843d..57da260 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -72,7 +72,7 @@ void pre_parser(std::string& str_string)
         int_counter++;
     }
     // Update the string according to its new shape/size
-    str_string.erase(int_counter,int_length - 1);
+    str_string.erase(int_counter);
     int_length = str_string.length();
     str_string = str_string + std::string("  ");
 
@@ -101,8 +101,8 @@ void pre_parser(std::string& str_string)
     }
 
     // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
-    if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
-    else str_string.erase(int_counter,int_length - 1);
+    if (int_counter > 0 && str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1);
+    else str_string.erase(int_counter);
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From 32d27ebdf0f600d5867fba6fa7cc58fb6ee941a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:10 +0000
Subject: [PATCH 07/68] fix: parse matrix rows and elements of any length

---
 inc/susa/matrix.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index c36ce6e..362efb0 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -31,8 +31,6 @@
 #ifndef SUSA_MATRIX_H
 #define SUSA_MATRIX_H
 
-#define MAX_STR_LEN     4096
-
 #include <type_traits>
 
 #include <susa/debug.h>
@@ -1449,18 +1447,20 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
 
     std::stringstream ss_all(str_string);
-    char char_buff[MAX_STR_LEN];
+    std::string str_buff;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-        ss_all.getline(char_buff, MAX_STR_LEN, ';');
-        std::stringstream ssrow(char_buff);
+        str_buff.clear();
+        std::getline(ss_all, str_buff, ';');
+        std::stringstream ssrow(str_buff);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
-            ssrow.getline(char_buff, MAX_STR_LEN, 0x20);
-            if (!(std::istringstream(char_buff) >> T_tmp))
+            str_buff.clear();
+            std::getline(ssrow, str_buff, (char)0x20);
+            if (!(std::istringstream(str_buff) >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
-- 
2.43.0


From 51a35eeda9a969800b037f9908e1bd31ca5281dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 08/68] fix: stop row, column, left slice and swap requests
 beyond the matrix

---
 inc/susa/matrix.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 362efb0..4092d23 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -585,6 +585,8 @@ template <typename T, typename Allocator> void  matrix <T, Allocator>::set_all(T
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::row(size_t sizet_row) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows, "the row index is out of range.");
+
     matrix <T, Allocator> mat_ret(1, sizet_cols);
 
     if (sizet_row < sizet_rows)
@@ -600,6 +602,8 @@ template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Alloc
 
 template <typename T, typename Allocator> matrix <T, Allocator> matrix <T, Allocator>::col(size_t sizet_col) const
 {
+    SUSA_ASSERT_MESSAGE(sizet_col < sizet_cols, "the column index is out of range.");
+
     matrix <T, Allocator> mat_ret(sizet_rows, 1);
 
     if (sizet_col < sizet_cols)
@@ -668,6 +672,8 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "one or more indices is/are out of range.");
+
     T T_tmp;
 
     for (size_t row = 0; row < sizet_rows; row++)
@@ -681,6 +687,8 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "one or more indices is/are out of range.");
+
     T T_tmp;
 
     for (size_t col = 0; col < sizet_cols; col++)
@@ -802,6 +810,8 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
+
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -836,6 +846,8 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
+
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From bb3d5622d6f8e2b866fe0ae2f8bcf5ccba079693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 09/68] fix: keep an array's data on self-assignment, and copy
 empty arrays without leaking

---
 inc/susa/array.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..c695ff0 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -140,6 +140,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
+  , uint_num_dims(0)
   , T_default(new T)
   , uint_get_step(0)
   , alloc()
@@ -207,6 +208,7 @@ namespace susa
   array<T, Allocator>::array(const array &arg)
   : T_default(new T)
   , alloc(arg.alloc)
+  , _matrix(nullptr)
   {
 
     uint_total    = arg.uint_total;
@@ -214,16 +216,22 @@ namespace susa
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    if (arg._matrix != nullptr)
+    {
+      _matrix     = alloc.allocate(uint_total);
+      std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    }
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
-    if (uint_total != 0 && _matrix != nullptr)
+    if (this == &arg) return *this;
+
+    if (_matrix != nullptr)
     {
       alloc.deallocate(_matrix, uint_total);
+      _matrix = nullptr;
     }
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
@@ -231,8 +239,11 @@ namespace susa
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    if (arg._matrix != nullptr)
+    {
+      _matrix     = alloc.allocate(uint_total);
+      std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    }
 
     return *this;
   }
-- 
2.43.0


From 84144865b7acf21efd6cf027f52c80ca10398c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:05 +0000
Subject: [PATCH 10/68] fix: allocate the cloned length in array::clone

---
 inc/susa/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index c695ff0..113a258 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -173,11 +173,11 @@ namespace susa
 
     if (length != uint_total)
     {
-      if (uint_total != 0 && _matrix != nullptr)
+      if (_matrix != nullptr)
       {
         alloc.deallocate(_matrix, uint_total);
       }
-      _matrix       = alloc.allocate(uint_total);
+      _matrix       = alloc.allocate(length);
       uint_total    = length;
     }
   
-- 
2.43.0


From 44c2bac371a94907f3b2c4fef4fb1cc1c36031f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 11/68] fix: make the const read access of arrays compile

---
 inc/susa/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 113a258..c7a8399 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -93,7 +93,7 @@ namespace susa
     template <typename... Args>
     T operator()(size_t uint_elem, Args... uint_args) const
     {
-      return get(uint_elem, uint_args...);
+      return get({uint_elem, static_cast<size_t>(uint_args)...});
     }
 
     template <typename... Args>
@@ -131,7 +131,7 @@ namespace susa
     T *_matrix;
 
     size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(const std::vector<size_t> &list) const;
     template <typename... Args>
     size_t index(size_t uint_elem, Args... uint_args);
   };
@@ -326,7 +326,7 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
 
     size_t uint_elem = 0;
-- 
2.43.0


From 3e171df50cf3b9c7bce5aec1f404c1ce5891ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 12/68] fix: stop array accesses with more indices than
 dimensions

---
 inc/susa/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index c7a8399..ba39ff1 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -260,6 +260,7 @@ namespace susa
   {
 
     SUSA_ASSERT(_matrix != nullptr);
+    SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
     size_t uint_elem      = 0;
     size_t uint_dim_count = 0;
@@ -328,6 +329,7 @@ namespace susa
   template <typename T, typename Allocator>
   size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
+    SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
     size_t uint_elem = 0;
     size_t uint_dim_count = 0;
-- 
2.43.0


From 3a24abf940139f717a451803883c0889be5f2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:12 +0000
Subject: [PATCH 13/68] fix: set every member in bitset::set()

---
 src/sets.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..d3230a6 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,12 +94,7 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
-    {
-      unsigned int byte = index / 8;
-      unsigned int bit  = index % 8;
-      this->_matrix[byte] |= (0x01 << bit);
-    }
+    for (size_t index = 0; index < uint_set_size; index++) set(index);
   }
 
   void bitset::reset()
-- 
2.43.0


From d28a53788fda7411ccb9040705123160e0327fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:39 +0000
Subject: [PATCH 14/68] fix: place the right operand of concat behind the left
 one

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..1baca50 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -244,7 +244,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From a676e3363165b34f97de8aafdd97c5b0f0e22666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 15/68] fix: make hermitian() compile

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1baca50..3bd21f9 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -123,12 +123,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From 426dd9de11dd8396abeaab8b36a84ac811b2d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:45 +0000
Subject: [PATCH 16/68] fix: do not divide integers when computing the rank

---
 inc/susa/linalg.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 3bd21f9..d7eaa66 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -371,18 +371,26 @@ matrix<T, Allocator> eye(size_t sizet_n)
  * rank of the input matrix is computed with Gaussian elimination
  * that is O(n^3)
  *
- * @param mat_arg input matrix
+ * @param mat_in input matrix
  * @param epsilon the precision of rank detection
  * @return rank of the input matrix
  * @ingroup LALG
  */
 template <typename T, template <typename> typename Allocator>
-unsigned int rank(susa::matrix<T, Allocator<T>> mat_arg, double epsilon = 1e-9)
+unsigned int rank(susa::matrix<T, Allocator<T>> mat_in, double epsilon = 1e-9)
 {
+    // the elimination divides, therefore real numbers are processed in double precision
+    using TW = std::conditional_t<std::is_arithmetic_v<T>, double, T>;
+
     unsigned int uint_ret = 0;
-    size_t sz_rows = mat_arg.no_rows();
-    size_t sz_cols = mat_arg.no_cols();
+    size_t sz_rows = mat_in.no_rows();
+    size_t sz_cols = mat_in.no_cols();
 
+    susa::matrix <TW, Allocator<TW>> mat_arg(sz_rows, sz_cols);
+    for (size_t sz_elem = 0; sz_elem < mat_in.size(); ++sz_elem)
+    {
+        mat_arg(sz_elem) = static_cast<TW>(mat_in(sz_elem));
+    }
 
     susa::matrix <bool, Allocator<bool>> row_selected(sz_rows, 1, false);
     for (size_t sz_col = 0; sz_col < sz_cols; ++sz_col)
-- 
2.43.0


From 563f740d5701a8eeea9f0c359b2a7b5802d3f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:48 +0000
Subject: [PATCH 17/68] fix: report a zero pivot as failure in the LU
 decomposition

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..9fab439 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -205,6 +205,8 @@ template <class T> bool lu<T>::decompose()
                     sum += mat_lower(k,j) * mat_upper(j,i);
                 }
 
+                if (mat_upper(i,i) == T(0)) return false;
+
                 mat_lower(k,i) = (mat_a(k,i) - sum) / mat_upper(i,i);
             }
         }
-- 
2.43.0


From 670290be0681e93bc66ea16bc1a13d99a03ca3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:50 +0000
Subject: [PATCH 18/68] fix: choose the LUP pivot from the matrix being
 eliminated

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9fab439..bd732c7 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -235,7 +235,7 @@ template <class T> bool lup<T>::decompose()
 
         for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)
         {
-            T_abs = mat_a(sizet_row, sizet_col);
+            T_abs = mat_lu(sizet_row, sizet_col);
             if (T_abs < 0) T_abs *= -1.0;
             if ( T_abs > T_max)
             {
-- 
2.43.0


From a1d14660ac7fb23a99bb5baf7ec988feabf50f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:53 +0000
Subject: [PATCH 19/68] fix: compute the pivot candidates of decompose_alt from
 the pivot column

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index bd732c7..f83698c 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -323,7 +323,7 @@ template <class T> bool lup<T>::decompose_alt()
             q       = 0;
             while (q < i)
             {
-                Uii -= mat_lu(r,q) * mat_lu(q,r);
+                Uii -= mat_lu(r,q) * mat_lu(q,i);
                 q++;
             }
             if (std::abs(Uii) > Umax)
-- 
2.43.0


From 90279a80ff60f10a7779040ffdd3db5e04ad0671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 20/68] fix: decompose wide matrices in svd()

---
 src/svd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 54982c6..4f4ec8f 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -61,6 +61,9 @@ int svd(const matrix <float> &mat_arg_a,
     int n = mat_arg_a.no_cols();
     int p = (m > n)?n:m;
 
+    // a wide matrix is decomposed through its transpose
+    if (m < n) return svd(transpose(mat_arg_a), mat_arg_v, mat_arg_s, mat_arg_u);
+
     int flag, i, its, j, jj, k, l, nm;
     double c, f, h, s, x, y, z;
     double anorm = 0.0, g = 0.0, scale = 0.0;
-- 
2.43.0


From 7766a4aef4dd610d2f1b048fbc694de8dce150ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 21/68] fix: cancel the off-diagonal element of a zero singular
 value in svd()

---
 src/svd.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index 4f4ec8f..e4b174e 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -230,21 +230,21 @@ int svd(const matrix <float> &mat_arg_a,
                 for (i = l; i <= k; i++)
                 {
                     f = s * rv1(i);
-                    if (fabs(f) + anorm != anorm)
+                    rv1(i) = c * rv1(i);
+                    if (fabs(f) + anorm == anorm) break;
+
+                    g = (double)mat_arg_s(i);
+                    h = _susa_svd_pythag(f, g);
+                    mat_arg_s(i) = (float)h;
+                    h = 1.0 / h;
+                    c = g * h;
+                    s = (- f * h);
+                    for (j = 0; j < m; j++)
                     {
-                        g = (double)mat_arg_s(i);
-                        h = _susa_svd_pythag(f, g);
-                        mat_arg_s(i) = (float)h;
-                        h = 1.0 / h;
-                        c = g * h;
-                        s = (- f * h);
-                        for (j = 0; j < m; j++)
-                        {
-                            y = (double)mat_arg_u(j,nm);
-                            z = (double)mat_arg_u(j,i);
-                            mat_arg_u(j,nm) = (float)(y * c + z * s);
-                            mat_arg_u(j,i) = (float)(z * c - y * s);
-                        }
+                        y = (double)mat_arg_u(j,nm);
+                        z = (double)mat_arg_u(j,i);
+                        mat_arg_u(j,nm) = (float)(y * c + z * s);
+                        mat_arg_u(j,i) = (float)(z * c - y * s);
                     }
                 }
             }
-- 
2.43.0


From b946c75d1cbda14c2d5e83262cf91d4ea9a787cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 22/68] fix: fill the gaps with zeros in upsample()

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..e2e88f5 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), T(0));
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From 7bb2e3c3383974d0feded996f2e6520f6cd78a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 23/68] fix: filter a scalar instead of returning an empty
 matrix

---
 inc/susa/signal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e2e88f5..e602568 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,9 +209,9 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows > 0)
     {
-        // for column vector
+        // for column vector and scalar
         size_ret_len = size_x + size_length;
         mat_y = matrix <T, Allocator<T>> (size_ret_len, 1, 0);
         size_t size_y      = mat_y.size();
-- 
2.43.0


From 971a68b0f529846c1d74ae77aef67f4419d4a00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 24/68] fix: scale by a scalar operand of conv()

---
 inc/susa/signal.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e602568..999247b 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -262,7 +262,15 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     matrix <T, Allocator>   mat_ret;
     size_t                  size_length;
 
-    if (mat_arg_b.is_vector())
+    if (mat_arg_b.is_scalar())
+    {
+        mat_ret = mat_arg_b(0) * mat_arg_a;
+    }
+    else if (mat_arg_a.is_scalar())
+    {
+        mat_ret = mat_arg_a(0) * mat_arg_b;
+    }
+    else if (mat_arg_b.is_vector())
     {
         size_length = mat_arg_b.size() - 1;
         mat_ret = filter(mat_arg_b, matrix <T, Allocator> (1,1,1), mat_arg_a, size_length);
@@ -273,14 +281,6 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
         mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);
 
     }
-    else if (mat_arg_b.is_scalar())
-    {
-        mat_ret = mat_arg_b(0) * mat_arg_a;
-    }
-    else if (mat_arg_a.is_scalar())
-    {
-        mat_ret = mat_arg_a(0) * mat_arg_b;
-    }
     else
     {
         //TODO: implement conv2()
-- 
2.43.0


From 2323c29c56ced7777aa8fc0c2c1dac0d60fcb9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 25/68] fix: let copies of a ccode own their generators, and
 initialise all its members

---
 inc/susa/ccode.h |  2 +-
 src/ccode.cpp    | 18 ++++--------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..a8b64c1 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen; // Generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..73ccefd 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -33,15 +33,12 @@ ccode::ccode()
     uint_k = 1;
     uint_n = 0;
     uint_m = 0;
+    uint_mmask = 0;
+    zero_state();
 }
 
 ccode::~ccode()
 {
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
 }
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
@@ -53,15 +50,8 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
     uint_mmask       = susa::pow(2, uint_m) - 1;
-
-    try
-    {
-        uint_gen   = new uint32_t[uint_n];
-    }
-    catch(const std::bad_alloc& e)
-    {
-        SUSA_ABORT("failed to allocate memory for generators.");
-    }
+    uint_gen         = std::vector <uint32_t> (uint_n, 0);
+    zero_state();
 }
 
 
-- 
2.43.0


From ba1b1606aa50a0b1af5ab56a5b034a54ce388eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 26/68] fix: compute the code rate without integer division

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index a8b64c1..58f7d79 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return ((float)uint_k / uint_n);
     }
 
     /**
-- 
2.43.0


From 9f6ea5cfe5371c9cf71a25acc66b2eccaa395dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:03 +0000
Subject: [PATCH 27/68] fix: start the BCJR recursions of ccode from
 initialised memory

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 73ccefd..bedde13 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -176,12 +176,12 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     // Alpha
     matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1, 0));
     vec_alpha[0](0,0) = 1;
 
     // Beta
     matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1, 0));
     vec_beta[uint_num_stages](0,0) = 1;
 
 
-- 
2.43.0


From 5cf041932e7e4aa433a06d995863b6a99e2aca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 28/68] fix: weigh zeros with the complementary prior in the
 BCJR decoder of ccode

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index bedde13..dd00292 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -206,7 +206,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_zero) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_zero) = (1 - c_k) * exp(0.5 * l_c * dbl_arg);
 
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
-- 
2.43.0


From 1d364424e0a066e7aabe03dd15e923f8cd8da423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:05 +0000
Subject: [PATCH 29/68] fix: compute the memory mask of ccode without integer
 overflow

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index dd00292..026db4c 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -49,7 +49,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_k     = uint_k;
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
-    uint_mmask       = susa::pow(2, uint_m) - 1;
+    uint_mmask       = (1U << uint_m) - 1;
     uint_gen         = std::vector <uint32_t> (uint_n, 0);
     zero_state();
 }
-- 
2.43.0


From 79abd3dee237f5b2d97ad7ae4c9c59a26221ed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:31 +0000
Subject: [PATCH 30/68] fix: start the sequence detector of channel from
 initialised metrics and states

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..31c0375 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states,1,0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states,1,0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states,1,0);
     }
 
 
-- 
2.43.0


From 0f3970afa230275fbc1e88be1d5bda5e4ab7fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:32 +0000
Subject: [PATCH 31/68] fix: sample the raised-cosine spectrum at real-valued
 frequencies

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..53a7446 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double)dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From 360c477c4600f388b59779ace5e2187b9271bca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 32/68] fix: make rng generate the MT19937 sequence of its seed

---
 src/rng.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..918bd4e 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -144,10 +144,11 @@ matrix <double> rng::randn(unsigned int uint_num)
 void rng::init(unsigned int uint_seed)
 {
     // Initialise the generator from a seed
+    uint_index = N;
     MT[0] = uint_seed;
     for (unsigned int indx = 1; indx < N; indx++)
     {
-        MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
+        MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1] >> 30)) + indx;
     }
 }
 
@@ -220,7 +221,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From ddba11645e301c2587afff6bfeebdbf8c55a9bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:50 +0000
Subject: [PATCH 33/68] fix: seed a default constructed rng

---
 src/rng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index 918bd4e..619828d 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,7 +31,7 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
+    init(5489); // the reference default seed
 }
 
 rng::rng(unsigned int uint_seed)
-- 
2.43.0


From 55448611be7ede3db92801e3c201707436640fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 34/68] fix: let copies of mt own their state

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..27859eb 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,13 +28,11 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
@@ -42,7 +40,6 @@ mt::mt(uint32_t uint_seed)
 
 mt::~mt()
 {
-    delete [] uint_mt;
 }
 
 /* initializes uint_mt[_MT_N] with a seed */
-- 
2.43.0


From aa67a7e8044af5dedf89a11dc9ab681ab86158f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:57 +0000
Subject: [PATCH 35/68] fix: do not stop sorting after a pass without exchanges

---
 inc/susa/search.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..cb72906 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -353,7 +353,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -364,11 +363,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From a3b80537cc10aa89228659bb72b1ba5b942e3912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 36/68] fix: select distinct (and only allowed) elements of any
 value in select_*

---
 inc/susa/search.h | 60 +++++++++++++++++++----------------------------
 1 file changed, 24 insertions(+), 36 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index cb72906..add1928 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -113,7 +113,7 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
+    std::vector <bool> vec_taken(uint_size + 1, false);
     matrix <unsigned int> mat_index(uint_num, 1);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
@@ -123,25 +123,20 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
         return mat_index;
     }
 
-    unsigned int uint_min_index;
-    T T_min;
-
     for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        unsigned int uint_min_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) < T_min)
+            if (vec_taken[uint_j]) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_j) < mat_arg(uint_min_index))
             {
                 uint_min_index = uint_j;
-                T_min = mat_ret(uint_j);
             }
         }
 
-        mat_index(uint_i) = uint_min_index;
-
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        mat_index(uint_i)           = uint_min_index;
+        vec_taken[uint_min_index] = true;
     }
 
     return mat_index;
@@ -156,34 +151,32 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
+    std::vector <bool> vec_taken(uint_size + 1, false);
     matrix <unsigned int> mat_index(uint_num, 1);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(mat_limited_index.size() >= uint_num, "The number of elements to be selected is larger than the number of candidates.");
     if (uint_size < uint_num)
     {
         return mat_index;
     }
 
-    unsigned int uint_min_index;
-    T T_min;
-
-    for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
+    for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        unsigned int uint_min_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
-            if (mat_ret(mat_limited_index(uint_j)) < T_min)
+            unsigned int uint_indx = mat_limited_index(uint_j);
+            SUSA_ASSERT_MESSAGE(uint_indx < uint_size, "a candidate index is out of range.");
+            if (vec_taken[uint_indx]) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_indx) < mat_arg(uint_min_index))
             {
-                uint_min_index = mat_limited_index(uint_j);
-                T_min = mat_ret(mat_limited_index(uint_j));
+                uint_min_index = uint_indx;
             }
         }
 
-        mat_index(uint_i) = uint_min_index;
-
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
+        mat_index(uint_i)           = uint_min_index;
+        vec_taken[uint_min_index] = true;
     }
 
     return mat_index;
@@ -196,7 +189,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
+    std::vector <bool> vec_taken(uint_size + 1, false);
     matrix <unsigned int> mat_index(uint_num, 1);
 
 
@@ -207,25 +200,20 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
         return mat_index;
     }
 
-    unsigned int uint_max_index;
-    T T_max;
-
-    for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
+    for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_max_index = uint_i;
-        T_max = mat_ret(uint_i);
+        unsigned int uint_max_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) > T_max)
+            if (vec_taken[uint_j]) continue;
+            if (uint_max_index == uint_size || mat_arg(uint_j) > mat_arg(uint_max_index))
             {
                 uint_max_index = uint_j;
-                T_max = mat_ret(uint_j);
             }
         }
 
-        mat_index(uint_i) = uint_max_index;
-
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
+        mat_index(uint_i)           = uint_max_index;
+        vec_taken[uint_max_index] = true;
     }
 
     return mat_index;
-- 
2.43.0


From 63ac64871fe21cf851e74598e39c91898aa93878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:09 +0000
Subject: [PATCH 37/68] fix: initialise the predecessors in dijkstra()

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index add1928..43acb9f 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -246,7 +246,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
-  susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
 
-- 
2.43.0


From a2589101d63afc97b812e1a33f00fd89c6b43720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 38/68] fix: add up real path weights without truncation in
 dijkstra()

---
 inc/susa/search.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 43acb9f..df1fc30 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -245,7 +245,9 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   if (!mat_graph.is_square()) return (matrix <unsigned int> ());
 
   unsigned int uint_num_nodes = mat_graph.no_cols();
-  susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
+  // real weights must not be truncated to integers
+  using dist_t = typename std::conditional <std::is_floating_point <T>::value, T, unsigned long long>::type;
+  susa::matrix <dist_t> dist(uint_num_nodes, 1, std::numeric_limits<dist_t>::max());
   susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   dist(uint_src) = 0;
@@ -254,13 +256,13 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   nset.set();
 
 
-  unsigned int uint_min       = 0;
+  dist_t       uint_min       = 0;
   unsigned int uint_min_index = 0;
-  unsigned int uint_alt       = 0;
+  dist_t       uint_alt       = 0;
   while (nset.any())
   {
 
-    uint_min = std::numeric_limits <unsigned int>::max();
+    uint_min = std::numeric_limits <dist_t>::max();
     for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++)
     {
       if (nset.exists(uint_index) && dist(uint_index) < uint_min)
@@ -270,6 +272,8 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
       }
     }
 
+    if (uint_min == std::numeric_limits <dist_t>::max()) break; // the rest is unreachable
+
     nset.reset(uint_min_index);
 
 
-- 
2.43.0


From 0197ca4618ae23ba7d8435dd062fb2fb9385f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:17 +0000
Subject: [PATCH 39/68] fix: return the maximum of a single element in max()

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..723dc24 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -447,7 +447,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else if (mat_arg.size() > 0)
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From 3f5273ed91fdab75ca0b6bba871bc41028d4c1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 40/68] fix: compute the absolute value of every element, and
 of real types

---
 inc/susa/base.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 723dc24..6fd6afe 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -152,7 +152,7 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg);
  * @return compute the absolute value of the input vector
  * @ingroup Math
  */
-template <typename T, typename Allocator>
+template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg);
 
 /**
@@ -371,7 +371,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -380,9 +380,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From fb81b1ee8287aec68b8b6bcd563f050bfac24341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 41/68] fix: divide signed sums by a signed count in mean()

---
 inc/susa/base.h       | 4 ++--
 inc/susa/statistics.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 6fd6afe..e1a2b1c 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -344,7 +344,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        T_ret /= mat_arg.size();
+        T_ret /= static_cast <std::ptrdiff_t> (mat_arg.size());
         mat_ret = matrix <T, Allocator> (1, 1, T_ret);
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
@@ -358,7 +358,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            T_ret               /= no_rows;
+            T_ret               /= static_cast <std::ptrdiff_t> (no_rows);
             mat_ret(uint_col)   = T_ret;
             T_ret               = T(0);
         }
diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index d8b32fc..f84f07c 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -61,7 +61,7 @@ template <class T> T mean(std::vector <T> vec_arg)
         tMean += vec_arg[i];
     }
 
-    return (tMean/vec_arg.size());
+    return (tMean/static_cast <std::ptrdiff_t> (vec_arg.size()));
 }
 
 
-- 
2.43.0


From ebb792ed439a7410437822ca08fa88fcb84b512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:28 +0000
Subject: [PATCH 42/68] fix: compute variance and deviation of integers without
 integer division

---
 inc/susa/statistics.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index f84f07c..a79b3d4 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -68,8 +68,9 @@ template <class T> T mean(std::vector <T> vec_arg)
 
 template <class T> double var(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tVar = 0;
+    std::vector <double> vec_dbl(vec_arg.begin(), vec_arg.end());
+    double tMean = mean(vec_dbl);
+    double tVar = 0;
     for (int i=0; i<vec_arg.size(); i++)
     {
         tVar += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
@@ -83,8 +84,9 @@ template <class T> double var(std::vector <T> vec_arg)
 
 template <class T> double stdv(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tStd = 0;
+    std::vector <double> vec_dbl(vec_arg.begin(), vec_arg.end());
+    double tMean = mean(vec_dbl);
+    double tStd = 0;
     for (int i=0; i<vec_arg.size(); i++)
     {
         tStd += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
-- 
2.43.0


From b18e6c451895a58da91e87d2845d5c45fd951194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:31 +0000
Subject: [PATCH 43/68] fix: terminate log2() when the highest bit is set

---
 inc/susa/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index e1a2b1c..53e0ddb 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -276,8 +276,9 @@ T log2(T int_arg)
 {
     T ret(0);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg >>= 1;
         ret++;
     }
 
-- 
2.43.0


From 5241363e22e7f80203ce8b04405255dc4a21cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 44/68] fix: compute mod() in integers

---
 src/base.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..b43c814 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,12 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    if (lint_mod == 0)  return lint_a;
+    if (lint_mod == -1) return 0; // the remainder may overflow
+
+    long int lint_ret = lint_a % lint_mod;
+
+    return ((lint_ret != 0 && (lint_ret < 0) != (lint_mod < 0)) ? lint_ret + lint_mod : lint_ret);
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From b32f7d330fc7b92a087b4591f06813991726025d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:35 +0000
Subject: [PATCH 45/68] fix: differentiate constant and empty vectors in diff()

---
 inc/susa/base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 53e0ddb..aca1469 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -56,7 +56,7 @@ template <typename T, typename Allocator> matrix <size_t> max(const matrix <T, A
  * @return returns discrete differential of the input vector
  * @ingroup Math
  */
-template <typename T, typename Allocator> std::vector <T> diff(const std::vector <T> &vec_arg);
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg);
 
 /**
  * @brief Sum
@@ -285,8 +285,10 @@ T log2(T int_arg)
     return (ret - 1);
 }
 
-template <typename T> std::vector <T> diff(std::vector <T> &vec_arg)
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg)
 {
+    if (vec_arg.empty()) return std::vector <T> ();
+
     std::vector <T> vec_diff(vec_arg.size() - 1, T(0));
 
     for (size_t i = 0; i < vec_arg.size() - 1; i++)
-- 
2.43.0


From 336cf59f3ba0801e193f32fba8319843eff568aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 46/68] fix: do not count failed allocations in allocator_log

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..867fddf 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T)); // only if the allocation did not throw
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From 3ebe6ee2ba7482e74497e7134e676da6fce061f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:03 +0000
Subject: [PATCH 47/68] fix: solve systems of a single equation in lup::solve

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index f83698c..6842835 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -271,7 +271,7 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    if (sizet_n == 0 || !(mat_b.is_vector() || mat_b.is_scalar()) || mat_b.size() != sizet_n) return mat_ret;
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From b207c89174537c60d7308d4325ab5c98e70b5b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 48/68] fix: compute the determinant of unsigned matrices

---
 inc/susa/linalg.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index d7eaa66..470cf45 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -151,6 +151,9 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 template <typename T, typename Allocator>
 double det(const matrix <T, Allocator> &mat_arg)
 {
+    // differences and cofactors of unsigned elements may be negative
+    using TW = std::conditional_t<std::is_unsigned_v<T>, double, T>;
+
     double dbl_ret = 0.0;
 
     size_t sizet_rows = mat_arg.no_rows();
@@ -164,7 +167,8 @@ double det(const matrix <T, Allocator> &mat_arg)
         }
         else if (sizet_rows == 2)
         { // 2 x 2
-            dbl_ret = mat_arg(0, 0) * mat_arg(1, 1) - mat_arg(1, 0) * mat_arg(0, 1);
+            dbl_ret = static_cast<TW>(mat_arg(0, 0)) * static_cast<TW>(mat_arg(1, 1))
+                    - static_cast<TW>(mat_arg(1, 0)) * static_cast<TW>(mat_arg(0, 1));
         }
         else
         { // 3 x 3 and more
@@ -180,7 +184,7 @@ double det(const matrix <T, Allocator> &mat_arg)
                     SUSA_LOG_ERR("falling into an infinite loop avoided.");
                     return dbl_ret;
                 }
-                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);
+                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * static_cast<TW>(mat_arg(0, sizet_col)) * det(mat_minor);
             }
         }
     }
-- 
2.43.0


From aaaff2ad458120e8a9396ccf86d830aea2d54840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:10 +0000
Subject: [PATCH 49/68] fix: compute the rank of complex matrices in double
 precision

---
 inc/susa/linalg.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 470cf45..3c42fc0 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -383,8 +383,8 @@ matrix<T, Allocator> eye(size_t sizet_n)
 template <typename T, template <typename> typename Allocator>
 unsigned int rank(susa::matrix<T, Allocator<T>> mat_in, double epsilon = 1e-9)
 {
-    // the elimination divides, therefore real numbers are processed in double precision
-    using TW = std::conditional_t<std::is_arithmetic_v<T>, double, T>;
+    // the elimination divides, therefore it is carried out in double precision
+    using TW = std::conditional_t<std::is_arithmetic_v<T>, double, std::complex<double>>;
 
     unsigned int uint_ret = 0;
     size_t sz_rows = mat_in.no_rows();
@@ -393,7 +393,9 @@ unsigned int rank(susa::matrix<T, Allocator<T>> mat_in, double epsilon = 1e-9)
     susa::matrix <TW, Allocator<TW>> mat_arg(sz_rows, sz_cols);
     for (size_t sz_elem = 0; sz_elem < mat_in.size(); ++sz_elem)
     {
-        mat_arg(sz_elem) = static_cast<TW>(mat_in(sz_elem));
+        const T T_elem = mat_in(sz_elem);
+        if constexpr (std::is_arithmetic_v<T>) mat_arg(sz_elem) = static_cast<TW>(T_elem);
+        else mat_arg(sz_elem) = TW(T_elem.real(), T_elem.imag());
     }
 
     susa::matrix <bool, Allocator<bool>> row_selected(sz_rows, 1, false);
-- 
2.43.0


From a50b6d3fdf2af78118d7bb69b4049a167afa3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 50/68] fix: do not release the elements of an array twice when
 loading it fails

---
 inc/susa/array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index ba39ff1..364312d 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -176,6 +176,8 @@ namespace susa
       if (_matrix != nullptr)
       {
         alloc.deallocate(_matrix, uint_total);
+        _matrix     = nullptr; // the allocation below may throw
+        uint_total  = 0;
       }
       _matrix       = alloc.allocate(length);
       uint_total    = length;
-- 
2.43.0


From b9726c89f9ff8f8472b603dbf139189aad62ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 51/68] fix: compute the signal power of awgn in double
 precision

---
 inc/susa/modulation.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 301e81b..e4a53c7 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -99,15 +99,22 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     // N0 = P / gamma
     // Noise_var = N0 / 2
 
-    double P;
-    if constexpr (is_complex<T>::value)
-    {
-        P = ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
-    }
-    else
+    // the power is accumulated in double precision, it overflows integral types
+    double P = 0;
+    for (size_t indx = 0; indx < mat_signal.size(); indx++)
     {
-        P = ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
+        if constexpr (is_complex<T>::value)
+        {
+            double re = mat_signal(indx).real();
+            double im = mat_signal(indx).imag();
+            P += re * re + im * im;
+        }
+        else
+        {
+            P += (double)mat_signal(indx) * mat_signal(indx);
+        }
     }
+    P = ovs * P / mat_signal.size();
 
     double gamma        = std::pow(10, flt_snr_db/10);
     double N0           = P / gamma;
-- 
2.43.0


From 30900b4c2475df138eeefe658ee143bf78131122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 52/68] fix: keep rank deficient matrices from underflowing in
 svd()

---
 src/svd.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index e4b174e..4c4c28f 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -73,6 +73,13 @@ int svd(const matrix <float> &mat_arg_a,
     mat_arg_s.resize(p, 1);
     mat_arg_v.resize(p, p);
 
+    /* columns and rows below this are zero in single precision, and must not underflow */
+    double tiny = 0.0;
+    for (i = 0; i < m; i++)
+        for (j = 0; j < n; j++)
+            tiny = MAX(tiny, fabs((double)mat_arg_u(i,j)));
+    tiny *= 1e-20;
+
     /* Householder reduction to bidiagonal form */
     for (i = 0; i < n; i++)
     {
@@ -84,7 +91,7 @@ int svd(const matrix <float> &mat_arg_a,
         {
             for (k = i; k < m; k++)
                 scale += fabs((double)mat_arg_u(k,i));
-            if (scale)
+            if (scale > tiny)
             {
                 for (k = i; k < m; k++)
                 {
@@ -118,7 +125,7 @@ int svd(const matrix <float> &mat_arg_a,
         {
             for (k = l; k < n; k++)
                 scale += fabs((double)mat_arg_u(i,k));
-            if (scale)
+            if (scale > tiny)
             {
                 for (k = l; k < n; k++)
                 {
-- 
2.43.0


From 76ca2d91d85899ef76c03d9d057b3c01c1de486a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:39 +0000
Subject: [PATCH 53/68] fix: let svd() converge on repeated singular values

---
 src/svd.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index 4c4c28f..ee57b78 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -214,21 +214,29 @@ int svd(const matrix <float> &mat_arg_a,
         ++mat_arg_u(i,i);
     }
 
+    /* an element is negligible at double precision, and where that takes too many
+     * iterations at the precision of the singular values */
+    auto negligible = [&](double v)
+    {
+        if (its < 30) return fabs(v) + anorm == anorm;
+        return (float)(fabs(v) + anorm) == (float)anorm;
+    };
+
     /* diagonalize the bidiagonal form */
     for (k = n - 1; k >= 0; k--)
     { // loop over singular values
-        for (its = 0; its < 30; its++)
+        for (its = 0; its < 60; its++)
         { // loop over allowed iterations
             flag = 1;
             for (l = k; l >= 0; l--)
             { // test for splitting
                 nm = l - 1;
-                if (fabs(rv1(l)) + anorm == anorm)
+                if (negligible(rv1(l)))
                 {
                     flag = 0;
                     break;
                 }
-                if (fabs((double)mat_arg_s(nm)) + anorm == anorm) break;
+                if (negligible((double)mat_arg_s(nm))) break;
             }
             if (flag)
             {
@@ -238,7 +246,7 @@ int svd(const matrix <float> &mat_arg_a,
                 {
                     f = s * rv1(i);
                     rv1(i) = c * rv1(i);
-                    if (fabs(f) + anorm == anorm) break;
+                    if (negligible(f)) break;
 
                     g = (double)mat_arg_s(i);
                     h = _susa_svd_pythag(f, g);
@@ -268,7 +276,7 @@ int svd(const matrix <float> &mat_arg_a,
                 break;
             }
 
-            if (its >= 30)
+            if (its == 59)
             {
                 SUSA_LOG_ERR("No convergence.");
                 return 0;
-- 
2.43.0


From ed0ad1abcf135e894f62e6297e9da7b19768676e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 54/68] fix: reject matrix dimensions whose number of elements
 is not representable

---
 inc/susa/matrix.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 4092d23..b1385a6 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -32,6 +32,7 @@
 #define SUSA_MATRIX_H
 
 #include <type_traits>
+#include <cstdint>
 
 #include <susa/debug.h>
 #include <susa/memory.h>
@@ -104,6 +105,9 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
 
     bool    allocate(size_t sz_objects);
 
+    //! the number of elements, or zero if it is not representable
+    static size_t get_no_objects(size_t sizet_rows, size_t sizet_cols);
+
   public:
     //! Constructor
     matrix();
@@ -408,7 +412,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
   this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
   this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-  sizet_objects = this->sizet_rows * this->sizet_cols;
+  sizet_objects = get_no_objects(this->sizet_rows, this->sizet_cols);
 
   if (!allocate(sizet_objects)) return;
 
@@ -427,7 +431,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
+    sizet_objects = get_no_objects(this->sizet_rows, this->sizet_cols);
     allocate(sizet_objects);
 }
 
@@ -459,7 +463,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
+    sizet_objects = get_no_objects(this->sizet_rows, this->sizet_cols);
     allocate(sizet_objects);
 }
 
@@ -475,7 +479,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows    = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols    = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects       = this->sizet_rows * this->sizet_cols;
+    sizet_objects       = get_no_objects(this->sizet_rows, this->sizet_cols);
 
     if(!allocate(sizet_objects)) return;
 
@@ -770,7 +774,7 @@ bool matrix<T, Allocator>::resize(size_t sizet_rows, size_t sizet_cols)
 
     this->sizet_rows        = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols        = sizet_cols < 2 ? 1 : sizet_cols;
-    size_t sizet_objects    = this->sizet_rows * this->sizet_cols;
+    size_t sizet_objects    = get_no_objects(this->sizet_rows, this->sizet_cols);
 
     if (sizet_objects != this->sizet_objects)
     {
@@ -1484,11 +1488,24 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     return true;
 }
 
+template <typename T, typename Allocator>
+size_t matrix <T, Allocator>::get_no_objects(size_t sizet_rows, size_t sizet_cols)
+{
+    SUSA_ASSERT_MESSAGE(sizet_rows <= SIZE_MAX / sizet_cols, "the number of elements is not representable.");
+    return (sizet_rows <= SIZE_MAX / sizet_cols) ? sizet_rows * sizet_cols : 0;
+}
+
 template <typename T, typename Allocator>
 bool matrix <T, Allocator>::allocate(size_t sz_objects)
 {
     SUSA_ASSERT_MESSAGE(_matrix == nullptr, "not deallocated and may cause memory leak");
-    if (sz_objects == 0) return false; // an empty matrix owns no memory
+    if (sz_objects == 0) // an empty matrix owns no memory
+    {
+        sizet_rows    = 0;
+        sizet_cols    = 0;
+        sizet_objects = 0;
+        return false;
+    }
     try
     {
         _matrix = alloc.allocate(sz_objects);
-- 
2.43.0


From ffa000940ac6a28ea014f196b70bf731159cc209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:25 +0000
Subject: [PATCH 55/68] fix: without assertions, rejected matrix accesses,
 swaps and slices stay inside the matrix and return defaults

---
 inc/susa/matrix.h | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b1385a6..8c4e5cb 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -89,7 +89,7 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
     size_t          sizet_rows;
     size_t          sizet_cols;
     size_t          sizet_objects;
-    T*              T_default;
+    T               T_default;
     Allocator       alloc;
     T*              _matrix;
 
@@ -394,7 +394,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
+, T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -403,7 +403,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
-: T_default(new T)
+: T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -424,7 +424,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
-: T_default(new T)
+: T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -437,7 +437,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
-: T_default(new T)
+: T_default()
 , alloc(mat_arg.alloc)
 , _matrix(nullptr)
 {
@@ -453,7 +453,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
-: T_default(new T)
+: T_default()
 , _matrix(nullptr)
 {
     size_t sizet_rows;
@@ -469,7 +469,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tinitial)
-: T_default(new T)
+: T_default()
 , _matrix(nullptr)
 {
     size_t sizet_rows;
@@ -491,14 +491,12 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
+: T_default()
 {
     sizet_rows          = mat_arg.sizet_rows;
     sizet_cols          = mat_arg.sizet_cols;
     sizet_objects       = mat_arg.sizet_objects;
-    T_default              = mat_arg.T_default;
-    T_default              = mat_arg.T_default;
     _matrix             = mat_arg._matrix;
-    mat_arg.T_default      = nullptr;
     mat_arg._matrix     = nullptr;
     mat_arg.sizet_rows    = 0;
     mat_arg.sizet_cols    = 0;
@@ -510,7 +508,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
+, T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -519,7 +517,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 
 template <typename T, typename Allocator> matrix <T, Allocator>::~matrix() noexcept
 {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
 }
 
@@ -531,6 +528,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
+  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T_default;
+
   return _matrix[get_lindex(sizet_row,sizet_col)];
 }
 
@@ -540,6 +539,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
+  if (_matrix == nullptr || sizet_elem >= this->sizet_objects) return T_default;
+
   return this->_matrix[sizet_elem];
 }
 
@@ -677,6 +678,7 @@ template <typename T, typename Allocator> std::vector <T> matrix <T, Allocator>:
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(size_t col_a, size_t col_b)
 {
     SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "one or more indices is/are out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
 
     T T_tmp;
 
@@ -692,6 +694,7 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(size_t row_a, size_t row_b)
 {
     SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "one or more indices is/are out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
 
     T T_tmp;
 
@@ -803,6 +806,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_objects < sizet_left) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -815,6 +819,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     else
     {
         SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_cols < sizet_left) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -837,6 +842,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_objects < sizet_right) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
@@ -851,6 +857,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     else
     {
         SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_cols < sizet_right) return mat_ret;
 
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
@@ -878,7 +885,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -892,7 +899,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -918,7 +925,7 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
-  return *T_default;
+  return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_row, size_t sizet_col ) const
@@ -938,7 +945,7 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
-    return *T_default;
+    return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_elem ) const
-- 
2.43.0


From b98efd4eeee863e136951a125eed3df1e81db112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:29 +0000
Subject: [PATCH 56/68] fix: without assertions, rejected array accesses stay
 inside the array and give the default

---
 inc/susa/array.h | 43 +++++++++++++++++++++++--------------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 364312d..9bf8df6 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,7 +108,7 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
-      return *T_default;
+      return T_default;
     }
 
     template <typename... Args>
@@ -121,7 +121,7 @@ namespace susa
     std::vector<size_t> vec_dims;
     size_t uint_total;
     size_t uint_num_dims;
-    T *T_default;
+    T T_default;
 
     std::vector<size_t> vec_get;
     size_t uint_get_step;
@@ -141,7 +141,7 @@ namespace susa
   array<T, Allocator>::array()
   : uint_total(0)
   , uint_num_dims(0)
-  , T_default(new T)
+  , T_default()
   , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
@@ -151,7 +151,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array(std::initializer_list<size_t> list)
   : vec_dims(list)
-  , T_default(new T)
+  , T_default()
   , alloc()
   {
     uint_total = 1;
@@ -189,7 +189,8 @@ namespace susa
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(array &&arg)
-  : alloc(std::move(arg.alloc))
+  : T_default()
+  , alloc(std::move(arg.alloc))
   {
 
     uint_total      = arg.uint_total;
@@ -198,17 +199,15 @@ namespace susa
     vec_get         = std::vector<size_t>(uint_num_dims);
     uint_get_step   = 0;
 
-    T_default          = arg.T_default;
     _matrix         = arg._matrix;
   
-    arg.T_default      = nullptr;
     arg._matrix     = nullptr;
     arg.uint_total  = 0;
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(const array &arg)
-  : T_default(new T)
+  : T_default()
   , alloc(arg.alloc)
   , _matrix(nullptr)
   {
@@ -253,7 +252,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::~array() noexcept
   {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
   }
 
@@ -263,6 +261,7 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
     SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+    if (list.size() > uint_num_dims) return T_default;
 
     size_t uint_elem      = 0;
     size_t uint_dim_count = 0;
@@ -288,7 +287,7 @@ namespace susa
       return _matrix[uint_elem];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
@@ -306,7 +305,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
@@ -325,13 +324,14 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
   size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
     SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
+    if (list.size() > uint_num_dims) return uint_total;
 
     size_t uint_elem = 0;
     size_t uint_dim_count = 0;
@@ -368,19 +368,22 @@ namespace susa
 
       SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-      if (uint_elem < uint_total) return uint_elem;
-
-      return 0;
+      return uint_elem;
     }
     else
     {
 
       SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-      vec_get[uint_get_step] = uint_elem;
-      uint_get_step++;
-
-      ret = index(vec_get);
+      if (uint_get_step < uint_num_dims)
+      {
+        vec_get[uint_get_step] = uint_elem;
+        ret = index(vec_get);
+      }
+      else
+      {
+        ret = uint_total;
+      }
     }
 
     vec_get = std::vector<size_t>(uint_num_dims);
@@ -396,7 +399,7 @@ namespace susa
 
     SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-    vec_get[uint_get_step] = uint_elem;
+    if (uint_get_step < uint_num_dims) vec_get[uint_get_step] = uint_elem;
     uint_get_step++;
     return index(uint_args...);
   }
-- 
2.43.0


From 36351a6e4be3bebe610349290778187147f35e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 57/68] fix: without assertions, rejected candidates and
 generator indices are ignored

---
 inc/susa/search.h | 2 +-
 src/ccode.cpp     | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index df1fc30..43b0524 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -168,7 +168,7 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
         {
             unsigned int uint_indx = mat_limited_index(uint_j);
             SUSA_ASSERT_MESSAGE(uint_indx < uint_size, "a candidate index is out of range.");
-            if (vec_taken[uint_indx]) continue;
+            if (uint_indx >= uint_size || vec_taken[uint_indx]) continue;
             if (uint_min_index == uint_size || mat_arg(uint_indx) < mat_arg(uint_min_index))
             {
                 uint_min_index = uint_indx;
diff --git a/src/ccode.cpp b/src/ccode.cpp
index 026db4c..35b8965 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -60,6 +60,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 void ccode::set_generator(uint32_t uint_gen, uint32_t uint_gen_indx)
 {
     SUSA_ASSERT_MESSAGE(uint_gen_indx < uint_n, "id exceeded the number of generators.");
+    if (uint_gen_indx >= uint_n) return;
     this->uint_gen[uint_gen_indx] = oct_to_dec(uint_gen);
 }
 
-- 
2.43.0


From 515110629fbb087040339b7e99aa9b1cc47910a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 58/68] fix: time stamps of years outside 2000-2099

---
 src/utility.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index 566be7c..12d10c3 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -62,12 +62,11 @@ std::string timestamp()
 
     time(&rawtime);
     ptm = localtime(&rawtime);
-    ss_ret << std::string("20");
 
     ss_itos.str(std::string());
-    ss_itos << ptm->tm_year - 100;
-    if (ss_itos.str().length() > 1) ss_ret << ss_itos.str();
-    else ss_ret << std::string("0") << ss_itos.str();
+    ss_itos << ptm->tm_year + 1900;
+    if (ss_itos.str().length() < 4) ss_ret << std::string(4 - ss_itos.str().length(), '0');
+    ss_ret << ss_itos.str();
 
     ss_itos.str(std::string());
     ss_itos << ptm->tm_mon+1;
-- 
2.43.0


From 310ac5e205263366bc249110d3ccf631bf873866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:36 +0000
Subject: [PATCH 59/68] fix: the chronometer is not affected by setting the
 wall clock

---
 src/utility.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index 12d10c3..9ce9998 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -28,25 +28,25 @@
 namespace susa {
 
 // Elapsed time utility functions
-static std::chrono::time_point<std::chrono::high_resolution_clock> __susa_start;
-static std::chrono::time_point<std::chrono::high_resolution_clock> __susa_end;
+static std::chrono::time_point<std::chrono::steady_clock> __susa_start;
+static std::chrono::time_point<std::chrono::steady_clock> __susa_end;
 
 
 void tic()
 {
-    __susa_start = std::chrono::high_resolution_clock::now();
+    __susa_start = std::chrono::steady_clock::now();
 }
 
 void toc_print()
 {
-    __susa_end = std::chrono::high_resolution_clock::now();
+    __susa_end = std::chrono::steady_clock::now();
     auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start);
     std::cout << "Elapsed time is " << elapsed.count()/1000.0f << " seconds." << std::endl;
 }
 
 double toc()
 {
-    __susa_end = std::chrono::high_resolution_clock::now();
+    __susa_end = std::chrono::steady_clock::now();
     auto elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(__susa_end - __susa_start);
     return((double)elapsed.count()/1000.0f);
 }
-- 
2.43.0


From efc82d85cf07c74026ce61d6e6af8354888bfaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 60/68] fix: without assertions, a rejected write does not
 change the default that later accesses give

---
 inc/susa/array.h  | 9 +++++----
 inc/susa/matrix.h | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 9bf8df6..a555b07 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,6 +108,7 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
+      T_default = T();
       return T_default;
     }
 
@@ -261,7 +262,7 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
     SUSA_ASSERT_MESSAGE(list.size() <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-    if (list.size() > uint_num_dims) return T_default;
+    if (list.size() > uint_num_dims) return T();
 
     size_t uint_elem      = 0;
     size_t uint_dim_count = 0;
@@ -287,7 +288,7 @@ namespace susa
       return _matrix[uint_elem];
     }
 
-    return T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -305,7 +306,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
@@ -324,7 +325,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return T_default;
+    return T();
   }
 
   template <typename T, typename Allocator>
diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 8c4e5cb..5cb1508 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -528,7 +528,7 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
-  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T_default;
+  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T();
 
   return _matrix[get_lindex(sizet_row,sizet_col)];
 }
@@ -539,7 +539,7 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
-  if (_matrix == nullptr || sizet_elem >= this->sizet_objects) return T_default;
+  if (_matrix == nullptr || sizet_elem >= this->sizet_objects) return T();
 
   return this->_matrix[sizet_elem];
 }
@@ -925,6 +925,7 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
+  T_default = T();
   return T_default;
 }
 
@@ -945,6 +946,7 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
+    T_default = T();
     return T_default;
 }
 
-- 
2.43.0


From 48f5f9d7fcefb3f4b17b387a0b62b1013bd0e1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 61/68] fix: an array whose assignment failed for lack of
 memory no longer counts elements it does not have

---
 inc/susa/array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index a555b07..2286b4f 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -235,7 +235,7 @@ namespace susa
       alloc.deallocate(_matrix, uint_total);
       _matrix = nullptr;
     }
-    uint_total    = arg.uint_total;
+    uint_total    = 0; // the allocations below may throw
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
@@ -243,7 +243,8 @@ namespace susa
 
     if (arg._matrix != nullptr)
     {
-      _matrix     = alloc.allocate(uint_total);
+      _matrix     = alloc.allocate(arg.uint_total);
+      uint_total  = arg.uint_total;
       std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
     }
 
-- 
2.43.0


From 2c71c14b6b8cbd1596ed9f371a560b0f70b38d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 62/68] fix: text parsing reports a failed memory allocation
 instead of taking it for the end of the text, and loses no memory

---
 inc/susa/matrix.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 5cb1508..e4c46b4 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -505,12 +505,7 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
 
 
 template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::string str_string)
-: sizet_rows(0)
-, sizet_cols(0)
-, sizet_objects(0)
-, T_default()
-, alloc()
-, _matrix(nullptr)
+: matrix() // the destructor releases the memory if the parser throws
 {
   parser(str_string);
 }
@@ -1472,6 +1467,7 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
 
     std::stringstream ss_all(str_string);
+    ss_all.exceptions(std::ios_base::badbit); // a failed memory allocation is not an end of the text
     std::string str_buff;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
@@ -1481,11 +1477,14 @@ bool matrix <T, Allocator>::parser(std::string str_string)
         str_buff.clear();
         std::getline(ss_all, str_buff, ';');
         std::stringstream ssrow(str_buff);
+        ssrow.exceptions(std::ios_base::badbit);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
             str_buff.clear();
             std::getline(ssrow, str_buff, (char)0x20);
-            if (!(std::istringstream(str_buff) >> T_tmp))
+            std::istringstream ss_element(str_buff);
+            ss_element.exceptions(std::ios_base::badbit);
+            if (!(ss_element >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
-- 
2.43.0


From fa194e51dcd83d849620410bed12b064a8496158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 63/68] fix: bit sets of 2^32 and more indices

---
 src/sets.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index d3230a6..dfeba4c 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -44,7 +44,7 @@ namespace susa
 
     if (index >= uint_set_size) return;
 
-    unsigned int byte = index / 8;
+    size_t       byte = index / 8;
     unsigned int bit  = index % 8;
 
 
@@ -56,7 +56,7 @@ namespace susa
   {
     if (exists(index))
     {
-      unsigned int byte = index / 8;
+      size_t       byte = index / 8;
       unsigned int bit  = index % 8;
       if (byte > nbytes) return;
       this->_matrix[byte] ^= (0x01 << bit);
@@ -65,7 +65,7 @@ namespace susa
 
   size_t bitset::pop()
   {
-    for (unsigned int uint_index = 0; uint_index < uint_set_size; uint_index++)
+    for (size_t uint_index = 0; uint_index < uint_set_size; uint_index++)
     {
       if (exists(uint_index))
       {
@@ -85,7 +85,7 @@ namespace susa
   bool bitset::exists(size_t index)
   {
     if (index >= uint_set_size) return false;
-    unsigned int byte = index / 8;
+    size_t       byte = index / 8;
     unsigned int bit  = index % 8;
 
     if (byte > nbytes) return false;
-- 
2.43.0


From b0c095ff851af87d1c4e797c2a39469c3ce94f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 64/68] fix: lu and lup keep the matrix they decompose, which
 may be a temporary

---
 inc/susa/solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 6842835..b7087ee 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -65,7 +65,7 @@ template <class T> class lu
     const matrix<T>&    get_lower() const { return mat_lower; }
 
   private:
-    const matrix <T>&   mat_a;
+    matrix <T>          mat_a;
     matrix <T>          mat_upper;
     matrix <T>          mat_lower;
 
@@ -134,7 +134,7 @@ template <class T> class lup
 
   private:
     matrix <T>          mat_lu;
-    const matrix <T>&   mat_a;
+    matrix <T>          mat_a;
     matrix <size_t>     mat_p;
     matrix <T>          mat_pp;
 
-- 
2.43.0


From 722c8a06ea3bf80cc963cd4b776193d52f0dbab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 65/68] fix: outputs beyond the eighth of a convolutional code
 were missing in next_output and ignored by the BCJR decoder

---
 inc/susa/ccode.h |  4 ++--
 src/ccode.cpp    | 18 ++++++++++--------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index 58f7d79..c5d21de 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -99,7 +99,7 @@ class ccode
      * @param b_input the input
      * @return the output of the encoder 
      */
-    uint8_t  next_output(uint32_t uint_state, bool b_input);
+    uint32_t next_output(uint32_t uint_state, bool b_input);
   
     /**
      * @brief the rate of the convolutional code
@@ -133,7 +133,7 @@ class ccode
      */
     uint32_t next_state(bool b_input);
 
-    uint8_t  next_output(bool b_input);
+    uint32_t next_output(bool b_input);
     
     /**
      * @brief get all possible previous states
diff --git a/src/ccode.cpp b/src/ccode.cpp
index 35b8965..7db47e2 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -96,32 +96,34 @@ void ccode::zero_state()
     uint_last_state    = 0;
 }
 
-uint8_t ccode::next_output(uint32_t uint_state, bool b_input)
+uint32_t ccode::next_output(uint32_t uint_state, bool b_input)
 {
-    uint8_t uintTmp = 0;
+    SUSA_ASSERT_MESSAGE(uint_n <= 32, "the outputs do not fit in a word.");
+    uint32_t uintTmp = 0;
     if (b_input)
     {
-        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state | (1<<uint_m)) & uint_gen[j]) % 2) << j);
+        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state | (1<<uint_m)) & uint_gen[j]) % 2U) << j);
     }
     else
     {
-        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state & (~(1<<uint_m))) & uint_gen[j]) % 2) << j);
+        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_state & (~(1<<uint_m))) & uint_gen[j]) % 2U) << j);
     }
 
     return uintTmp;
 }
 
-uint8_t ccode::next_output(bool b_input)
+uint32_t ccode::next_output(bool b_input)
 {
+    SUSA_ASSERT_MESSAGE(uint_n <= 32, "the outputs do not fit in a word.");
     uint_last_state = uint_current_state;
-    uint8_t uintTmp = 0;
+    uint32_t uintTmp = 0;
     if (b_input)
     {
-        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_current_state | (1<<uint_m)) & uint_gen[j]) % 2) << j);
+        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_current_state | (1<<uint_m)) & uint_gen[j]) % 2U) << j);
     }
     else
     {
-        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_current_state & (~(1<<uint_m))) & uint_gen[j]) % 2) << j);
+        for (uint32_t j=0; j<uint_n; j++) uintTmp |=  ((count_1bits((uint_current_state & (~(1<<uint_m))) & uint_gen[j]) % 2U) << j);
     }
     
     next_state(b_input);
-- 
2.43.0


From bf5c3844720c39973692ed9c02417beb8858d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:54 +0000
Subject: [PATCH 66/68] fix: the norm of complex vectors is the root of the sum
 of squared magnitudes

---
 inc/susa/base.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index aca1469..9b1ff8e 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -504,7 +504,8 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         mat_ret = matrix <T, Allocator> (1,1, T(0));
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
+            if constexpr (is_complex<T>::value) mat_ret(0) += std::norm(mat_arg(uint_i));
+            else mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
         }
         mat_ret(0) = std::sqrt(mat_ret(0));
     }
@@ -515,7 +516,8 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         {
             for (size_t uint_row = 0; uint_row < mat_arg.no_rows(); uint_row++)
             {
-                mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
+                if constexpr (is_complex<T>::value) mat_ret(uint_col) += std::norm(mat_arg(uint_row,uint_col));
+                else mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
             }
             mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));
         }
-- 
2.43.0


From e6626bcbe35ac4961be2aa7760dc32a87144a67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:23 +0000
Subject: [PATCH 67/68] fix: constellations of orders that are no square
 number, like the documented 8 and 128

---
 src/modulation.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/modulation.cpp b/src/modulation.cpp
index 7252af3..65f7dc2 100644
--- a/src/modulation.cpp
+++ b/src/modulation.cpp
@@ -44,17 +44,21 @@ qam::qam(unsigned int uint_m)
 : uint_m(uint_m)
 {
     uint_bps                = log2(uint_m);
-    double          dbl_p   = sqrt(uint_m);
-    unsigned int    uint_l  = (unsigned int)(uint_m/dbl_p);
+
+    // The constellation is a square if there is one of that order and the
+    // rectangle that is closest to a square otherwise
+    unsigned int    uint_l  = (unsigned int)sqrt(uint_m > 0 ? uint_m : 1);
+    while (uint_l > 1 && uint_m % uint_l != 0) uint_l--;
+    unsigned int    uint_p  = uint_m / uint_l;
 
     // Constellation generation
-    mat_s    = matrix < std::complex <double> > (uint_l, uint_l, std::complex <double>(0,0));
-    mat_axis = matrix < std::complex <double> > ((unsigned int)dbl_p, 1, std::complex <double>(0,0));
+    mat_s    = matrix < std::complex <double> > (uint_p, uint_l, std::complex <double>(0,0));
+    mat_axis = matrix < std::complex <double> > (uint_p, 1, std::complex <double>(0,0));
 
-    for (unsigned int i=0; i < dbl_p; i++)
-        mat_axis(i) = std::complex <double> (i - (dbl_p - 1)/2,i - (dbl_p - 1)/2);
+    for (unsigned int i=0; i < uint_p; i++)
+        mat_axis(i) = std::complex <double> (i - (uint_p - 1)/2.0,i - (uint_l - 1)/2.0);
 
-    for (unsigned int i=0; i < uint_l; i++)
+    for (unsigned int i=0; i < uint_p; i++)
     {
         for (unsigned int j=0; j < uint_l; j++)
         {
-- 
2.43.0


From 4a084b4c322ee7bba0711fb712d511a631922f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:35 +0000
Subject: [PATCH 68/68] fix: a text whose rows have different numbers of
 columns was read when their total happened to be a multiple of the rows

---
 inc/susa/matrix.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index e4c46b4..bf4cb90 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1399,6 +1399,9 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     size_t sizet_cols_ = 0;                     // number of columns
     size_t sizet_rows_ = 0;                     // number of rows
     int int_length     = str_string.length();   // length of the input string
+    size_t sizet_first = 0;                     // number of columns in the first row
+    size_t sizet_begin = 0;                     // number of columns before the current row
+    bool b_equal       = true;                  // all rows have as many columns as the first one
 
 
     // This loop gets total number of rows and columns
@@ -1411,6 +1414,9 @@ bool matrix <T, Allocator>::parser(std::string str_string)
             // since the number of rows are counted by number of space and the
             // spaces around ';' are cut, we also count a column here !
             sizet_cols_++;
+            if (sizet_rows_ == 1) sizet_first = sizet_cols_;
+            if (sizet_cols_ - sizet_begin != sizet_first) b_equal = false;
+            sizet_begin = sizet_cols_;
             break;
 
         case 0xA:
@@ -1429,9 +1435,10 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     sizet_cols_++;
     sizet_rows_++;
     sizet_size = sizet_cols_ * sizet_rows_;
+    if (sizet_rows_ > 1 && sizet_cols_ - sizet_begin != sizet_first) b_equal = false;
 
-    SUSA_ASSERT_MESSAGE(sizet_cols_ % sizet_rows_ == 0, "the number of columns are not equal in each row.");
-    if (sizet_cols_ % sizet_rows_ != 0) return false;
+    SUSA_ASSERT_MESSAGE(b_equal, "the number of columns are not equal in each row.");
+    if (!b_equal) return false;
     
 
     if (sizet_size == 0)
-- 
2.43.0

