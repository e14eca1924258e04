From b249b60c2540c213795f14c535b5affd8f6d25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 1/5] fix: dividing by zero throws std::overflow_error instead
 of terminating

div() used a bare "throw;": outside a handler that calls std::terminate,
inside one it rethrows the unrelated exception being handled. This also
decides inv() of a singular nxn matrix (n > 3) and negative powers of one.
---
 matrix/matrix_div.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_div.hpp b/matrix/matrix_div.hpp
index dac5658..c538523 100644
--- a/matrix/matrix_div.hpp
+++ b/matrix/matrix_div.hpp
@@ -15,6 +15,8 @@
 #ifndef MATRIX_MATRIX_DIV_HPP_
 #define MATRIX_MATRIX_DIV_HPP_
 
+#include <stdexcept>
+
 #include "matrix_type.hpp"
 
 namespace mlib
@@ -33,7 +35,9 @@ template<typename T, std::size_t n, std::size_t m>
 static Matrix<T, n, m> div(const Matrix<T, n, m>& A, const T scalar)
 {
   if(scalar == 0)
-    throw;
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
 
   Matrix<T, n, m> prod{};
 
-- 
2.43.0


From da8bd764b8627de7c0ce6e35d248773046828bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 2/5] fix: inv() of a singular 1x1 matrix reports it like every
 other size

It divided by zero: SIGFPE for integers, an infinity for floating point,
where the 2x2, 3x3 and nxn overloads throw std::overflow_error.
---
 matrix/matrix_inv.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/matrix/matrix_inv.hpp b/matrix/matrix_inv.hpp
index 8a5f19d..e928e46 100644
--- a/matrix/matrix_inv.hpp
+++ b/matrix/matrix_inv.hpp
@@ -61,11 +61,17 @@ static Matrix<T, (n-1), (n-1)> getminor(const Matrix<T, n, n>& A, std::size_t i,
  * @param [in] Square Matrix A with 1x1 size
  *
  * @return Inverse of matrix A
+ *         error with the A is zero
  */
 template<typename T>
 Matrix<T, 1, 1> inv(const Matrix<T, 1, 1>& A)
 {
-  return Matrix<T, 1, 1>{ 1/det(A) };
+  const auto detA { det(A) };
+  if (detA == 0)
+  {
+    throw std::overflow_error("Divide by zero exception");
+  }
+  return Matrix<T, 1, 1>{ 1/detA };
 }
 
 
-- 
2.43.0


From 2ff8c08873b452fdad20c154b2fb9b0bc115f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 3/5] fix: median() does not allocate dynamic memory

The library promises not to; median() used a std::vector (whose header
was not even included, so matrix.hpp did not compile on its own) and
failed with std::bad_alloc when the heap was exhausted.
---
 matrix/matrix_median.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/matrix/matrix_median.hpp b/matrix/matrix_median.hpp
index e9a8ca7..f8203b8 100644
--- a/matrix/matrix_median.hpp
+++ b/matrix/matrix_median.hpp
@@ -30,15 +30,14 @@ namespace mlib
 template<typename T,  std::size_t i, std::size_t j>
 T median(const Matrix<T, i, j>& A)
 {
-  std::vector<T> v;
-  const std::size_t size = i*j;
-  v.reserve(size);
+  constexpr std::size_t size = i*j;
+  std::array<T, size> v{};
 
   for (std::size_t it = 0; it < i; it++)
   {
     for (std::size_t jt = 0; jt < j; jt++)
     {
-      v.push_back(A[it][jt]);
+      v[it*j + jt] = A[it][jt];
     }
   }
 
-- 
2.43.0


From 2b05b4f9cfea05276614e92dca38162551e75cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:28 +0000
Subject: [PATCH 4/5] fix: concatenate() of square matrices joins A and B
 horizontally

The second element of the pair held A twice.
---
 matrix/matrix_concatenate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_concatenate.hpp b/matrix/matrix_concatenate.hpp
index e4b9aac..a12ea30 100644
--- a/matrix/matrix_concatenate.hpp
+++ b/matrix/matrix_concatenate.hpp
@@ -60,7 +60,7 @@ std::pair<Matrix<T, (n+n), n>,Matrix<T, n, (n+n)>> concatenate(const Matrix<T, n
     }
     for (std::size_t j = n; j < n+n; j++)
     {
-      result.second[i][j] = A[i][j-n];
+      result.second[i][j] = B[i][j-n];
     }
   }
 
-- 
2.43.0


From 5bd1775fb9d3f0f7f8d75f3514ee24753c8e92d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:08 +0000
Subject: [PATCH 5/5] fix: mean() of an integer matrix with a negative sum

The division was done in std::size_t, so that a negative sum was converted
to a huge unsigned number first: the mean of {-3,-2,-1} came out as 1431655763.
---
 matrix/matrix_mean.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/matrix_mean.hpp b/matrix/matrix_mean.hpp
index 6e803ac..1a4f463 100644
--- a/matrix/matrix_mean.hpp
+++ b/matrix/matrix_mean.hpp
@@ -39,7 +39,7 @@ T mean(const Matrix<T, i, j>& A)
       result += A[it][jt];
     }
   }
-  return (result / (i*j));
+  return (result / static_cast<std::ptrdiff_t>(i*j));
 }
 
 
-- 
2.43.0

