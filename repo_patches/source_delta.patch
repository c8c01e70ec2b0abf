From bc3325899bdc60a920699ff22e41ed28f14d1367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 01/30] fix: substitute equations with arbitrary leading
 coefficient into maps

Normalizing a map assumed that the leading coefficient of every equation is
one, and assigned the image it was iterating over. Maps on polytopes with
other equations were garbage, the enumeration of classes did not terminate.
---
 src/algorithm_map_operations.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..8a7319a 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -119,10 +119,14 @@ namespace
    }
 
    /// Use equation to get eliminated index back to zero.
+   /// The images of maps are only relevant up to a common positive factor, which is
+   /// used to avoid fractions if the coefficient of the eliminated index is not 1.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
       assert( equation[index] != 0 );
+      const auto coefficient = static_cast<int>(equation[index]);
+      const auto sign = (coefficient < 0) ? -1 : 1;
       for ( auto& image : map )
       {
          Image new_image;
@@ -134,16 +138,16 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, -sign * term.second * static_cast<int>(equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, sign * coefficient * term.second));
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
-- 
2.43.0


From 2d067bd3ca4c01773eff17462ae25658e4a4d75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:38 +0000
Subject: [PATCH 02/30] fix: do not read before the first term when terms of a
 map cancel

---
 src/algorithm_map_operations.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 8a7319a..2ae23d8 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -171,18 +171,19 @@ namespace
       for ( auto& image : map )
       {
          std::sort(image.begin(), image.end());
-         for ( std::size_t i = 0; i + 1 < image.size(); ++i )
+         for ( std::size_t i = 0; i + 1 < image.size(); )
          {
-            if ( image[i].first == image[i + 1].first ) // same Index
+            if ( image[i].first != image[i + 1].first )
             {
-               image[i].second += image[i + 1].second; // merge factors
-               image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
-               if ( image[i].second == 0 )
-               {
-                  image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
-               }
-               --i; // decrement i because we erased the next item
+               ++i;
+               continue;
+            }
+            // same Index
+            image[i].second += image[i + 1].second; // merge factors
+            image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
+            if ( image[i].second == 0 )
+            {
+               image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
             }
          }
       }
-- 
2.43.0


From e7e86473baca7982cf8581544f43e9200ffea77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:38 +0000
Subject: [PATCH 03/30] fix: keep the face at infinity out of the facets, but
 in the ridges

The trivial inequality 0 <= 1 was detected before zero columns were
reinserted and hence printed for some unbounded polyhedra. On the other
hand, it was dropped where it is a legitimate ridge, which lost facets of
polyhedra of dimension 1 and vertices of polyhedra of dimension 2.
---
 ...algorithm_fourier_motzkin_elimination.beti |  1 +
 src/algorithm_fourier_motzkin_elimination.cpp | 14 +++++++++-
 src/algorithm_fourier_motzkin_elimination.h   |  5 ++++
 src/algorithm_rotation.cpp                    | 27 +++++++++++++++++--
 4 files changed, 44 insertions(+), 3 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.beti b/src/algorithm_fourier_motzkin_elimination.beti
index c97a68e..892067e 100644
--- a/src/algorithm_fourier_motzkin_elimination.beti
+++ b/src/algorithm_fourier_motzkin_elimination.beti
@@ -17,6 +17,7 @@ namespace panda
    namespace algorithm
    {
       EXTERN template Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      EXTERN template Matrix<Integer> fourierMotzkinEliminationCone(Matrix<Integer>);
       EXTERN template Matrix<Integer> fourierMotzkinEliminationHeuristic(Matrix<Integer>);
    }
 }
diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..3598922 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -62,6 +62,10 @@ namespace
    /// After phase 2, zero columns need to be reinserted.
    template <typename Integer>
    void reinsertZeroColumns(Matrix<Integer>&, const std::vector<ColumnIndex>&);
+   /// The inequality 0 <= 1 doesn't define a facet. The last entry of a row is the
+   /// right hand side only as long as no columns are missing.
+   template <typename Integer>
+   void detectBadRow(Matrix<Integer>&);
    /// Initialization of bitsets in phase 2.
    template <typename Bitset, typename Integer>
    std::vector<Bitset> initializeR(const Matrix<Integer>&, const Vertices<Integer>&);
@@ -72,6 +76,14 @@ namespace
 
 template <typename Integer>
 Matrix<Integer> panda::algorithm::fourierMotzkinElimination(Matrix<Integer> input)
+{
+   auto matrix = fourierMotzkinEliminationCone(std::move(input));
+   detectBadRow(matrix);
+   return matrix;
+}
+
+template <typename Integer>
+Matrix<Integer> panda::algorithm::fourierMotzkinEliminationCone(Matrix<Integer> input)
 {
    assert( !input.empty() );
    auto matrix = input;
@@ -127,6 +139,7 @@ Matrix<Integer> panda::algorithm::fourierMotzkinEliminationHeuristic(Matrix<Inte
    input.insert(input.begin(), used.cbegin(), used.cend());
    phaseTwoHeuristic<BitsetVariableSize>(matrix, input);
    reinsertZeroColumns(matrix, zero_columns);
+   detectBadRow(matrix);
    return matrix;
 }
 
@@ -348,7 +361,6 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
diff --git a/src/algorithm_fourier_motzkin_elimination.h b/src/algorithm_fourier_motzkin_elimination.h
index 56f7f6f..d91e2a7 100644
--- a/src/algorithm_fourier_motzkin_elimination.h
+++ b/src/algorithm_fourier_motzkin_elimination.h
@@ -22,6 +22,11 @@ namespace panda
       /// extremal vertices/rays is returned.
       template <typename Integer>
       Matrix<Integer> fourierMotzkinElimination(Matrix<Integer>);
+      /// Same as fourierMotzkinElimination, but returns all facets of the (homogeneous)
+      /// cone spanned by the rows, i.e. the inequality 0 <= 1 (the face at infinity)
+      /// is part of the result if it defines a facet of the cone.
+      template <typename Integer>
+      Matrix<Integer> fourierMotzkinEliminationCone(Matrix<Integer>);
       /// Heuristic using Fourier-Motzkin elimination to identify some facets.
       /// Output is guaranteed to contain only facets, but it is highly likely
       /// that it is not the complete set of facets.
diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..246b7ef 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -27,6 +27,13 @@ namespace
    /// Returns all ridges on a facet (equivalent to all facets of the facet).
    template <typename Integer>
    Inequalities<Integer> getRidges(const Vertices<Integer>&, const Facet<Integer>&);
+   /// Returns true for the inequality 0 <= 1, which is adjacent to a facet of an unbounded
+   /// polyhedron (and of a polyhedron of dimension 1), but isn't a facet.
+   template <typename Integer>
+   bool isTrivial(const Facet<Integer>&, tag::facet);
+   /// Vertices and rays are never trivial.
+   template <typename Integer>
+   bool isTrivial(const Vertex<Integer>&, tag::vertex);
    /// Returns all vertices that lie on the facet (satisfy the inequality with equality).
    template <typename Integer>
    Vertices<Integer> verticesWithZeroDistance(const Vertices<Integer>&, const Facet<Integer>&);
@@ -46,7 +53,10 @@ Matrix<Integer> panda::algorithm::rotation(const Matrix<Integer>& matrix,
    for ( const auto& ridge : ridges )
    {
       const auto new_row = rotate(matrix, furthest_vertex, input, ridge);
-      output.insert(new_row);
+      if ( !isTrivial(new_row, tag) )
+      {
+         output.insert(new_row);
+      }
    }
    return classes(output, maps, tag);
 }
@@ -87,7 +97,20 @@ namespace
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
       assert( !vertices_on_facet.empty() );
-      return algorithm::fourierMotzkinElimination(vertices_on_facet);
+      return algorithm::fourierMotzkinEliminationCone(vertices_on_facet);
+   }
+
+   template <typename Integer>
+   bool isTrivial(const Facet<Integer>& facet, tag::facet)
+   {
+      return facet.back() < 0 &&
+             std::all_of(facet.cbegin(), facet.cend() - 1, [](const Integer& entry) { return entry == 0; });
+   }
+
+   template <typename Integer>
+   bool isTrivial(const Vertex<Integer>&, tag::vertex)
+   {
+      return false;
    }
 
    template <typename Integer>
-- 
2.43.0


From 9689f9e90687f6220841c7862ba09efc0bd3653c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:54 +0000
Subject: [PATCH 04/30] fix: hold the lock when the list inserts the abort row

Several threads may observe the list to be empty at the same time, and
inserted into the same set concurrently.
---
 src/list.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..b8db3f4 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -85,8 +85,8 @@ Row<Integer> panda::List<Integer, TagType>::get() const
 {
    if ( empty() ) // abort
    {
+      std::lock_guard<std::mutex> lock(mutex);
       const auto it = rows.insert(Row<Integer>{}).first;
-      std::unique_lock<std::mutex> lock(mutex);
       iterators.push_back(it);
       condition.notify_all();
    }
-- 
2.43.0


From 0d1931b9386ccfd85b17b9d98cbca81ea4f1d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 05/30] fix: keep the equations alive while known vertices are
 added asynchronously

---
 src/method_adjacency_decomposition_implementation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..e24f077 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,9 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays"); // equations need to outlive the future.
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From 6c33d3d99c9c6d275db330de8aff6903af7ba282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 06/30] fix: keep send buffers alive until the transmission is
 complete

The sizes sent to the master were destroyed while their non-blocking
sends were possibly pending. An empty matrix is a valid result, too.
---
 src/communication.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 5722b37..25d648a 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -85,10 +85,10 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
 {
    std::vector<MPI_Request> requests;
    requests.reserve(2 + matrix.size());
+   const auto size = matrix.size(); // the buffers of pending sends must outlive the requests.
+   const auto row_size = matrix.empty() ? std::size_t{0} : matrix.back().size();
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
-      const auto size = matrix.size();
-      const auto row_size = matrix.back().size();
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
-- 
2.43.0


From ae38cce02cef0d1a86d8c633ab111bdad59d38f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 07/30] fix: correct signs and remainders in arbitrary
 precision arithmetic

Division of numbers beyond the range of int applied the sign twice, the
remainder of a negative dividend was off by the divisor when it is a multiple
of it, and the addition of numbers with different signs chose the wrong order
of the operands for the subtraction of the magnitudes.
---
 src/big_integer.cpp             | 18 +---------------
 src/big_integer_arithmetics.cpp | 38 ++++++++++++++-------------------
 2 files changed, 17 insertions(+), 39 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..5fb067d 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -90,20 +90,10 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
 {
    if ( isMagnitudeSmallerThan(second) )
    {
-      BigInteger remainder = *this;
+      BigInteger remainder = abs(*this);
       *this = BigInteger(0);
       return remainder;
    }
-   if ( *this == second )
-   {
-      *this = BigInteger(1);
-      return BigInteger(0);
-   }
-   const auto is_negative = isNegative();
-   if ( is_negative )
-   {
-      flipSign();
-   }
    BigInteger result(0);
    BigInteger remainder(0);
    for ( std::size_t it = std::numeric_limits<DataType>::digits * data.size(); it > 0; --it )
@@ -119,12 +109,6 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
          result.data.front() |= 1;
       }
    }
-   if ( is_negative )
-   {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
-   }
    *this = result;
    return remainder;
 }
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..b5b8b7d 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -48,8 +48,8 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      auto copy = *this;
-      data = {0};
+      BigInteger result(0);
+      auto copy = abs(*this);
       for ( const auto& entry : second.data )
       {
          DataType mask = 1;
@@ -57,14 +57,12 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
          {
             if ( (entry & mask) != 0 )
             {
-               *this += copy;
+               result.addMagnitude(copy.data);
             }
          }
       }
-      if ( second.sign == Sign::Negative )
-      {
-         flipSign();
-      }
+      result.sign = (sign == second.sign) ? Sign::Positive : Sign::Negative;
+      *this = result;
       return *this;
    }
 }
@@ -89,9 +87,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      const auto original_sign = sign;
-      auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      const auto different_signs = (sign != second.sign);
+      divideMagnitudesWithRemainder(second);
+      if ( different_signs )
       {
          flipSign();
       }
@@ -115,20 +113,13 @@ BigInteger& panda::BigInteger::operator+=(const BigInteger& second)
       {
          return addMagnitude(second.data);
       }
-      const auto old_sign = sign;
-      sign = second.sign; // swapping sign (tmp only)
-      if ( *this == second )
-      {
-         this->setZero();
-         return *this;
-      }
-      if ( (second.sign == Sign::Positive) == (*this > second) )
+      if ( !isMagnitudeSmallerThan(second) )
       {
-         sign = old_sign; // restoring sign
          return subtractMagnitude(second.data);
       }
       const auto copy = data;
       data = second.data;
+      sign = second.sign;
       return subtractMagnitude(copy);
    }
 }
@@ -149,7 +140,7 @@ BigInteger& panda::BigInteger::operator-=(const BigInteger& second)
       {
          return addMagnitude(second.data);
       }
-      if ( (sign == Sign::Negative) == (*this > second) )
+      if ( isMagnitudeSmallerThan(second) )
       {
          const auto copy = data;
          data = second.data;
@@ -172,7 +163,9 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      *this = divideMagnitudesWithRemainder(second);
+      const auto is_negative = isNegative();
+      const auto remainder = divideMagnitudesWithRemainder(second);
+      *this = (is_negative && !remainder.isZero()) ? second - remainder : remainder;
       return *this;
    }
 }
@@ -273,7 +266,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const auto remainder = a % b;
+      first = BigInteger(((remainder < 0) ? b : 0) + remainder);
       return first;
    }
 }
-- 
2.43.0


From 94eff548731820d815735d669279b6030c7a2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:20 +0000
Subject: [PATCH 08/30] fix: report failures of adding known output
 asynchronously

An exception thrown in the asynchronous task was dropped with the future. A row
that is registered but not queued is never processed, so results were missing
while the program exited with status 0.
---
 src/method_adjacency_decomposition_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index e24f077..cf96a0c 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -77,7 +77,7 @@ void panda::implementation::adjacencyDecomposition(int argc, char** argv, const
          }
       });
    }
-   future.wait();
+   future.get(); // in contrast to wait(), this does not hide that adding the known output failed.
 }
 
 namespace
-- 
2.43.0


From 4625bebb5d6704dc1cf2ed28c8a29bd35dd75ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 09/30] fix: do not take a read error for the end of the input

---
 src/input.cpp           | 4 ++++
 src/input_detection.cpp | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..4dfc10a 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -120,6 +120,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    {
       throw std::invalid_argument("Failed to open file \"" + filename + "\".");
    }
+   file.exceptions(std::ifstream::badbit); // a read error must not be taken for the end of the file.
    ConvexHull<int> conv;
    ConvexHull<int> cone;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
@@ -188,6 +189,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    {
       throw std::invalid_argument("Failed to open file \"" + filename + "\".");
    }
+   file.exceptions(std::ifstream::badbit); // a read error must not be taken for the end of the file.
    Equations<int> equations;
    Inequalities<int> inequalities;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
@@ -332,6 +334,7 @@ namespace
       {
          throw std::invalid_argument("Failed to open file \"" + filename + "\".");
       }
+      file.exceptions(std::ifstream::badbit); // a read error must not be taken for the end of the file.
       std::string token;
       input::advanceToNextKeyword(file, token);
       if ( input::implementation::isKeywordInequalities(token) )
@@ -353,6 +356,7 @@ namespace
       {
          throw std::invalid_argument("Failed to open file \"" + filename + "\".");
       }
+      file.exceptions(std::ifstream::badbit); // a read error must not be taken for the end of the file.
       Vertices<int> conv;
       Vertices<int> cone;
       for ( std::string token; input::advanceToNextKeyword(file, token); )
diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..1bdfb93 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -99,6 +99,7 @@ OperationMode panda::detectOperationMode(int argc, char** argv)
    }
    const auto filename = getFilename(argc, argv);
    std::ifstream file(filename.c_str());
+   file.exceptions(std::ifstream::badbit); // a read error must not be taken for the end of the file.
    const auto words = keywords(file);
    if ( !words.empty() )
    {
-- 
2.43.0


From 0018929528681e3c73d5d54959fb4210c20dae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:17 +0000
Subject: [PATCH 10/30] fix: report failures of writing the output

---
 src/main.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 7a911d8..5a83726 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -21,7 +21,21 @@ namespace
    void printVersion() noexcept;
 }
 
+static int run(int, char**);
+
 int main(int argc, char** argv)
+{
+   const auto result = run(argc, argv);
+   std::cout.flush();
+   if ( !std::cout )
+   {
+      std::cerr << "Failed to write the output, it is incomplete.\n";
+      return 1;
+   }
+   return result;
+}
+
+int run(int argc, char** argv)
 {
    const auto mode = detectOperationMode(argc, argv);
    switch ( mode )
@@ -55,6 +69,7 @@ int main(int argc, char** argv)
          return 1;
       }
    }
+   return 1;
 }
 
 namespace
-- 
2.43.0


From da404577697a1d7af8cc8a4e6a6e1a65d407b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 11/30] fix: end all processes if one node fails

An exception on one node left the others, and its own destructors, waiting for
messages that never come.
---
 src/job_manager.cpp                           |  7 +++++
 src/message_passing_interface_session.cpp     | 19 +++++++++++++
 src/message_passing_interface_session.h       |  3 +++
 src/method_adjacency_decomposition.cpp        |  4 +++
 ...adjacency_decomposition_implementation.cpp | 27 +++++++++++++++++--
 5 files changed, 58 insertions(+), 2 deletions(-)

diff --git a/src/job_manager.cpp b/src/job_manager.cpp
index 9e41c1f..7a736c0 100644
--- a/src/job_manager.cpp
+++ b/src/job_manager.cpp
@@ -15,6 +15,8 @@
 #include <sstream>
 
 #include "algorithm_row_operations.h"
+#include "message_passing_interface_session.h"
+#include "scope_guard.h"
 
 using namespace panda;
 
@@ -52,6 +54,10 @@ panda::JobManager<Integer, TagType>::JobManager(const Names& names_, const int n
    #ifdef MPI_SUPPORT
    assert( number_of_processors > 0 );
    assert( threads_per_processor > 0 );
+   auto guard = makeScopeGuard([]() // otherwise, the threads would wait for jobs when they are joined.
+   {
+      mpi::getSession().abort("The threads serving the other nodes couldn't be started.");
+   });
    for ( int id = 1; id < number_of_processors; ++id ) // for all nodes except the master
    {
       for ( int i = 0; i < threads_per_processor; ++i )
@@ -83,6 +89,7 @@ panda::JobManager<Integer, TagType>::JobManager(const Names& names_, const int n
          });
       }
    }
+   guard.dismiss();
    #endif // MPI_SUPPORT
 }
 #ifndef MPI_SUPPORT
diff --git a/src/message_passing_interface_session.cpp b/src/message_passing_interface_session.cpp
index d554916..ade531d 100644
--- a/src/message_passing_interface_session.cpp
+++ b/src/message_passing_interface_session.cpp
@@ -7,6 +7,7 @@
 #include "message_passing_interface_session.h"
 
 #include <cassert>
+#include <iostream>
 
 #ifdef MPI_SUPPORT
 #include "mpi_no_warnings.h"
@@ -47,6 +48,24 @@ int panda::mpi::Session::getNumberOfNodes() const noexcept
    #endif
 }
 
+#ifndef MPI_SUPPORT
+   #pragma GCC diagnostic push
+   #pragma GCC diagnostic ignored "-Wunused-parameter"
+#endif
+void panda::mpi::Session::abort(const char* reason) const noexcept
+{
+   #ifdef MPI_SUPPORT
+   if ( getNumberOfNodes() > 1 )
+   {
+      std::cerr << "Exception caught: " << reason << '\n';
+      MPI_Abort(MPI_COMM_WORLD, 1);
+   }
+   #endif
+}
+#ifndef MPI_SUPPORT
+   #pragma GCC diagnostic pop
+#endif
+
 #pragma clang diagnostic pop
 
 panda::mpi::Session::Session() noexcept
diff --git a/src/message_passing_interface_session.h b/src/message_passing_interface_session.h
index 41a5cad..7a902b5 100644
--- a/src/message_passing_interface_session.h
+++ b/src/message_passing_interface_session.h
@@ -24,6 +24,9 @@ namespace panda
             bool isMaster() const noexcept;
             /// Returns the number of nodes in the setup.
             int getNumberOfNodes() const noexcept;
+            /// Ends the processes on all nodes if there is more than one node.
+            /// To be called on unrecoverable errors, as other nodes would wait for this one forever.
+            void abort(const char* reason) const noexcept;
             friend mpi::Session& mpi::getSession() noexcept;
          private:
             /// Constructor.
diff --git a/src/method_adjacency_decomposition.cpp b/src/method_adjacency_decomposition.cpp
index 7b2739f..59d9b79 100644
--- a/src/method_adjacency_decomposition.cpp
+++ b/src/method_adjacency_decomposition.cpp
@@ -82,11 +82,13 @@ namespace
    }
    catch ( const std::exception& e )
    {
+      mpi::getSession().abort(e.what());
       std::cerr << "Exception caught: " << e.what() << '\n';
       return 1;
    }
    catch ( ... )
    {
+      mpi::getSession().abort("unknown exception.");
       std::cerr << "Unknown exception caught in file " << __FILE__ << '\n';
       return 1;
    }
@@ -110,11 +112,13 @@ namespace
    }
    catch ( const std::exception& e )
    {
+      mpi::getSession().abort(e.what());
       std::cerr << "Exception caught: " << e.what() << '\n';
       return 1;
    }
    catch ( ... )
    {
+      mpi::getSession().abort("unknown exception.");
       std::cerr << "Unknown exception caught in file " << __FILE__ << '\n';
       return 1;
    }
diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index cf96a0c..7e4b365 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <exception>
 #include <future>
 #include <iostream>
 #include <list>
@@ -47,15 +48,37 @@ namespace
    std::future<void> initializePool(JobManagerProxy<Integer, TagType>&, const Matrix<Integer>&, const Maps&, const Matrix<Integer>&, const Equations<Integer>&);
 }
 
+template <typename JobManagerType, typename Integer, typename TagType>
+static void process(JobManagerType&, const int, const std::tuple<Matrix<Integer>, Names, Maps, Matrix<Integer>>&, TagType);
+
 template <template <typename, typename> class JobManagerType, typename Integer, typename TagType>
 void panda::implementation::adjacencyDecomposition(int argc, char** argv, const std::tuple<Matrix<Integer>, Names, Maps, Matrix<Integer>>& data, TagType tag)
 {
    const auto node_count = mpi::getSession().getNumberOfNodes();
    const auto thread_count = concurrency::numberOfThreads(argc, argv);
-   const auto& input = std::get<0>(data);
    const auto& names = std::get<1>(data);
-   const auto& known_output = std::get<3>(data);
    JobManagerType<Integer, TagType> job_manager(names, node_count, thread_count);
+   try // the destructor of the job manager waits for the other nodes, which would wait for this one.
+   {
+      process(job_manager, thread_count, data, tag);
+   }
+   catch ( const std::exception& e )
+   {
+      mpi::getSession().abort(e.what());
+      throw;
+   }
+   catch ( ... )
+   {
+      mpi::getSession().abort("unknown exception.");
+      throw;
+   }
+}
+
+template <typename JobManagerType, typename Integer, typename TagType>
+static void process(JobManagerType& job_manager, const int thread_count, const std::tuple<Matrix<Integer>, Names, Maps, Matrix<Integer>>& data, TagType tag)
+{
+   const auto& input = std::get<0>(data);
+   const auto& known_output = std::get<3>(data);
    const auto reduced_data = reduce(job_manager, data);
    const auto& equations = std::get<0>(reduced_data);
    const auto& maps = std::get<1>(reduced_data);
-- 
2.43.0


From 3853d882081306150d87647267c302e07be3a822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:52 +0000
Subject: [PATCH 12/30] fix: print the right hand side -INT_MIN correctly

---
 src/algorithm_row_operations.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 80bc075..10204f8 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -15,7 +15,6 @@
 #include <numeric>
 #include <stdexcept>
 
-#include "algorithm_inequality_operations.h"
 #include "algorithm_integer_operations.h"
 #include "cast.h"
 
@@ -88,7 +87,7 @@ void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, co
          printed_something = true;
       }
    }
-   output << ' ' << relation << ' ' << algorithm::rhs(row);
+   output << ' ' << relation << ' ' << -static_cast<long long>(row.back()); // the negative of the smallest int is no int
 }
 
 template <typename Integer>
-- 
2.43.0


From 5a783a0f5bd4cad80d623f83074239bc50a92377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:51 +0000
Subject: [PATCH 13/30] fix: nodes with different numbers of threads left each
 other waiting

---
 src/job_manager.cpp       | 4 +++-
 src/job_manager.h         | 3 ++-
 src/job_manager_proxy.cpp | 7 ++++++-
 src/job_manager_proxy.h   | 3 ++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/job_manager.cpp b/src/job_manager.cpp
index 7a736c0..ef86838 100644
--- a/src/job_manager.cpp
+++ b/src/job_manager.cpp
@@ -60,7 +60,9 @@ panda::JobManager<Integer, TagType>::JobManager(const Names& names_, const int n
    });
    for ( int id = 1; id < number_of_processors; ++id ) // for all nodes except the master
    {
-      for ( int i = 0; i < threads_per_processor; ++i )
+      // the nodes don't necessarily run as many threads as the master does.
+      const auto number_of_threads = communication.fromSlave<int>(id).front().front();
+      for ( int i = 0; i < number_of_threads; ++i )
       {
          request_threads.emplace_front([&,id]() // capture id by value, as it is a local variable
          {
diff --git a/src/job_manager.h b/src/job_manager.h
index 46167ae..ff065a6 100644
--- a/src/job_manager.h
+++ b/src/job_manager.h
@@ -32,7 +32,8 @@ namespace panda
          /// Constructor. The first argument are the names of indices
          /// (only relevant for printing inequalities).
          /// The second argument must be the number of processors,
-         /// the third argument must be the number of threads per processor.
+         /// the third argument must be the number of threads per processor
+         /// (the other nodes send theirs).
          JobManager(const Names&, const int, const int);
       private:
          Communication communication;
diff --git a/src/job_manager_proxy.cpp b/src/job_manager_proxy.cpp
index 89ad3c1..a8ab927 100644
--- a/src/job_manager_proxy.cpp
+++ b/src/job_manager_proxy.cpp
@@ -40,9 +40,14 @@ panda::Row<Integer> panda::JobManagerProxy<Integer, TagType>::get() const
 #endif
 
 template <typename Integer, typename TagType>
-panda::JobManagerProxy<Integer, TagType>::JobManagerProxy(const Names&, const int, const int)
+panda::JobManagerProxy<Integer, TagType>::JobManagerProxy(const Names&, const int, const int threads_per_processor)
 :
    communication()
 {
+   #ifdef MPI_SUPPORT
+   communication.toMaster(Matrix<int>{Row<int>{threads_per_processor}}); // one request thread each.
+   #else
+   (void)threads_per_processor;
+   #endif
 }
 
diff --git a/src/job_manager_proxy.h b/src/job_manager_proxy.h
index f554c13..bf91b92 100644
--- a/src/job_manager_proxy.h
+++ b/src/job_manager_proxy.h
@@ -27,7 +27,8 @@ namespace panda
          void put(const Matrix<Integer>&) const;
          /// Returns facet that wasn't ever returned here before. Blocks the caller until data is available.
          Row<Integer> get() const;
-         /// Constructor. The arguments are deliberately ignored in JobManagerProxy.
+         /// Constructor. Only the third argument, the number of threads of this node, is used:
+         /// the master is told.
          JobManagerProxy(const Names&, const int, const int);
       private:
          Communication communication;
-- 
2.43.0


From d65817938df432a0af1d5b1c02aba6c108b00bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:47 +0000
Subject: [PATCH 14/30] fix: factors of maps overflowed while equations were
 eliminated

The maps of a symmetric input are normalized with the equations it satisfies.
This was done in int, whatever the integer type: products beyond int gave
wrong maps without notice, and facets were printed that are none. Now it is
done in the selected type, and common factors are removed, as images of maps
are only relevant up to a positive factor.
---
 src/algorithm_map_operations.cpp | 83 ++++++++++++++++++++++++++------
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 2ae23d8..a3bcefa 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -20,7 +20,7 @@ namespace
 {
    /// Normalize a single map using equations.
    template <typename Integer>
-   Map normalizeMap(Map, const Equations<Integer>&);
+   Map normalizeMap(const Map&, const Equations<Integer>&);
    /// Output a single term in an image of a map.
    std::ostream& operator<<(std::ostream&, const Term&);
    /// Output a single image in a map.
@@ -108,9 +108,18 @@ namespace
       return indices;
    }
 
+   /// The factors may exceed the type Factor while a map is normalized.
+   template <typename Integer>
+   using ExactTerm = std::pair<Index, Integer>;
+   template <typename Integer>
+   using ExactImage = std::vector<ExactTerm<Integer>>;
+   template <typename Integer>
+   using ExactMap = std::vector<ExactImage<Integer>>;
+
    /// Applying the map to an inequality has precondition that the input is normalized.
    /// Hence, the coefficients matching one of the indices eliminated by the equations are zero.
-   void eliminateZeroCoefficients(Map& map, const Indices& indices)
+   template <typename Integer>
+   void eliminateZeroCoefficients(ExactMap<Integer>& map, const Indices& indices)
    {
       for ( const auto index : indices )
       {
@@ -122,14 +131,14 @@ namespace
    /// The images of maps are only relevant up to a common positive factor, which is
    /// used to avoid fractions if the coefficient of the eliminated index is not 1.
    template <typename Integer>
-   void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
+   void subtractEquation(ExactMap<Integer>& map, const Index& index, const Equation<Integer>& equation)
    {
       assert( equation[index] != 0 );
-      const auto coefficient = static_cast<int>(equation[index]);
-      const auto sign = (coefficient < 0) ? -1 : 1;
+      const auto sign = static_cast<Integer>((equation[index] < 0) ? -1 : 1);
+      const auto coefficient = static_cast<Integer>(sign * equation[index]);
       for ( auto& image : map )
       {
-         Image new_image;
+         ExactImage<Integer> new_image;
          for ( const auto& term : image )
          {
             if ( term.first == index )
@@ -138,13 +147,13 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -sign * term.second * static_cast<int>(equation[j])));
+                     new_image.push_back(std::make_pair(j, static_cast<Integer>(-sign * term.second * equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(std::make_pair(term.first, sign * coefficient * term.second));
+               new_image.push_back(std::make_pair(term.first, static_cast<Integer>(coefficient * term.second)));
             }
          }
          image = new_image;
@@ -153,7 +162,7 @@ namespace
 
    /// Use equations to get eliminated indices back to zero.
    template <typename Integer>
-   void subtractEquations(Map& map, const Indices& indices, const Equations<Integer>& equations)
+   void subtractEquations(ExactMap<Integer>& map, const Indices& indices, const Equations<Integer>& equations)
    {
       assert( indices.size() == equations.size() );
       for ( std::size_t i = 0; i < indices.size(); ++i )
@@ -166,7 +175,8 @@ namespace
 
    /// Simplification of a map: If an image is something like [1x1 + 2x2 -1x1 +1x2],
    /// it can be simplified to [3x2].
-   void simplify(Map& map)
+   template <typename Integer>
+   void simplify(ExactMap<Integer>& map)
    {
       for ( auto& image : map )
       {
@@ -189,16 +199,59 @@ namespace
       }
    }
 
+   /// Divides all factors of a map by their greatest common divisor.
+   template <typename Integer>
+   void removeCommonFactor(ExactMap<Integer>& map)
+   {
+      Row<Integer> factors;
+      for ( const auto& image : map )
+      {
+         for ( const auto& term : image )
+         {
+            factors.push_back(term.second);
+         }
+      }
+      const auto gcd_value = algorithm::gcd(factors);
+      if ( gcd_value > 1 )
+      {
+         for ( auto& image : map )
+         {
+            for ( auto& term : image )
+            {
+               term.second /= gcd_value;
+            }
+         }
+      }
+   }
+
+   /// Conversion of all factors of a map.
+   template <typename To, typename From>
+   std::vector<std::vector<std::pair<Index, To>>> convert(const std::vector<std::vector<std::pair<Index, From>>>& map)
+   {
+      std::vector<std::vector<std::pair<Index, To>>> result;
+      for ( const auto& image : map )
+      {
+         result.emplace_back();
+         for ( const auto& term : image )
+         {
+            result.back().push_back(std::make_pair(term.first, static_cast<To>(term.second)));
+         }
+      }
+      return result;
+   }
+
    /// A normalized map can ignore the eliminated indices, as the coefficients are zero
    /// in a normalized inequality.
    template <typename Integer>
-   Map normalizeMap(Map map, const Equations<Integer>& equations)
+   Map normalizeMap(const Map& map, const Equations<Integer>& equations)
    {
       const auto indices = ::indices(equations);
-      eliminateZeroCoefficients(map, indices);
-      subtractEquations(map, indices, equations);
-      simplify(map);
-      return map;
+      auto exact_map = convert<Integer>(map);
+      eliminateZeroCoefficients(exact_map, indices);
+      subtractEquations(exact_map, indices, equations);
+      simplify(exact_map);
+      removeCommonFactor(exact_map);
+      return convert<Factor>(exact_map);
    }
 
    std::ostream& operator<<(std::ostream& stream, const panda::Term& term)
-- 
2.43.0


From 0745f9e5c56439aff238b1e8b7bd797fe0d83527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 15/30] fix: --check rejected symmetric input that isn't in
 lowest terms

The images of rays and inequalities are divided by their common factor, the
rays and inequalities they are looked up in were not.
---
 src/input_validity.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 74b25e8..ad0d41f 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -26,6 +26,8 @@ namespace
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
+   /// Returns the rows divided by their greatest common divisors, just like images of maps are.
+   Matrix<int> lowestTerms(Matrix<int>);
 }
 
 /// Input is considered valid if and only if each inequality is facet-defining.
@@ -215,12 +217,13 @@ namespace
 
    void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
    {
+      const auto rows = lowestTerms(matrix);
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
          const auto& row = matrix[i];
          const auto mapped_row = algorithm::apply(map, row, tag::facet{});
-         const auto offset = std::find(matrix.cbegin(), matrix.cend(), mapped_row) - matrix.cbegin();
+         const auto offset = std::find(rows.cbegin(), rows.cend(), mapped_row) - rows.cbegin();
          indices[i] = static_cast<std::size_t>(offset);
          if ( indices[i] >= matrix.size() )
          {
@@ -243,12 +246,13 @@ namespace
 
    void checkValidityVertices(const Matrix<int>& matrix, const Map& map)
    {
+      const auto rows = lowestTerms(matrix);
       std::vector<std::size_t> indices(matrix.size());
       for ( std::size_t i = 0; i < matrix.size(); ++i )
       {
          const auto& row = matrix[i];
          const auto mapped_row = algorithm::apply(map, row, tag::vertex{});
-         const auto offset = std::find(matrix.cbegin(), matrix.cend(), mapped_row) - matrix.cbegin();
+         const auto offset = std::find(rows.cbegin(), rows.cend(), mapped_row) - rows.cbegin();
          indices[i] = static_cast<std::size_t>(offset);
          if ( indices[i] >= matrix.size() )
          {
@@ -268,5 +272,17 @@ namespace
          }
       }
    }
-}
 
+   Matrix<int> lowestTerms(Matrix<int> matrix)
+   {
+      for ( auto& row : matrix )
+      {
+         const auto gcd_value = algorithm::gcd(row);
+         if ( gcd_value > 1 )
+         {
+            row /= gcd_value;
+         }
+      }
+      return matrix;
+   }
+}
-- 
2.43.0


From 8fcdb2e4b6106f681b9db1a91bd8c874db990e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:59 +0000
Subject: [PATCH 16/30] fix: rows were taken for unnamed ones if a longer name
 starts like theirs

---
 src/input_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..f9cdbc3 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -213,7 +213,7 @@ bool panda::input::containsNames(const Names& names, std::istream& stream)
          const auto character = static_cast<char>(stream.get());
          word.append(1, character);
          position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
-         if ( position != names.cend() && *position == word ) // match!
+         if ( std::find(position, names.cend(), word) != names.cend() ) // match!
          {
             return true;
          }
-- 
2.43.0


From ad64ee79f52d50735c5bc2a65f6fcb06952f5b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:35 +0000
Subject: [PATCH 17/30] fix: rows of coefficients were rejected if names follow
 in other rows or sections

Whether a row of an outer description is written with names was decided by looking up to 2000 characters ahead, beyond the end of the row. A row of coefficients was then parsed as a named one if e.g. maps follow it.
---
 src/input_common.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index f9cdbc3..4343cd1 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -196,21 +196,22 @@ std::string panda::input::trimWhitespace(std::string string)
 
 bool panda::input::containsNames(const Names& names, std::istream& stream)
 {
-   const auto stream_position = stream.tellg();
-   const auto guard = makeScopeGuard([&]()
+   // only the current row counts: other rows and sections (e.g. maps) may contain names as well.
+   std::istringstream row(peekLine(stream));
+   skipWhitespace(row);
+   if ( isIdentifier(row) )
    {
-      stream.clear();
-      stream.seekg(stream_position);
-   });
+      identifier(row); // may look like a name, but isn't a term.
+   }
    std::size_t counter = 0;
    constexpr std::size_t max_counter = 2000; // this constant is actually arbitrary. We simply assume that if the first 2000 tokens do not contain a name, it will hold for the rest as well.
-   while ( stream && counter < max_counter )
+   while ( row && counter < max_counter )
    {
       auto position = names.cbegin();
       std::string word = "";
-      while ( stream && position != names.cend() )
+      while ( row && position != names.cend() )
       {
-         const auto character = static_cast<char>(stream.get());
+         const auto character = static_cast<char>(row.get());
          word.append(1, character);
          position = std::find_if(names.cbegin(), names.cend(), [&] (const Name& name) { return word.size() <= name.size() && name.substr(0, word.size()) == word; });
          if ( std::find(position, names.cend(), word) != names.cend() ) // match!
-- 
2.43.0


From e0b078a262f7175e9fd31f8f54cd089bb06a9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:35 +0000
Subject: [PATCH 18/30] fix: maps in front of the names made the program hang

Without names, no token of a map is ever consumed.
---
 src/input_map.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..3eb1a63 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -37,6 +37,10 @@ Maps panda::input::implementation::maps(std::istream& stream, const Names& names
          std::getline(stream, token);
          continue;
       }
+      if ( names.empty() )
+      {
+         throw std::invalid_argument("Maps need names of the coordinates. Names must be declared before the section of maps.");
+      }
       try
       {
          auto map = ::map(stream, names);
-- 
2.43.0


From 20acbc4962d02b266e5794df5666e8b3a422702e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:22 +0000
Subject: [PATCH 19/30] fix: a malformed vertex or ray dropped the remaining
 ones or made the program hang

Everything after a token that isn't an integer was silently ignored in the section of vertices, and never consumed in the section of rays.
---
 src/input_vertex.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..9a07dc7 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -117,14 +117,27 @@ namespace
       skipWhitespace(stream);
       Row<int> numerator;
       Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      while ( true )
       {
+         const auto end_of_file = (stream >> std::ws).peek() == std::istream::traits_type::eof();
+         int tmp;
+         if ( !(stream >> tmp) )
+         {
+            if ( !end_of_file )
+            {
+               errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+            }
+            break;
+         }
          numerator.push_back(tmp);
          skipWhitespace(stream);
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
+            if ( !(stream >> tmp) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
+            }
             if ( tmp == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
-- 
2.43.0


From f0bfa50d479c7788756624bda3a35a6cc3eeb8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:33 +0000
Subject: [PATCH 20/30] fix: rows of the wrong length in known data or
 equations crashed the program

---
 src/input.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index 4dfc10a..524ae43 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -173,6 +173,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
    auto known_facets = knownFacets(argc, argv, names);
+   implementation::checkConsistency(conv, cone, known_facets, names, maps, dimension);
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -237,10 +238,18 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       inequalities.push_back(equation);
       inequalities.push_back(-1 * equation);
    }
+   implementation::checkConsistency(inequalities, names, dimension); // now the equations as well.
    sort(argc, argv, inequalities);
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   for ( const auto& vertex : known_vertices )
+   {
+      if ( vertex.size() != inequalities.back().size() )
+      {
+         throw std::invalid_argument("Invalid input data: Inconsistent dimensions (a known vertex / ray is invalid).");
+      }
+   }
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
-- 
2.43.0


From 15315ea3cc56526e0201a91658c076449ef2d436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:33 +0000
Subject: [PATCH 21/30] fix: maps with missing or excess images were taken for
 other maps

---
 src/input_map.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index 3eb1a63..e2b7d8a 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -142,6 +142,11 @@ namespace
          stream >> token;
          result[index] = image(token, names);
          ++index;
+         skipWhitespace(stream);
+      }
+      if ( index < result.size() || (!isEndOfLine(stream) && !isEndOfFile(stream)) )
+      {
+         throw std::invalid_argument("The number of images does not match the number of names.");
       }
       return result;
    }
-- 
2.43.0


From d0f0baa647e24de3a247613f2ba88ff4ee3311ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:33 +0000
Subject: [PATCH 22/30] fix: the end of a malformed number was ignored

---
 src/input_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 4343cd1..4eace4d 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -246,7 +246,7 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
-- 
2.43.0


From 94dadb9e4eb9ea3e5354c8e7f0c235a97c688cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:27 +0000
Subject: [PATCH 23/30] fix: a cone that is a single ray crashed the program

---
 src/algorithm_rotation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 246b7ef..3d0283c 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -96,7 +96,10 @@ namespace
    Inequalities<Integer> getRidges(const Vertices<Integer>& vertices, const Facet<Integer>& facet)
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
-      assert( !vertices_on_facet.empty() );
+      if ( vertices_on_facet.empty() )
+      {
+         return {}; // the cone is a single ray, and nothing but its apex lies on the facet.
+      }
       return algorithm::fourierMotzkinEliminationCone(vertices_on_facet);
    }
 
-- 
2.43.0


From 8ae6722dda0be72603a2c2d42c79a0c0237de509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:29 +0000
Subject: [PATCH 24/30] fix: an invalid option aborted the program

---
 src/main.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 5a83726..c3c727e 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -4,6 +4,7 @@
 // License: CC BY-NC 4.0 http://creativecommons.org/licenses/by-nc/4.0/legalcode //
 //-------------------------------------------------------------------------------//
 
+#include <exception>
 #include <iostream>
 
 #include "application_name.h"
@@ -25,7 +26,15 @@ static int run(int, char**);
 
 int main(int argc, char** argv)
 {
-   const auto result = run(argc, argv);
+   int result = 1;
+   try
+   {
+      result = run(argc, argv);
+   }
+   catch ( const std::exception& e ) // e.g. an invalid command line option.
+   {
+      std::cerr << "Exception caught: " << e.what() << "\n";
+   }
    std::cout.flush();
    if ( !std::cout )
    {
-- 
2.43.0


From 64bd3e7ac2c4694a21f004f0d2a1402b823efbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:21 +0000
Subject: [PATCH 25/30] fix: a missing denominator was read from the next row

---
 src/input_vertex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 9a07dc7..5a7689e 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -134,7 +134,8 @@ namespace
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            if ( !(stream >> tmp) )
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> tmp) )
             {
                errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
             }
-- 
2.43.0


From 28b20b08e8e7f34bbfc98e10a8b31992c83128ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:20 +0000
Subject: [PATCH 26/30] fix: the dimension was ignored

A line such as "DIM=3" was not recognised as the field of the dimension
(only "DIM" or "DIM=" on its own was), so the documented check of the
dimension was never made.
---
 src/input_keywords.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..24f303b 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -107,14 +107,17 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
 
 bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
 {
-   return (string == "DIM" ||
-           string == "DIM=" ||
-           string == "DIMENSION" ||
-           string == "DIMENSION=" ||
-           string == "Dim" ||
-           string == "Dim=" ||
-           string == "Dimension" ||
-           string == "Dimension=");
+   // The number usually follows in the same line ("DIM=3").
+   const auto end = string.find_first_of(" \t=");
+   const auto rest = string.find_first_not_of(" \t", end);
+   if ( rest != std::string::npos && string[rest] != '=' )
+   {
+      return false;
+   }
+   return (string.compare(0, end, "DIM") == 0 ||
+           string.compare(0, end, "DIMENSION") == 0 ||
+           string.compare(0, end, "Dim") == 0 ||
+           string.compare(0, end, "Dimension") == 0);
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From c39ec1643b9479e10152e0830da468c758531239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:35 +0000
Subject: [PATCH 27/30] fix: rows that don't fit the maps crashed the program

Reduced descriptions and --check apply the maps before the dimensions of
rows are compared.
---
 src/input.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index 524ae43..42378f4 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -38,6 +38,8 @@ namespace
    void sort(int, char**, Matrix<int>&);
    void expandInequalities(Matrix<int>&, const Maps&);
    void expandVertices(Matrix<int>&, const Maps&);
+   /// Maps can only be applied to rows of the same length.
+   void checkLengths(const Matrix<int>&, const Maps&);
 
    std::string getFilenameKnownFacets(int, char**);
    std::string getFilenameKnownVertices(int, char**);
@@ -50,6 +52,7 @@ namespace
    Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
+      checkLengths(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(conv, maps);
@@ -59,6 +62,7 @@ namespace
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
+      checkLengths(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
@@ -69,6 +73,7 @@ namespace
    Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
+      checkLengths(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(cone, maps);
@@ -78,6 +83,7 @@ namespace
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
+      checkLengths(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
@@ -88,6 +94,7 @@ namespace
    Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkLengths(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
@@ -97,6 +104,7 @@ namespace
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      checkLengths(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -105,6 +113,7 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
+      checkLengths(equations, maps);
       const auto tmp_maps = algorithm::normalize(maps, equations);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
@@ -462,6 +471,17 @@ namespace
       matrix = std::move(all);
    }
 
+   void checkLengths(const Matrix<int>& matrix, const Maps& maps)
+   {
+      for ( const auto& row : matrix )
+      {
+         if ( !maps.empty() && row.size() != maps.front().size() )
+         {
+            throw std::invalid_argument("Invalid input data: Inconsistent dimensions (the length of a row does not match the maps).");
+         }
+      }
+   }
+
    void expandVertices(Matrix<int>& matrix, const Maps& maps)
    {
       if ( maps.empty() )
-- 
2.43.0


From 5e93eb61bb655628107094b12850bfdadaac9e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:33 +0000
Subject: [PATCH 28/30] fix: a process that rejects its command line or input
 left the others waiting

---
 src/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index c3c727e..c2588ac 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -11,6 +11,7 @@
 #include "git_revision.h"
 #include "help.h"
 #include "input_detection.h"
+#include "message_passing_interface_session.h"
 #include "method_facet_enumeration.h"
 #include "method_vertex_enumeration.h"
 
@@ -33,6 +34,7 @@ int main(int argc, char** argv)
    }
    catch ( const std::exception& e ) // e.g. an invalid command line option.
    {
+      mpi::getSession().abort(e.what()); // other processes may be waiting for this one.
       std::cerr << "Exception caught: " << e.what() << "\n";
    }
    std::cout.flush();
@@ -74,6 +76,7 @@ int run(int argc, char** argv)
       case OperationMode::Undecided:
       case OperationMode::Invalid:
       {
+         mpi::getSession().abort("The operation mode couldn't be deduced. Check the format of input file(s).");
          std::cerr << "The operation mode couldn't be deduced. Check the format of input file(s).\n";
          return 1;
       }
-- 
2.43.0


From 4a5351605a37c4faf9dd7362107116dab1c2b2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:25 +0000
Subject: [PATCH 29/30] fix: rows that break off after a sign were completed
 from the next row

At the end of the file, "x <= -" was even taken for "x <= 1".
---
 src/input_constraint_named_variables.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..9ed35c2 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -103,6 +103,11 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || isEndOfFile(stream) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
+            }
             stream >> token;
             std::tie(index, coefficient) = term(token, names, id);
             if ( coefficient < 0 )
-- 
2.43.0


From 1964332f75418c20a64183b2e64f8ec8aa581dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:51:03 +0000
Subject: [PATCH 30/30] fix: signs without a term in maps were taken for
 constants

---
 src/input_map.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index e2b7d8a..f9292d8 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -108,10 +108,16 @@ namespace
       std::size_t position = 0;
       while ( position != std::string::npos && position < token.size() )
       {
+         const auto start = position;
          const auto factor = extractFactor(token, position);
+         const auto end_of_factor = position;
          const auto variable = extractName(token, position);
          if ( variable.empty() )
          {
+            if ( token.find_first_of("0123456789", start) >= end_of_factor )
+            {
+               throw std::invalid_argument("In \"" + token + "\" of a map, a sign is not followed by a term.");
+            }
             // not referring to a name => index == number of names
             result.push_back(std::make_pair(names.size(), factor));
          }
-- 
2.43.0

