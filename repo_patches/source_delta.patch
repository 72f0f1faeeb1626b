From d23d90df6cfac1293512f90e731c73561a7da693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 01/49] fix: parallel_for divides by zero on an empty range

---
 include/fes/detail/thread.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..0127e37 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,8 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
+#include <exception>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -23,9 +25,17 @@ namespace detail {
 template <typename Lambda>
 void parallel_for(const Lambda& callable, const size_t size,
                   size_t num_threads) {
-  // If num_threads is 0, use all CPUs
+  // An empty range has nothing to share between threads
+  if (size == 0) {
+    return;
+  }
+
+  // If num_threads is 0, use all CPUs (hardware_concurrency returns 0 if the
+  // number of CPUs is not computable)
   if (num_threads == 0) {
-    num_threads = std::thread::hardware_concurrency();
+    num_threads =
+        std::max(static_cast<size_t>(1),
+                 static_cast<size_t>(std::thread::hardware_concurrency()));
   }
 
   // Adjust num_threads to not exceed the size
-- 
2.43.0


From 36d4fdce216dde1566aed80a3948789b92de606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 02/49] fix: data race between parallel_for workers that throw
 together

---
 include/fes/detail/thread.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index 0127e37..e65bba0 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -49,7 +49,8 @@ void parallel_for(const Lambda& callable, const size_t size,
 
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
-  std::exception_ptr exception = nullptr;
+  // Each thread owns its slot: several threads can throw at the same time.
+  std::vector<std::exception_ptr> exceptions(num_threads);
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -60,11 +61,11 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
+    threads.emplace_back([&callable, start, end, ix, &exceptions]() {
       try {
         callable(start, end);
       } catch (...) {
-        exception = std::current_exception();
+        exceptions[ix] = std::current_exception();
       }
     });
     start += shift;
@@ -77,9 +78,11 @@ void parallel_for(const Lambda& callable, const size_t size,
     }
   }
 
-  // Rethrow the last exception caught
-  if (exception) {
-    std::rethrow_exception(exception);
+  // Rethrow the exception caught by the last thread that failed
+  for (auto it = exceptions.rbegin(); it != exceptions.rend(); ++it) {
+    if (*it) {
+      std::rethrow_exception(*it);
+    }
   }
 }
 
-- 
2.43.0


From afe3aee7b4272596913e5830d39a2512c2f1c021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 03/49] fix: parallel_for terminates the program when a thread
 cannot be started

---
 include/fes/detail/thread.hpp | 41 ++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e65bba0..8c61f08 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -58,26 +58,37 @@ void parallel_for(const Lambda& callable, const size_t size,
 
   threads.reserve(num_threads);
 
-  // Launch threads
-  for (size_t ix = 0; ix < num_threads; ++ix) {
-    size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, ix, &exceptions]() {
-      try {
-        callable(start, end);
-      } catch (...) {
-        exceptions[ix] = std::current_exception();
+  auto join = [&threads]() {
+    for (auto&& thread : threads) {
+      if (thread.joinable()) {
+        thread.join();
       }
-    });
-    start += shift;
-  }
+    }
+  };
 
-  // Join threads
-  for (auto&& thread : threads) {
-    if (thread.joinable()) {
-      thread.join();
+  // Launch threads
+  try {
+    for (size_t ix = 0; ix < num_threads; ++ix) {
+      size_t end = (ix == num_threads - 1) ? size : start + shift;
+      threads.emplace_back([&callable, start, end, ix, &exceptions]() {
+        try {
+          callable(start, end);
+        } catch (...) {
+          exceptions[ix] = std::current_exception();
+        }
+      });
+      start += shift;
     }
+  } catch (...) {
+    // A thread could not be started: destroying the others before they are
+    // joined would terminate the program.
+    join();
+    throw;
   }
 
+  // Join threads
+  join();
+
   // Rethrow the exception caught by the last thread that failed
   for (auto it = exceptions.rbegin(); it != exceptions.rend(); ++it) {
     if (*it) {
-- 
2.43.0


From 789e3f17a1ba6151c5bcbfe7e41d943f955ba5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:03 +0000
Subject: [PATCH 04/49] fix: constituents 67 to 74 are not listed in the order
 of their identifiers

---
 src/library/constituent.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..09d776d 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -15,6 +15,7 @@ namespace constituents {
 namespace wave = fes::detail::wave;
 
 auto known() -> std::vector<std::string> {
+  // The order is that of the identifiers: the wave tables are indexed by them.
   return {wave::name::kMm,   wave::name::kMf,   wave::name::kMtm,
           wave::name::kMsqm, wave::name::k2Q1,  wave::name::kSigma1,
           wave::name::kQ1,   wave::name::kRho1, wave::name::kO1,
@@ -37,9 +38,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From 6a593ba66906157c8dc0f13f931d976e985284c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 05/49] fix: copies of a wave table share their waves with the
 original

The const methods tide_from_tide_series, tide_from_mapping and
compute_nodal_modulations work on a copy so that the waves of the table stay
untouched, but the copy held the same waves: they were modified, and concurrent
calls (and the threads of tide_from_mapping) raced on them.
---
 include/fes/wave/table.hpp | 17 +++++++++++++++++
 src/library/wave/table.cpp | 19 +++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..bef5acf 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -120,6 +120,23 @@ class Table {
   /// Build a table from a list of constituent identifiers
   explicit Table(const std::vector<Constituent>& waves);
 
+  /// @brief Copy constructor. The waves are duplicated: the copy shares nothing
+  /// with the original table.
+  ///
+  /// @param[in] other The table to copy.
+  Table(const Table& other);
+
+  /// @brief Copy assignment operator.
+  ///
+  /// @param[in] other The table to copy.
+  auto operator=(const Table& other) -> Table&;
+
+  /// @brief Move constructor.
+  Table(Table&&) noexcept = default;
+
+  /// @brief Move assignment operator.
+  auto operator=(Table&&) noexcept -> Table& = default;
+
   /// Create a wave properties from its identifier
   /// @param[in] ident Wave identifier
   /// @return Wave properties
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..03e060e 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -217,6 +217,25 @@ Table::Table(const std::vector<std::string>& waves) {
   }
 }
 
+Table::Table(const Table& other)
+    : getter_(other.getter_), wave_index_(other.wave_index_) {
+  waves_.reserve(other.waves_.size());
+  for (const auto& item : other.waves_) {
+    auto wave = item ? Table::wave_factory(item->ident()) : nullptr;
+    if (wave) {
+      *wave = *item;
+    }
+    waves_.emplace_back(std::move(wave));
+  }
+}
+
+auto Table::operator=(const Table& other) -> Table& {
+  if (this != &other) {
+    *this = Table(other);
+  }
+  return *this;
+}
+
 Table::Table(const std::vector<Constituent>& waves) {
   auto wave_names = std::vector<std::string>{};
   wave_names.reserve(wave_names.size());
-- 
2.43.0


From 07e936065e1275bf5ef37460aa22a6dff2be2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 06/49] fix: tide_from_mapping accumulates into uninitialized
 memory

---
 src/library/wave/table.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 03e060e..47aafb1 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -449,8 +449,8 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         const auto& item = wt[jx];
         double phi = item->vu();
 
-        result(ix, jx) += item->f() * (wave(jx, ix).real() * std::cos(phi) +
-                                       wave(jx, ix).imag() * std::sin(phi));
+        result(ix, jx) = item->f() * (wave(jx, ix).real() * std::cos(phi) +
+                                      wave(jx, ix).imag() * std::sin(phi));
       }
     }
   };
-- 
2.43.0


From 7f3c078b2495061a277013b5709a572d0fd10b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:38 +0000
Subject: [PATCH 07/49] fix: LGP1 reads the code of another vertex, or out of
 bounds, on a vertex

---
 include/fes/tidal_model/lgp.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..27e6596 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -369,13 +369,12 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
 
   // In the case of extrapolation, if the projected point is one of the vertices
   // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // LGP code of vertex i is at index i for LGP1 and at index 2i for LGP2.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
     quality = Quality::kExtrapolated1;
-- 
2.43.0


From 2b2563f049a38323d21b82eae3859657f7916be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:21 +0000
Subject: [PATCH 08/49] fix: a restored LGP model loses the size of its
 constituents and checks nothing

add_constituent rejected every grid of the right size after setstate, and a
state whose codes do not match its mesh or its constituents was accepted.
---
 include/fes/tidal_model/lgp.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 27e6596..efee341 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -193,6 +193,10 @@ class LGP : public fes::AbstractTidalModel<T> {
 
   /// %LGP codes for each triangles in the index
   codes_t codes_{};
+
+  /// @brief Checks the consistency of the LGP codes with the index, and
+  /// determines the expected size of the data to interpolate.
+  auto initialize() -> void;
 };
 
 /// @brief %LGP1 tidal model.
@@ -310,6 +314,11 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  initialize();
+}
+
+template <typename T, int N>
+auto LGP<T, N>::initialize() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -424,8 +433,12 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
       mesh::Index::setstate(detail::serialize::read_string(ss)));
   this->max_distance_ = detail::serialize::read_data<double>(ss);
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
-  this->data_ =
-      detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  initialize();
+  for (auto& item :
+       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
+           ss)) {
+    add_constituent(item.first, std::move(item.second));
+  }
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From c12017032742a414f2604503ff60d20b293287f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:42 +0000
Subject: [PATCH 09/49] fix: a serialized tidal model loses its list of dynamic
 constituents

---
 include/fes/detail/serialize.hpp      | 27 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       |  2 ++
 3 files changed, 31 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..a83f43d 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -115,6 +116,32 @@ auto read_constituent_map(detail::isviewstream& ss)
   return data;
 }
 
+/// @brief Write a vector to a stringstream
+/// @tparam T The type of the elements
+/// @param[in] ss The stringstream to write to
+/// @param[in] data The vector to write
+template <typename T>
+auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// @brief Read a vector from a stringstream
+/// @tparam T The type of the elements
+/// @param[in] ss The stringstream to read from
+/// @return The vector read
+template <typename T>
+auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+  const auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.emplace_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 }  // namespace serialize
 }  // namespace detail
 }  // namespace fes
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..da196e4 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -169,6 +169,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -186,6 +187,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index efee341..c45f989 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -421,6 +421,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -439,6 +440,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
            ss)) {
     add_constituent(item.first, std::move(item.second));
   }
+  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From 2020416d93edb0afb6c9d3c80484e8f57e023861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 10/49] fix: corrupted states are restored, or read and written
 out of bounds

A serialized axis, mesh or tidal model whose sizes, flags or identifiers are
corrupted is now rejected instead of overflowing the memory while it is read,
or later when the object is used.
---
 include/fes/detail/isviewstream.hpp   |  4 ++--
 include/fes/detail/serialize.hpp      | 34 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp | 12 +++++++---
 include/fes/tidal_model/lgp.hpp       |  7 ++++--
 src/library/axis.cpp                  |  8 +++++++
 5 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..c852b23 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -85,10 +85,10 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
     auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto size = std::min(count < 0 ? avail : count, avail);
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (count < 0 || avail < count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index a83f43d..9ceff32 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -6,10 +6,13 @@
 /// @brief Serialization utilities.
 #pragma once
 #include <Eigen/Core>
+#include <cstdint>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
+#include "fes/constituent.hpp"
 #include "fes/detail/isviewstream.hpp"
 
 namespace fes {
@@ -36,6 +39,29 @@ auto read_data(detail::isviewstream& ss) -> T {
   return data;
 }
 
+/// @brief Read a boolean from a stringstream
+/// @param[in] ss The stringstream to read from
+/// @return The boolean read
+template <>
+inline auto read_data<bool>(detail::isviewstream& ss) -> bool {
+  const auto data = read_data<uint8_t>(ss);
+  if (data > 1) {
+    throw std::invalid_argument("invalid boolean");
+  }
+  return data != 0;
+}
+
+/// @brief Read a tidal constituent from a stringstream
+/// @param[in] ss The stringstream to read from
+/// @return The tidal constituent read
+template <>
+inline auto read_data<Constituent>(detail::isviewstream& ss) -> Constituent {
+  const auto data = static_cast<Constituent>(read_data<uint8_t>(ss));
+  // Throws an exception if the constituent is unknown.
+  constituents::name(data);
+  return data;
+}
+
 /// @brief Write a string to a stringstream
 /// @param[in] ss The stringstream to write to
 /// @param[in] data The string to write
@@ -77,6 +103,14 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  // A corrupted shape must neither be allocated nor overflow the memory.
+  const auto avail = static_cast<Eigen::Index>(ss.rdbuf()->in_avail() /
+                                               static_cast<int>(sizeof(T)));
+  if (rows < 0 || cols < 0 || (COLS != Eigen::Dynamic && cols != COLS) ||
+      (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (cols != 0 && rows > avail / cols)) {
+    throw std::invalid_argument("invalid matrix shape");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index da196e4..8dbd162 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -182,11 +182,17 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     auto lon = Axis::setstate(detail::serialize::read_string(ss));
     auto lat = Axis::setstate(detail::serialize::read_string(ss));
     auto tide_type = detail::serialize::read_data<TideType>(ss);
+    if ((tide_type != kTide && tide_type != kRadial) ||
+        lon.size() > std::numeric_limits<int64_t>::max() / lat.size()) {
+      throw std::invalid_argument("invalid tidal model state");
+    }
     auto model =
         Cartesian<T>(std::move(lon), std::move(lat), tide_type, row_major);
-    model.data_ =
-        detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
-            ss);
+    for (auto& item :
+         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
+             ss)) {
+      model.add_constituent(item.first, std::move(item.second));
+    }
     model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index c45f989..6286471 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -183,7 +183,7 @@ class LGP : public fes::AbstractTidalModel<T> {
 
  private:
   /// Expected data size for each data set
-  int expected_data_size_{};
+  int64_t expected_data_size_{};
 
   /// Index used to find the nearest triangle
   std::shared_ptr<mesh::Index> index_{};
@@ -341,7 +341,7 @@ auto LGP<T, N>::initialize() -> void {
   }
 
   // Store the expected data size to interpolate
-  expected_data_size_ = max_index + 1;
+  expected_data_size_ = static_cast<int64_t>(max_index) + 1;
 }
 
 // /////////////////////////////////////////////////////////////////////////////
@@ -430,6 +430,9 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   detail::isviewstream ss(data);
   ss.exceptions(std::stringstream::failbit);
   this->tide_type_ = detail::serialize::read_data<TideType>(ss);
+  if (this->tide_type_ != kTide && this->tide_type_ != kRadial) {
+    throw std::invalid_argument("invalid tide type");
+  }
   this->index_ = std::make_shared<mesh::Index>(
       mesh::Index::setstate(detail::serialize::read_string(ss)));
   this->max_distance_ = detail::serialize::read_data<double>(ss);
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..22eaf00 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -4,6 +4,9 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/axis.hpp"
 
+#include <cmath>
+#include <stdexcept>
+
 #include "fes/detail/isviewstream.hpp"
 #include "fes/detail/math.hpp"
 #include "fes/detail/serialize.hpp"
@@ -157,6 +160,11 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
+    // Every axis has at least two distinct points, ordered as it says.
+    if (size < 2 || !std::isfinite(start) || !std::isfinite(step) ||
+        step == 0 || is_ascending != (step > 0)) {
+      throw std::invalid_argument("invalid axis state");
+    }
     return Axis(is_circular, is_ascending, start, size, step);
   } catch (const std::ios_base::failure&) {
     throw std::invalid_argument("invalid axis state");
-- 
2.43.0


From 14cef6c8471528cc5709682bb09b1271cd54eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:51 +0000
Subject: [PATCH 11/49] fix: looking up a NaN or very distant coordinate on an
 axis is undefined

A NaN longitude on a circular axis was reported between the last and the first
nodes, so that a NaN tide was flagged as interpolated.
---
 include/fes/axis.hpp | 13 +++++++++----
 src/library/axis.cpp |  5 +++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fes/axis.hpp b/include/fes/axis.hpp
index 363c9cd..4050ac7 100644
--- a/include/fes/axis.hpp
+++ b/include/fes/axis.hpp
@@ -114,15 +114,20 @@ class Axis : public std::enable_shared_from_this<Axis> {
   FES_MATH_CONSTEXPR auto find_index(const double coordinate,
                                      const bool bounded = false) const noexcept
       -> int64_t {
-    auto index = static_cast<int64_t>(
-        std::round((normalize_coordinate(coordinate) - start_) / step_));
+    // The comparisons are made before the conversion, because a coordinate that
+    // is not finite or too far from the axis cannot be converted.
+    const auto index =
+        std::round((normalize_coordinate(coordinate) - start_) / step_);
+    if (std::isnan(index)) {
+      return -1;
+    }
     if (index < 0) {
       return bounded ? 0 : -1;
     }
-    if (index >= this->size_) {
+    if (index >= static_cast<double>(this->size_)) {
       return bounded ? this->size_ - 1 : -1;
     }
-    return index;
+    return static_cast<int64_t>(index);
   }
 
   /// @brief Given a coordinate position, find grids elements around it.
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 22eaf00..9a3b7c7 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -101,6 +101,11 @@ auto Axis::find_indices(double coordinate) const
 
   coordinate = normalize_coordinate(coordinate);
 
+  // An undefined coordinate is nowhere on the axis, even if it is a circle.
+  if (std::isnan(coordinate)) {
+    return optional_t();
+  }
+
   auto length = size_;
   auto i0 = find_index(coordinate, false);
 
-- 
2.43.0


From f0a046c052c4dd03a14c3d78392772470ae46ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:08 +0000
Subject: [PATCH 12/49] fix: wrong weights across the ends of a descending
 circular axis, and by rounding

The normalization of the longitude around the first node assumed that nodes go
eastward, and a longitude rounded slightly below that node was moved 360 degrees
away from it: the interpolation became a huge extrapolation.
---
 include/fes/tidal_model/cartesian.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 8dbd162..027b2c6 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -5,6 +5,7 @@
 /// @file include/fes/tidal_model/cartesian.hpp
 /// @brief Cartesian tidal model
 #pragma once
+#include <cmath>
 #include <limits>
 #include <memory>
 #include <sstream>
@@ -137,9 +138,15 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
 
-  auto wxy = detail::math::bilinear_weights(
-      detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
-      detail::math::normalize_angle(x2, x1), y2);
+  // The point lies between x1 and x2: its weights only depend on the lengths of
+  // the arcs starting from x1. They do not depend on the orientation of the
+  // axis, nor on the rounding of a longitude that is almost on x1.
+  const auto arc = [this, x1](const double x) -> double {
+    return std::abs(lon_.is_circular() ? std::remainder(x - x1, 360.0)
+                                       : x - x1);
+  };
+  auto wxy = detail::math::bilinear_weights(arc(point.lon()), point.lat(), 0.0,
+                                            y1, arc(x2), y2);
 
   auto grid = detail::Grid<std::complex<T>>(
       nullptr, static_cast<size_t>(lon_.size()),
-- 
2.43.0


From c0f4e2aa8cedd9c4349bf722da82492c3fbe07e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 13/49] fix: bilinear interpolation of undefined complex values
 returns 0

std::numeric_limits is not specialized for complex numbers: the value of a
point on an undefined node, or between undefined nodes, was 0 instead of NaN,
and the first one was flagged as extrapolated with the three other nodes.
---
 include/fes/detail/math.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..d3a831b 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -295,8 +295,13 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
-  return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+  if (std::abs(sum_w) > 0) {
+    return result / sum_w;
+  }
+  // No value is defined, or those that are have no weight. T may be a complex
+  // number, for which std::numeric_limits has no NaN.
+  n = 0;
+  return T(std::numeric_limits<decltype(std::abs(sum_w))>::quiet_NaN());
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From 8ba5ac07df64a494eb25f293c0fd9c19794f75e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:18 +0000
Subject: [PATCH 14/49] fix: the quality of a gridded tide only tells about its
 last constituent

---
 include/fes/tidal_model/cartesian.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 027b2c6..5849691 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -5,6 +5,7 @@
 /// @file include/fes/tidal_model/cartesian.hpp
 /// @brief Cartesian tidal model
 #pragma once
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <memory>
@@ -136,7 +137,9 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto x2 = lon_(i2);
   const auto y1 = lat_(j1);
   const auto y2 = lat_(j2);
-  auto n = int64_t{0};
+  // The least number of values used to interpolate a constituent: the masks of
+  // the constituents may be different.
+  auto n = int64_t{this->data_.empty() ? 0 : 4};
 
   // The point lies between x1 and x2: its weights only depend on the lengths of
   // the arcs starting from x1. They do not depend on the orientation of the
@@ -153,9 +156,12 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
       static_cast<size_t>(lat_.size()), row_major_);
   for (const auto& item : this->data_) {
     grid.data(item.second.data());
+    auto n_values = int64_t{0};
     auto value = detail::math::bilinear_interpolation<std::complex<double>>(
         std::get<0>(wxy), std::get<1>(wxy), std::get<2>(wxy), std::get<3>(wxy),
-        grid(i1, j1), grid(i1, j2), grid(i2, j1), grid(i2, j2), n);
+        grid(i1, j1), grid(i1, j2), grid(i2, j1), grid(i2, j2),
+        n_values);
+    n = std::min(n, n_values);
     acc->emplace_back(item.first, value);
   }
 
-- 
2.43.0


From e4ba2466f60db151b59da5bcfcdb0ad8cdc2c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 15/49] fix: angles are reused for a NaN date or another number
 of leap seconds

---
 include/fes/abstract_tidal_model.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..46c41ea 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -103,8 +103,12 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    // The condition is negated so that an undefined date is never considered
+    // close to another one.
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_) ||
+        leap_seconds != leap_seconds_) {
       angle_.first = epoch;
+      leap_seconds_ = leap_seconds;
       angle_.second.update(epoch, leap_seconds);
     }
     return angle_.second;
@@ -118,6 +122,9 @@ class Accelerator {
   /// @brief The last angle used to evaluate the tidal constituents.
   std::pair<double, angle::Astronomic> angle_;
 
+  /// @brief The number of leap seconds used to calculate the last angle.
+  uint16_t leap_seconds_{0};
+
   /// @brief The tidal constituent values interpolated at the last point.
   ConstituentValues values_;
 };
-- 
2.43.0


From e3954b8aaa7d3d7edd83ec91b2b55ccdcc9242de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:29 +0000
Subject: [PATCH 16/49] fix: the nodal correction of 2SM2 = 2S2 - M2 has the
 sign of that of M2

---
 include/fes/wave.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/wave.hpp b/include/fes/wave.hpp
index 752f026..81a40c3 100644
--- a/include/fes/wave.hpp
+++ b/include/fes/wave.hpp
@@ -918,7 +918,7 @@ class Eta2 : public Wave {
 class _2SM2 : public Wave {
  public:
   constexpr _2SM2()
-      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, 2, -2, 0, 0,
+      : Wave(k2SM2, kShortPeriod, false, 2, 2, -2, 0, 0, 0, 0, -2, 2, 0, 0,
              &angle::Astronomic::f_m2) {}
 };
 
-- 
2.43.0


From f9ffb04b8da0bace6a467c74d1a3294aa1d5742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:48 +0000
Subject: [PATCH 17/49] fix: M0 is counted twice when it is a dynamic
 constituent

Its lines were kept in the long-period equilibrium tide.
---
 src/library/wave/long_period_equilibrium.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/library/wave/long_period_equilibrium.cpp b/src/library/wave/long_period_equilibrium.cpp
index 60a876d..6b1cf1f 100644
--- a/src/library/wave/long_period_equilibrium.cpp
+++ b/src/library/wave/long_period_equilibrium.cpp
@@ -146,6 +146,10 @@ LongPeriodEquilibrium::LongPeriodEquilibrium()
 
 auto LongPeriodEquilibrium::disable_dynamic_wave(const Table& table) -> void {
   // Indexes are the same as those defined starting from l.389
+  if (table[kM0]->dynamic()) {
+    order2_.row(0).fill(0);
+    order2_.row(1).fill(0);
+  }
   if (table[kMm]->dynamic()) {
     order2_.row(29).fill(0);
     order2_.row(30).fill(0);
-- 
2.43.0


From 13433425e799298bd2f6ea1aae943df09a3aaf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 18/49] fix: a circular axis that starts just before the end of
 the circle is refused

---
 src/library/axis.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index 9a3b7c7..8f517c1 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -43,6 +43,12 @@ auto Axis::normalize_longitude(const Eigen::VectorXd& points)
   auto monotonic = true;
   auto ascending = points.size() < 2 ? true : points[0] < points[1];
 
+  // If the axis starts just before the end of the circle, the first step goes
+  // the other way.
+  if (points.size() > 2 && std::abs(points[1] - points[0]) > 180.0) {
+    ascending = !ascending;
+  }
+
   for (auto ix = Eigen::Index(1); ix < points.size(); ++ix) {
     monotonic =
         ascending ? points[ix - 1] < points[ix] : points[ix - 1] > points[ix];
-- 
2.43.0


From a0265c3d32b51130a96e7ec3f47b9851f458a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:07 +0000
Subject: [PATCH 19/49] fix: an undefined position is interpolated in the last
 triangle selected

---
 include/fes/tidal_model/lgp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 6286471..c5bb4a9 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -71,8 +71,8 @@ class LGPAccelerator : public Accelerator {
     // If the selected triangle is valid and the point is inside the triangle,
     // the point is considered to be in the cache. A point that is projected
     // onto the edge of the nearest triangle will not be considered to be in the
-    // cache.
-    return selected_.index != -1 && selected_.inside &&
+    // cache. An undefined point is in no triangle.
+    return selected_.index != -1 && selected_.inside && point.is_valid() &&
            selected_.triangle.covered_by(point);
   }
 
-- 
2.43.0


From 2ff0910eb7cc24b6b96e5388893b3a91fc7b7884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 20/49] fix: an undefined position may be found in a mesh, or
 fail

---
 include/fes/geometry/point.hpp | 2 +-
 src/library/mesh/index.cpp     | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/geometry/point.hpp b/include/fes/geometry/point.hpp
index c69ea55..a850d01 100644
--- a/include/fes/geometry/point.hpp
+++ b/include/fes/geometry/point.hpp
@@ -64,7 +64,7 @@ class Point : public point_t {
 
   /// Return true if this instance is valid.
   FES_MATH_CONSTEXPR auto is_valid() const -> bool {
-    return !std::isnan(lon()) && !std::isnan(lat());
+    return std::isfinite(lon()) && std::isfinite(lat());
   }
 
   /// Test if the point is equal to another point.
diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index bfaf9e3..4b6ee87 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -83,6 +83,11 @@ Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
 
 auto Index::search(const geometry::Point& point,
                    const double max_distance) const -> SelectedTriangle {
+  // An undefined position is in no triangle, nor close to any of them.
+  if (!point.is_valid()) {
+    return {};
+  }
+
   constexpr size_t kMaxNeighbors = 11;
   auto min_distance = std::numeric_limits<double>::max();
   auto triangle_indices = std::set<int>();
-- 
2.43.0


From e16b68d05bdbefc62d9cae5b1aeec9de2fbd12d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 21/49] fix: a vertex inside of a mesh may be undefined, by
 rounding

---
 src/library/mesh/index.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index 4b6ee87..87ca9dd 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -122,8 +122,9 @@ auto Index::search(const geometry::Point& point,
   auto result = SelectedTriangle{};
 
   // If the nearest vertex is it not too far away, looking for the nearest
-  // triangle.
-  if (min_distance < max_distance) {
+  // triangle. A point which is on a vertex is never too far: because of the
+  // rounding of its longitude, none of the triangles around may cover it.
+  if (min_distance <= max_distance) {
     min_distance = std::numeric_limits<double>::max();
 
     for (auto& ix : triangle_indices) {
-- 
2.43.0


From 83c757059f552c06f8263a4f9e30feae1a5edf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 22/49] fix: an LGP1 model is loaded as an LGP2 model

The type of the configuration is the value of the enumeration, in lower case,
and not its name.
---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c2c843..7c20105 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -393,7 +393,7 @@ class LGP(Common):
 
     def _lgp_class(self, dtype: numpy.dtype) -> LGPModel:
         """Return the class of the LGP tidal model."""
-        if self.type == LGPType.LGP1.name:
+        if self.type == LGPType.LGP1.value:
             if dtype == numpy.complex64:
                 return core.tidal_model.LGP1Complex64
             if dtype == numpy.complex128:
-- 
2.43.0


From 46150ad7f710c14e880b72be11a569bfec7cb06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 23/49] fix: constituents defined on another grid are loaded

Grids were only considered to be different if everything differed.
---
 src/python/pyfes/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c20105..7cf3fc3 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -256,9 +256,11 @@ class Cartesian(Common):
             def __ne__(self, other: Any) -> bool:
                 if not isinstance(other, GridProperties):
                     return NotImplemented
-                return (self.dtype != other.dtype and self.shape != other.shape
-                        and not numpy.allclose(self.lon, other.lon)
-                        and not numpy.allclose(self.lat, other.lat))
+                return (self.dtype != other.dtype or self.shape != other.shape
+                        or len(self.lon) != len(other.lon)
+                        or len(self.lat) != len(other.lat)
+                        or not numpy.allclose(self.lon, other.lon)
+                        or not numpy.allclose(self.lat, other.lat))
 
         # The tidal model instance consists of the tidal model and the grid
         # properties.
-- 
2.43.0


From 62205c5e405a5e8198d4073bb7e4f16191303eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 24/49] fix: phases of LGP models in 'deg' or 'Degrees' are
 read as radians

The units are now those of the Cartesian models.
---
 src/python/pyfes/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7cf3fc3..8cadc33 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -429,7 +429,9 @@ class LGP(Common):
                 pha: Vector = numpy.ma.filled(ds.variables[pha_name][:],
                                               numpy.nan)
 
-                if ds.variables[pha_name].units in ['degree', 'degrees']:
+                if ds.variables[pha_name].units.lower() in [
+                        'degree', 'degrees', 'deg'
+                ]:
                     pha = numpy.radians(pha)
 
                 wave: Vector = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
-- 
2.43.0


From 32e9b9be413338566c98afdbd621aebddfdaebd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 25/49] fix: square Cartesian grids are transposed

The grid was considered to be stored with the longitudes first if its first
dimension has the size of the longitudes, which is also true if there are as
many latitudes.
---
 src/python/pyfes/config.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 8cadc33..0616cf7 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -159,8 +159,16 @@ def load_cartesian_model(
                 'degree', 'degrees', 'deg'
         ]:
             pha = numpy.radians(pha)
+        # The shape does not tell the order of the dimensions if the grid is
+        # square.
+        latitude_major: bool = ds.variables[amp_name].dimensions == (
+            *ds.variables[lat_name].dimensions,
+            *ds.variables[lon_name].dimensions,
+        )
 
     wave: Matrix = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
+    if len(lon) == len(lat) and latitude_major:
+        wave = wave.T
 
     return lon, lat, wave
 
-- 
2.43.0


From bbfa14888418e1d296724a96298d9fff3a5cf3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 26/49] fix: tide_from_tide_series ignores the formulae given
 from Python

---
 src/python/core/wave/table.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/core/wave/table.cpp b/src/python/core/wave/table.cpp
index 9175597..8f9b1b5 100644
--- a/src/python/core/wave/table.cpp
+++ b/src/python/core/wave/table.cpp
@@ -73,7 +73,7 @@ Returns:
             auto epoch = fes::python::npdatetime64_to_epoch(dates);
             {
               py::gil_scoped_release gil;
-              return self.tide_from_tide_series(epoch, leap_seconds, wave);
+              return self.tide_from_tide_series(epoch, leap_seconds, wave, formulae);
             }
           },
           py::arg("dates"), py::arg("leap_seconds"), py::arg("wave"),
-- 
2.43.0


From a950f5c4a5198295c07a0a326c1041e6882454e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 27/49] fix: compute_nodal_modulations ignores the formulae for
 a list of datetime

---
 src/python/pyfes/wave_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index e1fe2fc..6e5bcbe 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -54,7 +54,8 @@ class WaveTable(core.WaveTable):
             datetime64: VectorDateTime64 = numpy.array(
                 [core.datemanip.as_int64(item) for item in dates],
                 dtype='datetime64[us]')
-            return super().compute_nodal_modulations(datetime64, leap_seconds)
+            return super().compute_nodal_modulations(datetime64, leap_seconds,
+                                                     formulae)
         # The method throws an error if the dates are not datetime64
         return super().compute_nodal_modulations(
             dates,  # type: ignore
-- 
2.43.0


From efe5a686330acbf891e257069d5722ba46d3bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 28/49] fix: WaveDict.tide_from_tide_series looks up waves
 instead of their names

Iterating over a table gives its waves, and not their names.
---
 src/python/pyfes/wave_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index 6e5bcbe..36347bf 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -181,6 +181,6 @@ class WaveDict(WaveTable):
             raise ValueError('wave must contain as many items as tidal '
                              'constituents loaded')
         wave_properties: VectorComplex128 = numpy.array(
-            [wave[item] for item in self])
+            [wave[item] for item in self.keys()])
         return super().tide_from_tide_series(dates, leap_seconds,
                                              wave_properties, formulae)
-- 
2.43.0


From cf19a6716012f3323add6d95b11ee48eaba2b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 29/49] fix: the documented keys of the configuration are
 refused

They are named after the fields of the configuration: latitude, longitude and
triangle.
---
 docs/source/pyfes.rst | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/docs/source/pyfes.rst b/docs/source/pyfes.rst
index fbe89fb..a5a7b7b 100644
--- a/docs/source/pyfes.rst
+++ b/docs/source/pyfes.rst
@@ -59,9 +59,9 @@ Cartesian grid
 
 The section ``cartesian`` contains the following keys:
 
-* ``lat``: the name of the netCDF variable containing the latitude of the grid
+* ``latitude``: the name of the netCDF variable containing the latitude of the grid
   points. Optional, default: ``lat``.
-* ``lon``: the name of the netCDF variable containing the longitude of the grid
+* ``longitude``: the name of the netCDF variable containing the longitude of the grid
   points. Optional, default: ``lon``.
 * ``amplitude``: the name of the netCDF variable containing the amplitude of the
   tidal constituents. Optional, default: ``amplitude``.
@@ -87,9 +87,9 @@ LGP discretization
 
 The section ``lgp`` contains the following keys:
 
-* ``lat``: the name of the netCDF variable containing the latitude of the mesh
+* ``latitude``: the name of the netCDF variable containing the latitude of the mesh
   points. Optional, default: ``lat``.
-* ``lon``: the name of the netCDF variable containing the longitude of the mesh
+* ``longitude``: the name of the netCDF variable containing the longitude of the mesh
   points. Optional, default: ``lon``.
 * ``amplitude``: the pattern of the netCDF variable containing the amplitude of
   the tidal constituents. The pattern must contain the string ``{constituent}``,
@@ -111,10 +111,10 @@ The section ``lgp`` contains the following keys:
   estimation is undefined, otherwise the estimation is extrapolated. Optional,
   default: ``0.0`` (extrapolation is not allowed).
 * ``path``: the path to the netCDF file containing the tidal constituents.
-* ``triangles``: the name of the netCDF variable containing the vertices of the
+* ``triangle``: the name of the netCDF variable containing the vertices of the
   triangles of the mesh. Optional, default: ``triangle``
 * ``type``: the type of LPG discretization. The possible values are ``lgp1`` and
-  ``lpg2``. Optional, default: ``lgp1``.
+  ``lgp2``. Optional, default: ``lgp1``.
 
 Example
 ~~~~~~~
@@ -128,8 +128,8 @@ The configuration file ``fes2014b.yaml``:
 
     radial:
         cartesian:
-            lat: lat
-            lon: lon
+            latitude: lat
+            longitude: lon
             amplitude: amp
             phase: pha
             epsilon: 1e-6
@@ -142,15 +142,15 @@ The configuration file ``fes2014b.yaml``:
                 Q1: ${PATH}/Q1.nc
     tide:
         lgp:
-            lat: lat
-            lon: lon
+            latitude: lat
+            longitude: lon
             dynamic: ['A5']
             amplitude: amp_{constituent}
             phase: pha_{constituent}
             codes: codes
             max_distance: 0.0
             path: ${PATH}/fes2014b_elevations.nc
-            triangles: triangle
+            triangle: triangle
             type: lgp1
 
 The Python code to instantiate the tidal model and evaluate the tide elevation:
@@ -162,7 +162,7 @@ The Python code to instantiate the tidal model and evaluate the tide elevation:
     cfg = pyfes.load_config('fes2014b.yaml')
     ...
     tide, lp, _ = pyfes.evaluate_tide(cfg['tide'], dates, lons, lats, num_threads=1)
-    load = pyfes.evaluate_radial(cfg['radial'], dates, lons, lats, num_threads=1)[0]
+    load = pyfes.evaluate_tide(cfg['radial'], dates, lons, lats, num_threads=1)[0]
     geocentric_tide = tide + load + lp
 
 .. note::
-- 
2.43.0


From b0cacbf8a4cd7d522eb56317520d5b28fda1be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 30/49] fix: get_leap_seconds takes the indices sorting the
 dates for those of the table

---
 src/python/pyfes/leap_seconds.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 732b86a..f1ca9e0 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -173,8 +173,13 @@ def get_leap_seconds(
         raise ValueError('Cannot compute leap seconds before 1972.')
 
     table = _load_leap_second_file()
-    index: numpy.ndarray = numpy.searchsorted(table['utc'],
-                                              utc,
-                                              side='right',
-                                              sorter=sorter)
+    index: numpy.ndarray
+    if sorter is None:
+        index = numpy.searchsorted(table['utc'], utc, side='right')
+    else:
+        # The indices sort the dates, and not the table.
+        index = numpy.empty(utc.shape, dtype='int64')
+        index[sorter] = numpy.searchsorted(table['utc'],
+                                           utc[sorter],
+                                           side='right')
     return table['seconds'][index - 1]
-- 
2.43.0


From 6b536fb11cef7facf68200d4e17f0621a0e618e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:57 +0000
Subject: [PATCH 31/49] fix: the leap seconds of a date after 2262 are refused
 or wrong

Such a date does not fit in nanoseconds.
---
 src/python/pyfes/leap_seconds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index f1ca9e0..7f4133d 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -168,7 +168,7 @@ def get_leap_seconds(
     if isinstance(utc, datetime.datetime):
         utc = numpy.datetime64(utc)
     if isinstance(utc, numpy.datetime64):
-        utc = numpy.array([utc], dtype='datetime64[ns]')
+        utc = numpy.array([utc])
     if numpy.any(utc < numpy.datetime64('1972-01-01')):
         raise ValueError('Cannot compute leap seconds before 1972.')
 
-- 
2.43.0


From 04aeaf9b8b7c4ddae729fbecc6ffcc03f2cb1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:17 +0000
Subject: [PATCH 32/49] fix: a failed update of the leap seconds fails the
 prediction or destroys the table

Only an unexpected HTTP status was handled: without network, the exception of
urllib reached the caller although the expired table may be used. The file was
also truncated before the answer was read, and replaced by any answer, such as
an incomplete one, or the login page of a network.
---
 src/python/pyfes/leap_seconds.py | 93 ++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 34 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 7f4133d..8bbd261 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -11,6 +11,8 @@ from __future__ import annotations
 from collections.abc import Callable
 import datetime
 import functools
+import http.client
+import os
 import pathlib
 import re
 from re import Match
@@ -68,23 +70,30 @@ def _download_leap_second_file() -> None:
         raise RuntimeError(
             f'Failed to download leap second file: {response.status} '
             f'{response.reason}')
+    contents: bytes = response.read()
+    # The answer must be a valid table, before replacing the file in use.
+    lines = contents.decode().splitlines()
+    _parse_expiration_date(lines)
+    entries = _parse_entries(lines)
+    known = _parse_entries(LEAP_SECOND_FILE.read_text().splitlines()
+                           ) if LEAP_SECOND_FILE.exists() else []
+    if not entries or entries[:len(known)] != known:
+        raise RuntimeError('The leap second file downloaded is incomplete')
     LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
-    with LEAP_SECOND_FILE.open('wb') as stream:
-        stream.write(response.read())
+    temporary = LEAP_SECOND_FILE.with_name(
+        f'{LEAP_SECOND_FILE.name}.{os.getpid()}')
+    try:
+        temporary.write_bytes(contents)
+        temporary.replace(LEAP_SECOND_FILE)
+    finally:
+        temporary.unlink(missing_ok=True)
 
 
-def _read_leap_second_file(
-        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
-    """Read the IERS leap second file."""
+def _parse_expiration_date(lines: list[str]) -> numpy.datetime64:
+    """Get the expiration date of the IERS leap second file."""
     re_expires: Callable[[str], Match[str] | None] = re.compile(
         r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$').match
 
-    if not LEAP_SECOND_FILE.exists() or download:
-        _download_leap_second_file()
-
-    with LEAP_SECOND_FILE.open('r') as stream:
-        lines = stream.readlines()
-
     expires: numpy.datetime64 | None = None
     for line in lines:
         match = re_expires(line)
@@ -98,34 +107,15 @@ def _read_leap_second_file(
         raise RuntimeError(
             f'Did not find expiration date in {LEAP_SECOND_FILE.name}')
 
-    return expires, lines
-
+    return expires
 
-@functools.lru_cache(maxsize=1)
-def _load_leap_second_file() -> NDArrayStructured:
-    """Load the IERS leap second file."""
 
+def _parse_entries(lines: list[str]) -> list[tuple[numpy.datetime64, int]]:
+    """Get the leap seconds of the IERS leap second file."""
     # Regex for matching leap second entries.
     re_entry: Callable[[str], Match[str] | None] = re.compile(
         r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$').match
 
-    expires: numpy.datetime64
-    lines: list[str]
-
-    # Read the leap second file.
-    expires, lines = _read_leap_second_file()
-    if expires < numpy.datetime64('today'):
-        # If the leap second file has expired, try to download a new one.
-        warnings.warn(
-            f'Leap second file {LEAP_SECOND_FILE.name} has expired. '
-            'Downloading a new version.', UserWarning)
-        try:
-            expires, lines = _read_leap_second_file(download=True)
-        except RuntimeError:
-            warnings.warn(
-                'Failed to download new leap second file. '
-                'Using expired file.', UserWarning)
-
     # Number of seconds elapsed between 1900-01-01T00:00:00:00+0000 and
     # 1970-01-01T00:00:00:00+0000
     duration = 25_567 * 86_400
@@ -144,7 +134,42 @@ def _load_leap_second_file() -> NDArrayStructured:
                 leap_seconds,
             ))
 
-    return numpy.array(entries,
+    return entries
+
+
+def _read_leap_second_file(
+        download: bool = False) -> tuple[numpy.datetime64, list[str]]:
+    """Read the IERS leap second file."""
+    if not LEAP_SECOND_FILE.exists() or download:
+        _download_leap_second_file()
+
+    with LEAP_SECOND_FILE.open('r') as stream:
+        lines = stream.readlines()
+
+    return _parse_expiration_date(lines), lines
+
+
+@functools.lru_cache(maxsize=1)
+def _load_leap_second_file() -> NDArrayStructured:
+    """Load the IERS leap second file."""
+    expires: numpy.datetime64
+    lines: list[str]
+
+    # Read the leap second file.
+    expires, lines = _read_leap_second_file()
+    if expires < numpy.datetime64('today'):
+        # If the leap second file has expired, try to download a new one.
+        warnings.warn(
+            f'Leap second file {LEAP_SECOND_FILE.name} has expired. '
+            'Downloading a new version.', UserWarning)
+        try:
+            expires, lines = _read_leap_second_file(download=True)
+        except (OSError, http.client.HTTPException, RuntimeError, ValueError):
+            warnings.warn(
+                'Failed to download new leap second file. '
+                'Using expired file.', UserWarning)
+
+    return numpy.array(_parse_entries(lines),
                        dtype=[
                            ('utc', 'datetime64[s]'),
                            ('seconds', 'uint16'),
-- 
2.43.0


From 100a66786ca63211fa5432407dd2135ac60ed7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 33/49] fix: meshes cannot be converted without the constituent
 O1

---
 src/python/pyfes/console_script/fes_convert_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/console_script/fes_convert_mesh.py b/src/python/pyfes/console_script/fes_convert_mesh.py
index 4c21fdc..dae6dfa 100644
--- a/src/python/pyfes/console_script/fes_convert_mesh.py
+++ b/src/python/pyfes/console_script/fes_convert_mesh.py
@@ -110,7 +110,7 @@ def main():
         ds.createDimension('triangles', triangles.shape[0])
         ds.createDimension('three', 3)
         ds.createDimension('six', 6)
-        ds.createDimension('lgp2_nodes', len(waves['O1'][0]))
+        ds.createDimension('lgp2_nodes', len(next(iter(waves.values()))[0]))
 
         x_var = ds.createVariable('lon', 'f8', ('coordinates', ), zlib=True)
         x_var.units = 'degrees_east'
-- 
2.43.0


From cba897346797ab1fe17d7135b35056be5f51cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:11 +0000
Subject: [PATCH 34/49] fix: a position may be found in no triangle if many
 share the nearest vertices

Only the 11 nearest vertices (counted once for each of their triangles) were
looked at, that is often two vertices: with the irregular triangles of usual
meshes, those of the triangle which contains a position may not be among them.
---
 include/fes/mesh/index.hpp |  3 +++
 src/library/mesh/index.cpp | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 38 insertions(+)

diff --git a/include/fes/mesh/index.hpp b/include/fes/mesh/index.hpp
index 94e84da..8ffc891 100644
--- a/include/fes/mesh/index.hpp
+++ b/include/fes/mesh/index.hpp
@@ -129,6 +129,9 @@ class Index : public std::enable_shared_from_this<Index> {
   /// The R*Tree
   rtree_t rtree_{};
 
+  /// The length of the longest edge of the mesh, in meters.
+  double max_edge_{0};
+
   /// Build the selected triangle.
   inline auto build_triangle(const int triangle_index) const
       -> geometry::Triangle {
diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index 87ca9dd..ec0deea 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -77,6 +77,14 @@ Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
                               geometry::Point(lon_(kx), lat_(kx))),
                           std::make_pair(jx, ix));
     }
+
+    // Update the length of the longest edge.
+    const auto* vertices = &values[values.size() - 3];
+    for (uint8_t jx = 0; jx < 3; ++jx) {
+      max_edge_ = std::max(
+          max_edge_, boost::geometry::distance(vertices[jx].first,
+                                               vertices[(jx + 1) % 3].first));
+    }
   }
   rtree_ = rtree_t{values.begin(), values.end()};
 }
@@ -119,6 +127,33 @@ auto Index::search(const geometry::Point& point,
     }
   }
 
+  // If the nearest vertices are shared by many triangles, the triangle that
+  // contains the point may not be among those selected above. Its vertices are
+  // no further from the point than the length of the longest edge (plus 1 cm,
+  // the accuracy of the distance).
+  const auto radius = max_edge_ + 1e-2;
+  if (min_distance <= radius) {
+    using ecef_t = geometry::EarthCenteredEarthFixed;
+    const auto box = boost::geometry::model::box<ecef_t>{
+        {cartesian_point.x() - radius, cartesian_point.y() - radius,
+         cartesian_point.z() - radius},
+        {cartesian_point.x() + radius, cartesian_point.y() + radius,
+         cartesian_point.z() + radius}};
+    auto visited = triangle_indices;
+
+    for (auto it = rtree_.qbegin(boost::geometry::index::intersects(box));
+         it != rtree_.qend(); ++it) {
+      const auto ix = it->second.second;
+      if (!visited.emplace(ix).second) {
+        continue;
+      }
+      auto triangle = build_triangle(ix);
+      if (triangle.covered_by(point)) {
+        return {true, ix, point, std::move(triangle)};
+      }
+    }
+  }
+
   auto result = SelectedTriangle{};
 
   // If the nearest vertex is it not too far away, looking for the nearest
-- 
2.43.0


From f287e28eaa0391fd2127baac950c43ccb1142783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 35/49] fix: the dynamic constituents of a model are returned
 by value

The items of the list given to Python referred to the memory of the vector
of the model: they were dangling once the property had been set again.
---
 src/python/core/abstract_tide_model.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/core/abstract_tide_model.cpp b/src/python/core/abstract_tide_model.cpp
index 6a75835..07593f6 100644
--- a/src/python/core/abstract_tide_model.cpp
+++ b/src/python/core/abstract_tide_model.cpp
@@ -161,9 +161,7 @@ Returns:
       .def_property(
           "dynamic",
           [](const fes::AbstractTidalModel<T>& self)
-              -> const std::vector<fes::Constituent>& {
-            return self.dynamic();
-          },
+              -> std::vector<fes::Constituent> { return self.dynamic(); },
           [](fes::AbstractTidalModel<T>& self,
              const std::vector<fes::Constituent>& dynamic) -> void {
             self.dynamic(dynamic);
-- 
2.43.0


From ed7ecc28c5527bf71c9b3494ce5c7ae32542e684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 36/49] fix: NaT is an undefined date

The lowest integer, which stands for NaT, was scaled as any other one: the
tide of an undefined date was the one of a date in a distant past.
---
 include/fes/python/datetime64.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/python/datetime64.hpp b/include/fes/python/datetime64.hpp
index 1888890..bb37153 100644
--- a/include/fes/python/datetime64.hpp
+++ b/include/fes/python/datetime64.hpp
@@ -9,6 +9,8 @@
 #include <pybind11/pybind11.h>
 
 #include <Eigen/Core>
+#include <cstdint>
+#include <limits>
 #include <string>
 
 namespace fes {
@@ -67,7 +69,10 @@ static inline auto npdatetime64_to_epoch(const pybind11::array& array)
   {
     pybind11::gil_scoped_release release;
     for (pybind11::ssize_t ix = 0; ix < ptr.size(); ++ix) {
-      result(ix) = ptr(ix) * scale;
+      // NaT (Not a Time) is the lowest integer: the date is undefined.
+      result(ix) = ptr(ix) == std::numeric_limits<int64_t>::min()
+                       ? std::numeric_limits<double>::quiet_NaN()
+                       : ptr(ix) * scale;
     }
   }
   return result;
-- 
2.43.0


From 294f5dd04a3d2191ea2e98847070edbdb45a1495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 37/49] fix: a finite element model without an index is refused

The index, which is None in Python, was dereferenced.
---
 include/fes/tidal_model/lgp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index c5bb4a9..cd9b3c3 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -319,6 +319,10 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
 
 template <typename T, int N>
 auto LGP<T, N>::initialize() -> void {
+  if (index_ == nullptr) {
+    throw std::invalid_argument("index must not be null");
+  }
+
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
-- 
2.43.0


From 6d5af271945d7aa227919cbd3a8a94cb0eafd83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 38/49] fix: the evaluation of the tide without a model is
 refused

None was accepted as a model, and dereferenced.
---
 src/python/core/tide.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/core/tide.cpp b/src/python/core/tide.cpp
index 9a862ec..414aaed 100644
--- a/src/python/core/tide.cpp
+++ b/src/python/core/tide.cpp
@@ -42,10 +42,10 @@ auto evaluate_tide(const fes::AbstractTidalModel<T>* const tidal_model,
 
 template <typename T>
 void init_tide(py::module& m) {
-  m.def("evaluate_tide", &evaluate_tide<T>, py::arg("tidal_model"),
-        py::arg("date"), py::arg("leap_seconds"), py::arg("longitude"),
-        py::arg("latitude"), py::arg("settings") = boost::none,
-        py::arg("num_threads") = 0,
+  m.def("evaluate_tide", &evaluate_tide<T>,
+        py::arg("tidal_model").none(false), py::arg("date"),
+        py::arg("leap_seconds"), py::arg("longitude"), py::arg("latitude"),
+        py::arg("settings") = boost::none, py::arg("num_threads") = 0,
         R"__doc(
 Ocean tide calculation
 
-- 
2.43.0


From 04dca3bc3c6b03181a618abf28446b8b6338d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:26 +0000
Subject: [PATCH 39/49] fix: an unknown constituent is in no wave table

A value of the enumeration that names no constituent, which Python makes from
any integer, was read past the end of the table.
---
 include/fes/wave/table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index bef5acf..7fe080b 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -357,7 +357,7 @@ class Table {
   /// @return The wave
   auto direct_access(const Constituent ident) const
       -> const std::shared_ptr<Wave>& {
-    return waves_[static_cast<size_t>(ident)];
+    return waves_.at(static_cast<size_t>(ident));
   }
 
   /// Get a wave from the table
@@ -366,7 +366,7 @@ class Table {
   /// @return The wave
   inline auto sparse_access(const Constituent ident) const
       -> const std::shared_ptr<Wave>& {
-    const auto& result = waves_[static_cast<size_t>(ident)];
+    const auto& result = waves_.at(static_cast<size_t>(ident));
     if (result == nullptr) {
       auto msg = std::string("Wave ") + Table::wave_factory(ident)->name() +
                  " is not available";
-- 
2.43.0


From 047cbb318f6d161795b04de2f5a6548944f1a34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 40/49] fix: the documented values of the quality flag

The values listed were not the ones of the enumeration.
---
 src/python/pyfes/__init__.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/python/pyfes/__init__.py b/src/python/pyfes/__init__.py
index ad35c64..06eb813 100644
--- a/src/python/pyfes/__init__.py
+++ b/src/python/pyfes/__init__.py
@@ -105,20 +105,20 @@ def evaluate_tide(
           values are
 
             ======  ==========================================================
-            1       The tide is correctly estimated.
-            2       The tide is extrapolated with the nearest mesh point.
-            4       The tide is extrapolated using a linear interpolation
-                    with two surrounding grid points.
-            8       The tide is extrapolated using a linear interpolation
-                    with three surrounding grid points.
-            16      The tide is undefined because the position is outside the
+            0       The tide is undefined because the position is outside the
                     domain of the tidal model or the numerical model is
                     undefined for the requested spatial position.
+            1       The tide is extrapolated with the nearest mesh point.
+            2       The tide is extrapolated using a linear interpolation
+                    with two surrounding grid points.
+            3       The tide is extrapolated using a linear interpolation
+                    with three surrounding grid points.
+            4       The tide is correctly estimated.
             ======  ==========================================================
 
         .. note::
 
-            The flag value ``2``, ``4`` or ``8`` are only possible if the
+            The flag value ``2`` or ``3`` are only possible if the
             tidal model used is a Cartesian grid.
     """
     return core.evaluate_tide(
-- 
2.43.0


From fd3fd80b2dc75933413f042cbdd25307c494f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 41/49] fix: AstronomicAngle.update takes a negative number of
 leap seconds for a huge one

The binding reads the number as a signed integer of 16 bits, which the library
takes as unsigned: -1 became 65535 leap seconds, and the numbers above 32767
were refused.
---
 src/python/core/astronomic_angle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/core/astronomic_angle.cpp b/src/python/core/astronomic_angle.cpp
index 0bcc447..b6883ad 100644
--- a/src/python/core/astronomic_angle.cpp
+++ b/src/python/core/astronomic_angle.cpp
@@ -30,7 +30,7 @@ Args:
       .def(
           "update",
           [](fes::angle::Astronomic& self, const py::handle& date,
-             const int16_t leap_seconds) {
+             const uint16_t leap_seconds) {
             self.update(fes::python::datemanip::as_float64(date), leap_seconds);
           },
           py::arg("date"), py::arg("leap_seconds"),
-- 
2.43.0


From 6a4f91dcbf20b69894ff3f2edfc0d12655d41279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 42/49] fix: a dollar alone next to an environment variable is
 taken for a recursion

---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 0616cf7..01ca22f 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -104,7 +104,7 @@ def _expand(rawval: str) -> str:
         else:
             raise InterpolationError(
                 f"The shell variable {name!r} doesn't exist.")
-    if '$' in result and interpolation:
+    if interpolation and PATTERN(result):
         raise InterpolationDepthError(
             f'Value interpolation too deeply recursive: {rawval!r}.')
     return result
-- 
2.43.0


From 8b5bdff764e8c1113ad9ba4dea730c2d8f3f4a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 43/49] fix: a state larger than 2 GiB cannot be restored

---
 include/fes/detail/isviewstream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index c852b23..3fae0ba 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -47,7 +47,7 @@ class sviewbuf : public std::streambuf {
   auto seekoff(off_type off, std::ios_base::seekdir dir,
                std::ios_base::openmode /*which*/) -> pos_type override {
     if (dir == std::ios_base::cur) {
-      gbump(static_cast<int>(off));
+      setg(eback(), gptr() + off, egptr());
     } else if (dir == std::ios_base::end) {
       setg(eback(), egptr() + off, egptr());
     } else if (dir == std::ios_base::beg) {
-- 
2.43.0


From 58a4b51114a32203eead28e71a5603034a01b14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 44/49] fix: give the first date its own angles whatever the
 time tolerance

With an infinite or huge tolerance, the first date was taken as close to the
date that stands for none, and the angles of no date at all were used.
---
 include/fes/abstract_tidal_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 46c41ea..f16dbde 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -55,7 +55,7 @@ class Accelerator {
   Accelerator(const angle::Formulae& formulae, const double time_tolerance,
               const size_t n_constituents)
       : time_tolerance_(time_tolerance),
-        angle_{std::numeric_limits<double>::max(),
+        angle_{std::numeric_limits<double>::quiet_NaN(),
                angle::Astronomic(formulae)} {
     values_.reserve(n_constituents);
   }
-- 
2.43.0


From 7975c1bdd9ef6e8d9baf50d4c5b799af8b1defbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 45/49] fix: refuse the constituents whose shape is not that of
 the grid

A variable with as many values as the grid, but other dimensions, was loaded
scrambled.
---
 src/python/pyfes/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 01ca22f..4a5a405 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -297,7 +297,7 @@ class Cartesian(Common):
                 self.phase,
             )
 
-            if len(wave.shape) != 2:
+            if wave.shape not in ((len(lon), len(lat)), (len(lat), len(lon))):
                 raise ValueError(f'defined constituent {constituent!r} has '
                                  f'invalid shape: {wave.shape!r}.')
 
-- 
2.43.0


From 6f06908ad9482096507d8a08c6a49940a06deaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 46/49] fix: tell extrapolation from interpolation on a mesh

The tide of a position outside of the mesh, projected onto an edge, was told to
be interpolated, and the tide on a vertex inside of the mesh extrapolated.
---
 include/fes/tidal_model/lgp.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index cd9b3c3..7fe04f4 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -377,6 +377,11 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
     return lgp_acc->values();
   }
 
+  // A position that no triangle contains is extrapolated with the nearest point
+  // of the mesh.
+  quality = selected_triangle.inside ? Quality::kInterpolated
+                                     : Quality::kExtrapolated1;
+
   // Get the LGP codes for the triangle
   const auto& codes = codes_.row(selected_triangle.index);
 
@@ -390,7 +395,6 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
       const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
-    quality = Quality::kExtrapolated1;
     return lgp_acc->values();
   }
 
@@ -412,7 +416,6 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
     }
     lgp_acc->emplace_back(item.first, dot);
   }
-  quality = Quality::kInterpolated;
   return lgp_acc->values();
 }
 
-- 
2.43.0


From f239f7553e06b9aaaa101ea925661ca654be3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 47/49] fix: flag the tide as undefined where a mesh model is
 undefined

An undefined value in the triangle gave a tide that is not a number, with the
quality of an interpolated one.
---
 include/fes/tidal_model/lgp.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 7fe04f4..311df34 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -7,6 +7,7 @@
 #pragma once
 #include <Eigen/Core>
 #include <algorithm>
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <map>
@@ -197,6 +198,17 @@ class LGP : public fes::AbstractTidalModel<T> {
   /// @brief Checks the consistency of the LGP codes with the index, and
   /// determines the expected size of the data to interpolate.
   auto initialize() -> void;
+
+  /// @brief Flags the point as undefined if one of the constituents
+  /// interpolated is undefined.
+  static auto set_undefined(const ConstituentValues& values, Quality& quality)
+      -> void {
+    for (const auto& item : values) {
+      if (std::isnan(item.second.real()) || std::isnan(item.second.imag())) {
+        quality = Quality::kUndefined;
+      }
+    }
+  }
 };
 
 /// @brief %LGP1 tidal model.
@@ -395,6 +407,7 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
       const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
+    set_undefined(lgp_acc->values(), quality);
     return lgp_acc->values();
   }
 
@@ -416,6 +429,7 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
     }
     lgp_acc->emplace_back(item.first, dot);
   }
+  set_undefined(lgp_acc->values(), quality);
   return lgp_acc->values();
 }
 
-- 
2.43.0


From 7695750c7d77b1b58d534bf0880af410e2b98a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 48/49] fix: refuse unknown names, and ignore the case, when a
 table is built from names

---
 src/library/wave/table.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 47aafb1..b3c5652 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -189,12 +189,17 @@ inline auto create_sparse_table(
     const std::vector<std::string>& known_constituents,
     const std::vector<std::string>& waves,
     std::vector<std::shared_ptr<Wave>>& table) -> void {
+  // The case of the names is ignored; unknown names are refused.
+  auto idents = std::vector<Constituent>{};
+  idents.reserve(waves.size());
+  for (const auto& wave : waves) {
+    idents.emplace_back(constituents::parse(wave));
+  }
   for (const auto& constituent : known_constituents) {
+    auto ident = constituents::parse(constituent);
     auto selected =
-        std::find(waves.begin(), waves.end(), constituent) != waves.end();
-    table.emplace_back(
-        selected ? Table::wave_factory(constituents::parse(constituent))
-                 : nullptr);
+        std::find(idents.begin(), idents.end(), ident) != idents.end();
+    table.emplace_back(selected ? Table::wave_factory(ident) : nullptr);
   }
 }
 
-- 
2.43.0


From 90184b6e674cfb73a71d7bca24227f0024d4ad2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:09 +0000
Subject: [PATCH 49/49] fix: several threads may update the leap seconds at the
 same time

---
 src/python/pyfes/leap_seconds.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 8bbd261..26355b4 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -18,6 +18,7 @@ import re
 from re import Match
 import ssl
 import sys
+import threading
 import urllib.request
 import warnings
 
@@ -80,8 +81,9 @@ def _download_leap_second_file() -> None:
     if not entries or entries[:len(known)] != known:
         raise RuntimeError('The leap second file downloaded is incomplete')
     LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
+    # Several processes, or threads, may download the file at the same time.
     temporary = LEAP_SECOND_FILE.with_name(
-        f'{LEAP_SECOND_FILE.name}.{os.getpid()}')
+        f'{LEAP_SECOND_FILE.name}.{os.getpid()}.{threading.get_ident()}')
     try:
         temporary.write_bytes(contents)
         temporary.replace(LEAP_SECOND_FILE)
-- 
2.43.0

