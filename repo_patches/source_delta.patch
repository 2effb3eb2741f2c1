From 8105e399f11197a962149fdb97910fd668cd61a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 01/28] fix: parallel_for shares no exception slot, survives
 empty batches, unknown CPU counts and failing thread launches

---
 include/fes/detail/thread.hpp | 46 +++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/include/fes/detail/thread.hpp b/include/fes/detail/thread.hpp
index e71add6..bf3d518 100644
--- a/include/fes/detail/thread.hpp
+++ b/include/fes/detail/thread.hpp
@@ -5,6 +5,9 @@
 /// @file include/fes/detail/thread.hpp
 /// @brief Parallelization
 #pragma once
+#include <algorithm>
+#include <cstddef>
+#include <exception>
 #include <thread>
 #include <utility>
 #include <vector>
@@ -28,18 +31,25 @@ void parallel_for(const Lambda& callable, const size_t size,
     num_threads = std::thread::hardware_concurrency();
   }
 
+  // The number of CPUs may be unknown (hardware_concurrency returns 0)
+  num_threads = std::max(num_threads, static_cast<size_t>(1));
+
   // Adjust num_threads to not exceed the size
   num_threads = std::min(num_threads, static_cast<size_t>(size));
 
-  // If num_threads is 1, no parallel computing code is used
-  if (num_threads == 1) {
+  // If num_threads is 1 (or if there is nothing to process), no parallel
+  // computing code is used
+  if (num_threads <= 1) {
     callable(0, size);
     return;
   }
 
   // List of threads responsible for parallelizing the calculation
   std::vector<std::thread> threads;
-  std::exception_ptr exception = nullptr;
+
+  // Exceptions raised: one slot per thread, so that no slot is shared between
+  // two threads.
+  std::vector<std::exception_ptr> exceptions(num_threads, nullptr);
 
   // Access index to the vectors required for calculation
   size_t start = 0;
@@ -50,13 +60,21 @@ void parallel_for(const Lambda& callable, const size_t size,
   // Launch threads
   for (size_t ix = 0; ix < num_threads; ++ix) {
     size_t end = (ix == num_threads - 1) ? size : start + shift;
-    threads.emplace_back([&callable, start, end, &exception]() {
-      try {
-        callable(start, end);
-      } catch (...) {
-        exception = std::current_exception();
-      }
-    });
+    auto& exception = exceptions[ix];
+    try {
+      threads.emplace_back([&callable, start, end, &exception]() {
+        try {
+          callable(start, end);
+        } catch (...) {
+          exception = std::current_exception();
+        }
+      });
+    } catch (...) {
+      // The thread could not be launched: wait for the ones already running
+      // before reporting the error.
+      exception = std::current_exception();
+      break;
+    }
     start += shift;
   }
 
@@ -67,9 +85,11 @@ void parallel_for(const Lambda& callable, const size_t size,
     }
   }
 
-  // Rethrow the last exception caught
-  if (exception) {
-    std::rethrow_exception(exception);
+  // Rethrow the first exception caught
+  for (const auto& exception : exceptions) {
+    if (exception) {
+      std::rethrow_exception(exception);
+    }
   }
 }
 
-- 
2.43.0


From 50239df894598cdbc3852e41d45ea292b202cfd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 02/28] fix: wave tables being evaluated no longer share their
 waves between threads and start from zeroed sums

---
 include/fes/wave/table.hpp |  4 ++++
 src/library/wave/table.cpp | 20 ++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/fes/wave/table.hpp b/include/fes/wave/table.hpp
index 31ca1a8..9d4e48a 100644
--- a/include/fes/wave/table.hpp
+++ b/include/fes/wave/table.hpp
@@ -334,6 +334,10 @@ class Table {
   /// is an identity mapping {0:0, 1:1, 2:2, ...}.
   std::vector<uint8_t> wave_index_{};
 
+  /// Returns a table handling the same waves, which shares none of them with
+  /// this instance.
+  auto detached_copy() const -> Table;
+
   /// Get a wave from the table
   ///
   /// @param[in] ident Wave identifier
diff --git a/src/library/wave/table.cpp b/src/library/wave/table.cpp
index 3c4536c..eb772a8 100644
--- a/src/library/wave/table.cpp
+++ b/src/library/wave/table.cpp
@@ -388,7 +388,7 @@ auto Table::tide_from_tide_series(
 
   // The wave properties of the object must be immutable for the provided
   // instance.
-  auto wt = Table(*this);
+  auto wt = detached_copy();
 
   for (auto ix = 0; ix < epoch.rows(); ++ix) {
     double tide = 0;
@@ -417,11 +417,11 @@ auto Table::tide_from_mapping(const double epoch, const uint16_t leap_seconds,
         "wave must contain as many elements as the number of waves in the "
         "table");
   }
-  auto result = Eigen::MatrixXd(wave.cols(), wave.rows());
+  Eigen::MatrixXd result = Eigen::MatrixXd::Zero(wave.cols(), wave.rows());
   auto worker = [&](const int64_t start, const int64_t end) {
     // The wave properties of the object must be immutable for the provided
     // instance.
-    auto wt = Table(*this);
+    auto wt = detached_copy();
     wt.compute_nodal_corrections(
         angle::Astronomic(formulae, epoch, leap_seconds));
 
@@ -454,7 +454,7 @@ auto Table::compute_nodal_modulations(
 
   // The wave properties of the object must be immutable for the provided
   // instance.
-  auto wt = Table(*this);
+  auto wt = detached_copy();
 
   for (auto ix = 0; ix < epoch.size(); ++ix) {
     angles.update(epoch(ix), leap_seconds(ix));
@@ -469,6 +469,18 @@ auto Table::compute_nodal_modulations(
   return std::make_tuple(f, vu);
 }
 
+auto Table::detached_copy() const -> Table {
+  // Copying the table copies the pointers to the waves: the properties of the
+  // waves would still be shared with this instance.
+  auto result = Table(*this);
+  for (auto& item : result.waves_) {
+    if (item) {
+      item = wave_factory(item->ident());
+    }
+  }
+  return result;
+}
+
 auto Table::select_waves_for_analysis(const double duration, const double f)
     -> std::vector<std::string> {
   auto result = std::vector<std::string>();
-- 
2.43.0


From 2cde047039aaa8435e9530ad1f4eb976c6a32e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 03/28] fix: LGP1 models read the LGP codes of their own
 vertices

---
 include/fes/tidal_model/lgp.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index f94361c..cc68dfa 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -369,13 +369,13 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
 
   // In the case of extrapolation, if the projected point is one of the vertices
   // of the triangle, then we return values associated with this vertex. The
-  // LGP code of vertex 0 is at index 0, the code of vertex 1 is at index 2 and
-  // the code of vertex 3 is at index 4.
+  // LGP code of vertex "ix" is at index "ix * N": 0, 1, 2 for the LGP1 model
+  // and 0, 2, 4 for the LGP2 model.
   auto vertex_id =
       selected_triangle.triangle.is_vertex(selected_triangle.point);
   if (vertex_id != -1) {
     for (const auto& item : this->data_) {
-      const auto value = item.second(codes(vertex_id << 1));
+      const auto value = item.second(codes(vertex_id * N));
       lgp_acc->emplace_back(item.first, static_cast<std::complex<T>>(value));
     }
     quality = Quality::kExtrapolated1;
-- 
2.43.0


From 357c59baf6a8a1a73f001317ff82fcf85d394613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 04/28] fix: an undefined date no longer keeps, or freezes, the
 angles of another date

---
 include/fes/abstract_tidal_model.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 6301d88..c42abf1 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -103,7 +103,8 @@ class Accelerator {
   /// @return The astronomic angle corresponding to the given UTC time.
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
-    if (std::abs(epoch - angle_.first) > time_tolerance_) {
+    // Written so that an undefined date (NaN) always updates the angles.
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_)) {
       angle_.first = epoch;
       angle_.second.update(epoch, leap_seconds);
     }
-- 
2.43.0


From 68f3f19404728a4ce42d73662486b5f166f6399d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 05/28] fix: Accelerator::emplace_back may allocate and is not
 noexcept

---
 include/fes/abstract_tidal_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index c42abf1..08543dc 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -90,7 +90,7 @@ class Accelerator {
   /// @brief Appends a tidal constituent value to the cached interpolated
   /// values.
   auto emplace_back(const Constituent& constituent,
-                    const std::complex<double>& value) noexcept -> void {
+                    const std::complex<double>& value) -> void {
     values_.emplace_back(constituent, value);
   }
 
-- 
2.43.0


From b9e5c00bb427eb8fd84589167401e7797b7c5844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 06/28] fix: bilinear interpolation without any weighted sample
 is undefined

---
 include/fes/detail/math.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/fes/detail/math.hpp b/include/fes/detail/math.hpp
index cadc215..90d922b 100644
--- a/include/fes/detail/math.hpp
+++ b/include/fes/detail/math.hpp
@@ -295,8 +295,13 @@ constexpr auto bilinear_interpolation(const T& wx1, const T& wx2, const T& wy1,
   add_sample(z12, wx1 * wy2);
   add_sample(z21, wx2 * wy1);
   add_sample(z22, wx2 * wy2);
-  return std::abs(sum_w) > 0 ? result / sum_w
-                             : std::numeric_limits<T>::quiet_NaN();
+  if (!(std::abs(sum_w) > 0)) {
+    // All the weights of the defined samples are null: the value is undefined.
+    // (std::numeric_limits<T>::quiet_NaN() is null for the complex numbers.)
+    n = 0;
+    return T(std::numeric_limits<double>::quiet_NaN());
+  }
+  return result / sum_w;
 }
 
 /// @brief Evaluates a polynomial using Horner's method.
-- 
2.43.0


From b41a0297422cf6be2d7c7c7a932d062dd1789ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:52 +0000
Subject: [PATCH 07/28] fix: interpolation beyond the seam of a descending
 circular longitude axis

---
 include/fes/tidal_model/cartesian.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index ae91dbe..e3e5bf4 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -131,6 +131,13 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   int64_t j2;
   std::tie(i1, i2) = *lon_index;
   std::tie(j1, j2) = *lat_index;
+  // The longitudes located beyond the seam of a descending axis are framed by
+  // the first element of the axis, then by the last one.
+  if (!lon_.is_ascending() && i1 == lon_.size() - 1 && i2 == 0 &&
+      detail::math::normalize_angle(point.lon(), lon_(i1)) >
+          detail::math::normalize_angle(lon_(i2), lon_(i1))) {
+    std::swap(i1, i2);
+  }
   const auto x1 = lon_(i1);
   const auto x2 = lon_(i2);
   const auto y1 = lat_(j1);
-- 
2.43.0


From d2b1c76b20130b930fffba9b48f5db1608d5ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 08/28] fix: known constituents are listed in the order of
 their identifiers

---
 src/library/constituent.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/library/constituent.cpp b/src/library/constituent.cpp
index ec5e528..2afb38a 100644
--- a/src/library/constituent.cpp
+++ b/src/library/constituent.cpp
@@ -14,6 +14,8 @@ namespace constituents {
 
 namespace wave = fes::detail::wave;
 
+// The wave tables are indexed by the identifiers: the names must be listed in
+// the order of the identifiers.
 auto known() -> std::vector<std::string> {
   return {wave::name::kMm,   wave::name::kMf,   wave::name::kMtm,
           wave::name::kMsqm, wave::name::k2Q1,  wave::name::kSigma1,
@@ -37,9 +39,9 @@ auto known() -> std::vector<std::string> {
           wave::name::kMSN6, wave::name::k2MS6, wave::name::k2MK6,
           wave::name::k2SM6, wave::name::kMSK6, wave::name::kS6,
           wave::name::kM8,   wave::name::kMSf,  wave::name::kSsa,
-          wave::name::kSa,   wave::name::kA5,   wave::name::kSa1,
-          wave::name::kSta,  wave::name::kMm2,  wave::name::kMm1,
-          wave::name::kMf1,  wave::name::kMf2,  wave::name::kM0};
+          wave::name::kSa,   wave::name::kSa1,  wave::name::kSta,
+          wave::name::kMm1,  wave::name::kMf1,  wave::name::kA5,
+          wave::name::kM0,   wave::name::kMm2,  wave::name::kMf2};
 }
 
 inline auto iequals(const std::string& a, const std::string& b) -> bool {
-- 
2.43.0


From b8cb4caa1e9759637a7351ef329d35c7f55a10ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 09/28] fix: a state that could not be written in full is
 reported

---
 include/fes/tidal_model/cartesian.hpp | 2 +-
 include/fes/tidal_model/lgp.hpp       | 2 +-
 src/library/axis.cpp                  | 2 +-
 src/library/mesh/index.cpp            | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index e3e5bf4..36dadda 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -170,7 +170,7 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
 template <typename T>
 auto Cartesian<T>::getstate() const -> std::string {
   auto ss = std::stringstream();
-  ss.exceptions(std::stringstream::failbit);
+  ss.exceptions(std::stringstream::failbit | std::stringstream::badbit);
   detail::serialize::write_data(ss, row_major_);
   detail::serialize::write_string(ss, lon_.getstate());
   detail::serialize::write_string(ss, lat_.getstate());
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index cc68dfa..a0bb0cd 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -407,7 +407,7 @@ auto LGP<T, N>::interpolate(const geometry::Point& point, Quality& quality,
 template <typename T, int N>
 auto LGP<T, N>::getstate() const -> std::string {
   auto ss = std::stringstream();
-  ss.exceptions(std::stringstream::failbit);
+  ss.exceptions(std::stringstream::failbit | std::stringstream::badbit);
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_string(ss, index_->getstate());
   detail::serialize::write_data(ss, max_distance_);
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index fffcd8f..bb90257 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -139,7 +139,7 @@ auto Axis::find_indices(double coordinate) const
 
 auto Axis::getstate() const -> std::string {
   auto ss = std::stringstream();
-  ss.exceptions(std::stringstream::failbit);
+  ss.exceptions(std::stringstream::failbit | std::stringstream::badbit);
   detail::serialize::write_data(ss, is_circular_);
   detail::serialize::write_data(ss, is_ascending_);
   detail::serialize::write_data(ss, start_);
diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index bfaf9e3..56c851d 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -138,7 +138,7 @@ auto Index::search(const geometry::Point& point,
 
 auto Index::getstate() const -> std::string {
   auto ss = std::stringstream();
-  ss.exceptions(std::stringstream::failbit);
+  ss.exceptions(std::stringstream::failbit | std::stringstream::badbit);
   detail::serialize::write_matrix(ss, lon_);
   detail::serialize::write_matrix(ss, lat_);
   detail::serialize::write_matrix(ss, triangles_);
-- 
2.43.0


From 006c2ba005fa5faf3801337a60633efd6cd32341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 10/28] fix: the dynamic constituents are part of the state of
 a tidal model

---
 include/fes/detail/serialize.hpp      | 27 +++++++++++++++++++++++++++
 include/fes/tidal_model/cartesian.hpp |  2 ++
 include/fes/tidal_model/lgp.hpp       |  2 ++
 3 files changed, 31 insertions(+)

diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index 9671f1d..a917c78 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -8,6 +8,7 @@
 #include <Eigen/Core>
 #include <map>
 #include <sstream>
+#include <vector>
 
 #include "fes/detail/isviewstream.hpp"
 
@@ -115,6 +116,32 @@ auto read_constituent_map(detail::isviewstream& ss)
   return data;
 }
 
+/// @brief Write a list of values to a stringstream
+/// @tparam T The type of the values
+/// @param[in] ss The stringstream to write to
+/// @param[in] data The list of values to write
+template <typename T>
+auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+  write_data(ss, data.size());
+  for (const auto& item : data) {
+    write_data(ss, item);
+  }
+}
+
+/// @brief Read a list of values from a stringstream
+/// @tparam T The type of the values
+/// @param[in] ss The stringstream to read from
+/// @return The list of values read
+template <typename T>
+auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+  auto size = read_data<size_t>(ss);
+  auto data = std::vector<T>{};
+  for (size_t ix = 0; ix < size; ++ix) {
+    data.emplace_back(read_data<T>(ss));
+  }
+  return data;
+}
+
 }  // namespace serialize
 }  // namespace detail
 }  // namespace fes
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 36dadda..a50d45e 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -176,6 +176,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -193,6 +194,7 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     model.data_ =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
+    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index a0bb0cd..4a0e88a 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -413,6 +413,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
+  detail::serialize::write_vector(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -427,6 +428,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
+  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
 }
 
 }  // namespace tidal_model
-- 
2.43.0


From 4bf58fdced4a485ae2cf3bf001678dccc7a5b29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:37 +0000
Subject: [PATCH 11/28] fix: a restored LGP model checks its codes and still
 accepts constituents

---
 include/fes/tidal_model/lgp.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index 4a0e88a..e3914ac 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -193,6 +193,10 @@ class LGP : public fes::AbstractTidalModel<T> {
 
   /// %LGP codes for each triangles in the index
   codes_t codes_{};
+
+  /// Check the %LGP codes of this instance and set the number of values expected
+  /// for each wave model.
+  auto check_codes() -> void;
 };
 
 /// @brief %LGP1 tidal model.
@@ -310,6 +314,12 @@ LGP<T, N>::LGP(std::shared_ptr<mesh::Index> index, LGP::codes_t codes,
       index_(std::move(index)),
       max_distance_(max_distance),
       codes_(std::move(codes)) {
+  check_codes();
+}
+
+// /////////////////////////////////////////////////////////////////////////////
+template <typename T, int N>
+auto LGP<T, N>::check_codes() -> void {
   // The number of triangles in the index must match the number of LGP codes
   // provided.
   if (index_->n_triangles() != static_cast<size_t>(codes_.rows())) {
@@ -426,6 +436,7 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
       mesh::Index::setstate(detail::serialize::read_string(ss)));
   this->max_distance_ = detail::serialize::read_data<double>(ss);
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
+  check_codes();
   this->data_ =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
   this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
-- 
2.43.0


From b04520f2feb88fa888def0f92fc243ea06121288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:55 +0000
Subject: [PATCH 12/28] fix: damaged states are rejected before they can be
 used

---
 include/fes/detail/isviewstream.hpp   | 12 +++++--
 include/fes/detail/serialize.hpp      | 45 +++++++++++++++++++++------
 include/fes/tidal_model/cartesian.hpp |  9 ++++--
 include/fes/tidal_model/lgp.hpp       |  9 ++++--
 src/library/axis.cpp                  | 11 +++++++
 5 files changed, 67 insertions(+), 19 deletions(-)

diff --git a/include/fes/detail/isviewstream.hpp b/include/fes/detail/isviewstream.hpp
index 6641b14..7f55220 100644
--- a/include/fes/detail/isviewstream.hpp
+++ b/include/fes/detail/isviewstream.hpp
@@ -80,15 +80,21 @@ class isviewstream : private virtual sviewbuf, public std::istream {
   explicit isviewstream(const string_view& str)
       : sviewbuf(str), std::istream(static_cast<std::streambuf*>(this)) {}
 
+  /// @brief Get the number of characters not yet extracted from the stream.
+  /// @return The number of characters left.
+  auto available() const -> std::streamsize {
+    return this->egptr() - this->gptr();
+  }
+
   /// @brief Extract a string_view from the stream.
   /// @param[in] count The number of characters to extract.
   /// @return The string_view.
   auto readview(const std::streamsize count) -> string_view {
-    auto avail = this->egptr() - this->gptr();
-    auto size = std::min(count, avail);
+    auto avail = this->available();
+    auto size = std::max(std::streamsize{0}, std::min(count, avail));
     auto result = string_view(gptr(), size);
     seekoff(size, std::ios_base::cur, std::ios_base::in);
-    if (avail < count) {
+    if (count < 0 || avail < count) {
       setstate(std::ios_base::badbit | std::ios_base::failbit);
     }
     return result;
diff --git a/include/fes/detail/serialize.hpp b/include/fes/detail/serialize.hpp
index a917c78..39346e6 100644
--- a/include/fes/detail/serialize.hpp
+++ b/include/fes/detail/serialize.hpp
@@ -6,10 +6,13 @@
 /// @brief Serialization utilities.
 #pragma once
 #include <Eigen/Core>
+#include <cstdint>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <vector>
 
+#include "fes/constituent.hpp"
 #include "fes/detail/isviewstream.hpp"
 
 namespace fes {
@@ -77,11 +80,32 @@ template <typename T, int ROWS, int COLS>
 auto read_matrix(detail::isviewstream& ss) -> Eigen::Matrix<T, ROWS, COLS> {
   auto rows = read_data<Eigen::Index>(ss);
   auto cols = read_data<Eigen::Index>(ss);
+  // Check the shape read before allocating the matrix: it must match the type
+  // of the matrix and the stream must hold all its values.
+  auto max_size =
+      static_cast<Eigen::Index>(ss.available() / static_cast<int>(sizeof(T)));
+  if (rows < 0 || cols < 0 || (ROWS != Eigen::Dynamic && rows != ROWS) ||
+      (COLS != Eigen::Dynamic && cols != COLS) ||
+      (cols != 0 && rows > max_size / cols)) {
+    throw std::invalid_argument("invalid matrix shape");
+  }
   auto data = Eigen::Matrix<T, ROWS, COLS>(rows, cols);
   ss.read(reinterpret_cast<char*>(data.data()), data.size() * sizeof(T));
   return data;
 }
 
+/// @brief Read the identifier of a constituent from a stringstream
+/// @tparam T The type of the constituent
+/// @param[in] ss The stringstream to read from
+/// @return The identifier read
+/// @throw std::invalid_argument if the constituent is unknown
+template <typename T>
+auto read_constituent(detail::isviewstream& ss) -> T {
+  auto constituent = read_data<T>(ss);
+  constituents::name(constituent);
+  return constituent;
+}
+
 /// @brief Write the map of constituents to a stringstream
 /// @tparam T The type of the constituents
 /// @tparam U The type of the data
@@ -109,35 +133,36 @@ auto read_constituent_map(detail::isviewstream& ss)
   auto size = read_data<Eigen::Index>(ss);
   auto data = std::map<T, Eigen::Matrix<U, Eigen::Dynamic, 1>>{};
   for (auto ix = 0; ix < size; ++ix) {
-    auto constituent = read_data<T>(ss);
+    auto constituent = read_constituent<T>(ss);
     auto map = read_matrix<U, Eigen::Dynamic, 1>(ss);
     data.emplace(constituent, map);
   }
   return data;
 }
 
-/// @brief Write a list of values to a stringstream
-/// @tparam T The type of the values
+/// @brief Write a list of constituents to a stringstream
+/// @tparam T The type of the constituents
 /// @param[in] ss The stringstream to write to
-/// @param[in] data The list of values to write
+/// @param[in] data The list of constituents to write
 template <typename T>
-auto write_vector(std::stringstream& ss, const std::vector<T>& data) -> void {
+auto write_constituents(std::stringstream& ss, const std::vector<T>& data)
+    -> void {
   write_data(ss, data.size());
   for (const auto& item : data) {
     write_data(ss, item);
   }
 }
 
-/// @brief Read a list of values from a stringstream
-/// @tparam T The type of the values
+/// @brief Read a list of constituents from a stringstream
+/// @tparam T The type of the constituents
 /// @param[in] ss The stringstream to read from
-/// @return The list of values read
+/// @return The list of constituents read
 template <typename T>
-auto read_vector(detail::isviewstream& ss) -> std::vector<T> {
+auto read_constituents(detail::isviewstream& ss) -> std::vector<T> {
   auto size = read_data<size_t>(ss);
   auto data = std::vector<T>{};
   for (size_t ix = 0; ix < size; ++ix) {
-    data.emplace_back(read_data<T>(ss));
+    data.emplace_back(read_constituent<T>(ss));
   }
   return data;
 }
diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index a50d45e..07dee27 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -176,7 +176,7 @@ auto Cartesian<T>::getstate() const -> std::string {
   detail::serialize::write_string(ss, lat_.getstate());
   detail::serialize::write_data(ss, this->tide_type_);
   detail::serialize::write_constituent_map(ss, this->data_);
-  detail::serialize::write_vector(ss, this->dynamic_);
+  detail::serialize::write_constituents(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -191,10 +191,13 @@ auto Cartesian<T>::setstate(const string_view& data) -> Cartesian<T> {
     auto tide_type = detail::serialize::read_data<TideType>(ss);
     auto model =
         Cartesian<T>(std::move(lon), std::move(lat), tide_type, row_major);
-    model.data_ =
+    auto waves =
         detail::serialize::read_constituent_map<Constituent, std::complex<T>>(
             ss);
-    model.dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+    for (auto& item : waves) {
+      model.add_constituent(item.first, std::move(item.second));
+    }
+    model.dynamic_ = detail::serialize::read_constituents<Constituent>(ss);
     return model;
   } catch (const std::exception&) {
     throw std::invalid_argument("invalid tidal model state");
diff --git a/include/fes/tidal_model/lgp.hpp b/include/fes/tidal_model/lgp.hpp
index e3914ac..2a1bad4 100644
--- a/include/fes/tidal_model/lgp.hpp
+++ b/include/fes/tidal_model/lgp.hpp
@@ -423,7 +423,7 @@ auto LGP<T, N>::getstate() const -> std::string {
   detail::serialize::write_data(ss, max_distance_);
   detail::serialize::write_matrix<int, Eigen::Dynamic, N * 3>(ss, codes_);
   detail::serialize::write_constituent_map(ss, this->data_);
-  detail::serialize::write_vector(ss, this->dynamic_);
+  detail::serialize::write_constituents(ss, this->dynamic_);
   return ss.str();
 }
 
@@ -437,9 +437,12 @@ auto LGP<T, N>::setstate_instance(const string_view& data) {
   this->max_distance_ = detail::serialize::read_data<double>(ss);
   this->codes_ = detail::serialize::read_matrix<int, Eigen::Dynamic, N * 3>(ss);
   check_codes();
-  this->data_ =
+  auto waves =
       detail::serialize::read_constituent_map<Constituent, std::complex<T>>(ss);
-  this->dynamic_ = detail::serialize::read_vector<Constituent>(ss);
+  for (auto& item : waves) {
+    add_constituent(item.first, std::move(item.second));
+  }
+  this->dynamic_ = detail::serialize::read_constituents<Constituent>(ss);
 }
 
 }  // namespace tidal_model
diff --git a/src/library/axis.cpp b/src/library/axis.cpp
index bb90257..21d3ba7 100644
--- a/src/library/axis.cpp
+++ b/src/library/axis.cpp
@@ -4,6 +4,11 @@
 // BSD-style license that can be found in the LICENSE file.
 #include "fes/axis.hpp"
 
+#include <cmath>
+#include <cstdint>
+#include <limits>
+#include <stdexcept>
+
 #include "fes/detail/isviewstream.hpp"
 #include "fes/detail/math.hpp"
 #include "fes/detail/serialize.hpp"
@@ -157,6 +162,12 @@ auto Axis::setstate(const string_view& data) -> Axis {
     auto start = detail::serialize::read_data<double>(ss);
     auto size = detail::serialize::read_data<int64_t>(ss);
     auto step = detail::serialize::read_data<double>(ss);
+    // An axis has at least two values, evenly spaced from each other.
+    if (!std::isfinite(start) || !std::isfinite(step) || step == 0 ||
+        is_ascending != (step > 0) || size < 2 ||
+        size > std::numeric_limits<int32_t>::max()) {
+      throw std::invalid_argument("invalid axis state");
+    }
     return Axis(is_circular, is_ascending, start, size, step);
   } catch (const std::ios_base::failure&) {
     throw std::invalid_argument("invalid axis state");
-- 
2.43.0


From 88caba834cfeca3c7a270cca7fb539619a660054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:20 +0000
Subject: [PATCH 13/28] fix: astronomic angles depend on the leap seconds as
 well as on the date

---
 include/fes/abstract_tidal_model.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 08543dc..3b98c78 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -104,8 +104,10 @@ class Accelerator {
   auto calculate_angle(const double epoch, const uint16_t leap_seconds) noexcept
       -> const angle::Astronomic& {
     // Written so that an undefined date (NaN) always updates the angles.
-    if (!(std::abs(epoch - angle_.first) <= time_tolerance_)) {
+    if (!(std::abs(epoch - angle_.first) <= time_tolerance_) ||
+        leap_seconds != leap_seconds_) {
       angle_.first = epoch;
+      leap_seconds_ = leap_seconds;
       angle_.second.update(epoch, leap_seconds);
     }
     return angle_.second;
@@ -119,6 +121,9 @@ class Accelerator {
   /// @brief The last angle used to evaluate the tidal constituents.
   std::pair<double, angle::Astronomic> angle_;
 
+  /// @brief The number of leap seconds used to evaluate the last angle.
+  uint16_t leap_seconds_{0};
+
   /// @brief The tidal constituent values interpolated at the last point.
   ConstituentValues values_;
 };
-- 
2.43.0


From c7e931ddafb027cec191a6be92295ca7682c5ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 14/28] fix: interpolation at the rounding errors of a node of
 a circular axis

---
 include/fes/tidal_model/cartesian.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/fes/tidal_model/cartesian.hpp b/include/fes/tidal_model/cartesian.hpp
index 07dee27..f0278b3 100644
--- a/include/fes/tidal_model/cartesian.hpp
+++ b/include/fes/tidal_model/cartesian.hpp
@@ -144,9 +144,15 @@ auto Cartesian<T>::interpolate(const geometry::Point& point, Quality& quality,
   const auto y2 = lat_(j2);
   auto n = int64_t{0};
 
-  auto wxy = detail::math::bilinear_weights(
-      detail::math::normalize_angle(point.lon(), x1), point.lat(), x1, y1,
-      detail::math::normalize_angle(x2, x1), y2);
+  auto x = detail::math::normalize_angle(point.lon(), x1);
+  const auto x2_norm = detail::math::normalize_angle(x2, x1);
+  // The normalization may send to the other end of the circle a point which is
+  // on the first element, but for the rounding errors.
+  if (x - x2_norm > x1 + 360.0 - x) {
+    x -= 360.0;
+  }
+
+  auto wxy = detail::math::bilinear_weights(x, point.lat(), x1, y1, x2_norm, y2);
 
   auto grid = detail::Grid<std::complex<T>>(
       nullptr, static_cast<size_t>(lon_.size()),
-- 
2.43.0


From a140fa1fff1814271e10fefe3ffa0d89e4c56c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 15/28] fix: no triangle covers an undefined position

---
 include/fes/geometry/triangle.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fes/geometry/triangle.hpp b/include/fes/geometry/triangle.hpp
index a4dc4ea..ba2c4ca 100644
--- a/include/fes/geometry/triangle.hpp
+++ b/include/fes/geometry/triangle.hpp
@@ -6,6 +6,7 @@
 /// @brief Triangle in Geographic Coordinate System
 #pragma once
 #include <boost/geometry.hpp>
+#include <cmath>
 #include <ostream>
 #include <sstream>
 #include <string>
@@ -84,7 +85,9 @@ class Triangle : public triangle_t {
   /// out in this space. The search carried out in geodesic space can cause
   /// inconsistencies between these two spaces and generate erroneous values.
   inline auto covered_by(const geometry::Point &point) const -> bool {
-    return boost::geometry::covered_by(point, *this);
+    // A triangle never covers an undefined position.
+    return std::isfinite(point.lon()) && std::isfinite(point.lat()) &&
+           boost::geometry::covered_by(point, *this);
   }
 
   /// Check if the triangle is valid (in the OGC sense)
-- 
2.43.0


From 164cb8411660b29287c0d3669e8c53ec6ea935ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 16/28] fix: mesh with undefined vertices cannot be indexed

---
 src/library/mesh/index.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/library/mesh/index.cpp b/src/library/mesh/index.cpp
index 56c851d..7f5063c 100644
--- a/src/library/mesh/index.cpp
+++ b/src/library/mesh/index.cpp
@@ -5,6 +5,7 @@
 #include "fes/mesh/index.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <exception>
 #include <limits>
 #include <set>
@@ -47,6 +48,15 @@ static auto sanity_check(
     throw std::invalid_argument("triangle indices must be in range [0, " +
                                 std::to_string(lon.size()) + ")");
   }
+
+  // The positions that are not finite cannot be indexed.
+  std::for_each(triangles.data(), triangles.data() + triangles.size(),
+                [&lon, &lat](int32_t id) {
+                  if (!std::isfinite(lon(id)) || !std::isfinite(lat(id))) {
+                    throw std::invalid_argument(
+                        "the vertices of the triangles must be finite");
+                  }
+                });
 }
 
 Index::Index(Eigen::VectorXd lon, Eigen::VectorXd lat,
-- 
2.43.0


From 2b3dc371e9151a9d1e831dc0796a737628e10ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 17/28] fix: a failed refresh of the leap seconds keeps the
 last good table

The current table was truncated before the download was read, replaced by
whatever had been received, and only RuntimeError was handled: a refused or
broken transfer, a full or read-only disk or the end of the process lost it.
---
 src/python/pyfes/leap_seconds.py | 106 +++++++++++++++++++++----------
 1 file changed, 72 insertions(+), 34 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 732b86a..520a495 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -11,12 +11,14 @@ from __future__ import annotations
 from collections.abc import Callable
 import datetime
 import functools
+import io
 import pathlib
 import re
 from re import Match
 import ssl
 import sys
 import urllib.request
+import uuid
 import warnings
 
 import numpy
@@ -37,6 +39,9 @@ LEAP_SECOND_FILE = pathlib.Path(__file__).parent / 'data' / 'leap-seconds.txt'
 #: User agent used for downloading files.
 USER_AGENT = f'Python/{sys.version_info.major}.{sys.version_info.minor}'
 
+#: Time, in seconds, after which a download that makes no progress is abandoned.
+DOWNLOAD_TIMEOUT = 60
+
 #: Month abbreviations.
 MONTH_ABBREVIATIONS = [
     'Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct',
@@ -54,7 +59,7 @@ def _build_urlopener() -> urllib.request.OpenerDirector:
     return urllib.request.build_opener(https_handler)
 
 
-def _download_leap_second_file() -> None:
+def _download_leap_second_file() -> bytes:
     """Download the IERS leap second file."""
     urlopener = _build_urlopener()
     req = urllib.request.Request(LEAP_SECOND_URL,
@@ -63,14 +68,65 @@ def _download_leap_second_file() -> None:
                                      'Accept': '*/*'
                                  })
 
-    response = urlopener.open(req, timeout=None)
+    response = urlopener.open(req, timeout=DOWNLOAD_TIMEOUT)
     if response.status != 200:
         raise RuntimeError(
             f'Failed to download leap second file: {response.status} '
             f'{response.reason}')
+    return response.read()
+
+
+def _install_leap_second_file(contents: bytes, lines: list[str]) -> None:
+    """Replace the IERS leap second file by the downloaded one."""
+    entries = _parse_entries(lines)
+    if not entries:
+        raise RuntimeError('The downloaded leap second file is empty')
+    # Leap seconds are never removed from the list: if one is missing, the
+    # transfer has been interrupted.
+    if LEAP_SECOND_FILE.exists():
+        with LEAP_SECOND_FILE.open('r') as stream:
+            if set(_parse_entries(stream.readlines())).difference(entries):
+                raise RuntimeError(
+                    'The downloaded leap second file is incomplete')
+
+    # The file is replaced at once: whatever happens meanwhile, the other
+    # processes read either the previous table or the new one.
     LEAP_SECOND_FILE.parent.mkdir(parents=True, exist_ok=True)
-    with LEAP_SECOND_FILE.open('wb') as stream:
-        stream.write(response.read())
+    path = LEAP_SECOND_FILE.with_name(
+        f'.{LEAP_SECOND_FILE.name}.{uuid.uuid4().hex}')
+    try:
+        with path.open('xb') as stream:
+            stream.write(contents)
+        path.replace(LEAP_SECOND_FILE)
+    finally:
+        path.unlink(missing_ok=True)
+
+
+def _parse_entries(lines: list[str]) -> list[tuple[numpy.datetime64, int]]:
+    """Parse the entries of the IERS leap second file."""
+    # Regex for matching leap second entries.
+    re_entry: Callable[[str], Match[str] | None] = re.compile(
+        r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$').match
+
+    # Number of seconds elapsed between 1900-01-01T00:00:00:00+0000 and
+    # 1970-01-01T00:00:00:00+0000
+    duration = 25_567 * 86_400
+
+    # List of leap second entries.
+    entries: list[tuple[numpy.datetime64, int]] = []
+
+    for line in lines:
+        match = re_entry(line)
+        if match:
+            # Convert the epoch to a numpy.datetime64 object.
+            epoch, leap_seconds = map(int, match.groups())
+            epoch -= duration
+            entries.append((
+                numpy.datetime64(epoch, 's'),
+                leap_seconds,
+            ))
+
+    return entries
 
 
 def _read_leap_second_file(
@@ -79,11 +135,13 @@ def _read_leap_second_file(
     re_expires: Callable[[str], Match[str] | None] = re.compile(
         r'^#.*File expires on[:\s]+(\d+\s\w+\s\d+)\s*$').match
 
+    contents: bytes | None = None
     if not LEAP_SECOND_FILE.exists() or download:
-        _download_leap_second_file()
-
-    with LEAP_SECOND_FILE.open('r') as stream:
-        lines = stream.readlines()
+        contents = _download_leap_second_file()
+        lines = io.StringIO(contents.decode('utf-8'), newline=None).readlines()
+    else:
+        with LEAP_SECOND_FILE.open('r') as stream:
+            lines = stream.readlines()
 
     expires: numpy.datetime64 | None = None
     for line in lines:
@@ -98,17 +156,15 @@ def _read_leap_second_file(
         raise RuntimeError(
             f'Did not find expiration date in {LEAP_SECOND_FILE.name}')
 
+    if contents is not None:
+        _install_leap_second_file(contents, lines)
+
     return expires, lines
 
 
 @functools.lru_cache(maxsize=1)
 def _load_leap_second_file() -> NDArrayStructured:
     """Load the IERS leap second file."""
-
-    # Regex for matching leap second entries.
-    re_entry: Callable[[str], Match[str] | None] = re.compile(
-        r'^(\d+)\s+(\d+)\s+#\s1\s\w{3}\s\d{4}$').match
-
     expires: numpy.datetime64
     lines: list[str]
 
@@ -121,30 +177,12 @@ def _load_leap_second_file() -> NDArrayStructured:
             'Downloading a new version.', UserWarning)
         try:
             expires, lines = _read_leap_second_file(download=True)
-        except RuntimeError:
+        except Exception as err:
             warnings.warn(
-                'Failed to download new leap second file. '
+                f'Failed to download new leap second file: {err}. '
                 'Using expired file.', UserWarning)
 
-    # Number of seconds elapsed between 1900-01-01T00:00:00:00+0000 and
-    # 1970-01-01T00:00:00:00+0000
-    duration = 25_567 * 86_400
-
-    # List of leap second entries.
-    entries: list[tuple[numpy.datetime64, int]] = []
-
-    for line in lines:
-        match = re_entry(line)
-        if match:
-            # Convert the epoch to a numpy.datetime64 object.
-            epoch, leap_seconds = map(int, match.groups())
-            epoch -= duration
-            entries.append((
-                numpy.datetime64(epoch, 's'),
-                leap_seconds,
-            ))
-
-    return numpy.array(entries,
+    return numpy.array(_parse_entries(lines),
                        dtype=[
                            ('utc', 'datetime64[s]'),
                            ('seconds', 'uint16'),
-- 
2.43.0


From fc9d174c33fdf93c874d64bff681724f1feb7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:47 +0000
Subject: [PATCH 18/28] fix: leap seconds of sorted and of far dates

The indices sorting the dates were applied to the table, and a single date
after 2262 overflowed the nanoseconds it was converted to.
---
 src/python/pyfes/leap_seconds.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/python/pyfes/leap_seconds.py b/src/python/pyfes/leap_seconds.py
index 520a495..abb7382 100644
--- a/src/python/pyfes/leap_seconds.py
+++ b/src/python/pyfes/leap_seconds.py
@@ -206,13 +206,17 @@ def get_leap_seconds(
     if isinstance(utc, datetime.datetime):
         utc = numpy.datetime64(utc)
     if isinstance(utc, numpy.datetime64):
-        utc = numpy.array([utc], dtype='datetime64[ns]')
+        utc = numpy.array([utc])
     if numpy.any(utc < numpy.datetime64('1972-01-01')):
         raise ValueError('Cannot compute leap seconds before 1972.')
 
     table = _load_leap_second_file()
-    index: numpy.ndarray = numpy.searchsorted(table['utc'],
-                                              utc,
-                                              side='right',
-                                              sorter=sorter)
+    index: numpy.ndarray
+    if sorter is None:
+        index = numpy.searchsorted(table['utc'], utc, side='right')
+    else:
+        index = numpy.empty(len(utc), dtype='int64')
+        index[sorter] = numpy.searchsorted(table['utc'],
+                                           utc[sorter],
+                                           side='right')
     return table['seconds'][index - 1]
-- 
2.43.0


From 7154184422c5b0e18ba36ec61707448b6f7f4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 19/28] fix: files whose grids do not agree are refused

They were only refused when their types, shapes, longitudes and latitudes were
all different, and the shape of a wave was not compared to its own axes.
---
 src/python/pyfes/config.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 7c2c843..c06ff32 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -256,9 +256,11 @@ class Cartesian(Common):
             def __ne__(self, other: Any) -> bool:
                 if not isinstance(other, GridProperties):
                     return NotImplemented
-                return (self.dtype != other.dtype and self.shape != other.shape
-                        and not numpy.allclose(self.lon, other.lon)
-                        and not numpy.allclose(self.lat, other.lat))
+                return (self.dtype != other.dtype or self.shape != other.shape
+                        or self.lon.shape != other.lon.shape
+                        or self.lat.shape != other.lat.shape
+                        or not numpy.allclose(self.lon, other.lon)
+                        or not numpy.allclose(self.lat, other.lat))
 
         # The tidal model instance consists of the tidal model and the grid
         # properties.
@@ -287,7 +289,7 @@ class Cartesian(Common):
                 self.phase,
             )
 
-            if len(wave.shape) != 2:
+            if wave.shape not in [(lon.size, lat.size), (lat.size, lon.size)]:
                 raise ValueError(f'defined constituent {constituent!r} has '
                                  f'invalid shape: {wave.shape!r}.')
 
-- 
2.43.0


From 9a29ac0f0602f98d48c14ef4c9192b1ca3707b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 20/28] fix: a configuration of type lgp1 loads an LGP1 model

The type was compared to the name of the enumeration (LGP1), so that every
configuration was loaded as LGP2.
---
 src/python/pyfes/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index c06ff32..1182438 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -380,7 +380,7 @@ class LGP(Common):
             raise ValueError('amplitude cannot be empty.')
         if not self.phase:
             raise ValueError('phase cannot be empty.')
-        if self.type not in tuple(item.name.lower() for item in LGPType):
+        if self.type not in tuple(item.value for item in LGPType):
             raise ValueError(f'Unknown LGP type: {self.type!r}.')
         try:
             self.amplitude.format(constituent='M2')
@@ -395,7 +395,7 @@ class LGP(Common):
 
     def _lgp_class(self, dtype: numpy.dtype) -> LGPModel:
         """Return the class of the LGP tidal model."""
-        if self.type == LGPType.LGP1.name:
+        if self.type == LGPType.LGP1.value:
             if dtype == numpy.complex64:
                 return core.tidal_model.LGP1Complex64
             if dtype == numpy.complex128:
-- 
2.43.0


From 9a1eda9ebd4994c7d0bd60d961179e82ed2a541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:48 +0000
Subject: [PATCH 21/28] fix: phases of LGP models in degrees, as for Cartesian
 models

'deg' and 'Degrees' were taken for radians.
---
 src/python/pyfes/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 1182438..54091b8 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -429,7 +429,9 @@ class LGP(Common):
                 pha: Vector = numpy.ma.filled(ds.variables[pha_name][:],
                                               numpy.nan)
 
-                if ds.variables[pha_name].units in ['degree', 'degrees']:
+                if ds.variables[pha_name].units.lower() in [
+                        'degree', 'degrees', 'deg'
+                ]:
                     pha = numpy.radians(pha)
 
                 wave: Vector = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
-- 
2.43.0


From 40a5ef8c1212402a17f8ba43108d273cf7ae1aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 22/28] fix: square grids stored by latitude are not transposed

The major axis was deduced from the shape alone, which is ambiguous when there
are as many longitudes as latitudes.
---
 src/python/pyfes/config.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 54091b8..5eaf9f9 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -159,10 +159,17 @@ def load_cartesian_model(
                 'degree', 'degrees', 'deg'
         ]:
             pha = numpy.radians(pha)
+        # The shape of a square grid does not tell its major axis.
+        transpose = lon.size == lat.size and (
+            ds.variables[lat_name].dimensions !=
+            ds.variables[lon_name].dimensions) and (
+                ds.variables[amp_name].dimensions ==
+                ds.variables[lat_name].dimensions +
+                ds.variables[lon_name].dimensions)
 
     wave: Matrix = amp * numpy.cos(pha) + 1j * amp * numpy.sin(pha)
 
-    return lon, lat, wave
+    return lon, lat, wave.T if transpose else wave
 
 
 class TideType(enum.Enum):
-- 
2.43.0


From e77afe67503f9cf964d7e160ff44722a87b47aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:40 +0000
Subject: [PATCH 23/28] fix: unknown keys next to the model of a section are
 refused

They were ignored, and so was the second model when both a Cartesian and an LGP
model were given.
---
 src/python/pyfes/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/python/pyfes/config.py b/src/python/pyfes/config.py
index 5eaf9f9..3f421c1 100644
--- a/src/python/pyfes/config.py
+++ b/src/python/pyfes/config.py
@@ -493,6 +493,9 @@ def _load_model(settings: dict[str, Any], tidal_type: str) -> TidalModel:
             raise TypeError(f'{section}.__init__() got an '
                             "unexpected keyword argument 'tidal_type'")
 
+    if len(settings) > 1:
+        raise ValueError('Expected a single key in a section, either '
+                         f'"cartesian" or "lgp", got {list(settings)!r}.')
     if 'cartesian' in settings:
         tidal_type_exists(settings, 'cartesian')
         settings['cartesian'].update(tidal_type=tidal_type)
-- 
2.43.0


From 72016882956c805b4df624a915c52c4c8d08211f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 24/28] fix: synthesise a series from a dictionary of waves

WaveDict.tide_from_tide_series looked the coefficients up by wave objects
instead of names, and always raised KeyError.
---
 src/python/pyfes/wave_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index e1fe2fc..40e6f5c 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -180,6 +180,6 @@ class WaveDict(WaveTable):
             raise ValueError('wave must contain as many items as tidal '
                              'constituents loaded')
         wave_properties: VectorComplex128 = numpy.array(
-            [wave[item] for item in self])
+            [wave[item] for item in self.keys()])
         return super().tide_from_tide_series(dates, leap_seconds,
                                              wave_properties, formulae)
-- 
2.43.0


From 0cbd6d1a8f08030efaa121406b552ba41b48153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:20 +0000
Subject: [PATCH 25/28] fix: use the requested formulae with a list of dates

WaveTable.compute_nodal_modulations ignored its formulae when the dates were
a list of datetime objects.
---
 src/python/pyfes/wave_table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/wave_table.py b/src/python/pyfes/wave_table.py
index 40e6f5c..36347bf 100644
--- a/src/python/pyfes/wave_table.py
+++ b/src/python/pyfes/wave_table.py
@@ -54,7 +54,8 @@ class WaveTable(core.WaveTable):
             datetime64: VectorDateTime64 = numpy.array(
                 [core.datemanip.as_int64(item) for item in dates],
                 dtype='datetime64[us]')
-            return super().compute_nodal_modulations(datetime64, leap_seconds)
+            return super().compute_nodal_modulations(datetime64, leap_seconds,
+                                                     formulae)
         # The method throws an error if the dates are not datetime64
         return super().compute_nodal_modulations(
             dates,  # type: ignore
-- 
2.43.0


From d5c8eea7c185660f43cb44acaf2b8daa7369d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 26/28] fix: convert meshes that do not hold the O1 constituent

---
 src/python/pyfes/console_script/fes_convert_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/pyfes/console_script/fes_convert_mesh.py b/src/python/pyfes/console_script/fes_convert_mesh.py
index 4c21fdc..dae6dfa 100644
--- a/src/python/pyfes/console_script/fes_convert_mesh.py
+++ b/src/python/pyfes/console_script/fes_convert_mesh.py
@@ -110,7 +110,7 @@ def main():
         ds.createDimension('triangles', triangles.shape[0])
         ds.createDimension('three', 3)
         ds.createDimension('six', 6)
-        ds.createDimension('lgp2_nodes', len(waves['O1'][0]))
+        ds.createDimension('lgp2_nodes', len(next(iter(waves.values()))[0]))
 
         x_var = ds.createVariable('lon', 'f8', ('coordinates', ), zlib=True)
         x_var.units = 'degrees_east'
-- 
2.43.0


From e75666f429f4986b0b2b79ea079e38b2ec1bbd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 27/28] fix: replace the converted mesh only once it is
 complete

---
 .../pyfes/console_script/fes_convert_mesh.py   | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/python/pyfes/console_script/fes_convert_mesh.py b/src/python/pyfes/console_script/fes_convert_mesh.py
index dae6dfa..069e66b 100644
--- a/src/python/pyfes/console_script/fes_convert_mesh.py
+++ b/src/python/pyfes/console_script/fes_convert_mesh.py
@@ -3,6 +3,7 @@
 # All rights reserved. Use of this source code is governed by a
 # BSD-style license that can be found in the LICENSE file.
 import argparse
+import contextlib
 import os
 
 import netCDF4
@@ -70,6 +71,21 @@ def load_data(filename: str) -> tuple[numpy.ndarray, numpy.ndarray]:
     return amp, phase
 
 
+@contextlib.contextmanager
+def create_dataset(filename: str):
+    """Create a netCDF file that replaces an existing file only once it has been
+    completely written."""
+    temporary = f'{filename}.{os.getpid()}.tmp'
+    try:
+        with netCDF4.Dataset(temporary, 'w') as ds:
+            yield ds
+        os.replace(temporary, filename)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.remove(temporary)
+        raise
+
+
 def parse_args():
     """Parse the command line arguments."""
     parser = argparse.ArgumentParser()
@@ -103,7 +119,7 @@ def main():
 
     assert properties is not None
 
-    with netCDF4.Dataset(args.output, 'w') as ds:
+    with create_dataset(args.output) as ds:
         x, y, triangles, lgp2 = properties
         assert len(x) == len(y)
         ds.createDimension('coordinates', len(x))
-- 
2.43.0


From 547bc1adc5aa82093ee8dcc822b9949e02e1557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 28/28] fix: compute the first angles whatever the time
 tolerance

---
 include/fes/abstract_tidal_model.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fes/abstract_tidal_model.hpp b/include/fes/abstract_tidal_model.hpp
index 3b98c78..73a994c 100644
--- a/include/fes/abstract_tidal_model.hpp
+++ b/include/fes/abstract_tidal_model.hpp
@@ -55,7 +55,7 @@ class Accelerator {
   Accelerator(const angle::Formulae& formulae, const double time_tolerance,
               const size_t n_constituents)
       : time_tolerance_(time_tolerance),
-        angle_{std::numeric_limits<double>::max(),
+        angle_{std::numeric_limits<double>::quiet_NaN(),
                angle::Astronomic(formulae)} {
     values_.reserve(n_constituents);
   }
-- 
2.43.0

